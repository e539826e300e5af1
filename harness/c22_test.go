package harness

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"testing"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
)

// Application-defined message types of several shapes.

type appEntity interface {
	protocol.Entity
	content() []byte
}

// a pointer to a struct
type ptrType struct {
	id uint16
	b  []byte
}

func (e *ptrType) MsgID() protocol.MsgID        { return protocol.MsgID(e.id) }
func (e *ptrType) Encode() ([]byte, error)      { return e.b, nil }
func (e *ptrType) Decode(d []byte) (int, error) { e.b = append([]byte{}, d...); return len(d), nil }
func (e *ptrType) content() []byte              { return e.b }

// a map
type mapType map[string][]byte

func (e mapType) MsgID() protocol.MsgID   { return idCustomB }
func (e mapType) Encode() ([]byte, error) { return e["b"], nil }
func (e mapType) Decode(d []byte) (int, error) {
	e["b"] = append([]byte{}, d...)
	return len(d), nil
}
func (e mapType) content() []byte { return e["b"] }

// a struct value that refers to its content
type valType struct {
	id uint16
	b  *[]byte
}

func (e valType) MsgID() protocol.MsgID   { return protocol.MsgID(e.id) }
func (e valType) Encode() ([]byte, error) { return *e.b, nil }
func (e valType) Decode(d []byte) (int, error) {
	*e.b = append([]byte{}, d...)
	return len(d), nil
}
func (e valType) content() []byte { return *e.b }

// a message without content: an empty struct, an integer
type markType struct{}

func (markType) MsgID() protocol.MsgID { return idNoHandle }
func (markType) Encode() ([]byte, error) {
	return nil, nil
}
func (markType) Decode(d []byte) (int, error) {
	if len(d) > 0 {
		return 0, errors.New("content")
	}
	return 0, nil
}
func (markType) content() []byte { return nil }

// Application-defined extras.

type appExtra struct {
	id byte
	b  []byte
}

func (e *appExtra) ID() byte           { return e.id }
func (e *appExtra) Data() []byte       { return e.b }
func (e *appExtra) Value() interface{} { return e.b }
func (e *appExtra) Decode(d []byte) (int, error) {
	e.b = append([]byte{}, d...)
	return len(d), nil
}

type valExtra struct{ b *[]byte }

func (e valExtra) ID() byte           { return 0xe2 }
func (e valExtra) Data() []byte       { return *e.b }
func (e valExtra) Value() interface{} { return *e.b }
func (e valExtra) Decode(d []byte) (int, error) {
	*e.b = append([]byte{}, d...)
	return len(d), nil
}

func TestC22(t *testing.T) {
	// every way the content of a location report can be mixed
	regExtras()
	for i := 0; i < scale(24000, 400000)/shards && !rec.Enough(); i++ {
		extrasCase(newRand("C22x", i), i)
	}
	replacedExtras()
}

func regExtras() {
	extra.Register(0xe1, func() extra.Entity { return &appExtra{id: 0xe1} })
	extra.Register(0xe2, func() extra.Entity { b := []byte{}; return valExtra{&b} })
	extra.Register(0x00, func() extra.Entity { return &appExtra{id: 0} })
	extra.Register(0xff, func() extra.Entity { return &appExtra{id: 0xff} })
}

var knownExtra = map[byte]bool{0xe1: true, 0xe2: true, 0: true, 0xff: true}

func init() {
	for _, k := range extraKinds {
		knownExtra[k.id] = true
	}
}

type item struct {
	id   byte
	data []byte
}

// extrasCase builds a location report with known, application-defined and
// unknown items anywhere and compares what is decoded.
func extrasCase(r *rand.Rand, i int) {
	g := &gen{r: r, small: true}
	w := wb{}
	loc := g.location(&w, false)
	_ = loc
	base := append([]byte{}, w.b...)
	var items []item
	room := 1023 - len(base) - 10
	n := r.Intn(12)
	for k := 0; k < n; k++ {
		var it item
		switch r.Intn(5) {
		case 0, 1:
			kd := extraKinds[r.Intn(len(extraKinds))]
			_, b := kd.gen(g)
			it = item{kd.id, b}
		case 2:
			it = item{[]byte{0xe1, 0xe2, 0, 0xff}[r.Intn(4)], rBody(r, r.Intn(20))}
		default:
			id := byte(r.Intn(256))
			for knownExtra[id] || id == 0xe5 {
				id = byte(r.Intn(256))
			}
			it = item{id, rBody(r, []int{0, 1, 2, 5, r.Intn(255), 255}[r.Intn(6)])}
			if r.Intn(3) == 0 && len(it.data) >= 2 {
				// looks like known items
				it.data[0], it.data[1] = 0x30, byte(len(it.data)-2)
			}
		}
		if room < len(it.data)+2 {
			break
		}
		room -= len(it.data) + 2
		items = append(items, it)
	}
	body := append([]byte{}, base...)
	var want []item
	for _, it := range items {
		body = append(body, it.id, byte(len(it.data)))
		body = append(body, it.data...)
		if knownExtra[it.id] {
			want = append(want, it)
		} else {
			rec.Count("unknown_items", 1)
		}
	}
	rec.Case(fmt.Sprintf("%x", body))
	check := func(what string, e *protocol.T808_0x0200) {
		var got []item
		for _, x := range e.Extras {
			if x == nil {
				rec.Violate("nil-extra", "case %d, %s: a decoded extra is nil", i, what)
				return
			}
			got = append(got, item{x.ID(), x.Data()})
		}
		same := len(got) == len(want)
		for k := 0; same && k < len(got); k++ {
			same = got[k].id == want[k].id && bytes.Equal(got[k].data, want[k].data)
		}
		if !same {
			rec.Violate("extras", "case %d, %s: items %v in the report, decoded %v, should be %v", i, what, items, got, want)
			return
		}
		for k, x := range e.Extras {
			switch v := x.(type) {
			case *appExtra:
				if !bytes.Equal(v.b, want[k].data) {
					rec.Violate("value", "case %d, %s: value of extra %02x differs", i, what, v.id)
				}
			case valExtra:
				if !bytes.Equal(*v.b, want[k].data) {
					rec.Violate("value", "case %d, %s: value of extra 0xe2 differs", i, what)
				}
			default:
				if want[k].id >= 0xe0 || want[k].id == 0 {
					rec.Violate("type", "case %d, %s: extra %02x decoded as %T", i, what, want[k].id, x)
				}
			}
		}
		rec.Count("known_items", int64(len(got)))
	}
	dec := func(what string, id uint16, b []byte) protocol.Entity {
		m, err, pan := decodeSafe(refFrame(refHeader{ID: id, Icc: 1, Serial: 1}, b))
		if pan != "" {
			rec.Violate("panic", "case %d, %s: %s", i, what, pan)
			return nil
		}
		if err != nil || m.Body == nil {
			rec.Violate("rejected", "case %d, %s with items %v is not decoded (%v)", i, what, items, err)
			return nil
		}
		return m.Body
	}
	if e, ok := dec("location report", 0x0200, body).(*protocol.T808_0x0200); ok {
		check("location report", e)
		// sent on: encoded again, only the known items are left
		b2, err := e.Encode()
		if err != nil {
			rec.Violate("encode", "case %d: the decoded report cannot be encoded: %v", i, err)
			return
		}
		if e2, ok := dec("re-encoded report", 0x0200, b2).(*protocol.T808_0x0200); ok {
			check("re-encoded report", e2)
		}
	}
	if len(body) < 1000 {
		if e, ok := dec("location answer", 0x0201, append([]byte{0, 5}, body...)).(*protocol.T808_0x0201); ok {
			check("location answer", &e.Result)
		}
		b := append([]byte{0, 1, 0, byte(len(body) >> 8), byte(len(body))}, body...)
		if e, ok := dec("batch of reports", 0x0704, b).(*protocol.T808_0x0704); ok {
			if len(e.Items) != 1 {
				rec.Violate("batch", "case %d: batch of one report decoded as %d", i, len(e.Items))
			} else {
				check("batch of reports", &e.Items[0])
			}
		}
	}
	if i < 3 {
		rec.Sample("case %d: items %v", i, items)
	}
}

// replacedExtras: an application replaces built-in extra types.
func replacedExtras() {
	r := newRand("C22rx", 0)
	for _, k := range extraKinds {
		id := k.id
		extra.Register(id, func() extra.Entity { return &appExtra{id: id} })
		g := &gen{r: r, small: true}
		w := wb{}
		g.location(&w, false)
		data := rBody(r, r.Intn(60))
		body := append(w.b, 0x77, 2, 1, 2, id, byte(len(data)))
		body = append(body, data...)
		m, err, pan := decodeSafe(refFrame(refHeader{ID: 0x0200, Icc: 1, Serial: 1}, body))
		rec.Case(fmt.Sprintf("replaced/%x/%x", id, data))
		e, ok := m.Body.(*protocol.T808_0x0200)
		if pan != "" || err != nil || !ok || len(e.Extras) != 1 {
			rec.Violate("replaced-extra", "extra %02x replaced by the application: %s %v %v", id, pan, err, m.Body)
			continue
		}
		if x, ok := e.Extras[0].(*appExtra); !ok || !bytes.Equal(x.b, data) {
			rec.Violate("replaced-extra", "extra %02x replaced by the application is decoded as %T", id, e.Extras[0])
		}
		rec.Count("replaced_extras", 1)
	}
}

func TestC22Server(t *testing.T) {
	bubble(t, func() {
		for i := 0; i < scale(240, 1000) && !rec.Enough(); i++ {
			typesScenario(i)
		}
	})
}

// typesScenario registers types (also in place of built-in ones), runs a server
// and compares what handlers and terminals get.
func typesScenario(i int) {
	r := newRand("C22s", i)
	restore := map[uint16]bool{}
	kinds := map[uint16]string{}
	reg := func(id uint16, kind string) {
		id2 := id
		kinds[id] = kind
		switch kind {
		case "ptr":
			protocol.Register(id, func() protocol.Entity { return &ptrType{id: id2} })
		case "val":
			protocol.Register(id, func() protocol.Entity { b := []byte{}; return valType{id2, &b} })
		case "map":
			protocol.Register(id, func() protocol.Entity { return mapType{} })
		case "mark":
			protocol.Register(id, func() protocol.Entity { return markType{} })
		case "packet":
			protocol.Register(id, func() protocol.Entity { return new(pktEntity) })
		}
	}
	reg(idCustomA, []string{"ptr", "val"}[r.Intn(2)])
	reg(idCustomB, "map")
	reg(idNoHandle, "mark")
	reg(idPacket, "packet")
	reg(uint16(0x7e7d), "ptr")
	reg(0xffff, "val")
	reg(0, "ptr")
	// replaced built-in types, among them all answers in turn
	for k := 1 + r.Intn(5); k > 0; k-- {
		id := schemas[r.Intn(len(schemas))].id
		if r.Intn(2) == 0 {
			id = []uint16{0x0001, 0x0104, 0x0201, 0x0302, 0x0500, 0x0700, 0x0802, 0x0805, 0x0801, 0x0200}[r.Intn(10)]
		}
		if id == 0x8001 {
			continue
		}
		restore[id] = true
		reg(id, []string{"ptr", "val"}[r.Intn(2)])
	}
	defer func() {
		for id := range restore {
			id := id
			protocol.Register(id, func() protocol.Entity { return newBuiltin(id) })
		}
	}()
	var mu sync.Mutex
	got := map[uint64][]string{}
	auto := r.Intn(2) == 0
	w := newWorld(go808.Options{Keepalive: 3600, AutoMergePacket: auto})
	defer w.end()
	show := func(id uint16, e protocol.Entity) string {
		if p, ok := e.(*pktEntity); ok {
			var b bytes.Buffer
			if p.reader != nil {
				b.ReadFrom(p.reader)
			}
			return fmt.Sprintf("%04x packet %d %x", id, p.Tag, b.Bytes())
		}
		a, ok := e.(appEntity)
		if !ok {
			return fmt.Sprintf("%04x %T", id, e)
		}
		return fmt.Sprintf("%04x %s %x", id, reflect.TypeOf(e), a.content())
	}
	answers := 0
	for id := range kinds {
		id := id
		w.srv.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
			mu.Lock()
			got[m.Header.IccID] = append(got[m.Header.IccID], show(uint16(m.Header.MsgID), m.Body))
			mu.Unlock()
			rec.Count("dispatched", 1)
		})
	}
	var s0 *go808.Session
	w.srv.AddHandler(0x0f50, func(s *go808.Session, m *protocol.Message) { mu.Lock(); s0 = s; mu.Unlock() })
	registerRaw(0x0f50)
	w.mustStart()
	jitterHooks(w, r, 20)
	t := w.terminal(newIcc())
	var want []string
	wantOut := []string{}
	t.send(0x0f50, nil)
	settle()
	mu.Lock()
	s := s0
	mu.Unlock()
	if s == nil {
		rec.Violate("not-dispatched", "scenario %d: a registered type is not dispatched", i)
		return
	}
	// a request whose answer type may have been replaced
	s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) { mu.Lock(); answers++; mu.Unlock() })
	wantOut = append(wantOut, "8104 ")
	var ids []uint16
	for id := range kinds {
		ids = append(ids, id)
	}
	for a := range ids { // map order is random; make it reproducible
		for b := a + 1; b < len(ids); b++ {
			if ids[b] < ids[a] {
				ids[a], ids[b] = ids[b], ids[a]
			}
		}
	}
	nReply := 0
	for k := 0; k < 18; k++ {
		id := ids[r.Intn(len(ids))]
		kind := kinds[id]
		body := rBody(r, r.Intn(60))
		if r.Intn(10) == 0 {
			body = rBody(r, 1023)
		}
		if r.Intn(8) == 0 {
			body = nil
		}
		rec.Case(fmt.Sprintf("%d/%d/%04x/%s/%x", i, k, id, kind, body))
		switch kind {
		case "mark":
			body = nil
			t.send(id, nil)
			want = append(want, show(id, markType{}))
		case "packet":
			tag := uint32(k)
			if !auto {
				f, _ := t.frag(id, 2, 1, upBody(r, id, tag, body[:minInt(len(body), 1000)]))
				t.c.PeerSend(f)
				want = append(want, fmt.Sprintf("%04x packet %d %x", id, tag, body[:minInt(len(body), 1000)]))
				break
			}
			n := 1 + r.Intn(4)
			var all []byte
			parts := make([][]byte, n)
			for q := range parts {
				parts[q] = rBody(r, r.Intn(40))
				all = append(all, parts[q]...)
			}
			for _, q := range r.Perm(n) {
				f, _ := t.frag(id, uint16(n), uint16(q+1), upBody(r, id, tag, parts[q]))
				t.c.PeerSend(f)
				nReply++
			}
			want = append(want, fmt.Sprintf("%04x packet %d %x", id, tag, all))
			rec.Count("merged", 1)
		default:
			if r.Intn(6) == 0 {
				f, _ := t.frag(id, 3, 2, body)
				t.c.PeerSend(f)
			} else {
				t.send(id, body)
			}
			var e protocol.Entity
			switch kind {
			case "ptr":
				e = &ptrType{id, body}
			case "val":
				e = valType{id, &body}
			case "map":
				e = mapType{"b": body}
			}
			want = append(want, show(id, e))
			// and sent by the platform
			var err error
			switch r.Intn(3) {
			case 0:
				_, err = s.Send(e)
			case 1:
				_, err = s.Request(e, func(*protocol.Message) {})
			case 2:
				if n := w.srv.Broadcast(e); n != 1 {
					err = fmt.Errorf("broadcast counts %d", n)
				}
			}
			if err != nil {
				rec.Violate("send", "scenario %d: sending an application-defined %s message fails: %v", i, kind, err)
			}
			wantOut = append(wantOut, fmt.Sprintf("%04x %x", uint16(e.MsgID()), body))
			rec.Count("sent", 1)
		}
		if k%4 == 3 {
			settle()
		}
	}
	settle()
	if c, _ := t.c.Closed(); c {
		rec.Violate("closed", "scenario %d: the session was closed (types %v)", i, kinds)
	}
	mu.Lock()
	g := got[t.icc]
	mu.Unlock()
	for k := 0; k < len(g) || k < len(want); k++ {
		a, b := "nothing", "nothing"
		if k < len(g) {
			a = g[k]
		}
		if k < len(want) {
			b = want[k]
		}
		if a != b {
			rec.Violate("dispatch", "scenario %d (merging %v): message %d of %d reaches its handler as %.300s, should be %.300s", i, auto, k, len(want), a, b)
			break
		}
	}
	msgs, ok := t.got()
	if !ok {
		return
	}
	var out []string
	replies := 0
	for _, m := range msgs {
		if p, ok := parseReply(m); ok && kinds[0x8001] == "" {
			if p.Result != 0 {
				rec.Violate("reply", "scenario %d: message 0x%04x answered with result %d", i, p.ID, p.Result)
			}
			replies++
			continue
		}
		out = append(out, fmt.Sprintf("%04x %x", m.H.ID, m.Body))
	}
	if fmt.Sprint(out) != fmt.Sprint(wantOut) {
		rec.Violate("sent", "scenario %d: the terminal got %.600v, should be %.600v", i, out, wantOut)
	}
	if replies != nReply {
		rec.Violate("acks", "scenario %d: %d fragments acknowledged, %d sent", i, replies, nReply)
	}
	rec.Count("scenarios", 1)
	if i < 2 {
		rec.Sample("scenario %d: types %v, merging %v", i, kinds, auto)
	}
}
