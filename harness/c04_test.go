package harness

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
)

// mutateBytes returns a hostile variant of a well-formed byte string.
func mutateBytes(r *rand.Rand, b []byte) []byte {
	m := append([]byte{}, b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch r.Intn(9) {
		case 0: // truncate
			m = m[:r.Intn(len(m)+1)]
		case 1: // change bytes to extremes
			for i := 1 + r.Intn(3); i > 0 && len(m) > 0; i-- {
				m[r.Intn(len(m))] = rByte(r)
			}
		case 2: // early bytes: counts and lengths live there
			if len(m) > 0 {
				n := len(m)
				if n > 12 {
					n = 12
				}
				m[r.Intn(n)] = []byte{0, 1, 0xff, 0x80, 0x7f, 0xfe}[r.Intn(6)]
			}
		case 3: // insert
			i := r.Intn(len(m) + 1)
			ins := rBody(r, 1+r.Intn(8))
			m = append(m[:i:i], append(ins, m[i:]...)...)
		case 4: // delete
			if len(m) > 1 {
				i := r.Intn(len(m))
				j := i + 1 + r.Intn(4)
				if j > len(m) {
					j = len(m)
				}
				m = append(m[:i:i], m[j:]...)
			}
		case 5: // append
			m = append(m, rBody(r, 1+r.Intn(40))...)
		case 6: // a 16 or 32 bit field set to an extreme
			if len(m) >= 4 {
				i := r.Intn(len(m) - 3)
				binary.BigEndian.PutUint32(m[i:], rU32(r))
			}
		case 7: // repeat a part
			if len(m) > 0 {
				i := r.Intn(len(m))
				m = append(m, m[i:]...)
			}
		case 8:
			for i := range m {
				if r.Intn(4) == 0 {
					m[i] ^= 1 << r.Intn(8)
				}
			}
		}
		if len(m) > 4096 {
			m = m[:4096]
		}
	}
	return m
}

// exercise uses a decoded value the way an application does: every accessor
// without arguments of it and of what it holds, and encoding it again.
func exercise(v reflect.Value, depth int) {
	if depth > 4 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return
		}
	}
	pk := v.Type().PkgPath()
	if v.Kind() == reflect.Ptr {
		pk = v.Elem().Type().PkgPath()
	}
	lib := pk == "gitee.com/coco/go808/protocol" || pk == "gitee.com/coco/go808/protocol/extra"
	if lib && v.CanInterface() && v.Kind() != reflect.Interface {
		t := v.Type()
		for i := 0; i < t.NumMethod(); i++ {
			if t.Method(i).Type.NumIn() == 1 {
				out := v.Method(i).Call(nil)
				for _, o := range out {
					if o.Kind() == reflect.Ptr {
						exercise(o, depth+2)
					}
				}
			}
		}
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		exercise(v.Elem(), depth)
	case reflect.Struct:
		if !lib {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				exercise(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len() && i < 40; i++ {
			k := v.Index(i)
			if k.Kind() == reflect.Uint8 {
				return
			}
			if k.Kind() == reflect.Struct && k.CanAddr() {
				k = k.Addr()
			}
			exercise(k, depth+1)
		}
	}
}

func useEntity(e protocol.Entity) {
	exercise(reflect.ValueOf(e), 0)
	if k, ok := e.(*protocol.T808_0x0A00); ok && k.PublicKey != nil {
		protocol.EncryptOAEP(sha1.New(), k.PublicKey, []byte("a body of the platform"), nil)
		m := protocol.Message{Body: &protocol.T808_0x8001{}}
		m.Encode(k.PublicKey)
	}
	if k, ok := e.(*protocol.T808_0x8A00); ok && k.PublicKey != nil {
		protocol.EncryptOAEP(sha1.New(), k.PublicKey, []byte("x"), nil)
	}
}

func c04decode(s schema, body []byte) {
	rec.Case(fmt.Sprintf("%04x%s", s.id, body))
	ways := []struct {
		name string
		f    func() (protocol.Entity, error)
	}{
		{"Decode", func() (protocol.Entity, error) {
			e := s.fresh()
			_, err := e.Decode(append([]byte{}, body...))
			return e, err
		}},
		{"DecodePacket", func() (protocol.Entity, error) {
			e := s.fresh()
			pk, ok := e.(protocol.EntityPacket)
			if !ok {
				return nil, fmt.Errorf("no packet type")
			}
			return e, pk.DecodePacket(append([]byte{}, body...))
		}},
	}
	for _, w := range ways {
		var e protocol.Entity
		var err error
		if p, st := trySafe(func() { e, err = w.f() }); p != nil {
			rec.Violate(fmt.Sprintf("panic-%04x", s.id), "%04x: %s of %s panics: %v\n%s", s.id, w.name, hx(body), p, st)
			continue
		}
		if err != nil {
			rec.Count("refused", 1)
			continue
		}
		rec.Count("accepted", 1)
		if p, st := trySafe(func() { useEntity(e) }); p != nil {
			rec.Violate(fmt.Sprintf("use-%04x", s.id), "%04x: using the message decoded (%s) from %s panics: %v\n%s", s.id, w.name, hx(body), p, st)
		}
	}
	if len(body) > 1023 {
		return
	}
	f := refFrame(refHeader{ID: s.id, Icc: 1, Serial: 2}, body)
	var m protocol.Message
	if p, st := trySafe(func() { m.Decode(f) }); p != nil {
		rec.Violate(fmt.Sprintf("frame-panic-%04x", s.id), "decoding the frame %s panics: %v\n%s", hx(f), p, st)
	}
}

// TestC04 feeds hostile bytes to every decoder.
func TestC04(t *testing.T) {
	r := newRand("C04", 0)
	g := &gen{r: r}
	for i := 0; i < scale(110, 6000) && !rec.Enough(); i++ {
		for k, s := range schemas {
			if (k+i)%shards != shard {
				continue
			}
			_, body := s.gen(g)
			if i == 0 {
				for n := 0; n <= len(body) && n < 300; n++ { // every truncation
					c04decode(s, body[:n])
				}
				for n := 0; n < len(body) && n < 80; n++ { // every early byte at its extremes
					for _, v := range []byte{0, 0xff, 0x80, body[n] + 1} {
						m := append([]byte{}, body...)
						m[n] = v
						c04decode(s, m)
					}
				}
				c04decode(s, nil)
				c04decode(s, bytes.Repeat([]byte{0xff}, 1023))
				c04decode(s, bytes.Repeat([]byte{0}, 1023))
			}
			for j := 0; j < 6; j++ {
				c04decode(s, mutateBytes(r, body))
			}
			c04decode(s, rBody(r, rLen(r, 400)))
		}
	}
	// extras on their own
	for i := 0; i < scale(4000, 200000) && !rec.Enough(); i++ {
		k := extraKinds[r.Intn(len(extraKinds))]
		_, b := k.gen(g)
		data := mutateBytes(r, b)
		if r.Intn(3) == 0 {
			data = rBody(r, r.Intn(12))
		}
		rec.Case(fmt.Sprintf("x%02x%s", k.id, data))
		if p, st := trySafe(func() {
			e, _ := k.gen(g)
			ne := reflect.New(reflect.TypeOf(e).Elem()).Interface().(extra.Entity)
			if _, err := ne.Decode(append([]byte{}, data...)); err == nil {
				exercise(reflect.ValueOf(ne), 0)
				rec.Count("extra_accepted", 1)
			} else {
				rec.Count("extra_refused", 1)
			}
		}); p != nil {
			rec.Violate(fmt.Sprintf("extra-%02x", k.id), "extra %02x: decoding or using %s panics: %v\n%s", k.id, hx(data), p, st)
		}
	}
	// whole frames and the header
	for i := 0; i < scale(12000, 600000) && !rec.Enough(); i++ {
		f := hostileFrame(r, g)
		rec.Case(string(f))
		if p, st := trySafe(func() {
			var m protocol.Message
			if m.Decode(append([]byte{}, f...)) == nil && m.Body != nil && m.Header.Property.IsEnablePacket() {
				if m.Header.Packet == nil {
					rec.Violate("packet-nil", "frame %s: fragment without fragment header", hx(f))
				}
			}
		}); p != nil {
			rec.Violate("frame", "decoding %s panics: %v\n%s", hx(f), p, st)
		}
		if p, st := trySafe(func() {
			var h protocol.Header
			h.Decode(append([]byte{}, f...))
		}); p != nil {
			rec.Violate("header", "decoding the header %s panics: %v\n%s", hx(f), p, st)
		}
	}
}

// hostileFrame is any byte string that passes for a frame at some layer.
func hostileFrame(r *rand.Rand, g *gen) []byte {
	s := schemas[r.Intn(len(schemas))]
	h := refHeader{ID: s.id, Icc: rIcc(r), Serial: rU16(r), Frag: r.Intn(3) == 0, Sum: rU16(r), Seq: rU16(r), Encrypt: r.Intn(8) == 0}
	if r.Intn(6) == 0 {
		h.ID = rU16(r)
	}
	_, body := s.gen(g)
	switch r.Intn(6) {
	case 0: // valid frame, bytes changed
		if len(body) > 1023 {
			body = body[:1023]
		}
		f := mutateBytes(r, refFrame(h, body))
		if r.Intn(2) == 0 && len(f) > 1 {
			f[0], f[len(f)-1] = 0x7e, 0x7e
		}
		return f
	case 1: // content with correct checksum, cut anywhere
		if len(body) > 1023 {
			body = body[:1023]
		}
		c := refContent(h, body, len(body))
		return refSeal(c[:r.Intn(len(c)+1)])
	case 2: // content mutated, checksum correct
		if len(body) > 1023 {
			body = body[:1023]
		}
		return refSeal(mutateBytes(r, refContent(h, body, len(body))))
	case 3: // body mutated, frame correct
		b := mutateBytes(r, body)
		if len(b) > 1023 {
			b = b[:1023]
		}
		return refFrame(h, b)
	case 4: // wrong declared length
		if len(body) > 1023 {
			body = body[:1023]
		}
		return refSeal(refContent(h, body, r.Intn(1024)))
	}
	f := append([]byte{0x7e}, rBody(r, r.Intn(40))...)
	return append(f, 0x7e)
}

// TestC04Server lets hostile terminals loose on a live server.
func TestC04Server(t *testing.T) {
	bubble(t, func() {
		for i := 0; i < scale(60, 800) && !rec.Enough(); i++ {
			hostileScenario(i)
		}
	})
}

func hostileScenario(i int) {
	r := newRand("C04S", i)
	g := &gen{r: r, small: true}
	opts := go808.Options{AutoMergePacket: r.Intn(2) == 0}
	w := newWorld(opts)
	beats := map[uint64]int{}
	w.srv.AddHandler(protocol.MsgT808_0x0002, func(s *go808.Session, m *protocol.Message) {
		w.mu.Lock()
		beats[m.Header.IccID]++
		w.mu.Unlock()
		s.Reply(m, protocol.T808_0x8001ResultSuccess)
	})
	for _, s := range schemas {
		if s.id == 0x0002 {
			continue
		}
		w.srv.AddHandler(protocol.MsgID(s.id), func(s *go808.Session, m *protocol.Message) {
			rec.Count("hostile_dispatched", 1)
			if p, st := trySafe(func() { useEntity(m.Body) }); p != nil {
				rec.Violate(fmt.Sprintf("use-%04x", uint16(m.Header.MsgID)), "using a received message %04x panics: %v\n%s", uint16(m.Header.MsgID), p, st)
			}
			if k, ok := m.Body.(*protocol.T808_0x0A00); ok {
				s.SetPublicKey(k.PublicKey)
				s.Send(&protocol.T808_0x8001{})
			}
		})
	}
	w.mustStart()
	var good []*terminal
	for k := 0; k < 3; k++ {
		good = append(good, w.terminal(newIcc()))
	}
	serve := func(t *terminal, what string) bool {
		w.mu.Lock()
		before := beats[t.icc]
		w.mu.Unlock()
		t.send(2, nil)
		settle()
		w.mu.Lock()
		n := beats[t.icc] - before
		w.mu.Unlock()
		rec.Count("good_served", int64(n))
		if n != 1 {
			rec.Violate("not-served", "scenario %d: %s: the heartbeat of a well-behaved terminal was handled %d times", i, what, n)
			return false
		}
		return true
	}
	for _, t := range good {
		serve(t, "before")
	}
	for k := 0; k < 6; k++ {
		var stream []byte
		intact := r.Intn(2) == 0 // frames intact, contents hostile
		for n := 1 + r.Intn(10); n > 0; n-- {
			if intact {
				s := schemas[r.Intn(len(schemas))]
				h := refHeader{ID: s.id, Icc: 9, Serial: rU16(r), Frag: r.Intn(4) == 0, Sum: uint16(r.Intn(3)), Seq: uint16(r.Intn(4))}
				_, body := s.gen(g)
				if r.Intn(4) > 0 {
					body = mutateBytes(r, body)
				}
				if len(body) > 1023 {
					body = body[:1023]
				}
				stream = append(stream, refFrame(h, body)...)
				continue
			}
			switch r.Intn(5) {
			case 0:
				stream = append(stream, rBody(r, r.Intn(300))...)
			case 1:
				stream = append(stream, refFrame(refHeader{ID: 2, Icc: 7}, nil)...)
			case 2:
				stream = append(stream, 0x7e)
			default:
				stream = append(stream, hostileFrame(r, g)...)
			}
		}
		if k == 0 && r.Intn(3) == 0 {
			stream = append(stream, bytes.Repeat([]byte{0x55}, 70000)...)
		}
		if k == 1 && r.Intn(3) == 0 {
			stream = append([]byte{0x7e}, bytes.Repeat([]byte{0x55}, 70000)...)
		}
		rec.Case(string(stream))
		c := w.dial()
		if c == nil {
			rec.Violate("refused", "scenario %d: the server stopped accepting", i)
			break
		}
		if r.Intn(6) == 0 {
			c.PeerStall(r.Intn(10))
		}
		cuts := chop(r, stream)
		c.PeerSend(cuts...)
		if r.Intn(3) == 0 {
			c.PeerClose(r.Intn(2) == 0)
		}
		if r.Intn(3) == 0 {
			settle()
		}
		if r.Intn(2) == 0 {
			serve(good[r.Intn(len(good))], "meanwhile")
		}
	}
	settle()
	if r.Intn(4) == 0 {
		time.Sleep(3 * time.Second)
	}
	for _, t := range good {
		serve(t, "after hostile traffic")
	}
	if t := w.terminal(newIcc()); t == nil || !serve(t, "new connection") {
		rec.Violate("refused", "scenario %d: a new connection is not served after hostile traffic", i)
	}
	rec.Count("scenarios", 1)
	w.end()
}
