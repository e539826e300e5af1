package harness

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sync"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// TestC27: a terminal built on the library talks with a server; both sides keep
// a list of what the other one sent. No reference frames are involved here.
func TestC27(t *testing.T) {
	registerRaw(idCustomA)
	bubble(t, func() {
		for i := 0; i < scale(250, 4000) && !rec.Enough(); i++ {
			talkScenario(i)
		}
	})
}

// feedPipe is the terminal's end of a connection as its codec sees it.
type feedPipe struct {
	in   chan []byte
	rest []byte
}

func (p *feedPipe) Read(b []byte) (int, error) {
	for len(p.rest) == 0 {
		x, ok := <-p.in
		if !ok {
			return 0, io.EOF
		}
		p.rest = x
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}

func (p *feedPipe) Write(b []byte) (int, error) { return len(b), nil }

// said is something one side sent and the other should get.
type said struct {
	id       uint16
	icc      uint64
	serial   int // -1: not known to the sender
	enc      bool
	sum, seq uint16
	e        protocol.Entity
	what     string
}

type heardMsg struct {
	m    protocol.Message
	snap string
}

type talker struct {
	t        *terminal
	pipe     *feedPipe
	off      int
	mu       sync.Mutex
	down     []heardMsg // what the terminal's codec delivered
	up       []heardMsg // what the handlers got
	upWant   []said
	downWant []said
	answers  []string // of callbacks
	ansWant  []string
	s        *go808.Session
	platform *rsa.PublicKey
	err      error
}

func talkScenario(i int) {
	r := newRand("C27", i)
	merge := r.Intn(2) == 0
	opts := go808.Options{Keepalive: 6000, AutoMergePacket: merge}
	if r.Intn(2) == 0 {
		opts.PrivateKey = key("a")
	}
	w := newWorldOr(i%5 == 4, opts)
	var mu sync.Mutex
	byIcc := map[uint64]*talker{}
	for _, s := range schemas {
		id := s.id
		w.srv.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
			mu.Lock()
			p := byIcc[m.Header.IccID]
			mu.Unlock()
			if p == nil {
				rec.Violate("stranger", "scenario %d: a message of terminal %d, which sent none", i, m.Header.IccID)
				return
			}
			if e, ok := m.Body.(protocol.EntityPacket); ok && e.GetReader() != nil {
				data, err := io.ReadAll(e.GetReader())
				if err != nil {
					rec.Violate("up-read", "scenario %d: the content of an upload cannot be read: %v", i, err)
				}
				e.SetReader(bytes.NewReader(data))
			}
			p.mu.Lock()
			p.s = s
			p.up = append(p.up, heardMsg{*m, snapshot(*m)})
			p.mu.Unlock()
			if k, ok := m.Body.(*protocol.T808_0x0A00); ok && s.UserData == nil {
				// the platform answers with its own key, as the example does
				s.UserData = "greeted"
				s.SetPublicKey(k.PublicKey)
				if key := s.GetServer().GetPrivateKey(); key != nil {
					s.Send(&protocol.T808_0x8A00{PublicKey: &key.PublicKey})
				}
			}
		})
	}
	if r.Intn(2) == 0 {
		jitterHooks(w, r, 30)
	}
	w.mustStart()
	defer w.end()
	var ps []*talker
	for n := 1 + r.Intn(4); n > 0; n-- {
		p := &talker{t: w.terminal(newIcc()), pipe: &feedPipe{in: make(chan []byte, 100000)}}
		mu.Lock()
		byIcc[p.t.icc] = p
		mu.Unlock()
		codec := newCodec(p.pipe)
		go func() {
			for {
				m, err := codec.Receive()
				p.mu.Lock()
				if err != nil {
					p.err = err
					p.mu.Unlock()
					return
				}
				msg := m.(protocol.Message)
				p.down = append(p.down, heardMsg{msg, snapshot(msg)})
				p.mu.Unlock()
			}
		}()
		defer close(p.pipe.in)
		ps = append(ps, p)
	}
	// two equal messages, one to be sent and one to compare with
	pair := func() (protocol.Entity, protocol.Entity, int) {
		s := schemas[r.Intn(len(schemas))]
		seed := r.Int63()
		e, body := s.gen(&gen{r: rand.New(rand.NewSource(seed)), small: r.Intn(2) == 0})
		e2, _ := s.gen(&gen{r: rand.New(rand.NewSource(seed)), small: false})
		if d := differ(e, e2); d != "" {
			e2, _ = s.gen(&gen{r: rand.New(rand.NewSource(seed)), small: true})
		}
		for _, x := range []protocol.Entity{e, e2} { // answers to nothing that was asked
			if f := reflect.ValueOf(x).Elem().FieldByName("ReplyMsgSerialNo"); f.IsValid() {
				f.SetUint(f.Uint() | 0x100)
			}
		}
		if s.loose != nil {
			return e, e2, -1
		}
		return e, e2, len(body)
	}
	cut := func(p *talker, f []byte) { p.t.c.PeerSend(chop(r, f)...) }
	// up: the terminal sends a message
	up := func(p *talker, e, e2 protocol.Entity, size int) {
		m := protocol.Message{Header: protocol.Header{IccID: p.t.icc, MsgSerialNo: p.t.next()}, Body: e}
		x := said{icc: p.t.icc, serial: int(m.Header.MsgSerialNo), e: e2, id: uint16(e.MsgID())}
		if _, ok := e.(protocol.EntityPacket); r.Intn(8) == 0 && !(merge && ok) {
			m.Header.Packet = &protocol.Packet{Sum: uint16(1 + r.Intn(9)), Seq: uint16(r.Intn(11))}
			x.sum, x.seq = m.Header.Packet.Sum, m.Header.Packet.Seq
		}
		var f []byte
		var err error
		if p.platform != nil && r.Intn(2) == 0 {
			f, err = m.Encode(p.platform)
			// an encrypted body takes 128 bytes for every 86
			if size >= 0 {
				size = (size + 85) / 86 * 128
			}
			x.enc = true
		} else {
			f, err = m.Encode()
		}
		if err != nil {
			if size >= 0 && size <= 1023 {
				rec.Violate("refused", "scenario %d: a terminal's message %04x that fits (%d bytes) cannot be encoded: %v", i, x.id, size, err)
			}
			rec.Count("too_long", 1)
			return
		}
		if x.enc && m.Header.Property&0x400 == 0 && len(f) > 15 {
			rec.Violate("plain", "scenario %d: message %04x was not marked encrypted", i, x.id)
		}
		x.what = fmt.Sprintf("encrypted %v", x.enc)
		rec.Case(string(f))
		cut(p, f)
		p.upWant = append(p.upWant, x)
	}
	// down: the platform sends one
	down := func(p *talker, e, e2 protocol.Entity, size int) {
		p.mu.Lock()
		s := p.s
		p.mu.Unlock()
		if s == nil {
			return
		}
		x := said{icc: p.t.icc, e: e2, id: uint16(e.MsgID())}
		var n uint16
		var err error
		ask := r.Intn(3) == 0
		if ask {
			x.what = "request"
			kind := x.id
			n, err = s.Request(e, func(a *protocol.Message) {
				p.mu.Lock()
				p.answers = append(p.answers, fmt.Sprintf("%04x:%d", kind, a.Header.MsgSerialNo))
				p.mu.Unlock()
			})
		} else {
			x.what = "send"
			n, err = s.Send(e)
		}
		if err != nil {
			if size >= 0 && size <= 1023 {
				rec.Violate("refused", "scenario %d: a platform's message %04x that fits (%d bytes) cannot be sent: %v", i, x.id, size, err)
			}
			rec.Count("too_long", 1)
			return
		}
		x.serial = int(n)
		rec.Case(fmt.Sprintf("down %d %d %04x %d", i, p.t.icc, x.id, n))
		p.downWant = append(p.downWant, x)
		if ask && r.Intn(2) == 0 {
			a, a2 := &protocol.T808_0x0001{ReplyMsgSerialNo: n, ReplyMsgID: x.id}, &protocol.T808_0x0001{ReplyMsgSerialNo: n, ReplyMsgID: x.id}
			settle()
			before := len(p.upWant)
			up(p, a, a2, 5)
			if len(p.upWant) > before {
				p.ansWant = append(p.ansWant, fmt.Sprintf("%04x:%d", x.id, p.upWant[before].serial))
			}
			settle()
		}
	}
	// upload: the terminal sends media in fragments, as the example client does
	upload := func(p *talker) {
		seed := r.Int63()
		mk := func() *protocol.T808_0x0801 {
			for k := int64(0); ; k++ {
				e, body := schemaOf(0x0801).gen(&gen{r: rand.New(rand.NewSource(seed + k)), small: true})
				if len(body) < 300 {
					return e.(*protocol.T808_0x0801)
				}
			}
		}
		n, limit := 1+r.Intn(6), 1+r.Intn(500)
		data := randBytes(r, (n-1)*limit+1+r.Intn(limit))
		order := r.Perm(n)
		if r.Intn(2) == 0 {
			for k := range order {
				order[k] = k
			}
		}
		for _, q := range order {
			e := mk()
			e.Packet = bytes.NewReader(data[q*limit : minInt((q+1)*limit, len(data))])
			m := protocol.Message{Header: protocol.Header{IccID: p.t.icc, MsgSerialNo: p.t.next(),
				Packet: &protocol.Packet{Sum: uint16(n), Seq: uint16(q + 1)}}, Body: e}
			var f []byte
			var err error
			x := said{icc: p.t.icc, serial: int(m.Header.MsgSerialNo), id: 0x0801, sum: uint16(n), seq: uint16(q + 1), what: "upload"}
			if p.platform != nil && r.Intn(2) == 0 {
				f, err = m.Encode(p.platform)
				x.enc = true
			} else {
				f, err = m.Encode()
			}
			if err != nil {
				rec.Violate("refused", "scenario %d: a fragment of an upload cannot be encoded: %v", i, err)
				return
			}
			rec.Case(string(f))
			cut(p, f)
			x.e = mk()
			if merge {
				x.e.(*protocol.T808_0x0801).Packet = bytes.NewReader(data)
				p.downWant = append(p.downWant, said{icc: p.t.icc, id: 0x8001, serial: -1, what: "acknowledgement",
					e: &protocol.T808_0x8001{ReplyMsgSerialNo: m.Header.MsgSerialNo, ReplyMsgID: 0x0801}})
				if q == order[n-1] {
					p.upWant = append(p.upWant, x)
				}
			} else {
				x.e.(*protocol.T808_0x0801).Packet = bytes.NewReader(data[q*limit : minInt((q+1)*limit, len(data))])
				p.upWant = append(p.upWant, x)
			}
			settle()
			if r.Intn(5) == 0 {
				e, e2, size := pair()
				down(p, e, e2, size)
				settle()
			}
		}
		rec.Count("uploads", 1)
	}
	for st := 20 + r.Intn(80); st > 0 && !rec.Enough(); st-- {
		p := ps[r.Intn(len(ps))]
		switch x := r.Intn(20); {
		case x < 8:
			e, e2, size := pair()
			if p.platform == nil && e.MsgID() == 0x0A00 {
				// the first of these is answered with the platform's key
				settle()
				sent := len(p.upWant)
				up(p, e, e2, size)
				settle()
				p.mu.Lock()
				s := p.s
				p.mu.Unlock()
				if len(p.upWant) > sent && opts.PrivateKey != nil {
					p.platform = &opts.PrivateKey.PublicKey
					p.downWant = append(p.downWant, said{icc: p.t.icc, id: 0x8A00, serial: -1, what: "the platform's key",
						e: &protocol.T808_0x8A00{PublicKey: p.platform}})
				}
				if s != nil && len(p.upWant) > sent && s.GetPublicKey() == nil {
					rec.Violate("key", "scenario %d: the terminal's key is not kept", i)
				}
				break
			}
			up(p, e, e2, size)
		case x == 8: // keys are exchanged
			if opts.PrivateKey == nil || p.platform != nil {
				continue
			}
			k := key([]string{"a", "b", "c"}[r.Intn(3)])
			settle()
			up(p, &protocol.T808_0x0A00{PublicKey: &k.PublicKey}, &protocol.T808_0x0A00{PublicKey: &k.PublicKey}, 132)
			p.platform = &opts.PrivateKey.PublicKey
			p.downWant = append(p.downWant, said{icc: p.t.icc, id: 0x8A00, serial: -1, what: "the platform's key",
				e: &protocol.T808_0x8A00{PublicKey: p.platform}})
			settle()
			rec.Count("keys_exchanged", 1)
		case x < 14:
			e, e2, size := pair()
			settle()
			down(p, e, e2, size)
		case x == 14:
			settle()
			upload(p)
		case x == 15: // a reply to what came last
			settle()
			p.mu.Lock()
			s := p.s
			var last *protocol.Message
			if len(p.up) > 0 {
				last = &p.up[len(p.up)-1].m
			}
			p.mu.Unlock()
			if last == nil {
				continue
			}
			res := protocol.Result(r.Intn(5))
			n, err := s.Reply(last, res)
			if err != nil {
				rec.Violate("refused", "scenario %d: a reply fails: %v", i, err)
				continue
			}
			p.downWant = append(p.downWant, said{icc: p.t.icc, id: 0x8001, serial: int(n), what: "reply",
				e: &protocol.T808_0x8001{ReplyMsgSerialNo: last.Header.MsgSerialNo, ReplyMsgID: last.Header.MsgID, Result: res}})
		case x == 16: // to all of them
			e, e2, size := pair()
			settle()
			known := true
			for _, p := range ps {
				if len(p.upWant) == 0 {
					known = false
				}
			}
			if !known {
				continue
			}
			if n := w.srv.Broadcast(e); n == len(ps) {
				for _, p := range ps {
					p.downWant = append(p.downWant, said{icc: p.t.icc, id: uint16(e.MsgID()), serial: -1, e: e2, what: "broadcast"})
				}
			} else if n != 0 || size >= 0 && size <= 1023 {
				rec.Violate("refused", "scenario %d: a broadcast of %04x (%d bytes) reaches %d of %d terminals", i, uint16(e.MsgID()), size, n, len(ps))
			}
		case x == 17:
			settle()
		case x == 18:
			time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
		case x == 19: // the platform sends while the terminal does
			var wg sync.WaitGroup
			settle()
			p.mu.Lock()
			s := p.s
			p.mu.Unlock()
			if s == nil {
				continue
			}
			var es []protocol.Entity
			var want []said
			for k := 1 + r.Intn(8); k > 0; k-- {
				e, e2, size := pair()
				if size < 0 || size > 1023 {
					continue
				}
				es = append(es, e)
				want = append(want, said{icc: p.t.icc, id: uint16(e.MsgID()), e: e2, what: "concurrent send"})
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k, e := range es {
					n, err := s.Send(e)
					if err != nil {
						rec.Violate("refused", "scenario %d: message %04x cannot be sent: %v", i, want[k].id, err)
						want = want[:k]
						return
					}
					want[k].serial = int(n)
				}
			}()
			for k := r.Intn(8); k > 0; k-- {
				e, e2, size := pair()
				if e.MsgID() != 0x0A00 {
					up(p, e, e2, size)
				}
			}
			wg.Wait()
			p.downWant = append(p.downWant, want...)
			settle()
		}
	}
	settle()
	for _, p := range ps {
		out := p.t.c.Out()
		for _, c := range chop(r, out) {
			p.pipe.in <- c
		}
	}
	settle()
	for k, p := range ps {
		p.mu.Lock()
		who := fmt.Sprintf("scenario %d, terminal %d of %d (merging %v)", i, k, len(ps), merge)
		if p.err != nil {
			rec.Violate("down-error", "%s: the terminal's codec reports %v", who, p.err)
		}
		compareTalk("up", who+": from the terminal", p.upWant, p.up)
		compareTalk("down", who+": from the platform", p.downWant, p.down)
		if fmt.Sprint(p.answers) != fmt.Sprint(p.ansWant) {
			rec.Violate("answers", "%s: answers that reached callbacks (request:serial of the answer) %v, should be %v", who, p.answers, p.ansWant)
		}
		rec.Count("answers", int64(len(p.answers)))
		if c, _ := p.t.c.Closed(); c {
			rec.Violate("closed", "%s: the connection was closed", who)
		}
		p.mu.Unlock()
	}
	rec.Count("scenarios", 1)
}

func compareTalk(dir, who string, want []said, got []heardMsg) {
	rec.Count(dir, int64(len(got)))
	for k := 0; k < len(want) || k < len(got); k++ {
		if k >= len(want) {
			rec.Violate(dir+"-extra", "%s: %d messages were sent, %d arrived, first extra %s", who, len(want), len(got), got[k].snap)
			return
		}
		if k >= len(got) {
			rec.Violate(dir+"-lost", "%s: %d messages were sent, %d arrived, first missing %04x (%s)", who, len(want), len(got), want[k].id, want[k].what)
			return
		}
		x, g := want[k], got[k].m
		h := headerOf(&g)
		if h.ID != x.id || h.Icc != x.icc || x.serial >= 0 && int(h.Serial) != x.serial || h.Frag != (x.sum > 0) || h.Sum != x.sum || h.Seq != x.seq {
			rec.Violate(dir+"-header", "%s: message %d of %d (%s) arrived with header %+v, sent %04x, terminal %d, serial %d, fragment %d of %d", who, k, len(want), x.what, h, x.id, x.icc, x.serial, x.seq, x.sum)
			return
		}
		if g.Body == nil {
			rec.Violate(dir+"-body", "%s: message %d of %d, %04x (%s), arrived without a body", who, k, len(want), x.id, x.what)
			return
		}
		if d := differ(x.e, g.Body); d != "" {
			rec.Violate(dir+"-content", "%s: message %d of %d, %04x (%s), sent / arrived: %s", who, k, len(want), x.id, x.what, d)
			return
		}
		if s := snapshot(g); s != got[k].snap {
			rec.Violate(dir+"-changed", "%s: message %d of %d changed after it was delivered", who, k, len(want))
			return
		}
	}
}
