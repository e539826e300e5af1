package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"github.com/funny/link"
)

// what the answers of the other types answer
var askIDs = []uint16{0x8104, 0x8107, 0x8201, 0x8302, 0x8500, 0x8700, 0x8802, 0x8801}

var answerIDs = []uint16{0x0001, 0x0104, 0x0201, 0x0302, 0x0500, 0x0700, 0x0802, 0x0805}

var answerTo = map[uint16]uint16{0x8104: 0x0104, 0x8201: 0x0201, 0x8302: 0x0302, 0x8500: 0x0500, 0x8700: 0x0700, 0x8802: 0x0802, 0x8801: 0x0805}

// answerBody is a well-formed answer of the given type quoting serial.
func answerBody(g *gen, id, serial, asked uint16) []byte {
	for {
		_, body := schemaOf(id).gen(g)
		if len(body) > 1000 {
			continue
		}
		body[0], body[1] = byte(serial>>8), byte(serial)
		if id == 0x0001 {
			body[2], body[3] = byte(asked>>8), byte(asked)
		}
		return body
	}
}

func TestC10(t *testing.T) {
	bubble(t, func() {
		for i := 0; i < scale(90, 1500) && !rec.Enough(); i++ {
			answerScenario(i)
		}
	})
}

type request struct {
	kind   uint16
	serial uint16
	calls  int
	gotID  uint16
	gotSer uint16
	gotSes uint64
}

// answerScenario plays a random history and compares it with a model of the
// pending requests.
func answerScenario(i int) {
	r := newRand("C10", i)
	g := &gen{r: r, small: true}
	w := newWorld(go808.Options{Keepalive: 100000, AutoMergePacket: r.Intn(2) == 0})
	var mu sync.Mutex
	sess := map[uint64]*go808.Session{}
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		sess[m.Header.IccID] = s
		mu.Unlock()
	})
	for _, id := range answerIDs {
		if r.Intn(2) == 0 {
			w.srv.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {})
		}
	}
	w.mustStart()
	n := 1 + r.Intn(3)
	type peer struct {
		t       *terminal
		s       *go808.Session
		pending map[uint16]*request // by kind
		all     []*request
		last    uint16 // last serial used by the platform
	}
	ps := make([]*peer, n)
	same := r.Intn(3) == 0 // several connections with the same terminal number
	icc := newIcc()
	for k := range ps {
		if !same {
			icc = newIcc()
		}
		t := w.terminal(icc)
		t.send(2, nil)
		settle()
		ps[k] = &peer{t: t, s: sess[t.icc], pending: map[uint16]*request{}}
	}
	// sent tells the model that the platform used a serial number
	sent := func(p *peer, serial uint16) {
		for k, q := range p.pending {
			if q.serial == serial {
				delete(p.pending, k)
				rec.Count("dropped_by_reuse", 1)
			}
		}
		p.last = serial
	}
	lastWire := func(p *peer) uint16 {
		ms, _ := p.t.got()
		return ms[len(ms)-1].H.Serial
	}
	kinds := 3 + r.Intn(8)
	real := r.Intn(2) == 0 // the requests that the protocol has answers for
	steps := 30 + r.Intn(60)
	if r.Intn(4) == 0 {
		steps = 700 // beyond the serial number cycle
	}
	recent := 6
	if r.Intn(6) == 0 { // very many requests pending at once
		kinds, recent = 60+r.Intn(200), 250
	}
	trace := ""
	note := func(f string, a ...interface{}) {
		trace += fmt.Sprintf(f, a...) + "; "
		if len(trace) > 6000 {
			trace = trace[len(trace)-5000:]
		}
	}
	kindOf := func(k int) uint16 {
		if real && k < len(askIDs) {
			return askIDs[k]
		}
		return 0x8f00 + uint16(k)
	}
	ask := func(p *peer, kind uint16) {
		q := &request{kind: kind}
		serial, err := p.s.Request(&rawEntity{kind, rBody(r, r.Intn(20))}, func(m *protocol.Message) {
			mu.Lock()
			defer mu.Unlock()
			q.calls++
			q.gotID, q.gotSer, q.gotSes = uint16(m.Header.MsgID), m.Header.MsgSerialNo, m.Header.IccID
		})
		if err != nil {
			rec.Violate("request", "scenario %d: Request fails: %v", i, err)
			return
		}
		q.serial = serial
		sent(p, serial)
		if old := p.pending[kind]; old != nil {
			rec.Count("superseded", 1)
		}
		p.pending[kind] = q
		p.all = append(p.all, q)
		rec.Count("requests", 1)
		note("req %04x=%d", kind, serial)
	}
	// answer sends an answer quoting serial and checks who is called
	answer := func(p *peer, serial uint16) bool {
		var hit *request
		for _, q := range p.pending {
			if q.serial == serial && serial != 0 {
				hit = q
			}
		}
		asked := uint16(0x8f00)
		if hit != nil {
			asked = hit.kind
			delete(p.pending, hit.kind)
		}
		id := answerIDs[r.Intn(len(answerIDs))]
		if hit == nil && real && len(p.pending) > 0 && r.Intn(2) == 0 {
			rec.Count("of_the_type_expected", 1) // but quoting another serial number
			for _, q := range p.all {
				if a, ok := answerTo[q.kind]; ok && p.pending[q.kind] == q {
					id = a
				}
			}
		}
		mu.Lock()
		before := map[*request]int{}
		for _, o := range ps {
			for _, q := range o.all {
				before[q] = q.calls
			}
		}
		mu.Unlock()
		var ser uint16
		if body := answerBody(g, id, serial, asked); r.Intn(8) > 0 {
			ser = p.t.send(id, body)
		} else {
			// marked as a fragment of something larger, which it is not taken for
			var f []byte
			sum := uint16(1 + r.Intn(3))
			f, ser = p.t.frag(id, sum, uint16(1+r.Intn(int(sum))), body)
			p.t.c.PeerSend(f)
			rec.Count("answers_with_fragment_header", 1)
		}
		settle()
		rec.Case(fmt.Sprintf("%d/%s", i, trace[max0(len(trace)-60):]))
		note("ans %04x->%d(%v)", id, serial, hit != nil)
		mu.Lock()
		defer mu.Unlock()
		for pi, o := range ps {
			for _, q := range o.all {
				d := q.calls - before[q]
				wantN := 0
				if q == hit {
					wantN = 1
				}
				if d != wantN {
					rec.Violate("calls", "scenario %d: answer %04x quoting serial %d: the callback of request %04x (serial %d, session %d) ran %d times, want %d\n%s", i, id, serial, q.kind, q.serial, pi, d, wantN, trace)
					return false
				}
			}
		}
		if hit != nil {
			rec.Count("answered", 1)
			if hit.gotID != id || hit.gotSer != ser || hit.gotSes != p.t.icc {
				rec.Violate("content", "scenario %d: the callback got message %04x serial %d of %d, the answer was %04x serial %d of %d", i, hit.gotID, hit.gotSer, hit.gotSes, id, ser, p.t.icc)
				return false
			}
		} else {
			rec.Count("unsolicited", 1)
		}
		return true
	}
	// reuse uses up serial numbers until that of a pending request comes again
	reuse := func(p *peer) bool {
		if len(p.pending) == 0 {
			return true
		}
		var q *request
		for _, x := range p.all {
			if p.pending[x.kind] == x {
				q = x
				if r.Intn(2) == 0 {
					break
				}
			}
		}
		for m := 0; m < 600 && p.last%255+1 != q.serial; m++ {
			s, err := p.s.Send(&rawEntity{0x8f40, nil})
			if err != nil {
				rec.Violate("send", "scenario %d: Send fails: %v", i, err)
				return false
			}
			sent(p, s)
			if m%10 == 0 {
				settle()
			}
		}
		settle()
		if p.pending[q.kind] != q {
			return true
		}
		note("reuse %d", q.serial)
		rec.Count("reuses", 1)
		switch r.Intn(4) {
		case 0:
			s, err := p.s.Send(&rawEntity{0x8f40, nil})
			if err != nil {
				return true
			}
			sent(p, s)
		case 1:
			p.t.send(idUnknown, nil)
			settle()
			sent(p, lastWire(p))
		case 2:
			w.srv.Broadcast(&rawEntity{0x8f41, nil})
			settle()
			for _, o := range ps {
				sent(o, lastWire(o))
			}
		case 3:
			ask(p, kindOf(r.Intn(kinds)))
		}
		settle()
		return answer(p, q.serial)
	}
	for st := 0; st < steps; st++ {
		p := ps[r.Intn(n)]
		ok := true
		if r.Intn(40) == 0 {
			ok = reuse(p)
		}
		switch x := r.Intn(20); {
		case !ok:
		case x < 6:
			ask(p, kindOf(r.Intn(kinds)))
			for m := 0; kinds > 20 && m < 15; m++ {
				ask(p, kindOf(r.Intn(kinds)))
			}
			rec.Max("max_pending", int64(len(p.pending)))
		case x < 10: // a pending request is answered
			if len(p.all) == 0 {
				continue
			}
			q := p.all[len(p.all)-1-r.Intn(minInt(len(p.all), recent))]
			ok = answer(p, q.serial)
			if ok && r.Intn(3) == 0 {
				ok = answer(p, q.serial) // repeated
			}
		case x == 10: // an answer to anything
			ok = answer(p, uint16(r.Intn(300)))
		case x == 11:
			ok = answer(p, 0)
		case x == 12: // another session's serial, or the low byte of nothing
			if len(p.all) > 0 {
				o := ps[r.Intn(n)]
				ok = answer(o, p.all[r.Intn(len(p.all))].serial)
			}
		case x == 13:
			if len(p.all) > 0 {
				ok = answer(p, p.all[r.Intn(len(p.all))].serial|0x100<<uint(r.Intn(8)))
			}
		case x < 17: // other traffic uses serial numbers
			for m := r.Intn(20); m > 0; m-- {
				s, err := p.s.Send(&rawEntity{0x8f40, nil})
				if err != nil {
					rec.Violate("send", "scenario %d: Send fails: %v", i, err)
					ok = false
					break
				}
				sent(p, s)
				note("send=%d", s)
				if m%10 == 0 {
					settle()
				}
			}
		case x == 17: // an automatic reply
			p.t.send(idUnknown, nil)
			settle()
			sent(p, lastWire(p))
			note("auto=%d", p.last)
		case x == 18:
			w.srv.Broadcast(&rawEntity{0x8f41, nil})
			settle()
			for _, o := range ps {
				sent(o, lastWire(o))
			}
			note("broadcast")
		case x == 19:
			s, err := p.s.Request(&rawEntity{0x8f38, nil}, nil)
			if err == nil {
				sent(p, s)
				note("nilreq=%d", s)
			}
		}
		settle()
		if !ok || rec.Enough() {
			break
		}
		if lw := lastWire; p.last != 0 && r.Intn(10) == 0 && lw(p) != p.last {
			rec.Violate("serial", "scenario %d: the last message on the wire has serial %d, the call returned %d", i, lw(p), p.last)
			break
		}
	}
	if i < 2 {
		rec.Sample("%s", trace)
	}
	rec.Count("scenarios", 1)
	w.end()
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// TestC10Conc: many goroutines request, the terminal answers at once.
func TestC10Conc(t *testing.T) {
	bubble(t, func() {
		for i := 0; i < scale(40, 600) && !rec.Enough(); i++ {
			answerConcScenario(i)
		}
	})
}

func answerConcScenario(i int) {
	r := newRand("C10C", i)
	w := newWorld(go808.Options{Keepalive: 100000})
	var mu sync.Mutex
	sess := map[uint64]*go808.Session{}
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		sess[m.Header.IccID] = s
		mu.Unlock()
	})
	var received atomic.Int64
	delayAt := []string{"enqueued", "sending", "received", "none"}[r.Intn(4)]
	lr := &lockedRand{r: rand.New(rand.NewSource(r.Int63()))}
	w.mu.Lock()
	w.onPoint = func(point string, s *link.Session) {
		if point == "received" {
			received.Add(1)
		}
		if point != delayAt {
			return
		}
		if lr.Intn(6) == 0 { // let the answer overtake the call that asked
			n := received.Load()
			spinUntil(1, func() bool { return received.Load() > n })
		} else {
			jitter(lr, 30)
		}
	}
	w.mu.Unlock()
	w.mustStart()
	n := 1 + r.Intn(2)
	rounds := 25 + r.Intn(30)
	var wg sync.WaitGroup
	same := r.Intn(2) == 0
	icc := newIcc()
	for k := 0; k < n; k++ {
		if !same {
			icc = newIcc()
		}
		t := w.terminal(icc)
		t.send(2, nil)
		settle()
		s := sess[t.icc]
		// the terminal: parse what is written, answer at once
		var tmu sync.Mutex
		var buf []byte
		wire := map[uint32]chan struct{}{} // token -> closed when seen on the wire
		answered := map[uint32]uint16{}    // token -> serial of the answer message
		unasked := map[uint32]bool{}
		tr := rand.New(rand.NewSource(r.Int63()))
		t.c.mu.Lock()
		t.c.onWrite = func(b []byte) {
			tmu.Lock()
			defer tmu.Unlock()
			buf = append(buf, b...)
			fr, rest, _ := refSplit(buf)
			buf = append([]byte{}, rest...)
			for _, f := range fr {
				m, err := refParse(f)
				if err != nil {
					rec.Violate("wire", "scenario %d: broken frame %s", i, hx(f))
					continue
				}
				if m.H.ID < 0x8f00 || m.H.ID >= 0x8f40 || len(m.Body) != 5 {
					continue
				}
				tok := uint32(m.Body[0])<<24 | uint32(m.Body[1])<<16 | uint32(m.Body[2])<<8 | uint32(m.Body[3])
				if m.Body[4] == 1 {
					ids := []uint16{0x0001, 0x0805, 0x0500}
					id := ids[tr.Intn(2)]
					body := ack(m.H.Serial, m.H.ID, 0)
					if id == 0x0805 {
						body = append(u16b(m.H.Serial), 0, 0, 0)
					}
					ser := t.send(id, body)
					answered[tok] = ser
					if tr.Intn(4) == 0 {
						t.send(id, body) // the same answer again
					}
				} else {
					unasked[tok] = true
				}
				if c := wire[tok]; c != nil {
					close(c)
				}
			}
		}
		t.c.mu.Unlock()
		users := 2 + r.Intn(14)
		for u := 0; u < users; u++ {
			u := u
			ur := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				kind := uint16(0x8f00 + u)
				for m := 0; m < rounds; m++ {
					tok := uint32(u)<<16 | uint32(m+1)
					wantAnswer := ur.Intn(5) > 0
					flag := byte(0)
					if wantAnswer {
						flag = 1
					}
					seen := make(chan struct{})
					tmu.Lock()
					wire[tok] = seen
					tmu.Unlock()
					called := make(chan uint16, 8)
					serial, err := s.Request(&rawEntity{kind, append(u32b(tok), flag)}, func(a *protocol.Message) {
						called <- a.Header.MsgSerialNo
					})
					if err != nil {
						rec.Violate("request", "scenario %d: Request fails: %v", i, err)
						return
					}
					<-seen
					rec.Case(fmt.Sprintf("%d/%d/%d/%d", i, k, u, m))
					rec.Count("requests", 1)
					if !wantAnswer {
						continue
					}
					tmu.Lock()
					want := answered[tok]
					tmu.Unlock()
					var got uint16
					if !within(5e9, func() { got = <-called }) {
						rec.Violate("missed", "scenario %d (delay at %s): the answer to request %04x serial %d never reached its callback", i, delayAt, kind, serial)
						return
					}
					if got != want {
						rec.Violate("crossed", "scenario %d: the callback of request %04x serial %d got message %d, its answer was %d", i, kind, serial, got, want)
						return
					}
					rec.Count("answered", 1)
					defer func() {
						if len(called) > 0 {
							rec.Violate("twice", "scenario %d: the callback of request %04x serial %d ran again", i, kind, serial)
						}
					}()
				}
			}()
		}
	}
	wg.Wait()
	settle()
	rec.Count("scenarios", 1)
	w.end()
}
