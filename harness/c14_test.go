package harness

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"sync"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

func TestC14(t *testing.T) {
	registerRaw(idCustomA, idNoHandle)
	bubble(t, func() {
		ks := []int64{3600, 0, -5, 60, 600, 1, 2, 3, 4, 5, 7, 10, 15, 20, 30, 45}
		for i := 0; i < scale(52, 120) && !rec.Enough(); i++ {
			k := ks[(i+shard*3)%len(ks)]
			if k >= 600 && i > 2 {
				k = int64(2 + i%9)
			}
			idleScenario(i, k)
		}
		for i := 0; i < scale(4, 12) && !rec.Enough(); i++ {
			idleCrowd(i)
		}
		for i := 0; i < scale(60, 200) && !rec.Enough(); i++ {
			idleCascade(i)
		}
		for i, k := range []int64{math.MaxInt64, math.MaxInt64 - 5, 1 << 62, 1 << 40, 1 << 32, 1 << 31} {
			idleForever(i, k)
		}
	})
}

func idleScenario(i int, conf int64) {
	r := newRand("C14", i)
	g := &gen{r: r, small: true}
	merge := r.Intn(2) == 0
	w := newWorldOr(i%3 == 2, go808.Options{Keepalive: conf, AutoMergePacket: merge})
	k := conf
	if k <= 0 {
		k = 60 // the documented default
	}
	ka := time.Duration(k) * time.Second
	var mu sync.Mutex
	sess := map[uint64]*go808.Session{}
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		sess[m.Header.IccID] = s
		mu.Unlock()
	})
	w.srv.AddHandler(idCustomA, func(s *go808.Session, m *protocol.Message) { panic("deliberate-panic handler") })
	w.srv.AddHandler(0x0200, func(s *go808.Session, m *protocol.Message) { s.Reply(m, 0) })
	time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond) // tickers out of phase
	w.mustStart()
	for r.Intn(4) == 0 { // not its first run
		if !w.stop() || !within(30*time.Second, func() { <-w.runErr }) {
			rec.Violate("restart", "scenario %d: the server does not stop", i)
			return
		}
		w.mustStart()
		rec.Count("restarts", 1)
	}
	time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
	type peer struct {
		t        *terminal
		start    time.Time
		last     time.Time
		how      string
		quiet    bool // sends nothing at all
		kinds    []int
		hist     []string
		until    time.Time
		outgoing bool
	}
	n := 3 + r.Intn(8)
	icc := iccPool(r)
	ps := make([]*peer, n)
	var wg sync.WaitGroup
	t0 := time.Now()
	span := time.Duration(2+r.Intn(4)) * ka
	for q := range ps {
		p := &peer{quiet: r.Intn(6) == 0, outgoing: r.Intn(4) == 0}
		// some sessions use only one kind of message
		all := []int{0, 1, 2, 3, 4, 5, 6, 7}
		if r.Intn(3) > 0 {
			all = []int{r.Intn(8)}
		}
		p.kinds = all
		ps[q] = p
		pr := rand.New(rand.NewSource(r.Int63()))
		gg := &gen{r: pr, small: true}
		delay := time.Duration(r.Int63n(int64(ka)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(delay)
			p.t = w.terminal(icc())
			p.start, p.last = time.Now(), time.Now()
			if p.quiet {
				return
			}
			p.until = t0.Add(span + time.Duration(pr.Int63n(int64(ka))))
			nseq := uint16(0)
			for time.Now().Before(p.until) {
				if k < 2 {
					break
				}
				// the gap is at least one second shorter than the keepalive time
				gap := time.Duration(pr.Int63n(int64(ka - time.Second + 1)))
				switch pr.Intn(4) {
				case 0:
					gap = ka - time.Second
				case 1:
					gap = time.Duration(pr.Int63n(int64(time.Second)))
					if gap > ka-time.Second {
						gap = ka - time.Second
					}
				}
				if k > 100 && gap < ka/3 {
					gap = ka / 3
				}
				time.Sleep(gap)
				kind := p.kinds[pr.Intn(len(p.kinds))]
				icc := p.t.icc
				h := refHeader{Icc: icc, Serial: p.t.next()}
				var f []byte
				switch kind {
				case 0:
					h.ID = 2
					f = refFrame(h, nil)
				case 1: // no handler
					h.ID = idNoHandle
					f = refFrame(h, rBody(pr, 5))
				case 2: // unknown
					h.ID = idUnknown
					f = refFrame(h, rBody(pr, 5))
				case 3: // a fragment, the upload never completes
					h.ID, h.Frag, h.Sum = 0x0801, true, 900
					nseq = nseq%800 + 1
					h.Seq = nseq
					_, body := schemaOf(0x0801).gen(gg)
					f = refFrame(h, body)
				case 4: // handler panics
					h.ID = idCustomA
					f = refFrame(h, nil)
				case 5: // answer nobody asked for
					h.ID = 1
					f = refFrame(h, ack(7, 0x8104, 0))
				case 6: // wrong length
					h.ID = 2
					f = refSeal(refContent(h, []byte{1, 2}, 9))
				case 7:
					h.ID = 0x0200
					_, body := schemaOf(0x0200).gen(gg)
					f = refFrame(h, body)
				}
				p.last = time.Now()
				p.hist = append(p.hist, fmt.Sprintf("%v:%d", p.last.Sub(p.start), kind))
				p.t.c.PeerSend(chop(pr, f)...)
				rec.Count(fmt.Sprintf("kind_%d", kind), 1)
				rec.Case(fmt.Sprintf("%d/%d/%d", i, q, len(p.hist)))
				settleLater()
				if c, at := p.t.c.Closed(); c {
					rec.Violate("closed-active", "scenario %d (keepalive %d s): session closed at %v although it sent messages at %v (kinds %v)", i, k, at.Sub(p.start), p.hist, p.kinds)
					return
				}
			}
		}()
		// the platform talking does not keep a session alive
		if p.outgoing {
			go func() {
				for x := 0; x < 2000; x++ {
					time.Sleep(time.Second)
					mu.Lock()
					var s *go808.Session
					if p.t != nil {
						s = sess[p.t.icc]
					}
					mu.Unlock()
					if s != nil {
						if _, err := s.Send(&protocol.T808_0x8104{}); err != nil {
							return
						}
					}
					if c := p.t; c != nil {
						if cl, _ := c.c.Closed(); cl {
							return
						}
					}
				}
			}()
		}
	}
	// others come and go
	vr := rand.New(rand.NewSource(r.Int63()))
	wg.Add(1)
	go func() {
		defer wg.Done()
		for x := 0; x < 6; x++ {
			time.Sleep(time.Duration(vr.Int63n(int64(ka))))
			t := w.terminal(newIcc())
			if t == nil {
				return
			}
			t.send(2, nil)
			time.Sleep(300 * time.Millisecond)
			t.c.PeerClose(x%2 == 0)
		}
	}()
	_ = g
	wg.Wait()
	time.Sleep(ka + 8*time.Second)
	settle()
	for q, p := range ps {
		c, at := p.t.c.Closed()
		if !c {
			rec.Violate("never-closed", "scenario %d (keepalive %d s): session %d sent its last message (or connected) %v ago and is still open; kinds %v quiet %v", i, k, q, time.Since(p.last), p.kinds, p.quiet)
			continue
		}
		d := at.Sub(p.last)
		if d < ka-time.Second || d > ka+2*time.Second {
			rec.Violate("when", "scenario %d: keepalive %d s, session closed %v after its last message; history %v", i, k, d, tail(p.hist, 30))
		}
		rec.Count("timeouts_checked", 1)
		rec.Case(fmt.Sprintf("%d/%v", k, d))
	}
	for _, id := range w.createdIDs() {
		if cnt := w.closes(id); cnt != 1 {
			rec.Violate("close-handler", "scenario %d: close handler calls %d", i, cnt)
		}
	}
	if i == 0 {
		var ds []string
		for _, p := range ps {
			_, at := p.t.c.Closed()
			ds = append(ds, at.Sub(p.last).String())
		}
		sort.Strings(ds)
		rec.Sample("keepalive %d s: idle times at close %v", k, ds)
	}
	rec.Count("scenarios", 1)
	w.end()
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// settleLater gives the server a moment of virtual time; Wait may only be used
// by one goroutine at a time.
func settleLater() { time.Sleep(time.Microsecond) }

// idleForever: a keepalive time so long that it never runs out.
func idleForever(i int, k int64) {
	w := newWorld(go808.Options{Keepalive: k})
	w.mustStart()
	var ts []*terminal
	for q := 0; q < 3; q++ {
		ts = append(ts, w.terminal(newIcc()))
		if q > 0 {
			ts[q].send(2, nil)
		}
	}
	time.Sleep(2 * time.Hour)
	settle()
	for q, t := range ts {
		rec.Case(fmt.Sprintf("forever %d/%d", k, q))
		if c, _ := t.c.Closed(); c {
			rec.Violate("closed-early", "keepalive %d s: a session was closed within two hours", k)
		}
		rec.Count("long_keepalives", 1)
	}
	w.end()
}

// idleCrowd: very many sessions that fall silent at the same time.
func idleCrowd(i int) {
	r := newRand("C14crowd", i)
	k := int64(2 + r.Intn(20))
	ka := time.Duration(k) * time.Second
	w := newWorldOr(i%2 == 1, go808.Options{Keepalive: k})
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {})
	w.mustStart()
	time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
	n := []int{70, 150, 300, 700}[r.Intn(4)]
	icc := iccPool(r)
	ts := make([]*terminal, n)
	last := make([]time.Time, n)
	for q := range ts {
		ts[q] = w.terminal(icc())
	}
	rounds := 1 + r.Intn(3)
	for x := 0; x < rounds; x++ {
		for q, t := range ts {
			t.send(2, nil)
			last[q] = time.Now()
			if r.Intn(50) == 0 {
				time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			}
		}
		if x+1 < rounds && k > 2 {
			time.Sleep(time.Duration(r.Int63n(int64(ka - 2*time.Second))))
		}
	}
	time.Sleep(ka + 8*time.Second)
	settle()
	for q, t := range ts {
		c, at := t.c.Closed()
		d := at.Sub(last[q])
		rec.Case(fmt.Sprintf("crowd %d/%d/%d", k, n, q))
		if !c {
			rec.Violate("never-closed", "crowd of %d sessions, keepalive %d s: one is still open", n, k)
		} else if d < ka-time.Second || d > ka+2*time.Second {
			rec.Violate("when", "crowd of %d sessions, keepalive %d s: session %d closed %v after its last message", n, k, q, d)
		}
		rec.Count("timeouts_checked", 1)
	}
	w.end()
}

// idleCascade: sessions that fall silent together, and close handlers that
// close others of them.
func idleCascade(i int) {
	r := newRand("C14cascade", i)
	lr := &lockedRand{r: rand.New(rand.NewSource(r.Int63()))}
	k := int64(2 + r.Intn(12))
	ka := time.Duration(k) * time.Second
	var mu sync.Mutex
	var all []*go808.Session
	early := map[uint64]bool{} // may be closed early by a handler
	var w *world
	w = newWorld(go808.Options{Keepalive: k, CloseHandler: func(s *go808.Session) {
		mu.Lock()
		var who []*go808.Session
		for _, x := range all {
			if early[x.ID()] && lr.Intn(3) == 0 {
				who = append(who, x)
			}
		}
		mu.Unlock()
		for _, x := range who {
			rec.Count("closed_by_close_handlers", 1)
			switch lr.Intn(4) {
			case 0:
				go x.Close()
			case 1:
				if y, ok := w.srv.GetSession(x.ID()); ok {
					y.Close()
				}
			default:
				x.Close()
			}
		}
	}})
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {})
	w.srv.AddHandler(idCustomA, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		all = append(all, s)
		early[s.ID()] = string(m.Body.(*rawEntity).Data) == "early"
		mu.Unlock()
	})
	w.mustStart()
	time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
	n := 2 + r.Intn(20)
	icc := iccPool(r)
	type one struct {
		t     *terminal
		early bool
		last  time.Time
	}
	ps := make([]*one, n)
	for q := range ps {
		ps[q] = &one{t: w.terminal(icc()), early: r.Intn(3) > 0}
		b := []byte("x")
		if ps[q].early {
			b = []byte("early")
		}
		ps[q].t.send(idCustomA, b)
		ps[q].last = time.Now()
		settle()
	}
	active := r.Intn(2) == 0 && k > 2 // the others go on
	if active {
		for x := 0; x < 6; x++ {
			time.Sleep(ka / 3)
			for _, p := range ps {
				if !p.early {
					p.t.send(2, nil)
					p.last = time.Now()
				}
			}
		}
	}
	time.Sleep(2*ka + 14*time.Second)
	settle()
	for q, p := range ps {
		c, at := p.t.c.Closed()
		d := at.Sub(p.last)
		rec.Case(fmt.Sprintf("cascade %d/%v/%d", k, d, n))
		if !c {
			rec.Violate("never-closed", "cascade %d of %d sessions, keepalive %d s: session %d is still open %v after its last message", i, n, k, q, time.Since(p.last))
		} else if d > ka+2*time.Second || d < ka-time.Second && !p.early {
			rec.Violate("when", "cascade %d of %d sessions, keepalive %d s: session %d closed %v after its last message", i, n, k, q, d)
		}
		rec.Count("timeouts_checked", 1)
	}
	for _, id := range w.createdIDs() {
		if cnt := w.closes(id); cnt != 1 {
			rec.Violate("close-handler", "cascade %d: close handler calls %d", i, cnt)
		}
	}
	w.end()
}
