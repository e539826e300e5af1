package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"github.com/funny/link"
)

func TestC12(t *testing.T) {
	bubble(t, func() {
		for i := 0; i < scale(500, 6000) && !rec.Enough(); i++ {
			closeScenario(i)
		}
	})
}

var closeCauses = []string{"eof", "reset", "damaged", "local", "handler", "idle", "stalled", "writefail", "oversize", "stop", "none"}

// closeNow brings a cause about (from any goroutine).
func closeNow(w *world, cause string, t *terminal, s *go808.Session, r *rand.Rand) {
	switch cause {
	case "eof":
		t.c.PeerClose(false)
	case "reset":
		t.c.PeerClose(true)
	case "damaged":
		t.c.PeerSend([]byte{0x7e, 1, 2, 3, 0x7e})
	case "local":
		if s != nil {
			s.Close()
		} else {
			t.c.PeerClose(true)
		}
	case "stalled":
		t.c.PeerStall(r.Intn(30))
		for j := 0; j < 60; j++ {
			if s != nil {
				if _, err := s.Send(&protocol.T808_0x8104{}); err != nil {
					break
				}
			}
		}
	case "writefail":
		t.c.mu.Lock()
		t.c.wErr = fmt.Errorf("write tcp: broken pipe")
		t.c.cond.Broadcast()
		t.c.mu.Unlock()
		if s != nil {
			s.Send(&protocol.T808_0x8104{})
		}
	case "oversize":
		b := make([]byte, 70000)
		b[0] = 0x7e
		t.c.PeerSend(b)
	case "stop":
		w.stop()
	}
}

func closeScenario(i int) {
	r := newRand("C12", i)
	ka := int64(3 + r.Intn(10))
	w := newWorldOr(i%7 == 6, go808.Options{Keepalive: ka})
	n := 1 + r.Intn(5)
	var mu sync.Mutex
	type peer struct {
		t      *terminal
		s      *go808.Session
		id     uint64
		cause  []string
		moment string
		in     bool // the handler saw it
	}
	byIcc := map[uint64]*peer{}
	byLink := map[uint64]*peer{}
	var order []*peer
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		p := byIcc[m.Header.IccID]
		mu.Unlock()
		if p == nil {
			return
		}
		sid := s.ID()
		mu.Lock()
		p.s, p.id, p.in = s, sid, true
		mu.Unlock()
		rec.Count("messages", 1)
		if p.moment == "handling" {
			for _, c := range p.cause {
				if c != "stop" && c != "idle" && c != "none" {
					closeNow(w, c, p.t, s, rand.New(rand.NewSource(1)))
				}
			}
		}
	})
	w.srv.AddHandler(3, func(s *go808.Session, m *protocol.Message) { s.Close() })
	moments := []string{"stmt", "stmt", "stmt", "created", "addcb", "addedcb", "receiving", "received", "sending", "enqueued", "closing", "callbacks", "handling", "quiet", "quiet", "quiet", "before", "withdata"}
	point := moments[r.Intn(len(moments))]
	useStop := false
	seq := 0
	var once sync.Map
	var hookErr string
	w.mu.Lock()
	hr := rand.New(rand.NewSource(r.Int63()))
	w.onPoint = func(pt string, ls *link.Session) {
		if pt == "created" {
			mu.Lock()
			if seq < len(order) {
				byLink[ls.ID()] = order[seq]
				order[seq].id = ls.ID()
			}
			seq++
			mu.Unlock()
		}
		mu.Lock()
		p := byLink[ls.ID()]
		mu.Unlock()
		if p == nil || pt != p.moment {
			return
		}
		if _, done := once.LoadOrStore(ls.ID(), true); done {
			return
		}
		rec.Count("closed_at_"+pt, 1)
		s, _ := w.srv.GetSession(ls.ID())
		mu.Lock()
		sub := rand.New(rand.NewSource(hr.Int63()))
		mu.Unlock()
		for _, c := range p.cause {
			c := c
			switch {
			case c == "stop":
				go w.srv.Stop()
			case pt == "closing" || pt == "callbacks":
				go closeNow(w, c, p.t, s, sub)
			default:
				go closeNow(w, c, p.t, s, rand.New(rand.NewSource(sub.Int63())))
			}
		}
		if pt == "addedcb" || pt == "receiving" {
			spinUntil(3, func() bool { return ls.IsClosed() && w.reported(ls.ID()) })
		}
		if pt == "created" || pt == "addcb" || pt == "received" || pt == "enqueued" {
			spinUntil(3, ls.IsClosed)
			jitterN(200)
		}
	}
	w.mu.Unlock()
	w.mustStart()
	for k := 0; k < n; k++ {
		p := &peer{moment: "quiet"}
		for m := 1 + r.Intn(2); m > 0; m-- {
			p.cause = append(p.cause, closeCauses[r.Intn(len(closeCauses))])
		}
		if r.Intn(2) == 0 {
			p.moment = point
		} else {
			p.moment = moments[r.Intn(len(moments))]
		}
		for _, c := range p.cause {
			if c == "stop" {
				useStop = true
			}
		}
		mu.Lock()
		order = append(order, p)
		mu.Unlock()
		p.t = &terminal{w: w, icc: newIcc()}
		byIccSet(&mu, func() { byIcc[p.t.icc] = p })
		rec.Case(fmt.Sprintf("%d/%v/%s", i, p.cause, p.moment))
		c := newMemConn()
		p.t.c = c
		has := func(x string) bool {
			for _, c := range p.cause {
				if c == x {
					return true
				}
			}
			return false
		}
		if p.moment == "before" || p.moment == "withdata" {
			if p.moment == "withdata" {
				p.t.send(2, nil)
			}
			for _, x := range p.cause {
				if x == "eof" || x == "reset" || x == "damaged" || x == "oversize" {
					closeNow(w, x, p.t, nil, r)
				}
			}
		} else {
			p.t.send(2, nil)
			if has("handler") {
				p.t.send(3, nil)
			}
		}
		w.mu.Lock()
		c.id = len(w.conns)
		w.conns = append(w.conns, c)
		ln := w.ln
		w.mu.Unlock()
		if p.moment == "stmt" && len(pointList) > 0 {
			fireAtPoint(w, p.t, func() uint64 { mu.Lock(); defer mu.Unlock(); return p.id }, p.cause, r)
		}
		if !ln.dial(c) {
			calm()
			// the server was stopped by an earlier session of this scenario
			c.Close()
			mu.Lock()
			order = order[:len(order)-1]
			mu.Unlock()
			continue
		}
		settle() // one connection at a time, so that sessions can be told apart
		calm()
		if r.Intn(2) == 0 {
			perturb(r, "session_handler", "server", "session", "timer")
		}
	}
	if hookErr != "" {
		rec.Violate("hook", "%s", hookErr)
	}
	settle()
	// the quiet ones: causes now, racing with each other
	var wg sync.WaitGroup
	var quiet []func()
	for _, p := range order {
		if p.moment == "before" || p.moment == "withdata" || p.moment == "handling" {
			continue
		}
		for _, c := range p.cause {
			c, p := c, p
			sub := rand.New(rand.NewSource(r.Int63()))
			if p.moment == "quiet" || c == "writefail" || c == "stalled" {
				quiet = append(quiet, func() { closeNow(w, c, p.t, p.s, sub) })
			}
		}
	}
	r.Shuffle(len(quiet), func(a, b int) { quiet[a], quiet[b] = quiet[b], quiet[a] })
	for _, f := range quiet {
		f := f
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
		if r.Intn(2) == 0 {
			settle()
		}
	}
	if !within(30*time.Second, wg.Wait) {
		rec.Violate("hang", "scenario %d: closing sessions hangs", i)
	}
	settle()
	// which sessions are closed now, seen from outside
	verify := func(what string) {
		live := 0
		known := map[uint64]*peer{}
		mu.Lock()
		for _, p := range order {
			known[p.id] = p
		}
		mu.Unlock()
		ids := w.createdIDs()
		for _, id := range ids {
			p := known[id]
			if p == nil {
				rec.Violate("harness", "scenario %d: unknown session %d", i, id)
				return
			}
			closed, _ := p.t.c.Closed()
			calls := w.closes(id)
			s, found := w.srv.GetSession(id)
			d := fmt.Sprintf("scenario %d, %s: session closed by %v at %q (link closed %v)", i, what, p.cause, p.moment, closed)
			if closed {
				rec.Count("closed_sessions", 1)
				if calls != 1 {
					rec.Violate("close-handler", "%s: close handler ran %d times", d, calls)
				}
				if found {
					rec.Violate("still-registered", "%s: still found by its id", d)
				}
				if p.s != nil {
					if _, err := p.s.Send(&protocol.T808_0x8104{}); err == nil {
						rec.Violate("send-after-close", "%s: sending on it succeeds", d)
					}
					if _, err := p.s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {}); err == nil {
						rec.Violate("send-after-close", "%s: a request on it succeeds", d)
					}
				}
			} else {
				live++
				rec.Count("live_sessions", 1)
				p.t.c.mu.Lock()
				fails := p.t.c.wFails
				p.t.c.mu.Unlock()
				if fails > 0 {
					rec.Violate("write-failed", "%s: writing to its connection failed %d times, but it is still open", d, fails)
				}
				if calls != 0 {
					rec.Violate("close-handler", "%s: close handler ran %d times although it is open", d, calls)
				}
				if !found {
					rec.Violate("not-registered", "%s: open but not found by its id", d)
				} else if p.s != nil && s != p.s {
					rec.Violate("other-session", "%s: lookup returns another session", d)
				}
			}
		}
		// handlers may have been given sessions that were never created
		w.mu.Lock()
		for id, c := range w.closed {
			if known[id] == nil {
				rec.Violate("foreign-close", "scenario %d: close handler ran %d times for an unknown session %d", i, c, id)
			}
		}
		w.mu.Unlock()
		stalledLive := false
		for _, p := range order {
			if c, _ := p.t.c.Closed(); !c {
				p.t.c.PeerResume()
				p.t.c.mu.Lock()
				if p.t.c.wErr != nil {
					stalledLive = true
				}
				p.t.c.mu.Unlock()
			}
		}
		settle()
		if !stalledLive {
			live = 0
			for _, p := range order {
				if c, _ := p.t.c.Closed(); !c && p.id != 0 {
					live++
				}
			}
			if c := w.srv.Broadcast(&protocol.T808_0x8104{}); c != live {
				d := ""
				for _, p := range order {
					c, _ := p.t.c.Closed()
					d += fmt.Sprintf("[%d %v at %s closed=%v] ", p.id, p.cause, p.moment, c)
				}
				rec.Violate("broadcast", "scenario %d, %s: a broadcast counts %d sessions, %d are open: %s", i, what, c, live, d)
			}
			rec.Count("broadcasts", 1)
			settle()
		}
	}
	w.mu.Lock()
	w.onPoint = nil // what follows only looks
	w.mu.Unlock()
	settle()
	verify("after the causes")
	// what is left runs into the idle timeout or the stop
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(ka+4) * time.Second)
		settle()
		for _, p := range order {
			if c, _ := p.t.c.Closed(); !c {
				rec.Violate("idle", "scenario %d: an idle session (%v at %q) is still open after %d s", i, p.cause, p.moment, ka+4)
			}
		}
		verify("after the idle timeout")
	}
	_ = useStop
	if !w.stop() {
		rec.Violate("stop", "scenario %d: Stop hangs", i)
	}
	settle()
	for _, id := range w.createdIDs() {
		if c := w.closes(id); c != 1 {
			rec.Violate("close-handler", "scenario %d: after Stop the close handler ran %d times for session %d", i, c, id)
		}
		if _, ok := w.srv.GetSession(id); ok {
			rec.Violate("still-registered", "scenario %d: session %d still registered after Stop", i, id)
		}
	}
	if c := w.srv.Broadcast(&protocol.T808_0x8104{}); c != 0 {
		rec.Violate("broadcast", "scenario %d: a broadcast counts %d sessions after Stop", i, c)
	}
	// much later still exactly once
	time.Sleep(time.Duration(ka+5) * time.Second)
	for _, id := range w.createdIDs() {
		if c := w.closes(id); c != 1 {
			rec.Violate("close-handler", "scenario %d: much later the close handler has run %d times for session %d", i, c, id)
		}
	}
	rec.Count("scenarios", 1)
	w.end()
}

// fireAtPoint lets the causes of closing happen while the library is at a
// random statement, for the connection that is being opened.
func fireAtPoint(w *world, t *terminal, id func() uint64, causes []string, r *rand.Rand) {
	var n int
	passed, _ := link.PointStats()
	where := []string{"session_handler"}
	if r.Intn(3) == 0 {
		where = []string{"server", "session", "timer"}
	}
	for try := 0; try < 1000; try++ {
		n = pointList[r.Intn(len(pointList))]
		if len(passed) > 0 && r.Intn(4) > 0 {
			n = passed[r.Intn(len(passed))]
		}
		if inFiles(pointName[n], where) {
			break
		}
	}
	var fired atomic.Bool
	skip := int32(0)
	if r.Intn(3) == 0 {
		skip = int32(r.Intn(3))
	}
	var passes atomic.Int32
	seeds := make([]int64, len(causes))
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	link.SetPoints(map[int]uint8{n: 255}, func(int) {
		if passes.Add(1) <= skip || fired.Swap(true) {
			return
		}
		rec.Count("closed_at_statement", 1)
		rec.Case("at " + pointName[n] + fmt.Sprint(causes))
		for i, c := range causes {
			c, sub := c, rand.New(rand.NewSource(seeds[i]))
			if c == "stop" {
				go w.srv.Stop()
				continue
			}
			go func() {
				s, _ := w.srv.GetSession(id())
				closeNow(w, c, t, s, sub)
			}()
		}
		spinUntil(2, func() bool { i := id(); return i != 0 && w.reported(i) })
	})
}

func byIccSet(mu *sync.Mutex, f func()) { mu.Lock(); f(); mu.Unlock() }

func jitterN(n int) {
	for i := 0; i < n; i++ {
		yieldOnce()
	}
}
