package harness

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"github.com/funny/link"
)

func TestC13(t *testing.T) {
	bubble(t, func() {
		for i := 0; i < scale(160, 2500) && !rec.Enough(); i++ {
			stopScenario(i)
		}
	})
}

func stopScenario(i int) {
	r := newRand("C13", i)
	slowClose := r.Intn(3) == 0
	lr := &lockedRand{r: rand.New(rand.NewSource(r.Int63()))}
	var stopping atomic.Bool
	merge := r.Intn(2) == 0
	w := newWorldOr(i%5 == 4, go808.Options{Keepalive: 600, AutoMergePacket: merge})
	doneClose := map[uint64]bool{}
	w.onClose = func(s *go808.Session) {
		if slowClose {
			spinUntil(int64(lr.Intn(4)), func() bool { return false })
		} else {
			jitter(lr, 50)
		}
		w.mu.Lock()
		doneClose[s.ID()] = true
		w.mu.Unlock()
	}
	var mu sync.Mutex
	served := map[uint64]int{}
	var inHandlerStop atomic.Bool
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		served[m.Header.IccID]++
		mu.Unlock()
		s.Reply(m, protocol.T808_0x8001ResultSuccess)
	})
	w.srv.AddHandler(3, func(s *go808.Session, m *protocol.Message) { // a slow handler
		mu.Lock()
		served[m.Header.IccID]++
		mu.Unlock()
		time.Sleep(time.Duration(1+lr.Intn(4000)) * time.Millisecond)
	})
	var handlerStopDone chan struct{}
	w.srv.AddHandler(0x0102, func(s *go808.Session, m *protocol.Message) {
		inHandlerStop.Store(true)
		w.srv.Stop()
		close(handlerStopDone)
	})
	// stopping a server that does not run does nothing
	for k := r.Intn(3); k > 0; k-- {
		if !w.stop() {
			rec.Violate("stop-idle", "scenario %d: Stop of a server that does not run hangs", i)
		}
	}
	cycles := 1 + r.Intn(4)
	for cy := 0; cy < cycles && !rec.Enough(); cy++ {
		w.hook()
		// a run that cannot listen
		if r.Intn(3) == 0 {
			var err error
			if r.Intn(2) == 0 {
				l, e := net.Listen("tcp", "0.0.0.0:0")
				if e != nil {
					panic("harness: " + e.Error())
				}
				port := l.Addr().(*net.TCPAddr).Port
				if !within(30*time.Second, func() { err = w.srv.Run("tcp", port) }) {
					rec.Violate("run-busy", "scenario %d: Run on a busy port neither fails nor returns", i)
				}
				l.Close()
			} else {
				if !within(30*time.Second, func() { err = w.srv.Run("nonsense", 0) }) {
					rec.Violate("run-busy", "scenario %d: Run on an unknown network does not return", i)
				}
			}
			rec.Count("failed_listens", 1)
			if err == nil {
				rec.Violate("run-busy", "scenario %d: Run reports success although listening failed", i)
			}
		}
		if err := w.start(); err != nil {
			rec.Violate("rerun", "scenario %d cycle %d: the stopped server does not run again: %v", i, cy, err)
			return
		}
		if r.Intn(3) == 0 && !serviceCheck(w, r, fmt.Sprintf("scenario %d cycle %d", i, cy), merge) {
			return
		}
		base := len(w.createdIDs())
		// running a second time is refused
		if r.Intn(2) == 0 {
			var err error
			if !within(10*time.Second, func() { err = w.srv.Run("tcp", 0) }) {
				rec.Violate("second-run", "scenario %d: a second Run does not return", i)
			} else if err == nil {
				rec.Violate("second-run", "scenario %d: a second Run is not refused", i)
			}
			rec.Count("second_runs", 1)
		}
		n := r.Intn(7)
		if r.Intn(50) == 0 || i == 7 && cy == 0 { // a crowd
			n = 100 + r.Intn(250)
			rec.Count("crowds", 1)
		}
		var ts []*terminal
		var states []string
		for k := 0; k < n; k++ {
			t := w.terminal(newIcc())
			if t == nil {
				rec.Violate("accept", "scenario %d cycle %d: connection refused while running", i, cy)
				continue
			}
			ts = append(ts, t)
			st := []string{"idle", "served", "midframe", "stalled", "busy", "burst", "peerclosed"}[r.Intn(7)]
			states = append(states, st)
			switch st {
			case "served":
				t.send(2, nil)
			case "midframe":
				t.send(2, nil)
				f := t.frame(2, nil)
				t.c.PeerSend(f[:1+r.Intn(len(f)-2)])
			case "stalled":
				t.c.PeerStall(0)
				t.send(2, nil)
			case "busy":
				t.send(3, nil)
			case "burst":
				for m := 0; m < 10; m++ {
					t.send(2, nil)
				}
			case "peerclosed":
				t.send(2, nil)
				t.c.PeerClose(false)
			}
			if r.Intn(2) == 0 {
				settle()
			}
		}
		settled := r.Intn(3) > 0
		if settled {
			settle()
			for k, t := range ts {
				mu.Lock()
				c := served[t.icc]
				mu.Unlock()
				if c == 0 && states[k] != "idle" && states[k] != "peerclosed" {
					rec.Violate("not-served", "scenario %d cycle %d: a %s connection is not served", i, cy, states[k])
				}
			}
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
			}
		}
		rec.Case(fmt.Sprintf("%d/%d/%.100s", i, cy, fmt.Sprint(states)))
		// sessions that exist now must be reported closed when Stop returns
		mode := r.Intn(4)
		before := w.createdIDs()[base:]
		registered := map[uint64]bool{}
		for _, id := range before {
			// a connection still being accepted is reported soon after, judged below
			if _, ok := w.srv.GetSession(id); ok && settled {
				registered[id] = true
			}
		}
		late := make(chan *memConn, 10)
		if r.Intn(2) == 0 { // connections arriving while stopping
			go func() {
				for k := 0; k < 5; k++ {
					if c := w.dial(); c != nil {
						c.PeerSend(refFrame(refHeader{ID: 2, Icc: 1}, nil))
						late <- c
					}
					jitter(lr, 100)
				}
				close(late)
			}()
		} else {
			close(late)
		}
		if r.Intn(2) == 0 {
			w.mu.Lock()
			w.onPoint = func(pt string, s *link.Session) { jitter(lr, 100) }
			w.mu.Unlock()
		}
		stopping.Store(true)
		check := func(who string) {
			for _, id := range before {
				if !registered[id] {
					continue
				}
				w.mu.Lock()
				c, d := w.closed[id], doneClose[id]
				if w.bare {
					c, d = 1, true
				}
				w.mu.Unlock()
				if c != 1 || !d {
					rec.Violate("close-before-return", "scenario %d cycle %d (%s): Stop has returned, but the close handler of an open session ran %d times (finished: %v)", i, cy, who, c, d)
				}
				if _, ok := w.srv.GetSession(id); ok {
					rec.Violate("registered", "scenario %d cycle %d: Stop has returned, but a session is still registered", i, cy)
				}
			}
			if len(registered) == len(ts) {
				for k, t := range ts {
					if c, _ := t.c.Closed(); !c {
						rec.Violate("open", "scenario %d cycle %d: Stop has returned, but a %s connection is still open", i, cy, states[k])
					}
				}
			}
		}
		ok := true
		switch {
		case mode == 0 && len(ts) > 0: // several stops at once
			rec.Count("concurrent_stops", 1)
			var wg sync.WaitGroup
			for k := 0; k < 3; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					w.srv.Stop()
					check("concurrent")
				}()
			}
			ok = within(60*time.Second, wg.Wait)
		case mode == 1 && len(ts) > 0: // stopped by a handler
			rec.Count("handler_stops", 1)
			handlerStopDone = make(chan struct{})
			t := w.terminal(newIcc())
			if t == nil {
				ok = within(60*time.Second, w.srv.Stop)
				break
			}
			t.send(0x0102, []byte("key"))
			ok = within(60*time.Second, func() { <-handlerStopDone })
			if ok {
				check("handler")
			}
		default:
			ok = within(60*time.Second, w.srv.Stop)
			if ok {
				check("plain")
			}
		}
		if !ok {
			rec.Violate("stop-hangs", "scenario %d cycle %d: Stop does not return (%d sessions, %.200s)", i, cy, n, fmt.Sprint(states))
			return
		}
		if !within(5*time.Second, func() { <-w.runErr }) {
			rec.Violate("run-returns", "scenario %d cycle %d: Run does not return after Stop", i, cy)
			return
		}
		if c := w.dial(); c != nil {
			settle()
			if cl, _ := c.Closed(); !cl {
				rec.Violate("serving", "scenario %d cycle %d: a connection is accepted after Stop", i, cy)
			}
		}
		stopping.Store(false)
		time.Sleep(6 * time.Second) // handlers and late connections finish
		settle()
		for c := range late {
			if cl, _ := c.Closed(); !cl {
				rec.Violate("late-open", "scenario %d cycle %d: a connection that arrived during Stop is still open", i, cy)
			}
			rec.Count("late_connections", 1)
		}
		for _, id := range w.createdIDs()[base:] {
			if c := w.closes(id); c != 1 {
				rec.Violate("close-handler", "scenario %d cycle %d: close handler ran %d times for a session", i, cy, c)
			}
			if _, ok := w.srv.GetSession(id); ok {
				rec.Violate("registered", "scenario %d cycle %d: a session is registered after Stop", i, cy)
			}
			rec.Count("sessions", 1)
		}
		if c := w.srv.Broadcast(&protocol.T808_0x8104{}); c != 0 {
			rec.Violate("registered", "scenario %d cycle %d: a broadcast after Stop counts %d sessions", i, cy, c)
		}
		if r.Intn(2) == 0 && !w.stop() {
			rec.Violate("stop-idle", "scenario %d: a second Stop hangs", i)
		}
		w.mu.Lock()
		w.onPoint = nil
		w.mu.Unlock()
		rec.Count("cycles", 1)
	}
	link.SetHookPoint(nil)
}

// serviceCheck uses everything a running server offers once.
func serviceCheck(w *world, r *rand.Rand, what string, merge bool) bool {
	bad := func(f string, a ...interface{}) bool {
		rec.Violate("not-normal", "%s: %s", what, fmt.Sprintf(f, a...))
		return false
	}
	var mu sync.Mutex
	var got []string
	var sess *go808.Session
	icc := newIcc()
	w.srv.AddHandler(0x0200, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		defer mu.Unlock()
		if m.Header.IccID == icc {
			sess = s
			got = append(got, "location")
		}
	})
	w.srv.AddHandler(0x0801, func(s *go808.Session, m *protocol.Message) {
		data, err := io.ReadAll(m.Body.(protocol.EntityPacket).GetReader())
		mu.Lock()
		defer mu.Unlock()
		if m.Header.IccID == icc {
			got = append(got, fmt.Sprintf("upload %q %v", data, err))
		}
	})
	t := w.terminal(icc)
	if t == nil {
		return bad("connection refused")
	}
	g := &gen{r: r, small: true}
	_, loc := schemaOf(0x0200).gen(g)
	t.send(0x0200, loc)
	settle()
	mu.Lock()
	s := sess
	mu.Unlock()
	if s == nil {
		return bad("a message is not handled")
	}
	if x, ok := w.srv.GetSession(s.ID()); !ok || x != s {
		return bad("the session is not registered")
	}
	ser := t.send(idUnknown, nil)
	answered := 0
	req, err := s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) { mu.Lock(); answered++; mu.Unlock() })
	if err != nil {
		return bad("a request fails: %v", err)
	}
	t.send(1, ack(req, 0x8104, 0))
	if n := w.srv.Broadcast(&protocol.T808_0x8104{}); n != 1 {
		return bad("a broadcast counts %d sessions, 1 is open", n)
	}
	settle()
	mu.Lock()
	if answered != 1 {
		mu.Unlock()
		return bad("an answer reached its callback %d times", answered)
	}
	mu.Unlock()
	ms, _ := t.got()
	var ids []string
	for _, m := range ms {
		if rp, ok := parseReply(m); ok {
			ids = append(ids, fmt.Sprintf("reply %d %04x %d", rp.Serial, rp.ID, rp.Result))
		} else {
			ids = append(ids, fmt.Sprintf("%04x", m.H.ID))
		}
	}
	have := map[string]int{}
	for _, x := range ids {
		have[x]++
	}
	if want := fmt.Sprintf("reply %d %04x 3", ser, idUnknown); len(ids) != 3 || have[want] != 1 || have["8104"] != 2 {
		return bad("the terminal got %v, want %q and two requests", ids, want)
	}
	if merge {
		head := append(u32b(r.Uint32()), 0, 0, 0, 0)
		loc28 := make([]byte, 28)
		copy(loc28[22:], []byte{0x20, 1, 2, 3, 4, 5})
		for q := uint16(2); q > 0; q-- {
			f, _ := t.frag(0x0801, 2, q, append(append(append([]byte{}, head...), loc28...), byte('0'+q)))
			t.c.PeerSend(f)
		}
		settle()
		mu.Lock()
		if last := got[len(got)-1]; last != `upload "12" <nil>` {
			mu.Unlock()
			return bad("a merged upload is delivered as %v", got)
		}
		mu.Unlock()
	}
	last := time.Now()
	time.Sleep(610 * time.Second) // the keepalive time is 600 s
	settle()
	if c, at := t.c.Closed(); !c || at.Sub(last) < 599*time.Second || at.Sub(last) > 602*time.Second {
		return bad("an idle session is closed: %v, after %v (keepalive 600 s)", c, at.Sub(last))
	}
	rec.Count("service_checks", 1)
	return true
}

// TestC13TCP does the same on real sockets.
func TestC13TCP(t *testing.T) {
	for i := 0; i < scale(6, 40) && !rec.Enough(); i++ {
		tcpScenario(i)
	}
}

func tcpScenario(i int) {
	r := newRand("C13TCP", i)
	perturb(newRand("C13TCPp", i))
	addrs := make(chan net.Addr, 10)
	link.SetHookPoint(nil)
	link.HookListener = func(l net.Listener) net.Listener {
		addrs <- l.Addr()
		return l
	}
	defer func() { link.HookListener = nil }()
	var closes atomic.Int64
	srv, err := go808.NewServer(go808.Options{CloseHandler: func(*go808.Session) { closes.Add(1) }})
	if err != nil {
		panic("harness: " + err.Error())
	}
	srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) { s.Reply(m, 0) })
	real := func(f func()) bool {
		c := make(chan struct{})
		go func() { defer close(c); f() }()
		select {
		case <-c:
			return true
		case <-time.After(40 * time.Second):
			return false
		}
	}
	port := 0
	for cy := 0; cy < 3; cy++ {
		runErr := make(chan error, 1)
		go func() { runErr <- srv.Run("tcp", port) }()
		var addr *net.TCPAddr
		select {
		case a := <-addrs:
			addr = a.(*net.TCPAddr)
		case err := <-runErr:
			rec.Violate("rerun", "real sockets, cycle %d: the server does not run (port %d): %v", cy, port, err)
			return
		case <-time.After(40 * time.Second):
			rec.Violate("rerun", "real sockets, cycle %d: the server does not listen", cy)
			return
		}
		port = addr.Port
		if err := srv.Run("tcp", 0); err == nil {
			rec.Violate("second-run", "real sockets: a second Run is not refused")
			return
		}
		n := 1 + r.Intn(6)
		before := closes.Load()
		var conns []net.Conn
		for k := 0; k < n; k++ {
			c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
			if err != nil {
				rec.Violate("accept", "real sockets, cycle %d: %v", cy, err)
				return
			}
			conns = append(conns, c)
			c.Write(refFrame(refHeader{ID: 2, Icc: newIcc(), Serial: 9}, nil))
			c.SetReadDeadline(time.Now().Add(30 * time.Second))
			buf := make([]byte, 100)
			m, err := c.Read(buf)
			if err != nil {
				rec.Violate("not-served", "real sockets, cycle %d: no reply: %v", cy, err)
				return
			}
			if fr, _, _ := refSplit(buf[:m]); len(fr) == 1 {
				rec.Count("tcp_replies", 1)
			}
		}
		rec.Case(fmt.Sprintf("tcp %d/%d/%d", i, cy, n))
		if !real(srv.Stop) {
			rec.Violate("stop-hangs", "real sockets, cycle %d: Stop does not return", cy)
			return
		}
		if d := closes.Load() - before; d != int64(n) {
			rec.Violate("close-before-return", "real sockets, cycle %d: Stop has returned, close handlers ran %d times for %d sessions", cy, d, n)
		}
		if !real(func() { <-runErr }) {
			rec.Violate("run-returns", "real sockets, cycle %d: Run does not return after Stop", cy)
			return
		}
		for _, c := range conns {
			c.SetReadDeadline(time.Now().Add(30 * time.Second))
			if _, err := io.ReadAll(c); err != nil {
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					rec.Violate("open", "real sockets, cycle %d: a connection is still open after Stop", cy)
				}
			}
			c.Close()
		}
		if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 5*time.Second); err == nil {
			c.Close()
			rec.Violate("serving", "real sockets, cycle %d: a connection is accepted after Stop", cy)
		}
		rec.Count("tcp_cycles", 1)
	}
}

// TestC13Restart starts the server again the moment one of several concurrent
// Stops has returned, while the others may still be at work.
func TestC13Restart(t *testing.T) {
	bubble(t, func() {
		for i := 0; i < scale(500, 8000) && !rec.Enough(); i++ {
			restartScenario(i)
		}
	})
}

func restartScenario(i int) {
	r := newRand("C13Restart", i)
	w := newWorldOr(i%5 == 4, go808.Options{Keepalive: 600})
	lr := &lockedRand{r: rand.New(rand.NewSource(r.Int63()))}
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) { s.Reply(m, 0) })
	run := func() (*memListener, chan error, error) {
		w.hook()
		errc := make(chan error, 1)
		go func() { errc <- w.srv.Run("tcp", 0) }()
		select {
		case m := <-w.lnGot:
			w.mu.Lock()
			w.ln = m
			w.mu.Unlock()
			return m, errc, nil
		case err := <-errc:
			return nil, errc, fmt.Errorf("Run: %v", err)
		}
	}
	_, errc, err := run()
	if err != nil {
		rec.Violate("rerun", "restart %d: the server does not run: %v", i, err)
		return
	}
	for cy := 0; cy < 3 && !rec.Enough(); cy++ {
		if r.Intn(3) > 0 {
			perturb(r, "server")
		} else {
			calm()
		}
		var ts []*terminal
		for k := r.Intn(3); k > 0; k-- {
			if t := w.terminal(newIcc()); t != nil {
				t.send(2, nil)
				ts = append(ts, t)
			}
		}
		if r.Intn(2) == 0 {
			settle()
		}
		stops := 2 + r.Intn(3)
		done := make(chan struct{}, stops)
		for k := 0; k < stops; k++ {
			pause := r.Intn(3) == 0
			go func() {
				if pause {
					jitter(lr, 50)
				}
				w.srv.Stop()
				done <- struct{}{}
			}()
		}
		left := stops
		wait := func() bool {
			if !within(60*time.Second, func() { <-done }) {
				rec.Violate("stop-hangs", "restart %d: a Stop concurrent with others does not return", i)
				return false
			}
			left--
			return true
		}
		for first := 1 + r.Intn(stops); stops-left < first; {
			if !wait() {
				return
			}
		}
		if !within(5*time.Second, func() { <-errc }) {
			rec.Violate("run-returns", "restart %d: Run does not return after Stop", i)
			return
		}
		overlapping := left
		if _, errc, err = run(); err != nil {
			rec.Violate("rerun", "restart %d: after a Stop has returned (%d others still at work) the server does not run again: %v", i, left, err)
			return
		}
		for left > 0 {
			if !wait() {
				return
			}
		}
		settle()
		for _, t := range ts {
			if c, _ := t.c.Closed(); !c {
				rec.Violate("open", "restart %d: all Stops have returned, but a connection is still open", i)
			}
		}
		rec.Count("restarts", 1)
		rec.Case(fmt.Sprintf("restart %d/%d/%d/%d", i, cy, stops, overlapping))
		if overlapping > 0 {
			rec.Count("restarts_during_stop", 1)
		}
		select {
		case <-errc: // a Stop that began late stopped the new run
			rec.Count("stopped_again", 1)
			if _, errc, err = run(); err != nil {
				rec.Violate("rerun", "restart %d: the stopped server does not run again: %v", i, err)
				return
			}
			continue
		default:
		}
		// the new run is a run like any other
		var again error
		if !within(10*time.Second, func() { again = w.srv.Run("tcp", 0) }) || again == nil {
			rec.Violate("second-run", "restart %d: a second Run is not refused after a restart during concurrent Stops", i)
			return
		}
		t := w.terminal(newIcc())
		if t == nil {
			rec.Violate("accept", "restart %d: the restarted server refuses a connection", i)
			return
		}
		t.send(2, nil)
		settle()
		if ms, _ := t.got(); len(ms) != 1 {
			rec.Violate("not-served", "restart %d: the restarted server sent %d replies, want 1", i, len(ms))
			return
		}
		if !w.stop() {
			rec.Violate("stop-hangs", "restart %d: the restarted server cannot be stopped", i)
			return
		}
		if !within(5*time.Second, func() { <-errc }) {
			rec.Violate("run-returns", "restart %d: Run goes on after the restarted server was stopped", i)
			return
		}
		if c, _ := t.c.Closed(); !c {
			rec.Violate("open", "restart %d: a connection to the restarted server is open after Stop", i)
			return
		}
		if _, errc, err = run(); err != nil {
			rec.Violate("rerun", "restart %d: the stopped server does not run again: %v", i, err)
			return
		}
	}
	calm()
	go func() { <-errc }()
	w.end()
}
