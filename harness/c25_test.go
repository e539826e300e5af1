package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// Callbacks that use the server, its sessions and the timer.

const (
	idOps  = 0x0f51 // its handler does something
	idOps2 = 0x0f52 // registered by callbacks
	idHalt = 0x0f53 // its handler stops the server
)

func TestC25(t *testing.T) {
	registerRaw(idOps, idOps2, idHalt)
	protocol.Register(idPacket, func() protocol.Entity { return &pktEntity{} })
	bubble(t, func() {
		for i := 0; i < scale(700, 6000) && !rec.Enough(); i++ {
			reenterScenario(i)
		}
		for i := 0; i < scale(250, 1500) && !rec.Enough(); i++ {
			reenterTimer(i)
		}
	})
}

type reSent struct {
	id, serial uint16
	data       string
	from       string
}

// rePeer is one terminal with what is known about its session.
type rePeer struct {
	t        *terminal
	s        atomic.Pointer[go808.Session]
	closing  atomic.Bool // somebody closes it
	budget   atomic.Int64
	mu       sync.Mutex
	sent     []reSent
	handled  int
	told     int // messages sent whose handler must run
	answered map[uint16]int
}

type reWorld struct {
	*world
	i     int
	lr    *lockedRand
	ps    []*rePeer
	mu    sync.Mutex
	byIcc map[uint64]*rePeer
	byID  map[uint64]*rePeer
	open  map[int]string // operations that have not returned
	seq   int
	nCB   atomic.Int64 // answer callbacks run
	quiet atomic.Bool
}

// op performs one operation inside a callback and watches that it returns.
func (w *reWorld) op(where, what string, f func()) {
	w.mu.Lock()
	w.seq++
	n := w.seq
	w.open[n] = what + " inside " + where
	w.mu.Unlock()
	t0 := time.Now()
	f()
	w.mu.Lock()
	delete(w.open, n)
	w.mu.Unlock()
	rec.Count("calls_inside_"+where, 1)
	if d := time.Since(t0); d > 0 && what != "Stop" {
		rec.Violate("blocked", "scenario %d: %s called inside %s took %v", w.i, what, where, d)
	}
}

// sendOp sends on the session of p in one of the ways.
func (w *reWorld) sendOp(where string, p *rePeer, way int, m *protocol.Message, depth int) {
	s := p.s.Load()
	if s == nil || p.budget.Add(-1) < 0 {
		return
	}
	var serial uint16
	var err error
	id := uint16(0x8f00 + w.lr.Intn(12))
	data := fmt.Sprintf("%d/%d", w.i, w.lr.Intn(1<<30))
	what := "Send"
	switch way {
	case 0:
		w.op(where, what, func() { serial, err = s.Send(&rawEntity{id, []byte(data)}) })
	case 1:
		what = "Reply"
		if m == nil {
			m = &protocol.Message{Header: protocol.Header{MsgID: 2, MsgSerialNo: uint16(w.lr.Intn(60000))}}
		}
		id = 0x8001
		data = string([]byte{byte(m.Header.MsgSerialNo >> 8), byte(m.Header.MsgSerialNo), byte(m.Header.MsgID >> 8), byte(m.Header.MsgID), 2})
		w.op(where, what, func() { serial, err = s.Reply(m, 2) })
	case 2:
		what = "Request"
		w.op(where, what, func() {
			serial, err = s.Request(&rawEntity{id, []byte(data)}, func(a *protocol.Message) {
				w.nCB.Add(1)
				w.something("an answer callback", s, a, depth+1)
			})
		})
	}
	if err != nil {
		if !p.closing.Load() {
			rec.Violate("refused", "scenario %d: %s inside %s on an open session fails: %v", w.i, what, where, err)
		}
		return
	}
	p.mu.Lock()
	p.sent = append(p.sent, reSent{id, serial, data, what + " inside " + where})
	p.mu.Unlock()
}

// something performs a few random operations.
func (w *reWorld) something(where string, self *go808.Session, m *protocol.Message, depth int) {
	if w.quiet.Load() || depth > 3 {
		return
	}
	w.mu.Lock()
	me := w.byID[self.ID()]
	w.mu.Unlock()
	for k := w.lr.Intn(4); k >= 0; k-- {
		p := me
		if p == nil || w.lr.Intn(3) == 0 {
			p = w.ps[w.lr.Intn(len(w.ps))]
		}
		s := p.s.Load()
		if s == nil {
			continue
		}
		switch x := w.lr.Intn(20); {
		case x < 3:
			w.sendOp(where, p, 0, m, depth)
		case x < 5:
			w.sendOp(where, p, 1, m, depth)
		case x < 9:
			w.sendOp(where, p, 2, m, depth)
		case x < 11:
			ok := true
			for _, q := range w.ps {
				if q.budget.Add(-1) < 0 {
					ok = false
				}
			}
			if ok {
				var n int
				w.op(where, "Broadcast", func() { n = w.srv.Broadcast(&rawEntity{0x8f60, []byte("b")}) })
				if n > len(w.ps) {
					rec.Violate("broadcast", "scenario %d: a broadcast inside %s counts %d of %d sessions", w.i, where, n, len(w.ps))
				}
			}
		case x < 13:
			var g *go808.Session
			var ok bool
			w.op(where, "GetSession", func() { g, ok = w.srv.GetSession(s.ID()) })
			if ok && g != s || !ok && !p.closing.Load() {
				rec.Violate("lookup", "scenario %d: looking up an open session inside %s: found %v", w.i, where, ok)
			}
		case x == 13:
			w.op(where, "AddHandler", func() {
				w.srv.AddHandler(idOps2, w.handler)
				w.srv.AddHandler(idOps, w.handler)
				w.srv.AddHandler(protocol.MsgID(0x0c00+w.lr.Intn(50)), w.handler)
			})
		case x == 14:
			w.op(where, "SetPublicKey", func() { s.SetPublicKey(s.GetPublicKey()) })
		case x == 15:
			w.op(where, "GetServer", func() {
				if s.GetServer() != w.srv {
					rec.Violate("server", "scenario %d: GetServer returns another server", w.i)
				}
				s.ID()
				w.srv.GetPrivateKey()
			})
		case x == 16 && w.lr.Intn(3) == 0:
			p.closing.Store(true)
			w.op(where, "Close", func() { s.Close() })
			rec.Count("closed_by_callbacks", 1)
		}
	}
}

func (w *reWorld) handler(s *go808.Session, m *protocol.Message) {
	w.mu.Lock()
	p := w.byIcc[m.Header.IccID]
	w.byID[s.ID()] = p
	w.mu.Unlock()
	p.s.CompareAndSwap(nil, s)
	p.mu.Lock()
	p.handled++
	p.mu.Unlock()
	w.something("a message handler", s, m, 0)
}

func reenterScenario(i int) {
	r := newRand("C25", i)
	w := &reWorld{i: i, lr: &lockedRand{r: rand.New(rand.NewSource(r.Int63()))}, byIcc: map[uint64]*rePeer{}, byID: map[uint64]*rePeer{}, open: map[int]string{}}
	var closes sync.Map
	w.world = newWorld(go808.Options{Keepalive: 600, AutoMergePacket: r.Intn(2) == 0, CloseHandler: func(s *go808.Session) {
		w.something("the close handler", s, nil, 1)
		closes.Store(s.ID(), true)
	}})
	defer func() {
		for _, p := range w.ps {
			p.closing.Store(true)
		}
		w.end()
	}()
	w.srv.AddHandler(2, w.handler)
	w.srv.AddHandler(idOps, w.handler)
	w.srv.AddHandler(idPacket, w.handler)
	if r.Intn(2) == 0 {
		w.srv.AddHandler(0x0001, func(s *go808.Session, m *protocol.Message) { w.something("a message handler", s, m, 1) })
	}
	halted := make(chan struct{}, 8)
	halt := func(where string) {
		for _, p := range w.ps {
			p.closing.Store(true)
		}
		w.op(where, "Stop", w.srv.Stop)
		halted <- struct{}{}
	}
	w.srv.AddHandler(idHalt, func(s *go808.Session, m *protocol.Message) { halt("a message handler") })
	w.mustStart()
	n := 1 + r.Intn(4)
	for k := 0; k < n; k++ {
		p := &rePeer{t: w.terminal(newIcc()), answered: map[uint16]int{}}
		w.mu.Lock()
		w.byIcc[p.t.icc] = p
		w.mu.Unlock()
		w.ps = append(w.ps, p)
	}
	w.quiet.Store(true) // until all sessions are known
	for _, p := range w.ps {
		p.t.send(2, nil)
		p.told++
	}
	settle()
	w.quiet.Store(false)
	stuck := func(when string) bool {
		time.Sleep(time.Second)
		settle()
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, o := range w.open {
			rec.Violate("stuck-call", "scenario %d, %s: %s has not returned", i, when, o)
			return true
		}
		return false
	}
	rounds := 3 + r.Intn(5)
	for x := 0; x < rounds; x++ {
		for _, p := range w.ps {
			p.budget.Store(18)
			if p.closing.Load() {
				continue
			}
			for k := 1 + r.Intn(3); k > 0; k-- {
				if r.Intn(4) == 0 { // an upload of one part
					f, _ := p.t.frag(idPacket, 1, 1, upBody(r, idPacket, 7, []byte("data")))
					p.t.c.PeerSend(f)
				} else {
					p.t.send([]uint16{idOps, 2}[r.Intn(2)], []byte("x"))
				}
				p.told++
			}
		}
		if r.Intn(3) == 0 { // a close whose handler does something
			p := w.ps[r.Intn(n)]
			if !p.closing.Swap(true) {
				switch r.Intn(3) {
				case 0:
					p.t.c.PeerClose(r.Intn(2) == 0)
				case 1:
					p.t.c.PeerSend([]byte{0x7e, 1, 2, 3, 0x7e})
				case 2:
					go p.s.Load().Close()
				}
			}
		}
		if stuck("after messages") {
			return
		}
		// the terminals answer what they were asked
		for _, p := range w.ps {
			p.budget.Store(18)
			if p.closing.Load() {
				continue
			}
			ms, ok := p.t.got()
			if !ok {
				return
			}
			for j, m := range ms {
				if m.H.ID >= 0x8f00 && m.H.ID < 0x8f10 && j >= p.answered[0] && r.Intn(5) > 0 {
					p.t.send(1, ack(m.H.Serial, m.H.ID, 0))
				}
			}
			p.answered[0] = len(ms)
		}
		if stuck("after answers") {
			return
		}
		// every message was handled, everything sent arrived
		for k, p := range w.ps {
			if p.closing.Load() {
				continue
			}
			if c, _ := p.t.c.Closed(); c {
				rec.Violate("closed", "scenario %d: session %d was closed although nobody closed it", i, k)
				continue
			}
			p.mu.Lock()
			if p.handled != p.told {
				rec.Violate("not-handled", "scenario %d: session %d: %d messages sent, %d handled", i, k, p.told, p.handled)
			}
			sent := p.sent
			p.sent = nil
			p.mu.Unlock()
			ms, _ := p.t.got()
			have := map[string]int{}
			for _, m := range ms {
				have[fmt.Sprintf("%04x/%d/%s", m.H.ID, m.H.Serial, m.Body)]++
			}
			for _, s := range sent {
				rec.Case(fmt.Sprintf("%d/%d/%04x/%s", i, k, s.id, s.data))
				if have[fmt.Sprintf("%04x/%d/%s", s.id, s.serial, s.data)] == 0 {
					rec.Violate("lost", "scenario %d: what %s sent (%04x serial %d) did not arrive", i, s.from, s.id, s.serial)
				}
			}
		}
		if rec.Enough() {
			return
		}
	}
	// a callback stops the server
	for _, p := range w.ps {
		p.budget.Store(18)
	}
	switch y := r.Intn(3); {
	case y == 0:
	default:
		var p *rePeer
		for _, q := range w.ps {
			if !q.closing.Load() {
				p = q
			}
		}
		if p == nil {
			break
		}
		if y == 1 {
			p.t.send(idHalt, nil)
		} else {
			serial, err := p.s.Load().Request(&rawEntity{0x8f70, nil}, func(*protocol.Message) { halt("an answer callback") })
			if err != nil {
				rec.Violate("refused", "scenario %d: a request on an open session fails: %v", i, err)
				return
			}
			settle()
			p.t.send(1, ack(serial, 0x8f70, 0))
		}
		ok := false
		select {
		case <-halted:
			ok = true
		case <-time.After(30 * time.Second):
		}
		rec.Count("stops_by_callbacks", 1)
		if !ok {
			rec.Violate("stop", "scenario %d: Stop inside a callback (%d) does not return", i, y)
			return
		}
		settle()
		for k, p := range w.ps {
			if c, _ := p.t.c.Closed(); !c {
				rec.Violate("stop", "scenario %d: session %d is open after a callback stopped the server", i, k)
			}
			if _, ok := closes.Load(p.s.Load().ID()); !ok {
				rec.Violate("stop", "scenario %d: session %d: no close report after a callback stopped the server", i, k)
			}
		}
	}
	rec.Count("answer_callbacks", w.nCB.Load())
	rec.Count("scenarios", 1)
	if i == 0 {
		rec.Sample("scenario %d: %d sessions, %d calls inside callbacks, %d answer callbacks", i, n, w.seq, w.nCB.Load())
	}
}

// reenterTimer: the callback of a timer re-arms its own key, arms and removes
// others, and changes the period.
func reenterTimer(i int) {
	r := newRand("C25t", i)
	period := int64(1 + r.Intn(6))
	type state struct {
		armed time.Time // zero: not armed
		p     time.Duration
		must  bool // it has to fire
	}
	var mu sync.Mutex
	st := map[string]*state{}
	p := time.Duration(period) * time.Second
	fired := 0
	var tm *go808.CountdownTimer
	arm := func(k string, now time.Time) { // holds mu
		st[k] = &state{armed: now, p: p, must: true}
	}
	keys := 2 + r.Intn(8)
	ops := 120
	tm = go808.NewCountdownTimer(period, func(k string) {
		progress.Add(1)
		now := time.Now()
		mu.Lock()
		fired++
		s := st[k]
		bad := ""
		if s == nil {
			bad = "it is not armed"
		} else if d := now.Sub(s.armed); d < s.p-time.Second || d > s.p+2*time.Second {
			bad = fmt.Sprintf("it was armed %v before with period %v", d, s.p)
		}
		delete(st, k)
		var todo []func()
		for n := r.Intn(4); n >= 0 && ops > 0; n-- {
			ops--
			o := fmt.Sprintf("k%d", r.Intn(keys))
			switch r.Intn(6) {
			case 0, 1:
				o = k
				fallthrough
			case 2:
				if s := st[o]; s != nil && now.Sub(s.armed) >= s.p-time.Second {
					continue // may be due in this very round
				}
				arm(o, now)
				todo = append(todo, func() { tm.Update(o) })
			case 3:
				if s := st[o]; s != nil && now.Sub(s.armed) >= s.p-time.Second {
					continue
				}
				delete(st, o)
				todo = append(todo, func() { tm.Remove(o) })
			case 4:
				x := int64(1 + r.Intn(6))
				p = time.Duration(x) * time.Second
				todo = append(todo, func() { tm.SetExpiration(x) })
			}
		}
		mu.Unlock()
		if bad != "" {
			rec.Violate("timer-fire", "timer %d: key %s fires but %s", i, k, bad)
		}
		for _, f := range todo {
			f()
			rec.Count("calls_inside_a_timer_callback", 1)
		}
	})
	time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
	for k := 0; k < keys; k++ {
		mu.Lock()
		arm(fmt.Sprintf("k%d", k), time.Now())
		mu.Unlock()
		tm.Update(fmt.Sprintf("k%d", k))
	}
	for x := 0; x < 400; x++ {
		time.Sleep(time.Second)
		settle()
		mu.Lock()
		left := len(st)
		late := ""
		for k, s := range st {
			if time.Since(s.armed) > s.p+3*time.Second {
				late = fmt.Sprintf("key %s was armed %v ago with period %v and has not fired", k, time.Since(s.armed), s.p)
			}
		}
		mu.Unlock()
		if late != "" {
			rec.Violate("timer-late", "timer %d: %s", i, late)
			return
		}
		if left == 0 {
			break
		}
	}
	rec.Case(fmt.Sprintf("timer %d %d %d", shard, i, fired))
	rec.Count("timer_firings", int64(fired))
}
