package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

func TestC21(t *testing.T) {
	registerRaw(idCustomA, idCustomB)
	bubble(t, func() {
		for i := 0; i < scale(700, 8000) && !rec.Enough(); i++ {
			stallScenario(i)
		}
	})
}

func stallScenario(i int) {
	r := newRand("C21", i)
	ka := int64(4 + r.Intn(20))
	w := newWorldOr(i%5 == 4, go808.Options{Keepalive: ka})
	defer w.end()
	var mu sync.Mutex
	sess := map[uint64]*go808.Session{}
	heard := map[uint64][]string{} // what handlers got
	var slow atomic.Int64          // calls that took time
	calls := func(what string, f func()) {
		t0 := time.Now()
		ok := within(30*time.Second, f)
		rec.Count("calls", 1)
		if d := time.Since(t0); !ok || d > 0 {
			slow.Add(1)
			rec.Violate("blocked", "scenario %d: %s took %v (returned %v) while a terminal was not reading", i, what, d, ok)
		}
	}
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		sess[m.Header.IccID] = s
		mu.Unlock()
	})
	w.srv.AddHandler(idCustomA, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		heard[m.Header.IccID] = append(heard[m.Header.IccID], string(m.Body.(*rawEntity).Data))
		mu.Unlock()
		t0 := time.Now()
		s.Reply(m, 0)
		if d := time.Since(t0); d > 0 {
			rec.Violate("blocked", "scenario %d: replying took %v", i, d)
		}
	})
	w.mustStart()
	jitterHooks(w, r, 30)
	nStall, nGood := 1+r.Intn(3), 1+r.Intn(3)
	var bad, good []*terminal
	for k := 0; k < nStall; k++ {
		bad = append(bad, w.terminal(newIcc()))
	}
	for k := 0; k < nGood; k++ {
		good = append(good, w.terminal(newIcc()))
	}
	for _, t := range append(append([]*terminal{}, bad...), good...) {
		t.send(2, nil)
	}
	settle()
	S := func(t *terminal) *go808.Session {
		mu.Lock()
		defer mu.Unlock()
		return sess[t.icc]
	}
	for _, t := range append(append([]*terminal{}, bad...), good...) {
		if S(t) == nil {
			rec.Violate("setup", "scenario %d: first message not dispatched", i)
			return
		}
	}
	if r.Intn(4) == 0 {
		for _, t := range append(append([]*terminal{}, bad...), good...) {
			if r.Intn(2) == 0 {
				w.twin(t)
			}
		}
		settle()
	}
	start := time.Now()
	for _, t := range bad {
		t.c.PeerStall(r.Intn(120)) // often in the middle of a frame
		rec.Case(fmt.Sprintf("%d/%d", i, t.icc))
	}
	failed := map[*terminal]bool{}
	sent := map[*terminal]int{}
	expect := map[uint64][]string{}
	wantGood := map[uint64]int{}
	answered := map[uint64]int{}
	lastRecv := map[*terminal]time.Time{}
	for _, t := range append(append([]*terminal{}, bad...), good...) {
		lastRecv[t] = start
	}
	one := func(t *terminal, kind int) error {
		s := S(t)
		var err error
		what := ""
		f := func() {}
		switch kind {
		case 0, 1:
			what = "Send"
			f = func() { _, err = s.Send(&rawEntity{idCustomB, []byte("data")}) }
		case 2:
			what = "Request"
			f = func() { _, err = s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {}) }
		case 3:
			what = "Reply"
			f = func() { _, err = s.Reply(&protocol.Message{Header: protocol.Header{MsgID: 2, MsgSerialNo: 1}}, 0) }
		}
		calls(what, f)
		return err
	}
	check := func(when string) {
		settle()
		for _, t := range bad {
			c, at := t.c.Closed()
			if failed[t] && !c {
				rec.Violate("not-closed", "scenario %d, %s: sending to the stalled terminal failed after %d messages but its session is not closed", i, when, sent[t])
			}
			if c {
				id := S(t).ID()
				if n := w.closes(id); n != 1 {
					rec.Violate("close-handler", "scenario %d, %s: close handler ran %d times for the stalled session", i, when, n)
				}
				if _, ok := w.srv.GetSession(id); ok {
					rec.Violate("registered", "scenario %d, %s: the closed stalled session is still registered", i, when)
				}
				if _, err := S(t).Send(&rawEntity{idCustomB, nil}); err == nil {
					rec.Violate("send-closed", "scenario %d, %s: sending on the closed session succeeds", i, when)
				}
				t.c.mu.Lock()
				bw := t.c.blocked
				t.c.mu.Unlock()
				if bw != 0 {
					rec.Violate("still-waiting", "scenario %d, %s: %d writers still wait on the closed connection", i, when, bw)
				}
				_ = at
				rec.Count("stalled_closed", 1)
			}
		}
		for _, t := range good {
			if c, _ := t.c.Closed(); c {
				rec.Violate("good-closed", "scenario %d, %s: the session of a terminal that reads was closed", i, when)
				continue
			}
			msgs, ok := t.got()
			if !ok {
				continue
			}
			nb, na := 0, 0
			for _, m := range msgs {
				if m.H.ID == idCustomB || m.H.ID == 0x8104 {
					nb++
				} else if m.H.ID == 0x8001 {
					na++
				}
			}
			if nb != wantGood[t.icc] {
				rec.Violate("delayed", "scenario %d, %s: a terminal that reads got %d of %d messages", i, when, nb, wantGood[t.icc])
			}
			if na != answered[t.icc] {
				rec.Violate("delayed", "scenario %d, %s: a terminal that reads got %d of %d replies", i, when, na, answered[t.icc])
			}
		}
		mu.Lock()
		for _, t := range append(append([]*terminal{}, bad...), good...) {
			if c, _ := t.c.Closed(); c {
				continue
			}
			if fmt.Sprint(heard[t.icc]) != fmt.Sprint(expect[t.icc]) {
				rec.Violate("reception", "scenario %d, %s: messages received from a terminal: %v, sent: %v", i, when, heard[t.icc], expect[t.icc])
			}
		}
		mu.Unlock()
	}
	hear := func(t *terminal) {
		if c, _ := t.c.Closed(); c {
			return
		}
		text := fmt.Sprintf("m%d", t.serial)
		t.send(idCustomA, []byte(text))
		expect[t.icc] = append(expect[t.icc], text)
		lastRecv[t] = time.Now()
		settle()
	}
	flood := r.Intn(4) // 0: never fills the queue
	steps := 60 + r.Intn(120)
	nBad := 0
	for step := 0; step < steps && !rec.Enough(); step++ {
		switch k := r.Intn(20); {
		case k < 8:
			t := bad[r.Intn(nStall)]
			if flood == 0 && sent[t] > 10 {
				continue
			}
			sent[t]++
			if err := one(t, r.Intn(4)); err != nil {
				failed[t] = true
				nBad++
			} else if failed[t] {
				rec.Violate("after-failure", "scenario %d: sending succeeds after it failed for a full queue", i)
			}
		case k < 11:
			t := good[r.Intn(nGood)]
			kind := r.Intn(4)
			if err := one(t, kind); err != nil {
				rec.Violate("good-fails", "scenario %d: sending to a terminal that reads fails: %v", i, err)
			}
			if kind == 3 {
				answered[t.icc]++
			} else {
				wantGood[t.icc]++
			}
			settle()
		case k < 13:
			n := 0
			if flood == 0 {
				continue
			}
			calls("Broadcast", func() { n = w.srv.Broadcast(&rawEntity{idCustomB, []byte("all")}) })
			if n < nGood {
				rec.Violate("broadcast", "scenario %d: a broadcast counts %d, %d terminals read", i, n, nGood)
			}
			for _, t := range good {
				wantGood[t.icc]++
			}
			for _, t := range bad {
				sent[t]++
			}
			settle()
		case k < 15:
			t := good[r.Intn(nGood)]
			hear(t)
			answered[t.icc]++
		case k == 15:
			t := bad[r.Intn(nStall)]
			if c, _ := t.c.Closed(); !c && (flood != 0 || sent[t] <= 10) {
				sent[t]++
				hear(t)
			}
		case k == 16:
			// concurrent senders to a stalled one
			t := bad[r.Intn(nStall)]
			if flood == 0 {
				continue
			}
			var wg sync.WaitGroup
			for q := 0; q < 4; q++ {
				sub := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for z := 0; z < 3; z++ {
						one(t, sub.Intn(4))
					}
				}()
			}
			sent[t] += 12
			if !within(60*time.Second, wg.Wait) {
				rec.Violate("blocked", "scenario %d: concurrent senders to a stalled terminal do not return", i)
			}
		case k == 17:
			check("meanwhile")
		case k == 18:
			// keepalive time passes in small steps; everybody alive reports
			time.Sleep(time.Duration(200+r.Intn(1200)) * time.Millisecond)
			for _, t := range good {
				hear(t)
				answered[t.icc]++
			}
			settle()
		}
		// terminals whose last message is too long ago may time out
		for _, t := range bad {
			if c, at := t.c.Closed(); c && !failed[t] {
				idle := at.Sub(lastRecv[t])
				full := sent[t] > 12
				if !full && idle < time.Duration(ka-1)*time.Second {
					rec.Violate("early", "scenario %d: a stalled terminal was closed after %d messages and %v of silence (keepalive %d s)", i, sent[t], idle, ka)
				}
				failed[t] = true
			}
		}
	}
	check("at the end")
	// enough to fill any reasonable queue
	if flood == 3 {
		for _, t := range bad {
			if c, _ := t.c.Closed(); c {
				continue
			}
			for q := 0; q < 400 && !failed[t]; q++ {
				sent[t]++
				if one(t, r.Intn(4)) != nil {
					failed[t] = true
				}
			}
			if !failed[t] {
				rec.Violate("unbounded", "scenario %d: %d messages were accepted for a terminal that does not read", i, sent[t])
			}
			rec.Count("filled", 1)
		}
		check("after filling the queues")
	}
	// one that comes back is served what it was sent
	for _, t := range bad {
		if c, _ := t.c.Closed(); !c && r.Intn(2) == 0 {
			t.c.PeerResume()
			settle()
			if _, ok := t.got(); ok {
				rec.Count("resumed", 1)
			}
			hear(t)
			settle()
			mu.Lock()
			if fmt.Sprint(heard[t.icc]) != fmt.Sprint(expect[t.icc]) {
				rec.Violate("reception", "scenario %d: after reading again: received %v, sent %v", i, heard[t.icc], expect[t.icc])
			}
			mu.Unlock()
			t.c.PeerStall(0)
		}
	}
	if r.Intn(2) == 0 {
		// idle timeout in spite of the stalls
		time.Sleep(time.Duration(ka+2) * time.Second)
		settle()
		for _, t := range append(append([]*terminal{}, bad...), good...) {
			c, at := t.c.Closed()
			if !c {
				rec.Violate("idle", "scenario %d: an idle session (keepalive %d s) is still open after %v", i, ka, time.Since(lastRecv[t]))
			} else if idle := at.Sub(lastRecv[t]); idle > time.Duration(ka+2)*time.Second {
				rec.Violate("idle", "scenario %d: an idle session was closed after %v (keepalive %d s)", i, idle, ka)
			}
		}
		rec.Count("idle_checked", 1)
	}
	t0 := time.Now()
	if !w.stop() || time.Since(t0) > 0 {
		rec.Violate("stop", "scenario %d: stopping the server took %v with stalled terminals", i, time.Since(t0))
	}
	settle()
	for _, t := range bad {
		if n := w.closes(S(t).ID()); n != 1 {
			rec.Violate("close-handler", "scenario %d: after Stop the close handler of a stalled session ran %d times", i, n)
		}
	}
	rec.Count("scenarios", 1)
	rec.Sample("scenario %d: %d stalled and %d reading terminals, %d failed sends", i, nStall, nGood, nBad)
}
