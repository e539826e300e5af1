package harness

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

func TestC09(t *testing.T) {
	registerRaw(idCustomA, idCustomB)
	bubble(t, func() {
		for i := 0; i < scale(500, 1500) && !rec.Enough(); i++ {
			panicScenario(i)
		}
	})
}

type oddPanic struct{ f func() }

// blowUp panics in one of many ways.
func blowUp(how int) {
	switch how % 9 {
	case 0:
		panic("deliberate-panic")
	case 1:
		panic(errors.New("deliberate-panic error"))
	case 2:
		var m map[string]int
		m["x"] = 1
	case 3:
		var a []int
		_ = a[how]
	case 4:
		var p *protocol.Message
		_ = p.Header
	case 5:
		panic(oddPanic{})
	case 6:
		panic(fmt.Sprintf("deliberate-panic %d", how))
	case 7:
		var e protocol.Entity
		_ = e.(*protocol.T808_0x0001)
	case 8:
		func() {
			defer func() {
				recover()
				panic("deliberate-panic again")
			}()
			panic("deliberate-panic first")
		}()
	}
}

func panicScenario(i int) {
	r := newRand("C09", i)
	n := 2 + r.Intn(4)
	closeP := r.Intn(3) // 0 never, 1 sometimes, 2 always
	lr := &lockedRand{r: rand.New(rand.NewSource(r.Int63()))}
	ka := int64(5 + r.Intn(20))
	w := newWorld(go808.Options{Keepalive: ka, AutoMergePacket: r.Intn(2) == 0, CloseHandler: func(s *go808.Session) {
		if closeP == 2 || closeP == 1 && lr.Intn(2) == 0 {
			rec.Count("close_panics", 1)
			blowUp(lr.Intn(1000))
		}
	}})
	var mu sync.Mutex
	type call struct {
		serial uint16
		id     uint16
	}
	calls := map[uint64][]call{}
	sess := map[uint64]*go808.Session{}
	doom := map[uint64]map[uint16]int{} // terminal -> serial -> how (0: fine, 1..: before, -1..: after work)
	handler := func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		sess[m.Header.IccID] = s
		calls[m.Header.IccID] = append(calls[m.Header.IccID], call{m.Header.MsgSerialNo, uint16(m.Header.MsgID)})
		how := doom[m.Header.IccID][m.Header.MsgSerialNo]
		mu.Unlock()
		if how > 0 {
			rec.Count("handler_panics", 1)
			blowUp(how)
		}
		s.Reply(m, protocol.T808_0x8001ResultSuccess)
		if how < 0 {
			rec.Count("handler_panics", 1)
			blowUp(-how)
		}
	}
	for _, id := range []protocol.MsgID{2, idCustomA, idCustomB, 0x0801, 0x0001, 0x0805} {
		w.srv.AddHandler(id, handler)
	}
	if r.Intn(2) == 0 {
		jitterHooks(w, r, 20)
	}
	w.mustStart()
	ts := make([]*terminal, n)
	wants := make([][]call, n)
	oks := make([]int, n) // replies expected so far
	for k := range ts {
		ts[k] = w.terminal(newIcc())
		doom[ts[k].icc] = map[uint16]int{}
	}
	alive := func(k int) bool { return ts[k] != nil }
	g := &gen{r: r, small: true}
	send := func(k int, id uint16, body []byte, how int) {
		t := ts[k]
		mu.Lock()
		s := t.serial + 1
		doom[t.icc][s] = how
		mu.Unlock()
		t.send(id, body)
		wants[k] = append(wants[k], call{s, id})
		if how <= 0 {
			oks[k]++
		}
		rec.Case(fmt.Sprintf("%d/%d/%d/%d", i, k, s, how))
	}
	check := func(what string) bool {
		settle()
		mu.Lock()
		defer mu.Unlock()
		for k, t := range ts {
			if t == nil {
				continue
			}
			got := calls[t.icc]
			if fmt.Sprint(got) != fmt.Sprint(wants[k]) {
				rec.Violate("lost", "scenario %d, %s: terminal %d: handled %v, want %v", i, what, k, got, wants[k])
				return false
			}
			if c, _ := t.c.Closed(); c {
				rec.Violate("closed", "scenario %d, %s: session %d was closed by a panicking callback", i, what, k)
				return false
			}
			ms, ok := t.got()
			if !ok {
				return false
			}
			nr := 0
			for _, m := range ms {
				if m.H.ID == 0x8001 {
					nr++
				}
			}
			if nr != oks[k] {
				rec.Violate("replies", "scenario %d, %s: terminal %d got %d replies, want %d", i, what, k, nr, oks[k])
				return false
			}
		}
		return true
	}
	for k := range ts {
		send(k, 2, nil, 0)
	}
	if !check("start") {
		w.end()
		return
	}
	closed := 0
	ok := true
	for step := 0; step < 12 && ok; step++ {
		k := r.Intn(n)
		if !alive(k) {
			continue
		}
		t := ts[k]
		switch r.Intn(5) {
		case 0, 1: // a burst in which some handlers panic
			for m := 1 + r.Intn(8); m > 0; m-- {
				how := 0
				if r.Intn(2) == 0 {
					how = r.Intn(1000) - 500
				}
				switch r.Intn(3) {
				case 0:
					send(k, 2, nil, how)
				case 1:
					send(k, idCustomA, rBody(r, r.Intn(30)), how)
				case 2:
					_, body := schemaOf(0x0801).gen(g)
					send(k, 0x0801, body, how)
				}
			}
			ok = check("burst")
		case 2: // an answer callback that panics, then one that does not
			mu.Lock()
			s := sess[t.icc]
			mu.Unlock()
			order := []bool{true, false}
			if r.Intn(2) == 0 {
				order = []bool{false, true, true, false}
			}
			for _, p := range order {
				calledN := 0
				how := r.Intn(1000)
				serial, err := s.Request(&protocol.T808_0x8801{ChannelID: 1}, func(m *protocol.Message) {
					mu.Lock()
					calledN++
					mu.Unlock()
					if p {
						rec.Count("answer_panics", 1)
						blowUp(how)
					}
				})
				if err != nil {
					rec.Violate("request", "scenario %d: a request fails after a panic: %v", i, err)
					ok = false
					break
				}
				hh := 0
				if r.Intn(4) == 0 {
					hh = -7
				}
				send(k, 0x0001, ack(serial, 0x8801, 0), hh)
				if ok = check("answer"); !ok {
					break
				}
				mu.Lock()
				c := calledN
				mu.Unlock()
				if c != 1 {
					rec.Violate("answer", "scenario %d: the callback of a request ran %d times (panicking: %v)", i, c, p)
					ok = false
				}
				rec.Count("answers", 1)
			}
		case 3: // a session closes, its close handler may panic
			if closed >= n-1 {
				continue
			}
			mu.Lock()
			s := sess[t.icc]
			mu.Unlock()
			id := s.ID()
			switch r.Intn(4) {
			case 0:
				t.c.PeerClose(r.Intn(2) == 0)
			case 1:
				s.Close()
			case 2:
				t.c.PeerSend([]byte("7e junk"), []byte{0x7e, 1, 2, 3, 0x7e})
			case 3: // the idle timeout, the others keep alive
				for j := int64(0); j < ka+3; j++ {
					time.Sleep(time.Second)
					for q := range ts {
						if q != k && alive(q) {
							send(q, 2, nil, 0)
						}
					}
				}
			}
			settle()
			if c := w.closes(id); c != 1 {
				rec.Violate("close-handler", "scenario %d: the close handler ran %d times for a closed session", i, c)
			}
			if _, found := w.srv.GetSession(id); found {
				rec.Violate("bookkeeping", "scenario %d: a closed session is still registered after its close handler panicked", i)
			}
			ts[k] = nil
			closed++
			ok = check("close")
		case 4: // everybody else is served
			for q := range ts {
				if alive(q) {
					send(q, idCustomB, rBody(r, 5), 0)
				}
			}
			ok = check("others")
			if ok {
				live := 0
				for q := range ts {
					if alive(q) {
						live++
					}
				}
				if c := w.srv.Broadcast(&protocol.T808_0x8801{ChannelID: 2}); c != live {
					rec.Violate("broadcast", "scenario %d: a broadcast reaches %d of %d sessions", i, c, live)
				}
				settle()
			}
		}
	}
	if ok {
		// new connections, then an orderly stop
		t := w.terminal(newIcc())
		if t == nil {
			rec.Violate("accept", "scenario %d: no new connection is accepted", i)
		} else {
			doom[t.icc] = map[uint16]int{}
			ts = append(ts, t)
			wants = append(wants, nil)
			oks = append(oks, 0)
			send(len(ts)-1, 2, nil, 0)
			check("new connection")
		}
		if !w.stop() {
			rec.Violate("stop", "scenario %d: Stop does not return after callbacks panicked", i)
		}
		settle()
		for _, id := range w.createdIDs() {
			if c := w.closes(id); c != 1 {
				rec.Violate("close-handler", "scenario %d: close handler calls for session %d: %d", i, id, c)
			}
			if _, found := w.srv.GetSession(id); found {
				rec.Violate("bookkeeping", "scenario %d: session %d is still registered after Stop", i, id)
			}
		}
	}
	rec.Count("scenarios", 1)
	w.end()
}
