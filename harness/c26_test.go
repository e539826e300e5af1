package harness

import (
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// A callback that takes its time delays its own session only.

const (
	idBlock = 0x0f61 // its handler waits
	idLog   = 0x0f62 // its handler records
)

func TestC26(t *testing.T) {
	registerRaw(idBlock, idLog)
	protocol.Register(idPacket, func() protocol.Entity { return &pktEntity{} })
	bubble(t, func() {
		for i := 0; i < scale(700, 12000) && !rec.Enough(); i++ {
			slowScenario(i)
		}
	})
}

func slowScenario(i int) {
	r := newRand("C26", i)
	ka := int64(6 + r.Intn(10))
	if r.Intn(2) == 0 {
		ka = 3600
	}
	var mu sync.Mutex
	log := map[uint64][]string{}
	at := map[uint64]time.Time{} // of the last entry
	sess := map[uint64]*go808.Session{}
	release := make(chan struct{})
	held := map[string]int{} // callbacks waiting, by kind
	hold := func(kind string) {
		mu.Lock()
		held[kind]++
		mu.Unlock()
		progress.Add(1)
		<-release
		mu.Lock()
		held[kind]--
		mu.Unlock()
	}
	closedAt := map[uint64]time.Time{}
	note := func(s *go808.Session, m *protocol.Message, what string) {
		mu.Lock()
		log[m.Header.IccID] = append(log[m.Header.IccID], what)
		at[m.Header.IccID] = time.Now()
		sess[m.Header.IccID] = s
		mu.Unlock()
		progress.Add(1)
	}
	w := newWorld(go808.Options{Keepalive: ka, AutoMergePacket: true, CloseHandler: func(s *go808.Session) {
		mu.Lock()
		closedAt[s.ID()] = time.Now()
		mu.Unlock()
	}})
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) { note(s, m, "hello") })
	w.srv.AddHandler(idLog, func(s *go808.Session, m *protocol.Message) {
		note(s, m, string(m.Body.(*rawEntity).Data))
	})
	w.srv.AddHandler(idBlock, func(s *go808.Session, m *protocol.Message) {
		note(s, m, "block")
		hold("handler")
	})
	w.srv.AddHandler(idPacket, func(s *go808.Session, m *protocol.Message) {
		e := m.Body.(*pktEntity)
		d, err := io.ReadAll(io.LimitReader(e.GetReader(), 2))
		x := string(d)
		if strings.HasPrefix(x, "!") {
			hold("upload handler")
		}
		d, err2 := io.ReadAll(e.GetReader())
		if err != nil || err2 != nil {
			rec.Violate("read", "scenario %d: reading an upload: %v %v", i, err, err2)
		}
		note(s, m, x+string(d))
	})
	w.mustStart()
	jitterHooks(w, r, 20)
	expect := map[uint64][]string{}
	hello := func() *terminal {
		t := w.terminal(newIcc())
		t.send(2, nil)
		expect[t.icc] = append(expect[t.icc], "hello")
		return t
	}
	nBad, nGood := 1+r.Intn(3), 1+r.Intn(3)
	if r.Intn(15) == 0 { // a crowd
		nBad = []int{9, 20, 40, 70, 140, 300}[r.Intn(6)]
		rec.Max("max_sessions_with_a_running_callback", int64(nBad))
	}
	var bad, good []*terminal
	for k := 0; k < nBad; k++ {
		bad = append(bad, hello())
	}
	for k := 0; k < nGood; k++ {
		good = append(good, hello())
	}
	settle()
	S := func(t *terminal) *go808.Session { mu.Lock(); defer mu.Unlock(); return sess[t.icc] }
	twins := 0
	if r.Intn(4) == 0 {
		for _, t := range append(append([]*terminal{}, bad...), good...) {
			if r.Intn(2) == 0 {
				w.twin(t)
				twins++
			}
		}
		settle()
	}
	ended := map[*terminal]bool{}
	kinds := map[*terminal]string{}
	for k, t := range bad {
		switch r.Intn(3) {
		case 0:
			kinds[t] = "handler"
			t.send(idBlock, nil)
			expect[t.icc] = append(expect[t.icc], "block")
		case 1:
			kinds[t] = "answer callback"
			n, err := S(t).Request(&rawEntity{0x8f00, nil}, func(*protocol.Message) { hold("answer callback") })
			if err != nil {
				rec.Violate("request", "scenario %d: a request on an open session fails: %v", i, err)
				return
			}
			settle()
			t.send(1, ack(n, 0x8f00, 0))
		case 2:
			kinds[t] = "upload handler"
			f1, _ := t.frag(idPacket, 2, 1, upBody(r, idPacket, uint32(k), []byte("!a")))
			f2, _ := t.frag(idPacket, 2, 2, upBody(r, idPacket, uint32(k), []byte("bc")))
			if r.Intn(2) == 0 {
				f1, f2 = f2, f1
			}
			t.c.PeerSend(f1, f2)
			expect[t.icc] = append(expect[t.icc], "!abc")
		}
	}
	settle()
	mu.Lock()
	nh := 0
	for _, n := range held {
		nh += n
	}
	mu.Unlock()
	desc := func() string {
		var l []string
		for _, t := range bad {
			l = append(l, kinds[t])
		}
		return strings.Join(l, ", ")
	}
	if nh != nBad {
		rec.Violate("start", "scenario %d: %d callbacks (%s) should be waiting, %d are: %v", i, nBad, desc(), nh, held)
		return
	}
	rec.Case(fmt.Sprintf("%d/%d/%s", shard, i, desc()))
	// meanwhile everything else goes on at once
	queued := 0
	var slept time.Duration
	steps := 5 + r.Intn(15)
	for st := 0; st < steps; st++ {
		if d := time.Duration(r.Intn(900)) * time.Millisecond; ka < 100 && r.Intn(4) == 0 && slept+d < time.Duration(ka-3)*time.Second {
			slept += d // no session may come near its timeout here
			time.Sleep(d)
		}
		t := good[r.Intn(len(good))]
		t0 := time.Now()
		quick := func(what string, f func()) {
			if !within(30*time.Second, f) || time.Since(t0) > 0 {
				rec.Violate("delayed", "scenario %d: %s took %v while callbacks of other sessions (%s) were running", i, what, time.Since(t0), desc())
			}
			rec.Count("calls", 1)
		}
		ms, _ := t.got()
		wire := len(ms)
		checkWire := func(what string, n int) {
			ms, ok := t.got()
			if ok && len(ms) != wire+n {
				rec.Violate("reply", "scenario %d: after %s %d messages arrived at the terminal, want %d, while callbacks of other sessions (%s) were running", i, what, len(ms)-wire, n, desc())
			}
		}
		what := ""
		switch x := r.Intn(10); x {
		case 0, 1, 2:
			d := fmt.Sprintf("m%d", st)
			t.send(idLog, []byte(d))
			expect[t.icc] = append(expect[t.icc], d)
			what = "a message"
		case 3: // an upload
			d := fmt.Sprintf("u%d", st)
			n := 1 + r.Intn(3)
			for _, k := range r.Perm(n) {
				var part []byte
				if k == 0 {
					part = []byte(d)
				}
				f, _ := t.frag(idPacket, uint16(n), uint16(k+1), upBody(r, idPacket, uint32(1000+st), part))
				t.c.PeerSend(f)
			}
			expect[t.icc] = append(expect[t.icc], d)
			settle()
			checkWire("an upload", n)
			what = "an upload"
		case 4:
			t.send(idUnknown, nil)
			settle()
			checkWire("an unknown message", 1)
			what = "an unknown message"
		case 5: // a request and its answer
			called := false
			var n uint16
			var err error
			quick("Request", func() {
				n, err = S(t).Request(&rawEntity{0x8f01, nil}, func(*protocol.Message) { mu.Lock(); called = true; mu.Unlock() })
			})
			if err != nil {
				rec.Violate("request", "scenario %d: Request fails: %v", i, err)
				break
			}
			settle()
			t.send(1, ack(n, 0x8f01, 0))
			settle()
			mu.Lock()
			if !called {
				rec.Violate("answer", "scenario %d: an answer was not passed on while callbacks of other sessions (%s) were running", i, desc())
			}
			mu.Unlock()
			what = "an answer"
		case 6:
			want := len(good) + twins
			for _, b := range bad {
				if !ended[b] {
					want++
				}
			}
			var c int
			quick("Broadcast", func() { c = w.srv.Broadcast(&rawEntity{0x8f02, nil}) })
			if c != want {
				rec.Violate("broadcast", "scenario %d: a broadcast counts %d sessions, %d are open, while callbacks (%s) were running", i, c, want, desc())
			}
			settle()
			checkWire("a broadcast", 1)
			what = "a broadcast"
		case 7: // to the session whose callback runs
			b := bad[r.Intn(len(bad))]
			if ended[b] {
				continue
			}
			before, _ := b.got()
			var err error
			quick("Send to a session whose callback runs", func() { _, err = S(b).Send(&rawEntity{0x8f03, nil}) })
			settle()
			after, _ := b.got()
			if err != nil || len(after) != len(before)+1 {
				rec.Violate("send", "scenario %d: a message to a session whose %s runs: error %v, %d arrived", i, kinds[b], err, len(after)-len(before))
			}
			continue
		case 8:
			if len(good) < 6 {
				good = append(good, hello())
				t = good[len(good)-1]
				what = "a new connection"
			}
		case 9: // messages wait for the callback of their own session
			b := bad[r.Intn(len(bad))]
			if ended[b] {
				continue
			}
			d := fmt.Sprintf("q%d", st)
			b.send(idLog, []byte(d))
			expect[b.icc] = append(expect[b.icc], d)
			queued++
			continue
		}
		settle()
		if what == "" {
			continue
		}
		rec.Count("while_waiting", 1)
		mu.Lock()
		if got, want := strings.Join(log[t.icc], " "), strings.Join(expect[t.icc], " "); got != want {
			rec.Violate("not-handled", "scenario %d: after %s: handled %q, sent %q, while callbacks of other sessions (%s) were running", i, what, got, want, desc())
		}
		mu.Unlock()
		if rec.Enough() {
			return
		}
	}
	stopped := false
	if r.Intn(3) == 0 { // Stop waits for no message handler
		t0 := time.Now()
		ok := within(30*time.Second, w.srv.Stop)
		if d := time.Since(t0); !ok || d > 0 {
			rec.Violate("stop", "scenario %d: Stop took %v (returned %v) while callbacks (%s) were running", i, d, ok, desc())
		}
		for _, t := range append(append([]*terminal{}, bad...), good...) {
			if c, _ := t.c.Closed(); !c {
				rec.Violate("stop", "scenario %d: a session is open after Stop", i)
			}
		}
		stopped = true
		rec.Count("stops_while_waiting", 1)
	} else if ka < 100 { // timeouts happen on time, too
		time.Sleep(time.Duration(ka+4) * time.Second)
		settle()
		for _, t := range append(append([]*terminal{}, bad...), good...) {
			if ended[t] {
				continue
			}
			c, ct := t.c.Closed()
			if !c {
				rec.Violate("timeout", "scenario %d: an idle session is not closed while callbacks (%s) are running", i, desc())
				continue
			}
			mu.Lock()
			x := closedAt[sess[t.icc].ID()]
			mu.Unlock()
			if d := x.Sub(ct); d > 0 || x.IsZero() {
				rec.Violate("close-report", "scenario %d: the close of an idle session was reported %v after it happened while callbacks (%s) were running", i, d, desc())
			}
			rec.Count("timeouts_while_waiting", 1)
		}
		stopped = true
	} else if r.Intn(2) == 0 {
		// the session of a running callback can be closed
		for _, t := range bad {
			if ended[t] {
				continue
			}
			S(t).Close()
			settle()
			mu.Lock()
			_, ok := closedAt[sess[t.icc].ID()]
			mu.Unlock()
			if !ok {
				rec.Violate("close-report", "scenario %d: the close of a session whose %s runs is not reported", i, kinds[t])
			}
			ended[t] = true
			rec.Count("closed_while_waiting", 1)
		}
	}
	close(release)
	settle()
	if !stopped {
		mu.Lock()
		for _, t := range append(append([]*terminal{}, bad...), good...) {
			if ended[t] {
				continue
			}
			if got, want := strings.Join(log[t.icc], " "), strings.Join(expect[t.icc], " "); got != want {
				rec.Violate("after", "scenario %d: after the callbacks (%s) returned: handled %q, sent %q", i, desc(), got, want)
			}
		}
		mu.Unlock()
	}
	rec.Count("queued_behind", int64(queued))
	rec.Count("scenarios", 1)
	if i == 0 {
		rec.Sample("scenario %d: waiting callbacks: %s; %d other sessions", i, desc(), len(good))
	}
	w.end()
}

// TestC26Close: a close handler that takes its time. In real time: the library
// may wait for it with a lock, which virtual time does not see through.
func TestC26Close(t *testing.T) {
	registerRaw(idLog)
	for i := 0; i < scale(12, 150) && !rec.Any(); i++ {
		slowClose(i)
	}
}

func slowClose(i int) {
	r := newRand("C26c", i)
	release := make(chan struct{})
	var mu sync.Mutex
	holds := map[uint64]bool{}
	done := map[uint64]int{}
	begun := map[uint64]int{}
	got := map[uint64]int{}
	sess := map[uint64]*go808.Session{}
	perturb(newRand("C26cp", i))
	defer calm()
	w := newWorld(go808.Options{Keepalive: 3600, CloseHandler: func(s *go808.Session) {
		mu.Lock()
		begun[s.ID()]++
		h := holds[s.ID()]
		mu.Unlock()
		if h {
			<-release
		}
		mu.Lock()
		done[s.ID()]++
		mu.Unlock()
	}})
	w.srv.AddHandler(idLog, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		got[m.Header.IccID]++
		sess[m.Header.IccID] = s
		mu.Unlock()
	})
	w.mustStart()
	until := func(cond func() bool) bool {
		for k := 0; k < 40000; k++ { // at least 20 s
			mu.Lock()
			ok := cond()
			mu.Unlock()
			if ok {
				return true
			}
			progress.Add(1)
			time.Sleep(500 * time.Microsecond)
		}
		return false
	}
	var ts []*terminal
	want := map[uint64]int{}
	say := func(t *terminal, what string) bool {
		want[t.icc]++
		t.send(idLog, []byte("x"))
		rec.Count("while_closing", 1)
		if !until(func() bool { return got[t.icc] == want[t.icc] }) {
			rec.Violate("close-delays", "scenario %d: %s: a message of another session is not handled while a close handler runs", i, what)
			return false
		}
		return true
	}
	n := 3 + r.Intn(4)
	for k := 0; k < n; k++ {
		t := w.terminal(newIcc())
		ts = append(ts, t)
		if !say(t, "before") {
			return
		}
	}
	nBad := 1 + r.Intn(2)
	for k, t := range ts[:nBad] {
		mu.Lock()
		s := sess[t.icc]
		holds[s.ID()] = true
		mu.Unlock()
		kind := r.Intn(4)
		rec.Case(fmt.Sprintf("close %d %d %d %d", shard, i, k, kind))
		switch kind {
		case 0:
			t.c.PeerClose(r.Intn(2) == 0)
		case 1:
			if !within(20*time.Second, func() { s.Close() }) {
				rec.Violate("close-delays", "scenario %d: Close waits for the close handler", i)
				return
			}
		case 2:
			t.c.PeerSend([]byte{0x7e, 5, 5, 5, 0x7e})
		case 3: // the send queue runs over
			t.c.PeerStall(0)
			for k := 0; k < 60; k++ {
				s.Send(&rawEntity{0x8f03, nil})
			}
		}
		if !until(func() bool { return begun[s.ID()] == 1 }) {
			rec.Violate("close-report", "scenario %d: the close of a session is not reported", i)
			return
		}
	}
	for k := 0; k < 6; k++ {
		t := ts[nBad+r.Intn(len(ts)-nBad)]
		switch r.Intn(5) {
		case 0:
			t = w.terminal(newIcc())
			ts = append(ts, t)
			if !say(t, "a new connection") {
				return
			}
		case 1:
			ok := within(20*time.Second, func() {
				w.srv.Broadcast(&rawEntity{0x8f02, nil})
				mu.Lock()
				s := sess[t.icc]
				mu.Unlock()
				w.srv.GetSession(s.ID())
				s.Send(&rawEntity{0x8f03, nil})
			})
			if !ok {
				rec.Violate("close-delays", "scenario %d: broadcast, lookup or send wait for a close handler", i)
				return
			}
		case 2: // another session closes meanwhile
			if len(ts) < nBad+3 {
				continue
			}
			x := ts[len(ts)-1]
			ts = ts[:len(ts)-1]
			mu.Lock()
			s := sess[x.icc]
			mu.Unlock()
			x.c.PeerClose(true)
			if !until(func() bool { return done[s.ID()] == 1 }) {
				rec.Violate("close-delays", "scenario %d: the close of another session is not reported while a close handler runs", i)
				return
			}
		default:
			if !say(t, "a message") {
				return
			}
		}
	}
	close(release)
	if !until(func() bool { return len(done) >= nBad }) {
		rec.Violate("close-report", "scenario %d: close handlers do not finish", i)
	}
	if !within(20*time.Second, w.srv.Stop) {
		rec.Violate("stop", "scenario %d: Stop does not return", i)
	}
	rec.Count("close_scenarios", 1)
}
