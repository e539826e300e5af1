package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"github.com/funny/link"
)

func TestC20(t *testing.T) {
	registerRaw(idCustomA)
	bubble(t, func() {
		for i := 0; i < scale(700, 4000) && !rec.Enough(); i++ {
			broadcastScenario(i)
		}
		for i := 0; i < scale(2, 20) && !rec.Enough(); i++ {
			crowdScenario(i)
		}
		for i := 0; i < scale(200, 1000) && !rec.Enough(); i++ {
			leavingScenario(i)
		}
	})
}

type bcPeer struct {
	t     *terminal
	s     *go808.Session
	key   int
	kind  string // steady, churn, stalled, new
	seen  int    // frames judged so far
	first bool   // sent at least one message, so its number is known
	last  []uint16
}

type bcast struct {
	text  string
	count int
	ok    bool
}

func broadcastScenario(i int) {
	r := newRand("C20", i)
	var mu sync.Mutex
	sess := map[int]*go808.Session{} // by terminal, which each have their serial numbers
	var w *world
	nested := r.Intn(4) == 0
	w = newWorld(go808.Options{Keepalive: 3600, CloseHandler: func(s *go808.Session) {
		if nested {
			w.srv.Broadcast(&rawEntity{idCustomA, []byte("closing")})
		}
	}})
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		sess[int(m.Header.MsgSerialNo)/50] = s
		mu.Unlock()
	})
	w.srv.AddHandler(3, func(s *go808.Session, m *protocol.Message) {
		w.srv.Broadcast(&rawEntity{idCustomA, []byte("handler")})
	})
	w.mustStart()
	defer w.end()
	if n := w.srv.Broadcast(&rawEntity{idCustomA, []byte("nobody")}); n != 0 {
		rec.Violate("count", "scenario %d: a broadcast to nobody counts %d", i, n)
	}
	lr := &lockedRand{r: rand.New(rand.NewSource(r.Int63()))}
	w.mu.Lock()
	w.onPoint = func(string, *link.Session) { jitter(lr, 40) }
	w.mu.Unlock()
	var peers []*bcPeer
	icc, opened := iccPool(r), 0
	open := func(kind string, known bool) *bcPeer {
		p := &bcPeer{t: w.terminal(icc()), kind: kind}
		if p.t == nil {
			return nil
		}
		p.t.serial = uint16(opened * 50)
		p.key = opened
		opened++
		if known {
			p.t.send(2, nil)
			p.first = true
		}
		return p
	}
	for n := r.Intn(9); n > 0; n-- {
		peers = append(peers, open("steady", r.Intn(5) != 0))
	}
	settle()
	rounds := 2 + r.Intn(4)
	for round := 0; round < rounds && !rec.Enough(); round++ {
		// quiet moment: who is open, different numbers of messages so far
		var live []*bcPeer
		for _, p := range peers {
			if c, _ := p.t.c.Closed(); !c {
				live = append(live, p)
			}
		}
		peers = live
		for n := r.Intn(3); n > 0; n-- {
			peers = append(peers, open("steady", true))
		}
		settle()
		calm := r.Intn(3) == 0
		for _, p := range peers {
			p.kind = "steady"
			mu.Lock()
			p.s = sess[p.key]
			mu.Unlock()
			if !calm {
				switch r.Intn(6) {
				case 0:
					p.kind = "churn"
				case 1:
					p.kind = "stalled"
				}
			}
			// the terminal may change the number it uses
			if p.first && r.Intn(8) == 0 {
				p.t.icc = icc()
				p.t.send(2, nil)
				settle()
			}
			if p.s != nil {
				for n := r.Intn(4); n > 0; n-- {
					p.s.Send(&protocol.T808_0x8104{})
				}
			}
			settle()
			if p.kind == "stalled" {
				p.t.c.PeerStall(r.Intn(30))
				if p.s != nil {
					for n := r.Intn(28); n > 0; n-- {
						p.s.Send(&protocol.T808_0x8104{})
					}
				}
			}
		}
		settle()
		// sessions that a full queue has closed already are out of it
		var in []*bcPeer
		for _, p := range peers {
			if c, _ := p.t.c.Closed(); !c {
				in = append(in, p)
			}
		}
		peers = in
		var wg sync.WaitGroup
		var bs []*bcast
		nb := 1 + r.Intn(4)
		workers := 1 + r.Intn(2)
		for k := 0; k < workers; k++ {
			var mine []*bcast
			for n := 0; n < nb; n++ {
				b := &bcast{text: fmt.Sprintf("b%d.%d.%d.%d", i, round, k, n)}
				mine = append(mine, b)
				bs = append(bs, b)
				rec.Case(b.text)
			}
			sub := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, b := range mine {
					e := &rawEntity{idCustomA, []byte(b.text)}
					b.ok = within(20*time.Second, func() { b.count = w.srv.Broadcast(e) })
					e.Data = []byte("changed afterwards")
					jitterN(sub.Intn(20))
				}
			}()
		}
		var fresh []*bcPeer
		for _, p := range peers {
			if p.kind == "churn" {
				p := p
				cause := []string{"eof", "reset", "damaged", "local", "writefail"}[r.Intn(5)]
				if p.s == nil {
					cause = "reset"
				}
				sub := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					jitterN(sub.Intn(60))
					closeNow(w, cause, p.t, p.s, sub)
				}()
			}
		}
		if !calm {
			for n := r.Intn(3); n > 0; n-- {
				p := open("new", true)
				fresh = append(fresh, p)
			}
		}
		if !within(60*time.Second, wg.Wait) {
			rec.Violate("hang", "scenario %d: a broadcast hangs", i)
			return
		}
		settle()
		lost := nested && !calm
		for _, p := range peers {
			if c, _ := p.t.c.Closed(); c {
				lost = true
			}
			p.t.c.PeerResume()
		}
		settle()
		all := append(append([]*bcPeer{}, peers...), fresh...)
		steady := 0
		for _, p := range peers {
			if p.kind == "steady" {
				steady++
			}
		}
		arrived := map[string]int{}
		for _, p := range all {
			msgs, ok := p.t.got()
			if !ok {
				return
			}
			mine := map[string]int{}
			last := map[int]int{}
			for q, m := range msgs {
				for z := max0(q - 254); z < q; z++ {
					if msgs[z].H.Serial == m.H.Serial {
						rec.Violate("serial", "scenario %d: messages %d and %d of a session have serial number %d", i, z, q, m.H.Serial)
					}
				}
				if m.H.Serial == 0 {
					rec.Violate("serial", "scenario %d: serial number zero", i)
				}
				if q < p.seen || m.H.ID != idCustomA {
					continue
				}
				text := string(m.Body)
				if text == "closing" || text == "handler" {
					continue
				}
				mine[text]++
				var a, b, k, n int
				if c, _ := fmt.Sscanf(text, "b%d.%d.%d.%d", &a, &b, &k, &n); c != 4 || a != i || b != round {
					rec.Violate("content", "scenario %d: a session got %q, which was not broadcast in this round", i, text)
					continue
				}
				if z, ok := last[k]; ok && z >= n {
					rec.Violate("order", "scenario %d: broadcasts of one caller arrived as %d, %d", i, z, n)
				}
				last[k] = n
				want := p.t.icc
				if !p.first {
					want = 0
				}
				if m.H.Icc != want && p.kind != "new" {
					rec.Violate("icc", "scenario %d: broadcast addressed to %d arrived at terminal %d", i, m.H.Icc, want)
				}
				if p.kind == "new" && m.H.Icc != want && m.H.Icc != 0 {
					rec.Violate("icc", "scenario %d: broadcast addressed to %d arrived at the new terminal %d", i, m.H.Icc, want)
				}
				arrived[text]++
				rec.Count("copies", 1)
			}
			p.seen = len(msgs)
			for _, b := range bs {
				if mine[b.text] > 1 {
					rec.Violate("twice", "scenario %d round %d: a %s session got %d copies of %s", i, round, p.kind, mine[b.text], b.text)
				}
				if p.kind == "steady" && mine[b.text] != 1 {
					rec.Violate("missing", "scenario %d round %d: an open session got %d copies of %s (calm %v)", i, round, mine[b.text], b.text, calm)
				}
			}
			if c, _ := p.t.c.Closed(); c && p.kind == "steady" {
				rec.Violate("closed", "scenario %d round %d: a session that was neither stalled nor disconnected was closed", i, round)
			}
		}
		for _, b := range bs {
			rec.Count("broadcasts", 1)
			if !b.ok {
				rec.Violate("hang", "scenario %d: broadcast %s did not return within 20 s", i, b.text)
				continue
			}
			if b.count < steady || b.count > len(all) {
				rec.Violate("count", "scenario %d round %d: broadcast %s counts %d sessions; %d were open throughout, %d at some time", i, round, b.text, b.count, steady, len(all))
			}
			if calm && b.count != len(peers) {
				rec.Violate("count", "scenario %d round %d: broadcast %s counts %d sessions, %d are open", i, round, b.text, b.count, len(peers))
			}
			if arrived[b.text] > b.count || (!lost && arrived[b.text] != b.count) {
				rec.Violate("count-arrived", "scenario %d round %d: broadcast %s counts %d sessions, %d got it", i, round, b.text, b.count, arrived[b.text])
			}
		}
		peers = append(peers, fresh...)
		// what cannot be sent
		if r.Intn(3) == 0 {
			settle()
			if n := w.srv.Broadcast(&rawEntity{idCustomA, make([]byte, 1024)}); n != 0 {
				rec.Violate("count", "scenario %d: a broadcast of a message that is too long counts %d", i, n)
			}
			rec.Count("unsendable", 1)
		}
		// a broadcast from a handler
		if len(peers) > 0 && r.Intn(3) == 0 {
			p := peers[r.Intn(len(peers))]
			p.t.send(3, nil)
			p.first = true
			settle()
		}
		settle()
		for _, p := range peers {
			msgs, _ := p.t.got()
			p.seen = len(msgs)
		}
	}
	rec.Count("scenarios", 1)
	rec.Sample("scenario %d: %d rounds, %d sessions at the end", i, rounds, len(peers))
}

// crowdScenario: hundreds of sessions at once, some closed in between.
func crowdScenario(i int) {
	r := newRand("C20crowd", i)
	w := newWorld(go808.Options{Keepalive: 3600})
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {})
	w.mustStart()
	defer w.end()
	n := 270 + r.Intn(500)
	ts := make([]*terminal, n)
	icc := iccPool(r)
	for k := range ts {
		ts[k] = w.terminal(icc())
		ts[k].send(2, nil)
	}
	settle()
	gone := map[int]bool{}
	for round := 0; round < 3; round++ {
		text := fmt.Sprintf("crowd %d.%d", i, round)
		c := w.srv.Broadcast(&rawEntity{idCustomA, []byte(text)})
		settle()
		rec.Case(text)
		rec.Count("broadcasts", 1)
		if c != n-len(gone) {
			rec.Violate("count", "crowd %d: a broadcast counts %d sessions, %d are open", i, c, n-len(gone))
		}
		for k, t := range ts {
			ms, ok := t.got()
			if !ok {
				return
			}
			hits := 0
			for _, m := range ms {
				if m.H.ID == idCustomA && string(m.Body) == text {
					hits++
					if m.H.Icc != t.icc {
						rec.Violate("icc", "crowd %d: a broadcast addressed to %d arrived at %d", i, m.H.Icc, t.icc)
					}
				}
			}
			want := 1
			if gone[k] {
				want = 0
			}
			if hits != want {
				rec.Violate("missing", "crowd %d: session %d of %d got %d copies, want %d", i, k, n, hits, want)
			}
			rec.Count("copies", int64(hits))
		}
		for x := r.Intn(100); x > 0; x-- {
			k := r.Intn(n)
			gone[k] = true
			ts[k].c.PeerClose(r.Intn(2) == 0)
		}
		settle()
	}
}

// leavingScenario: a session that has just been closed, or whose queue is full,
// accepts nothing and must not be counted.
func leavingScenario(i int) {
	r := newRand("C20leaving", i)
	w := newWorld(go808.Options{Keepalive: 3600})
	var mu sync.Mutex
	sess := map[int]*go808.Session{} // by terminal, which each have their serial numbers
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		sess[int(m.Header.MsgSerialNo)/50] = s
		mu.Unlock()
	})
	w.mustStart()
	defer w.end()
	n := 2 + r.Intn(6)
	var ts []*terminal
	icc := iccPool(r)
	for k := 0; k < n; k++ {
		t := w.terminal(icc())
		t.serial = uint16(k * 50)
		t.send(2, nil)
		ts = append(ts, t)
	}
	settle()
	left := n
	// broadcasts in the moment between the close of a session and its report
	w.mu.Lock()
	w.onPoint = func(p string, s *link.Session) {
		if p != "callbacks" {
			return
		}
		mu.Lock()
		left--
		want := left
		mu.Unlock()
		c := w.srv.Broadcast(&rawEntity{idCustomA, []byte("leaving")})
		rec.Count("broadcasts", 1)
		if c != want {
			rec.Violate("count", "leaving %d: a broadcast right after the close of a session counts %d sessions, %d are open", i, c, want)
		}
	}
	w.mu.Unlock()
	for _, t := range ts[:r.Intn(n)] {
		mu.Lock()
		s := sess[int(t.serial)/50]
		mu.Unlock()
		cause := []string{"eof", "reset", "damaged", "local"}[r.Intn(4)]
		rec.Case(fmt.Sprintf("leaving %d %d %s", i, t.icc, cause))
		closeNow(w, cause, t, s, r)
		settle()
		ts = ts[1:]
	}
	w.mu.Lock()
	w.onPoint = nil
	w.mu.Unlock()
	// broadcasts until the queue of a stalled session is full
	t := ts[r.Intn(len(ts))]
	t.c.PeerStall(r.Intn(30))
	for k := 0; k < 100; k++ {
		before, _ := t.c.Closed()
		c := w.srv.Broadcast(&rawEntity{idCustomA, []byte(fmt.Sprintf("full %d", k))})
		settle()
		after, _ := t.c.Closed()
		rec.Count("broadcasts", 1)
		rec.Case(fmt.Sprintf("full %d %d", i, k))
		want := len(ts)
		if after {
			want--
		}
		if c != want {
			rec.Violate("count", "leaving %d: broadcast %d to %d sessions, one of which is stalled (closed before the call: %v, after it: %v), counts %d", i, k, len(ts), before, after, c)
			return
		}
		if before {
			break
		}
	}
	rec.Count("leaving_scenarios", 1)
}
