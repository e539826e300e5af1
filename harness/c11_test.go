package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

func TestC11(t *testing.T) {
	bubble(t, func() {
		for i := 0; i < scale(200, 900) && !rec.Enough(); i++ {
			sendScenario(i)
		}
		if shard == 0 && !rec.Enough() {
			endlessSession(scale(67000, 200000))
		}
	})
}

// sharedEntity encodes to its own buffer, which its owner reuses afterwards.
type sharedEntity struct{ *rawEntity }

func (s *sharedEntity) Encode() ([]byte, error) { return s.Data, nil }

type sentMsg struct {
	user, n int
	id      uint16
	serial  uint16 // as returned; 0 for broadcasts
	body    []byte
	ok      bool
	bcast   bool
}

func tokenOf(body []byte) (user, n int, ok bool) {
	if len(body) < 6 {
		return 0, 0, false
	}
	return int(body[0])<<8 | int(body[1]), int(body[2])<<24 | int(body[3])<<16 | int(body[4])<<8 | int(body[5]), true
}

func token(user, n int) []byte {
	return append(u16b(uint16(user)), u32b(uint32(n))...)
}

func sendScenario(i int) {
	r := newRand("C11", i)
	w := newWorldOr(i%4 == 3, go808.Options{Keepalive: 100000})
	var mu sync.Mutex
	sess := map[uint64]*go808.Session{}
	first := map[uint64]*protocol.Message{}
	w.srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		sess[m.Header.IccID] = s
		first[m.Header.IccID] = m
		mu.Unlock()
	})
	if r.Intn(3) > 0 {
		jitterHooks(w, r, []int{5, 30, 200}[r.Intn(3)])
	}
	w.mustStart()
	n := 1 + r.Intn(3)
	rounds := 20 + r.Intn(40)
	users := 1 + r.Intn(10)
	bcasters := r.Intn(3)
	stalls := r.Intn(3) == 0
	type peer struct {
		t    *terminal
		s    *go808.Session
		mu   sync.Mutex
		seen map[string]chan struct{}
		sent []sentMsg
		buf  []byte
	}
	ps := make([]*peer, n)
	for k := range ps {
		icc := newIcc()
		if r.Intn(3) == 0 {
			icc = 999999999999 - uint64(k)
		}
		t := w.terminal(icc)
		t.send(2, nil)
		settle()
		p := &peer{t: t, s: sess[icc], seen: map[string]chan struct{}{}}
		t.c.mu.Lock()
		t.c.onWrite = func(b []byte) {
			p.mu.Lock()
			defer p.mu.Unlock()
			p.buf = append(p.buf, b...)
			fr, rest, _ := refSplit(p.buf)
			p.buf = append([]byte{}, rest...)
			for _, f := range fr {
				m, err := refParse(f)
				if err != nil {
					continue
				}
				if u, q, ok := tokenOf(m.Body); ok {
					if c := p.seen[fmt.Sprint(u, "/", q)]; c != nil {
						select {
						case <-c:
						default:
							close(c)
						}
					}
				}
			}
		}
		t.c.mu.Unlock()
		ps[k] = p
	}
	var wg sync.WaitGroup
	stopc := make(chan struct{})
	if stalls { // the terminal reads with interruptions, never long enough to fill the queue for good
		for _, p := range ps {
			p := p
			sr := rand.New(rand.NewSource(r.Int63()))
			go func() {
				for {
					select {
					case <-stopc:
						return
					default:
					}
					p.t.c.PeerStall(sr.Intn(60))
					time.Sleep(time.Duration(sr.Intn(20)) * time.Millisecond)
					p.t.c.PeerResume()
					time.Sleep(time.Duration(sr.Intn(20)) * time.Millisecond)
				}
			}()
		}
	}
	wait := func(p *peer, key string) chan struct{} {
		c := make(chan struct{})
		p.mu.Lock()
		p.seen[key] = c
		p.mu.Unlock()
		return c
	}
	for k, p := range ps {
		for u := 0; u < users; u++ {
			k, p, u := k, p, u
			ur := rand.New(rand.NewSource(r.Int63()))
			burst := 1 + ur.Intn(20/(users+bcasters)+1)
			if (users+bcasters)*burst > 22 {
				burst = 1
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				var own *rawEntity // the one message object this user always sends
				var ownEnt protocol.Entity
				if ur.Intn(2) == 0 {
					own = &rawEntity{}
					ownEnt = own
					if ur.Intn(2) == 0 {
						ownEnt = &sharedEntity{own}
					}
				}
				for m := 0; m < rounds; {
					var waits []chan struct{}
					for b := 0; b < burst && m < rounds; b++ {
						m++
						e := &rawEntity{0x8f00 + uint16(u), append(token(u, m), rBody(ur, rLen(ur, 900))...)}
						keep := append([]byte{}, e.Data...)
						c := wait(p, fmt.Sprint(u, "/", m))
						var serial uint16
						var err error
						var ent protocol.Entity = e
						if ur.Intn(2) == 0 {
							ent = &sharedEntity{e}
						}
						if own != nil {
							*own = *e
							e, ent = own, ownEnt
							rec.Count("sends_of_a_reused_object", 1)
						}
						if ur.Intn(3) == 0 {
							serial, err = p.s.Request(ent, func(*protocol.Message) {})
						} else {
							serial, err = p.s.Send(ent)
						}
						for x := range e.Data { // the caller reuses its message
							e.Data[x] = 0x55
						}
						e.id = 0x8fff
						if err != nil {
							rec.Violate("send", "scenario %d: Send fails on an open session: %v", i, err)
							return
						}
						p.mu.Lock()
						p.sent = append(p.sent, sentMsg{u, m, 0x8f00 + uint16(u), serial, keep, true, false})
						p.mu.Unlock()
						rec.Case(fmt.Sprintf("%d/%d/%d/%d", i, k, u, m))
						waits = append(waits, c)
					}
					for _, c := range waits {
						c := c
						if !within(60*time.Second, func() { <-c }) {
							rec.Violate("lost", "scenario %d: a message sent by user %d never arrived", i, u)
							return
						}
					}
				}
			}()
		}
	}
	for b := 0; b < bcasters; b++ {
		b := b
		br := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := 1; m <= rounds; m++ {
				u := 1000 + b
				e := &rawEntity{0x8f80, append(token(u, m), rBody(br, br.Intn(100))...)}
				keep := append([]byte{}, e.Data...)
				var cs []chan struct{}
				for _, p := range ps {
					cs = append(cs, wait(p, fmt.Sprint(u, "/", m)))
				}
				var ent protocol.Entity = e
				if br.Intn(2) == 0 {
					ent = &sharedEntity{e}
				}
				if c := w.srv.Broadcast(ent); c != n {
					rec.Violate("broadcast", "scenario %d: Broadcast reports %d of %d open sessions", i, c, n)
					return
				}
				for x := range e.Data {
					e.Data[x] = 0x55
				}
				for _, p := range ps {
					p.mu.Lock()
					p.sent = append(p.sent, sentMsg{u, m, 0x8f80, 0, keep, true, true})
					p.mu.Unlock()
				}
				for _, c := range cs {
					c := c
					if !within(60*time.Second, func() { <-c }) {
						rec.Violate("lost", "scenario %d: a broadcast never arrived", i)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	close(stopc)
	time.Sleep(100 * time.Millisecond)
	for _, p := range ps {
		p.t.c.PeerResume()
	}
	settle()
	for k, p := range ps {
		ms, ok := p.t.got()
		if !ok {
			continue
		}
		if c, _ := p.t.c.Closed(); c {
			rec.Violate("closed", "scenario %d: session %d was closed during sending", i, k)
			continue
		}
		index := map[string]int{}
		lastN := map[int]int{}
		for j, m := range ms {
			u, q, ok := tokenOf(m.Body)
			if !ok {
				rec.Violate("foreign", "scenario %d: frame %+v %s was never sent", i, m.H, hx(m.Body))
				continue
			}
			key := fmt.Sprint(u, "/", q)
			if _, dup := index[key]; dup {
				rec.Violate("duplicate", "scenario %d: message %s arrived twice", i, key)
			}
			index[key] = j
			if q <= lastN[u] {
				rec.Violate("order", "scenario %d: message %d of user %d arrived after its message %d", i, q, u, lastN[u])
			}
			lastN[u] = q
			if m.H.Serial == 0 {
				rec.Violate("serial-zero", "scenario %d: a message has serial number 0", i)
			}
			if m.H.Icc != p.t.icc {
				rec.Violate("icc", "scenario %d: a message is addressed to %d, the terminal is %d", i, m.H.Icc, p.t.icc)
			}
		}
		// any 255 consecutive messages
		last := map[uint16]int{}
		for j, m := range ms {
			if o, ok := last[m.H.Serial]; ok && j-o < 255 {
				rec.Violate("serial-repeated", "scenario %d: serial number %d at messages %d and %d", i, m.H.Serial, o, j)
				break
			}
			last[m.H.Serial] = j
		}
		for _, x := range p.sent {
			key := fmt.Sprint(x.user, "/", x.n)
			j, ok := index[key]
			if !ok {
				rec.Violate("lost", "scenario %d: message %s was accepted but never arrived", i, key)
				continue
			}
			m := ms[j]
			if !x.bcast && m.H.Serial != x.serial {
				rec.Violate("serial", "scenario %d: message %s arrived with serial %d, the call returned %d", i, key, m.H.Serial, x.serial)
			}
			if m.H.ID != x.id || !bytes.Equal(m.Body, x.body) {
				rec.Violate("content", "scenario %d: message %s arrived as %04x %s, sent was %04x %s", i, key, m.H.ID, hx(m.Body), x.id, hx(x.body))
			}
			rec.Count("frames_checked", 1)
		}
		if len(index) != len(p.sent) {
			rec.Violate("count", "scenario %d: %d messages arrived, %d were sent", i, len(index), len(p.sent))
		}
		if len(ms) > 255 {
			rec.Count("sessions_past_wrap", 1)
		}
		if i == 0 {
			var o []string
			for _, m := range ms[:minInt(12, len(ms))] {
				u, q, _ := tokenOf(m.Body)
				o = append(o, fmt.Sprintf("%d/%d=%d", u, q, m.H.Serial))
			}
			rec.Sample("arrival order (user/message=serial): %v", o)
		}
	}
	rec.Count("scenarios", 1)
	w.end()
}
