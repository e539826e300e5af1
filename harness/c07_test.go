package harness

import (
	"bytes"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"github.com/funny/link"
)

// delivery is one handler invocation.
type delivery struct {
	h    refHeader
	msg  *protocol.Message
	snap string
	sess *go808.Session
	gen  int // which of the successively registered handlers ran
}

type want struct {
	h   refHeader
	e   protocol.Entity
	gen int
	raw []byte
}

const (
	idCustomA  = 0x0f01
	idCustomB  = 0x0f02
	idUnknown  = 0x0f7e
	idNoHandle = 0x0f03
)

// jitterHooks makes the link layer yield at random moments.
func jitterHooks(w *world, r *rand.Rand, max int) {
	lr := &lockedRand{r: rand.New(rand.NewSource(r.Int63()))}
	w.mu.Lock()
	w.onPoint = func(string, *link.Session) { jitter(lr, max) }
	w.mu.Unlock()
}

func headerOf(m *protocol.Message) refHeader {
	h := refHeader{ID: uint16(m.Header.MsgID), Icc: m.Header.IccID, Serial: m.Header.MsgSerialNo,
		Frag: m.Header.Property.IsEnablePacket(), Encrypt: m.Header.Property.IsEnableEncrypt()}
	if m.Header.Packet != nil {
		h.Sum, h.Seq = m.Header.Packet.Sum, m.Header.Packet.Seq
	}
	return h
}

func TestC07(t *testing.T) {
	registerRaw(idCustomA, idCustomB, idNoHandle)
	bubble(t, func() {
		for i := 0; i < scale(500, 2500) && !rec.Enough(); i++ {
			dispatchScenario(i)
		}
	})
}

func dispatchScenario(i int) {
	r := newRand("C07", i)
	g := &gen{r: r, small: true}
	merge := r.Intn(3) == 0
	w := newWorldOr(i%4 == 3, go808.Options{AutoMergePacket: merge, Keepalive: 600})
	var mu sync.Mutex
	log := map[uint64][]delivery{} // by terminal number of the message
	busy := map[*go808.Session]*atomic.Int32{}
	calls := map[*go808.Session]int64{}
	lr := &lockedRand{r: rand.New(rand.NewSource(r.Int63()))}
	slow := r.Intn(3) == 0
	talk := r.Intn(2) == 0
	handler := func(id uint16, gen int) go808.MessageHandler {
		return func(s *go808.Session, m *protocol.Message) {
			mu.Lock()
			b := busy[s]
			if b == nil {
				b = new(atomic.Int32)
				busy[s] = b
			}
			mu.Unlock()
			if b.Add(1) != 1 {
				rec.Violate("overlap", "scenario %d: two handlers run at the same time for one session", i)
			}
			if uint16(m.Header.MsgID) != id {
				rec.Violate("wrong-handler", "scenario %d: the handler of %04x got a message %04x", i, id, uint16(m.Header.MsgID))
			}
			// what the application keeps with a session stays there
			mu.Lock()
			if n, _ := s.UserData.(int64); n != calls[s] {
				rec.Violate("user-data", "scenario %d: a handler finds %v kept with its session, not %d", i, s.UserData, calls[s])
			}
			calls[s]++
			s.UserData = calls[s]
			mu.Unlock()
			jitter(lr, 20)
			if slow && lr.Intn(8) == 0 {
				time.Sleep(time.Duration(lr.Intn(200)) * time.Millisecond)
			}
			if g2, ok := w.srv.GetSession(s.ID()); talk && (!ok || g2 != s) {
				rec.Violate("lookup", "scenario %d: the session of a running handler cannot be looked up", i)
			}
			if e, ok := m.Body.(protocol.EntityPacket); ok && merge && m.Header.Packet != nil {
				// what was merged can be read while the handler runs
				data, err := io.ReadAll(e.GetReader())
				if err != nil {
					rec.Violate("content", "scenario %d: reading a merged upload fails: %v", i, err)
				}
				e.SetReader(bytes.NewReader(data))
				rec.Count("merged", 1)
			}
			d := delivery{h: headerOf(m), msg: m, snap: snapshot(*m), sess: s, gen: gen}
			mu.Lock()
			log[m.Header.IccID] = append(log[m.Header.IccID], d)
			mu.Unlock()
			if talk && lr.Intn(4) == 0 {
				s.Reply(m, protocol.T808_0x8001ResultSuccess)
			}
			b.Add(-1)
		}
	}
	// some of the built-in types have handlers
	handled := map[uint16]int{}
	reg := func(id uint16) {
		handled[id]++
		w.srv.AddHandler(protocol.MsgID(id), handler(id, handled[id]))
	}
	var kinds []schema
	for _, k := range r.Perm(len(schemas))[:8] {
		s := schemas[k]
		if merge && s.id == 0x0801 {
			continue
		}
		kinds = append(kinds, s)
		if r.Intn(5) > 0 {
			reg(s.id)
		}
	}
	if merge {
		reg(0x0801)
	}
	reg(idCustomA)
	reg(idCustomB)
	asks := r.Intn(2) == 0 // the platform has requests pending, answers are messages, too
	if asks {
		reg(0x0001)
	}
	if r.Intn(2) == 0 {
		jitterHooks(w, r, 30)
	}
	w.mustStart()

	n := 1 + r.Intn(6)
	ts := make([]*terminal, n)
	wants := make([][]want, n)
	graceful := !talk && r.Intn(3) == 0
	phases := 1 + r.Intn(3)
	for ph := 0; ph < phases; ph++ {
		// others come and go, in the middle of a frame
		for q := r.Intn(4); q > 0; q-- {
			v := w.terminal(newIcc())
			f := v.frame(idCustomA, rBody(r, r.Intn(60)))
			v.c.PeerSend(f[:r.Intn(len(f))])
			if r.Intn(3) > 0 {
				settle()
				if r.Intn(3) > 0 {
					v.c.PeerClose(r.Intn(2) == 0)
					settle()
				}
			}
			rec.Count("broken_off", 1)
		}
		for k := range ts {
			if ts[k] == nil && (k == 0 || ph == phases-1 || r.Intn(2) == 0) {
				ts[k] = w.terminal(newIcc())
			}
		}
		streams := make([][]byte, n)
		for k, t := range ts {
			if t == nil {
				continue
			}
			replies := 0
			mu.Lock()
			var ses *go808.Session
			if l := log[t.icc]; len(l) > 0 && asks {
				ses = l[0].sess
			}
			mu.Unlock()
			for m := 1 + r.Intn(16); m > 0; m-- {
				h := refHeader{Icc: t.icc, Serial: t.next()}
				if r.Intn(10) == 0 {
					h.Serial = rU16(r)
				}
				var e protocol.Entity
				var body []byte
				switch x := r.Intn(10); {
				case ses != nil && r.Intn(4) == 0:
					q, err := ses.Request(&protocol.T808_0x8104{}, func(*protocol.Message) { rec.Count("answers", 1) })
					if err != nil {
						continue
					}
					settle()
					h.ID = 1
					e = &protocol.T808_0x0001{ReplyMsgSerialNo: q, ReplyMsgID: 0x8104}
					body = ack(q, 0x8104, 0)
				case x < 5 && len(kinds) > 0:
					s := kinds[r.Intn(len(kinds))]
					h.ID = s.id
					e, body = s.gen(g)
					if r.Intn(6) == 0 {
						h.Frag, h.Sum, h.Seq = true, uint16(1+r.Intn(5)), uint16(r.Intn(6))
					}
				case x < 8:
					h.ID = []uint16{idCustomA, idCustomB}[r.Intn(2)]
					body = rBody(r, rLen(r, 300))
					e = &rawEntity{h.ID, append([]byte{}, body...)}
				case x == 8 && merge && !graceful:
					s := schemaOf(0x0801)
					h.ID = 0x0801
					e, body = s.gen(g)
					if r.Intn(3) > 0 && replies < 5 { // an upload of one part
						h.Frag, h.Sum, h.Seq = true, 1, 1
						replies++
					}
				case x == 8:
					h.ID = idNoHandle
					body = rBody(r, r.Intn(20))
				default:
					if replies >= 5 || graceful {
						continue
					}
					replies++
					h.ID = idUnknown
					body = rBody(r, r.Intn(20))
				}
				if len(body) > 1023 {
					continue
				}
				f := refFrame(h, body)
				streams[k] = append(streams[k], f...)
				rec.Case(string(f))
				if gen := handled[h.ID]; gen > 0 {
					wants[k] = append(wants[k], want{h: h, e: e, gen: gen, raw: f})
				}
			}
		}
		// feed all terminals concurrently, arbitrarily cut
		var wg sync.WaitGroup
		for k, t := range ts {
			if t == nil {
				continue
			}
			cuts := chop(r, streams[k])
			wg.Add(1)
			r2 := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				for len(cuts) > 0 {
					m := 1 + r2.Intn(4)
					if m > len(cuts) {
						m = len(cuts)
					}
					t.c.PeerSend(cuts[:m]...)
					cuts = cuts[m:]
					if slow && r2.Intn(6) == 0 {
						time.Sleep(time.Duration(r2.Intn(30)) * time.Millisecond)
					}
				}
			}()
		}
		wg.Wait()
		if graceful && ph == phases-1 {
			for _, t := range ts {
				t.c.PeerClose(false)
			}
		}
		settle()
		if slow {
			time.Sleep(20 * time.Second)
			settle()
		}
		// between the phases handlers are replaced, added, and nil is ignored
		for id := range handled {
			if r.Intn(3) == 0 {
				reg(id)
			}
			if r.Intn(3) == 0 {
				w.srv.AddHandler(protocol.MsgID(id), nil)
			}
		}
		for _, s := range kinds {
			if handled[s.id] == 0 && r.Intn(3) == 0 {
				reg(s.id)
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	var owner = map[*go808.Session]int{}
	for k, t := range ts {
		ds := log[t.icc]
		ws := wants[k]
		rec.Count("deliveries", int64(len(ds)))
		for j := 0; j < len(ds) || j < len(ws); j++ {
			if j >= len(ws) {
				rec.Violate("extra-delivery", "scenario %d terminal %d: %d messages with a handler were sent, but %d handler calls; extra: %+v", i, k, len(ws), len(ds), ds[j].h)
				break
			}
			if j >= len(ds) {
				rec.Violate("lost", "scenario %d terminal %d (graceful close %v): %d messages with a handler were sent, only %d handled; first missing %+v", i, k, graceful, len(ws), len(ds), ws[j].h)
				break
			}
			d, x := ds[j], ws[j]
			if d.h != x.h {
				rec.Violate("order", "scenario %d terminal %d: handler call %d is for %+v, want %+v", i, k, j, d.h, x.h)
				break
			}
			if d.gen != x.gen {
				rec.Violate("stale-handler", "scenario %d: message %+v went to handler registration %d, want %d", i, d.h, d.gen, x.gen)
			}
			if df := differ(x.e, d.msg.Body); df != "" {
				rec.Violate("content", "scenario %d terminal %d: message %s (sent / handled): %s", i, k, hx(x.raw), df)
				break
			}
			if s := snapshot(*d.msg); s != d.snap {
				rec.Violate("changed", "scenario %d: a delivered message changed later: %s then %s", i, d.snap, s)
			}
			if o, ok := owner[d.sess]; ok && o != k {
				rec.Violate("mixed", "scenario %d: messages of terminals %d and %d came with the same session", i, o, k)
			}
			owner[d.sess] = k
		}
		for j := 1; j < len(ds); j++ {
			if ds[j].sess != ds[0].sess {
				rec.Violate("session", "scenario %d terminal %d: its messages came with different sessions", i, k)
				break
			}
		}
		if c, _ := t.c.Closed(); c && !graceful {
			rec.Violate("closed", "scenario %d terminal %d: the session was closed although every message was intact", i, k)
		}
	}
	total := 0
	for _, ds := range log {
		total += len(ds)
	}
	sum := 0
	for _, ws := range wants {
		sum += len(ws)
	}
	if total != sum {
		rec.Violate("count", "scenario %d: %d handler calls for %d messages", i, total, sum)
	}
	rec.Count("scenarios", 1)
	rec.Count("sessions", int64(n))
	if i < 2 {
		rec.Sample("scenario %d: %d terminals, %d phases, %d messages to handlers, merge=%v graceful=%v slow=%v", i, n, phases, sum, merge, graceful, slow)
	}
	w.end()
}
