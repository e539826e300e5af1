package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

type wantReply struct {
	icc uint64
	genReply
	why string
}

func TestC08(t *testing.T) {
	registerRaw(idCustomA, idNoHandle)
	bubble(t, func() {
		for i := 0; i < scale(800, 3000) && !rec.Enough(); i++ {
			replyScenario(i)
		}
	})
}

// unparsable bodies of built-in types
var badBodies = []struct {
	id   uint16
	body []byte
}{
	{0x0001, []byte{0, 1, 2, 3}}, {0x0001, nil}, {0x0100, []byte{1, 2, 3}}, {0x0200, make([]byte, 27)},
	{0x0201, make([]byte, 10)}, {0x0102, nil}, {0x0104, []byte{1}}, {0x0302, []byte{1}}, {0x0500, []byte{0, 1, 0}},
	{0x0800, []byte{1, 2}}, {0x0801, []byte{1, 2, 3}}, {0x0805, []byte{1}}, {0x0702, []byte{1}}, {0x0704, []byte{0, 5, 1, 0, 40, 1}},
	{0x0A00, make([]byte, 100)}, {0x0107, []byte{0, 0}}, {0x0901, []byte{0, 0, 0, 9, 1}}, {0x0301, nil}, {0x0303, []byte{1}},
}

// terminal numbers at the edges
var edgeIccs = []uint64{1, 2, 9, 10, 99, 100, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 99999999999, 100000000000, 999999999998, 999999999999}

func used(owner map[uint64]int, icc uint64) bool { _, ok := owner[icc]; return ok }

func replyScenario(i int) {
	r := newRand("C08", i)
	g := &gen{r: r, small: true}
	merge := r.Intn(2) == 0
	w := newWorldOr(i%4 == 3, go808.Options{AutoMergePacket: merge, Keepalive: 600})
	lr := &lockedRand{r: rand.New(rand.NewSource(r.Int63()))}
	type plan struct {
		reply  bool
		result byte
		later  bool
	}
	var mu sync.Mutex
	plans := map[uint32]plan{} // by (terminal, serial)
	type kept struct {
		s *go808.Session
		m *protocol.Message
		p plan
	}
	var later []kept
	key := func(k int, serial uint16) uint32 { return uint32(k)<<16 | uint32(serial) }
	owner := map[uint64]int{}
	bad := map[uint32]string{}
	special := map[uint32]bool{} // unusual serial numbers used already
	h := func(s *go808.Session, m *protocol.Message) {
		mu.Lock()
		k, ok := owner[m.Header.IccID]
		p := plans[key(k, m.Header.MsgSerialNo)]
		why := bad[key(k, m.Header.MsgSerialNo)]
		mu.Unlock()
		if !ok || why != "" {
			rec.Violate("handled", "scenario %d: a handler got message %+v that cannot be interpreted (%s)", i, headerOf(m), why)
			return
		}
		rec.Count("handled", 1)
		jitter(lr, 10)
		if p.later {
			mu.Lock()
			later = append(later, kept{s, m, p})
			mu.Unlock()
			return
		}
		if p.reply {
			if _, err := s.Reply(m, protocol.Result(p.result)); err != nil {
				rec.Violate("reply-error", "scenario %d: replying fails: %v", i, err)
			}
		}
	}
	for _, s := range schemas {
		w.srv.AddHandler(protocol.MsgID(s.id), h)
	}
	for _, id := range []uint16{idCustomA, idUnknown, 0x0000, 0xffff} {
		w.srv.AddHandler(protocol.MsgID(id), h)
	}
	if r.Intn(2) == 0 {
		jitterHooks(w, r, 20)
	}
	w.mustStart()
	n := 1 + r.Intn(3)
	ts := make([]*terminal, n)
	wants := make([][]wantReply, n)
	for k := range ts {
		icc := newIcc()
		if k == 0 && r.Intn(10) == 0 {
			icc = 0
		}
		if r.Intn(6) == 0 {
			if q := edgeIccs[r.Intn(len(edgeIccs))]; !used(owner, q) {
				icc = q
			}
		}
		ts[k] = w.terminal(icc)
		owner[icc] = k
	}
	settle()
	rounds := 1 + r.Intn(6)
	var descr string
	for round := 0; round < rounds; round++ {
		for k, t := range ts {
			var stream []byte
			for m := 1 + r.Intn(18); m > 0; m-- {
				kind := r.Intn(8)
				if kind == 4 && !merge {
					kind = 3
				}
				if t.icc != 0 && r.Intn(12) == 0 {
					t.icc = newIcc()
					mu.Lock()
					if q := edgeIccs[r.Intn(len(edgeIccs))]; r.Intn(3) == 0 && !used(owner, q) {
						t.icc = q
					}
					owner[t.icc] = k
					mu.Unlock()
				}
				hd := refHeader{Icc: t.icc, Serial: t.next()}
				if sp := []uint16{0, 0xffff, 0x7e7d, 0x0100, 0x8000}[r.Intn(5)]; r.Intn(8) == 0 && !special[key(k, sp)] {
					hd.Serial = sp
					special[key(k, sp)] = true
				}
				kk := key(k, hd.Serial)
				unsup := func(why string) {
					mu.Lock()
					bad[kk] = why
					mu.Unlock()
					wants[k] = append(wants[k], wantReply{t.icc, genReply{hd.Serial, hd.ID, 3}, why})
					rec.Count("unsupported", 1)
				}
				var f []byte
				switch kind {
				case 0: // unknown id
					hd.ID = []uint16{idUnknown, 0x0000, 0xffff, 0x0f7d, 0x7e7d}[r.Intn(5)]
					hd.Frag, hd.Sum, hd.Seq = r.Intn(4) == 0, uint16(r.Intn(4)), uint16(r.Intn(4))
					f = refFrame(hd, rBody(r, r.Intn(40)))
					unsup("unknown id")
				case 1: // wrong length
					s := schemas[r.Intn(len(schemas))]
					hd.ID = s.id
					_, body := s.gen(g)
					if len(body) > 1000 {
						body = body[:1000]
					}
					d := len(body) + 1 + r.Intn(20)
					if r.Intn(2) == 0 && len(body) > 0 {
						d = r.Intn(len(body))
					}
					hd.Frag, hd.Sum, hd.Seq = r.Intn(4) == 0, uint16(r.Intn(4)), uint16(r.Intn(4))
					f = refSeal(refContent(hd, body, d))
					unsup("wrong length")
				case 2: // unparsable body
					b := badBodies[r.Intn(len(badBodies))]
					hd.ID = b.id
					hd.Frag, hd.Sum, hd.Seq = r.Intn(4) == 0, uint16(r.Intn(4)), uint16(r.Intn(4))
					f = refFrame(hd, b.body)
					unsup("unparsable body")
				case 3: // nobody handles it
					hd.ID = idNoHandle
					f = refFrame(hd, rBody(r, r.Intn(40)))
				case 4: // a fragment
					hd.ID = 0x0801
					hd.Frag = true
					hd.Sum = uint16(3 + r.Intn(3))
					hd.Seq = uint16(r.Intn(int(hd.Sum))) // the last part is never sent
					res := byte(0)
					if hd.Seq == 0 {
						res = 1
						if r.Intn(2) == 0 {
							hd.Seq = hd.Sum + 1 + uint16(r.Intn(5))
						}
					}
					_, body := schemaOf(0x0801).gen(g)
					f = refFrame(hd, body)
					wants[k] = append(wants[k], wantReply{t.icc, genReply{hd.Serial, hd.ID, res}, "fragment"})
					rec.Count("fragments", 1)
				default: // handled, perhaps replied to
					var body []byte
					if r.Intn(2) == 0 {
						hd.ID = idCustomA
						body = rBody(r, r.Intn(40))
					} else {
						s := schemas[r.Intn(len(schemas))]
						hd.ID = s.id
						_, body = s.gen(g)
						for len(body) > 1023 {
							_, body = s.gen(g)
						}
					}
					p := plan{reply: r.Intn(3) > 0, result: byte(r.Intn(5)), later: r.Intn(10) == 0}
					mu.Lock()
					plans[kk] = p
					mu.Unlock()
					f = refFrame(hd, body)
					if p.reply && !p.later {
						wants[k] = append(wants[k], wantReply{t.icc, genReply{hd.Serial, hd.ID, p.result}, "reply"})
						rec.Count("replies", 1)
					}
				}
				rec.Case(string(f))
				stream = append(stream, f...)
			}
			t.c.PeerSend(chop(r, stream)...)
		}
		settle()
		// replies issued later, from elsewhere
		mu.Lock()
		ks := later
		later = nil
		mu.Unlock()
		for _, x := range ks {
			k := owner[x.m.Header.IccID]
			serial, err := x.s.Reply(x.m, protocol.Result(x.p.result))
			_ = serial
			if err != nil {
				rec.Violate("reply-error", "scenario %d: replying later fails: %v", i, err)
				continue
			}
			wants[k] = append(wants[k], wantReply{ts[k].icc, genReply{x.m.Header.MsgSerialNo, uint16(x.m.Header.MsgID), x.p.result}, "late reply"})
			rec.Count("late_replies", 1)
			settle()
		}
	}
	settle()
	for k, t := range ts {
		ms, ok := t.got()
		if !ok {
			continue
		}
		if c, _ := t.c.Closed(); c {
			rec.Violate("closed", "scenario %d: the session was closed although every frame was intact", i)
			continue
		}
		for j := 0; j < len(ms) || j < len(wants[k]); j++ {
			if j >= len(ms) {
				rec.Violate("missing", "scenario %d: no reply to message %04x serial %d (%s): %d replies, want %d", i, wants[k][j].ID, wants[k][j].Serial, wants[k][j].why, len(ms), len(wants[k]))
				break
			}
			rp, ok := parseReply(ms[j])
			if !ok {
				rec.Violate("not-a-reply", "scenario %d: the terminal got %+v body %s, want a general reply", i, ms[j].H, hx(ms[j].Body))
				break
			}
			if j >= len(wants[k]) {
				rec.Violate("surplus", "scenario %d: surplus reply %+v", i, rp)
				break
			}
			x := wants[k][j]
			if rp != x.genReply {
				rec.Violate("wrong", "scenario %d: reply %d (%s) is %+v, want %+v", i, j, x.why, rp, x.genReply)
				break
			}
			if ms[j].H.Icc != x.icc {
				rec.Violate("addressee", "scenario %d: reply %d (%s) to %04x is addressed to %d, the terminal last used %d", i, j, x.why, x.ID, ms[j].H.Icc, x.icc)
				break
			}
			rec.Count("replies_checked", 1)
		}
	}
	if i == 0 {
		rec.Sample("%s", descr+fmt.Sprintf("scenario 0: %d terminals, %d rounds, first wants %+v", n, rounds, wants[0]))
	}
	rec.Count("scenarios", 1)
	w.end()
}
