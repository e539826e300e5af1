package harness

import (
	"fmt"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// endlessSession: one session on which more messages are sent than a serial
// number can count.
func endlessSession(total int) {
	r := newRand("C11long", 0)
	w := newWorld(go808.Options{Keepalive: 1 << 30})
	var s *go808.Session
	var first *protocol.Message
	w.srv.AddHandler(2, func(x *go808.Session, m *protocol.Message) { s, first = x, m })
	w.mustStart()
	calm()
	t := w.terminal(newIcc())
	t.send(2, nil)
	settle()
	if s == nil {
		rec.Violate("lost", "long session: the terminal's message was not handled")
		return
	}
	t.got()
	var buf []byte
	type arrived struct {
		serial uint16
		id     uint16
		n      int
	}
	var got []arrived
	bad := ""
	t.c.mu.Lock()
	t.c.discard = true
	t.c.onWrite = func(b []byte) {
		buf = append(buf, b...)
		fr, rest, _ := refSplit(buf)
		buf = append([]byte{}, rest...)
		for _, f := range fr {
			m, err := refParse(f)
			if err != nil {
				bad = hx(f)
				continue
			}
			_, n, _ := tokenOf(append(m.Body, 0, 0, 0, 0, 0, 0))
			got = append(got, arrived{m.H.Serial, m.H.ID, n})
		}
	}
	t.c.mu.Unlock()
	defer w.end()
	at := map[uint16]int{}
	var want []arrived
	count := 0
	for count < total && !rec.Enough() {
		got, want = got[:0], want[:0]
		for b := 1 + r.Intn(16); b > 0; b-- {
			count++
			e := &rawEntity{0x8f00, token(0, count)}
			var serial uint16
			var err error
			id := e.id
			switch r.Intn(12) {
			case 0:
				serial, err = s.Request(e, func(*protocol.Message) {})
			case 1:
				serial, err = s.Reply(first, protocol.T808_0x8001ResultSuccess)
				id = 0x8001
			case 2:
				if w.srv.Broadcast(e) != 1 {
					err = fmt.Errorf("broadcast reaches nobody")
				}
			default:
				serial, err = s.Send(e)
			}
			if err != nil {
				rec.Violate("send", "long session: message %d is refused: %v", count, err)
				return
			}
			want = append(want, arrived{serial, id, count})
		}
		for try := 0; len(got) < len(want) && try < 50; try++ {
			settle()
			if len(got) < len(want) {
				time.Sleep(time.Millisecond)
			}
		}
		if bad != "" || len(got) != len(want) {
			rec.Violate("lost", "long session: after %d messages %d of %d arrive (not a frame: %s)", count, len(got), len(want), bad)
			return
		}
		for i, g := range got {
			x := want[i]
			if g.id != x.id || x.id == 0x8f00 && g.n != x.n {
				rec.Violate("order", "long session: message %d arrives as %04x/%d", x.n, g.id, g.n)
				return
			}
			if g.serial == 0 {
				rec.Violate("serial-zero", "long session: message %d has serial number 0", x.n)
				return
			}
			if x.serial != 0 && x.serial != g.serial {
				rec.Violate("serial", "long session: message %d arrives with serial number %d, the call returned %d", x.n, g.serial, x.serial)
				return
			}
			if o, ok := at[g.serial]; ok && x.n-o < 255 {
				rec.Violate("serial-repeated", "long session: serial number %d is given to messages %d and %d", g.serial, o, x.n)
				return
			}
			at[g.serial] = x.n
		}
	}
	rec.Max("longest_session", int64(count))
	rec.Case(fmt.Sprintf("long/%d", shard))
}
