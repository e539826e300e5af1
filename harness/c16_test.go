package harness

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"syscall"
	"testing"
	"testing/iotest"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

const (
	idPacket      = 0x0f05 // a fragmentable message type of the application
	tagUnreadable = 0xdeadbeef
)

// pktEntity is an application's own fragmentable message: kind, tag, payload.
type pktEntity struct {
	Kind   byte
	Tag    uint32
	reader io.Reader
}

func (e *pktEntity) MsgID() protocol.MsgID { return idPacket }
func (e *pktEntity) Encode() ([]byte, error) {
	b := append([]byte{e.Kind}, u32b(e.Tag)...)
	if e.reader != nil {
		d, err := io.ReadAll(e.reader)
		if err != nil {
			return nil, err
		}
		b = append(b, d...)
	}
	return b, nil
}
func (e *pktEntity) Decode(data []byte) (int, error) {
	if len(data) < 5 {
		return 0, protocol.ErrInvalidBody
	}
	e.Kind = data[0]
	e.Tag = uint32(data[1])<<24 | uint32(data[2])<<16 | uint32(data[3])<<8 | uint32(data[4])
	return 5, nil
}
func (e *pktEntity) GetTag() uint32        { return e.Tag }
func (e *pktEntity) GetReader() io.Reader  { return e.reader }
func (e *pktEntity) SetReader(r io.Reader) { e.reader = r }
func (e *pktEntity) DecodePacket(data []byte) error {
	n, err := e.Decode(data)
	if err != nil {
		return err
	}
	e.reader = bytes.NewReader(data[n:])
	if e.Tag == tagUnreadable {
		e.reader = io.MultiReader(e.reader, iotest.ErrReader(io.ErrUnexpectedEOF))
	}
	return nil
}

// upBody is the body of one fragment of an upload.
func upBody(r *rand.Rand, id uint16, tag uint32, payload []byte) []byte {
	if id == idPacket {
		return append(append([]byte{byte(r.Intn(256))}, u32b(tag)...), payload...)
	}
	b := append(u32b(tag), byte(r.Intn(3)), byte(r.Intn(5)), byte(r.Intn(8)), byte(r.Intn(256)))
	b = append(b, randBytes(r, 8)...)                 // alarm, status
	b = append(b, u32b(uint32(r.Intn(90000000)))...)  // latitude
	b = append(b, u32b(uint32(r.Intn(180000000)))...) // longitude
	b = append(b, randBytes(r, 6)...)                 // altitude, speed, direction
	b = append(b, 0x24, 0x07, 0x15, 0x12, 0x30, 0x45) // time
	return append(b, payload...)
}

func upRoom(id uint16) int {
	if id == idPacket {
		return 1023 - 5
	}
	return 1023 - 36
}

// an upload as the terminal sees it
type upload struct {
	icc     uint64
	id      uint16
	tag     uint32
	n       int
	parts   [][]byte // payloads, 1..n
	have    []bool
	missing int
	order   []int // what is still to be sent
	done    bool
	late    []int // sent after completion
	again   bool  // follows an abandoned upload with the same identity
}

func (u *upload) content() []byte { return bytes.Join(u.parts[1:], nil) }
func (u *upload) String() string {
	return fmt.Sprintf("upload of terminal %d, message 0x%04x, tag %d, %d parts", u.icc, u.id, u.tag, u.n)
}

func newUpload(r *rand.Rand, icc uint64, id uint16, tag uint32, n int) *upload {
	u := &upload{icc: icc, id: id, tag: tag, n: n, missing: n}
	u.parts = make([][]byte, n+1)
	u.have = make([]bool, n+1)
	style := r.Intn(6)
	for k := 1; k <= n; k++ {
		var p []byte
		switch style {
		case 0:
			p = nil
		case 1:
			p = bytes.Repeat([]byte{0x7e, 0x7d}[r.Intn(2):][:1], r.Intn(20))
		case 2:
			p = randBytes(r, upRoom(id))
		case 3:
			p = randBytes(r, r.Intn(upRoom(id)+1))
		default:
			p = []byte(fmt.Sprintf("<%d.%d.%d/%d:%x>", icc, tag, k, n, r.Intn(1<<30)))
		}
		u.parts[k] = p
	}
	perm := r.Perm(n)
	switch r.Intn(4) {
	case 0:
		for k := range perm {
			perm[k] = k
		}
	case 1:
		for k := range perm {
			perm[k] = n - 1 - k
		}
	}
	for _, k := range perm {
		u.order = append(u.order, k+1)
	}
	// repetitions, before completion: never after the last new part
	if n > 1 && r.Intn(2) == 0 {
		for d := 1 + r.Intn(4); d > 0; d-- {
			at := r.Intn(len(u.order) - 1)
			dup := u.order[r.Intn(at+1)]
			u.order = append(u.order[:at+1], append([]int{dup}, u.order[at+1:]...)...)
		}
	}
	if n > 1 && r.Intn(5) == 0 {
		for d := 1 + r.Intn(n-1); d > 0; d-- {
			u.late = append(u.late, 1+r.Intn(n))
		}
		distinct := map[int]bool{}
		for _, k := range u.late {
			distinct[k] = true
		}
		if len(distinct) == n {
			u.late = nil
		}
	}
	return u
}

type upDelivery struct {
	sess    uint64
	icc     uint64
	id      uint16
	tag     uint32
	frag    bool
	content string
}

func TestC16(t *testing.T) {
	protocol.Register(idPacket, func() protocol.Entity { return new(pktEntity) })
	bubble(t, func() {
		for i := 0; i < scale(130, 2500) && !rec.Enough(); i++ {
			mergeScenario(i)
		}
		if !rec.Enough() {
			manyParts()
		}
	})
}

type upPeer struct {
	t       *terminal
	queue   []*upload      // uploads in progress on this connection
	want    []upDelivery   // expected deliveries in order
	acks    map[uint16]int // serial -> result expected (-1: none)
	ids     map[uint16]uint16
	burst   int
	nFrames int
}

type mergeWorld struct {
	*world
	mu  sync.Mutex
	got map[uint64][]upDelivery // by terminal number

	slow func(d upDelivery) // called in the middle of reading an upload
}

func newMergeWorld(auto bool) *mergeWorld {
	m := &mergeWorld{got: map[uint64][]upDelivery{}}
	m.world = newWorld(go808.Options{Keepalive: 3600, AutoMergePacket: auto})
	h := func(s *go808.Session, msg *protocol.Message) {
		d := upDelivery{sess: s.ID(), icc: msg.Header.IccID, id: uint16(msg.Header.MsgID), frag: msg.Header.Packet != nil}
		if e, ok := msg.Body.(protocol.EntityPacket); ok {
			d.tag = e.GetTag()
			var head []byte
			if m.slow != nil {
				head = make([]byte, 10)
				n, _ := io.ReadFull(e.GetReader(), head)
				head = head[:n]
				m.slow(d)
			}
			c, err := io.ReadAll(e.GetReader())
			if err != nil {
				rec.Violate("read", "reading a delivered upload fails: %v", err)
			}
			d.content = string(head) + string(c)
		} else if e, ok := msg.Body.(*rawEntity); ok {
			d.content = string(e.Data)
		}
		m.mu.Lock()
		m.got[d.icc] = append(m.got[d.icc], d)
		m.mu.Unlock()
		rec.Count("deliveries", 1)
	}
	m.srv.AddHandler(0x0801, h)
	m.srv.AddHandler(idPacket, h)
	m.srv.AddHandler(idCustomA, h)
	return m
}

func (p *upPeer) pace() {
	p.burst++
	if p.burst >= 18 {
		settle()
		p.burst = 0
	}
}

// sendPart sends part k and updates the model.
func (p *upPeer) sendPart(r *rand.Rand, u *upload, k int) {
	f, s := p.t.frag(u.id, uint16(u.n), uint16(k), upBody(r, u.id, u.tag, u.parts[k]))
	p.acks[s], p.ids[s] = 0, u.id
	if !u.done && !u.have[k] {
		u.have[k] = true
		u.missing--
		if u.missing == 0 {
			u.done = true
			p.want = append(p.want, upDelivery{icc: u.icc, id: u.id, tag: u.tag, frag: true, content: string(u.content())})
			rec.Case(fmt.Sprintf("%d/%x/%d/%d/%v", u.icc, u.id, u.tag, u.n, u.order))
			rec.Sample("%v delivered", u)
		}
	}
	rec.Count("fragments", 1)
	p.nFrames++
	if r.Intn(8) == 0 {
		p.t.c.PeerSend(chop(r, f)...)
	} else {
		p.t.c.PeerSend(f)
	}
	p.pace()
}

// bad sends something that must not count.
func (p *upPeer) bad(r *rand.Rand, u *upload) {
	n, k := uint16(u.n), uint16(0)
	res := 1
	id := u.id
	body := upBody(r, u.id, u.tag, randBytes(r, r.Intn(30)))
	switch r.Intn(6) {
	case 0:
	case 1:
		k = n + 1
	case 2:
		k = n + 1 + uint16(r.Intn(60000))
		if k <= n {
			k = 65535
		}
	case 3:
		n, k = 0, uint16(r.Intn(3))
	case 4: // too short to be understood
		body = body[:r.Intn(5)]
		k = 1
		res = 3
	case 5: // its content cannot be read
		id, n, k = idPacket, 1, 1
		body = upBody(r, id, tagUnreadable, randBytes(r, r.Intn(30)))
	}
	f, s := p.t.frag(id, n, k, body)
	p.acks[s], p.ids[s] = res, id
	rec.Count("invalid_fragments", 1)
	p.t.c.PeerSend(f)
	p.pace()
}

// noRoom sends a fragment that cannot be stored: it counts as not received.
func (p *upPeer) noRoom(r *rand.Rand, u *upload) {
	k := 1 + r.Intn(u.n)
	if u.done || len(u.parts[k]) == 0 {
		return
	}
	f, s := p.t.frag(u.id, uint16(u.n), uint16(k), upBody(r, u.id, u.tag, u.parts[k]))
	p.acks[s], p.ids[s] = 1, u.id
	settle()
	fileLimit(r.Intn(len(u.parts[k])), func() {
		p.t.c.PeerSend(f)
		settle()
	})
	rec.Count("fragments_without_room", 1)
}

// noRoomToMerge sends the last missing fragment when there is room for it but
// not for the whole; a repeated fragment completes the upload later.
func (p *upPeer) noRoomToMerge(r *rand.Rand, u *upload) bool {
	max, total, k := 0, 0, 0
	for q := 1; q <= u.n; q++ {
		total += len(u.parts[q])
		if len(u.parts[q]) > max {
			max = len(u.parts[q])
		}
		if !u.have[q] {
			k = q
		}
	}
	if max == total {
		return false
	}
	f, s := p.t.frag(u.id, uint16(u.n), uint16(k), upBody(r, u.id, u.tag, u.parts[k]))
	p.acks[s], p.ids[s] = 0, u.id
	settle()
	fileLimit(max+r.Intn(total-max), func() {
		p.t.c.PeerSend(f)
		settle()
	})
	rec.Count("merges_without_room", 1)
	u.have[k] = true
	k = 1 + r.Intn(u.n)
	u.have[k] = false
	u.order = nil
	p.sendPart(r, u, k)
	return true
}

func (p *upPeer) other(r *rand.Rand) {
	switch r.Intn(3) {
	case 0: // the whole upload in one message
		pl := randBytes(r, r.Intn(100))
		tag := tagPool[r.Intn(len(tagPool))]
		p.t.send(0x0801, upBody(r, 0x0801, tag, pl))
		p.want = append(p.want, upDelivery{icc: p.t.icc, id: 0x0801, tag: tag, content: string(pl)})
	case 1: // fragments of a message that cannot be merged
		pl := randBytes(r, 1+r.Intn(40))
		f, _ := p.t.frag(idCustomA, uint16(1+r.Intn(5)), uint16(r.Intn(7)), pl)
		p.t.c.PeerSend(f)
		p.want = append(p.want, upDelivery{icc: p.t.icc, id: idCustomA, frag: true, content: string(pl)})
	case 2:
		p.t.send(2, nil)
	}
	rec.Count("other_messages", 1)
	p.pace()
}

var tagPool = []uint32{0, 1, 2, 3, 11, 12, 21, 111, 112, 1111, 2049, 3845, 20491, 65535, 65536, 65537, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2}

// forget starts a new account of what the terminal sent and got.
func (m *mergeWorld) forget(p *upPeer) {
	m.mu.Lock()
	delete(m.got, p.t.icc)
	m.mu.Unlock()
	p.want, p.acks, p.ids, p.burst = nil, map[uint16]int{}, map[uint16]uint16{}, 0
}

func (m *mergeWorld) judge(i int, peers []*upPeer, what string) {
	for _, p := range peers {
		m.mu.Lock()
		got := append([]upDelivery{}, m.got[p.t.icc]...)
		m.mu.Unlock()
		for k := 0; k < len(got) || k < len(p.want); k++ {
			if k >= len(got) {
				rec.Violate("not-delivered", "scenario %d, %s: complete but not delivered: terminal %d message 0x%04x tag %d (%d bytes), %d of %d delivered",
					i, what, p.want[k].icc, p.want[k].id, p.want[k].tag, len(p.want[k].content), len(got), len(p.want))
				break
			}
			if k >= len(p.want) {
				rec.Violate("delivered", "scenario %d, %s: terminal %d message 0x%04x tag %d delivered with %d bytes although it is not complete or was delivered before",
					i, what, got[k].icc, got[k].id, got[k].tag, len(got[k].content))
				break
			}
			g, w := got[k], p.want[k]
			g.sess = 0
			if g != w {
				key := "content"
				if g.id != w.id || g.tag != w.tag {
					key = "wrong-upload"
				}
				rec.Violate(key, "scenario %d, %s: terminal %d: delivered message 0x%04x tag %d fragment %v with %d bytes %s, sent message 0x%04x tag %d fragment %v with %d bytes %s",
					i, what, p.t.icc, g.id, g.tag, g.frag, len(g.content), hx([]byte(g.content)), w.id, w.tag, w.frag, len(w.content), hx([]byte(w.content)))
				break
			}
		}
		msgs, ok := p.t.got()
		if !ok {
			continue
		}
		seen := map[uint16]int{}
		for _, f := range msgs {
			a, ok := parseReply(f)
			if !ok {
				rec.Violate("reply", "scenario %d: unexpected message 0x%04x to the terminal", i, f.H.ID)
				continue
			}
			want, ok := p.acks[a.Serial]
			if !ok || p.ids[a.Serial] != a.ID {
				rec.Violate("ack-for", "scenario %d, %s: acknowledgement of message 0x%04x serial %d, which needs none", i, what, a.ID, a.Serial)
				continue
			}
			if int(a.Result) != want {
				rec.Violate("ack-result", "scenario %d, %s: fragment with serial %d acknowledged with %d, should be %d", i, what, a.Serial, a.Result, want)
			}
			seen[a.Serial]++
			rec.Count("acknowledgements", 1)
		}
		for s := range p.acks {
			if seen[s] != 1 {
				rec.Violate("ack-count", "scenario %d, %s: fragment with serial %d acknowledged %d times", i, what, s, seen[s])
			}
		}
		if c, _ := p.t.c.Closed(); c {
			rec.Violate("closed", "scenario %d, %s: the session was closed during uploads", i, what)
		}
	}
}

var prefixIcc = []uint64{1, 11, 111, 1111, 12, 121, 112, 999999999999, 99999999999, 100000000000, 10000000000}

func mergeScenario(i int) {
	r := newRand("C16", i)
	auto := r.Intn(8) != 0
	m := newMergeWorld(auto)
	registerRaw(idCustomA)
	defer m.end()
	m.mustStart()
	jitterHooks(m.world, r, 60)
	nt := 1 + r.Intn(4)
	var peers []*upPeer
	// terminal numbers that are easily confused; each used once per process, so
	// that an abandoned upload of one scenario does not meet a later one
	base := newIcc()
	for k := 0; k < nt; k++ {
		icc := base
		if k > 0 {
			icc = []uint64{base*10 + uint64(k), base + uint64(k)<<32, base + uint64(k)<<36}[r.Intn(3)]
			if icc > 999999999999 {
				icc = newIcc()
			}
		}
		if i == 0 && k < len(prefixIcc) {
			icc = prefixIcc[k]
		}
		peers = append(peers, &upPeer{t: m.terminal(icc), acks: map[uint16]int{}, ids: map[uint16]uint16{}})
	}
	if !auto {
		plainFragments(i, r, m, peers)
		return
	}
	used := map[string]int{}
	var tags []uint32
	for k := 1 + r.Intn(6); k > 0; k-- {
		tags = append(tags, tagPool[r.Intn(len(tagPool))])
	}
	var active []struct {
		p *upPeer
		u *upload
	}
	start := func() {
		p := peers[r.Intn(nt)]
		id := uint16(0x0801)
		if r.Intn(3) == 0 {
			id = idPacket
		}
		tag := tags[r.Intn(len(tags))]
		key := fmt.Sprintf("%d/%x/%d", p.t.icc, id, tag)
		if used[key] == 2 { // in progress, or its parts are still around
			return
		}
		n := 1 + r.Intn(12)
		if r.Intn(4) == 0 {
			n = 1 + r.Intn(3)
		}
		u := newUpload(r, p.t.icc, id, tag, n)
		if used[key] == 1 {
			rec.Count("identity_reused", 1)
		}
		used[key] = 2
		active = append(active, struct {
			p *upPeer
			u *upload
		}{p, u})
	}
	for k := 1 + r.Intn(8); k > 0; k-- {
		start()
	}
	steps := 0
	for len(active) > 0 && steps < 400 {
		steps++
		k := r.Intn(len(active))
		p, u := active[k].p, active[k].u
		switch {
		case r.Intn(15) == 0:
			p.bad(r, u)
		case r.Intn(15) == 0:
			p.other(r)
		case r.Intn(25) == 0:
			p.noRoom(r, u)
		case u.missing == 1 && r.Intn(6) == 0 && p.noRoomToMerge(r, u):
		case r.Intn(60) == 0:
			settle()
			m.judge(i, peers, "meanwhile")
		case r.Intn(80) == 0 && p.nFrames > 0:
			// the terminal reconnects and goes on with its uploads
			settle()
			m.judge(i, peers, "before reconnecting")
			m.forget(p)
			p.t.c.PeerClose(r.Intn(2) == 0)
			settle()
			c := m.dial()
			p.t.c = c
			rec.Count("reconnects", 1)
		case r.Intn(150) == 0:
			// the server is stopped and run again; the terminals go on
			settle()
			m.judge(i, peers, "before the restart")
			if !m.stop() || !within(30*time.Second, func() { <-m.runErr }) {
				rec.Count("stop_slow", 1)
				return
			}
			settle()
			m.mustStart()
			for _, p := range peers {
				m.forget(p)
				p.t.c = m.dial()
			}
			rec.Count("server_restarts", 1)
		case r.Intn(100) == 0:
			// the process creates another server
			if _, err := go808.NewServer(go808.Options{Keepalive: 60, AutoMergePacket: r.Intn(2) == 0}); err == nil {
				rec.Count("other_servers", 1)
			}
		case r.Intn(70) == 0 && u.missing > 0 && !u.again:
			// abandoned; the terminal starts again with another number of parts
			n := u.n + 1 + r.Intn(3)
			if u.n > 2 && r.Intn(2) == 0 {
				n = 1 + r.Intn(u.n-1)
			}
			nu := newUpload(r, u.icc, u.id, u.tag, n)
			nu.late, nu.again = []int{}, true // identity stays in use
			active[k].u = nu
			rec.Count("restarted_with_other_count", 1)
		case len(u.order) > 0:
			q := u.order[0]
			u.order = u.order[1:]
			p.sendPart(r, u, q)
		case len(u.late) > 0:
			q := u.late[0]
			u.late = u.late[1:]
			p.sendPart(r, u, q)
			if len(u.late) == 0 {
				u.late = []int{}
			}
		default:
			if u.late == nil { // nothing of it is left: the identity may be used again
				used[fmt.Sprintf("%d/%x/%d", u.icc, u.id, u.tag)] = 1
			}
			active = append(active[:k], active[k+1:]...)
			if steps < 200 && r.Intn(2) == 0 {
				start()
			}
		}
	}
	settle()
	m.judge(i, peers, "at the end")
	rec.Count("scenarios", 1)
}

// plainFragments: without automatic merging every fragment is its own message.
func plainFragments(i int, r *rand.Rand, m *mergeWorld, peers []*upPeer) {
	for k := 0; k < 30; k++ {
		p := peers[r.Intn(len(peers))]
		if r.Intn(4) == 0 {
			p.other(r)
			continue
		}
		id := uint16(0x0801)
		if r.Intn(3) == 0 {
			id = idPacket
		}
		pl := randBytes(r, r.Intn(60))
		tag := tagPool[r.Intn(len(tagPool))]
		f, _ := p.t.frag(id, uint16(1+r.Intn(3)), uint16(1+r.Intn(3)), upBody(r, id, tag, pl))
		p.t.c.PeerSend(f)
		p.want = append(p.want, upDelivery{icc: p.t.icc, id: id, tag: tag, frag: true, content: string(pl)})
		rec.Case(fmt.Sprintf("plain/%d/%d", p.t.icc, k))
	}
	settle()
	m.judge(i, peers, "without merging")
}

// manyParts: uploads of more parts than files may be open.
func manyParts() {
	r := newRand("C16many", 0)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
	lim := old
	lim.Cur = 100
	if lim.Max < lim.Cur {
		lim.Cur = lim.Max
	}
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
	defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	ns := []int{150, 257, 300}
	if shard == 0 {
		ns = append(ns, 1100)
	}
	if thorough {
		ns = append(ns, 700, 1100, 2600)
	}
	for _, n := range ns {
		m := newMergeWorld(true)
		m.mustStart()
		p := &upPeer{t: m.terminal(newIcc()), acks: map[uint16]int{}, ids: map[uint16]uint16{}}
		u := newUpload(r, p.t.icc, 0x0801, uint32(r.Intn(1000)), n)
		u.late = nil
		for len(u.order) > 0 {
			q := u.order[0]
			u.order = u.order[1:]
			p.sendPart(r, u, q)
		}
		settle()
		m.judge(n, []*upPeer{p}, fmt.Sprintf("an upload of %d parts with %d files allowed", n, lim.Cur))
		rec.Count("many_part_uploads", 1)
		m.end()
	}
}

// TestC16Conc: connections of the same terminal upload at the same time, on real threads.
func TestC16Conc(t *testing.T) {
	protocol.Register(idPacket, func() protocol.Entity { return new(pktEntity) })
	bubble(t, func() {
		for i := 0; i < scale(12, 200) && !rec.Enough(); i++ {
			sameTerminal(i)
		}
		for i := 0; i < scale(30, 400) && !rec.Enough(); i++ {
			slowReader(i)
		}
	})
}

func sameTerminal(i int) {
	r := newRand("C16Conc", i)
	m := newMergeWorld(true)
	defer m.end()
	m.mustStart()
	jitterHooks(m.world, r, 30)
	icc := newIcc()
	n := 2 + r.Intn(3)
	type conn struct {
		t  *terminal
		us []*upload
		r  *rand.Rand
	}
	var cs []*conn
	want := map[string]int{}
	for k := 0; k < n; k++ {
		c := &conn{t: m.terminal(icc), r: rand.New(rand.NewSource(r.Int63()))}
		for j := 0; j < 8; j++ {
			u := newUpload(r, icc, 0x0801, uint32(k*100+j), 2+r.Intn(4))
			c.us = append(c.us, u)
			want[fmt.Sprintf("%d/%x", u.tag, u.content())]++
			rec.Case(fmt.Sprintf("same/%d/%d/%d/%d", i, k, j, u.n))
		}
		cs = append(cs, c)
	}
	// all at the same time, upload by upload
	for j := 0; j < 8; j++ {
		var wg sync.WaitGroup
		for _, c := range cs {
			c := c
			wg.Add(1)
			go func() {
				defer wg.Done()
				u := c.us[j]
				for _, k := range u.order {
					f, _ := c.t.frag(u.id, uint16(u.n), uint16(k), upBody(c.r, u.id, u.tag, u.parts[k]))
					c.t.c.PeerSend(f)
					rec.Count("fragments", 1)
					jitterN(c.r.Intn(50))
				}
			}()
		}
		wg.Wait()
		settle()
	}
	m.mu.Lock()
	got := m.got[icc]
	m.mu.Unlock()
	for _, d := range got {
		k := fmt.Sprintf("%d/%x", d.tag, d.content)
		if want[k] == 0 {
			rec.Violate("delivered", "scenario %d: several connections of terminal %d upload at the same time: tag %d delivered again, incomplete or with wrong content (%d bytes)", i, icc, d.tag, len(d.content))
			return
		}
		want[k]--
	}
	for _, v := range want {
		if v != 0 {
			rec.Violate("not-delivered", "scenario %d: several connections of terminal %d upload different media at the same time: %d deliveries missing", i, icc, len(cs)*8-len(got))
			return
		}
	}
	rec.Count("same_terminal_rounds", 8)
	// the same upload sent half over one, half over the other connection, at the same time
	for j := 0; j < 6; j++ {
		u := newUpload(r, icc, 0x0801, uint32(5000+j), 6)
		m.mu.Lock()
		before := len(m.got[icc])
		m.mu.Unlock()
		var wg sync.WaitGroup
		for h := 0; h < 2; h++ {
			h := h
			var fr [][]byte
			for k := 1 + h; k <= 6; k += 2 {
				f, _ := cs[h].t.frag(u.id, 6, uint16(k), upBody(r, u.id, u.tag, u.parts[k]))
				fr = append(fr, f)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, f := range fr {
					cs[h].t.c.PeerSend(f)
				}
			}()
		}
		wg.Wait()
		settle()
		rec.Case(fmt.Sprintf("split/%d/%d", i, j))
		m.mu.Lock()
		got := append([]upDelivery{}, m.got[icc][before:]...)
		m.mu.Unlock()
		if len(got) != 1 || got[0].content != string(u.content()) {
			rec.Violate("split-upload", "scenario %d: an upload arriving over two connections of terminal %d is delivered %d times", i, icc, len(got))
			return
		}
		rec.Count("split_uploads", 1)
	}
}

// slowReader: while the handler still reads an upload, other connections of the
// terminal (or of another) complete further uploads, some with the same
// message id or media id.
func slowReader(i int) {
	r := newRand("C16slow", i)
	m := newMergeWorld(true)
	defer m.end()
	n := 2 + r.Intn(4)
	base := newIcc()
	gate := make([]chan struct{}, n)
	var mu sync.Mutex
	at := 0
	m.slow = func(d upDelivery) {
		mu.Lock()
		k := at
		at++
		mu.Unlock()
		if k < n {
			<-gate[k]
		}
	}
	m.mustStart()
	jitterHooks(m.world, r, 20)
	var us []*upload
	for k := 0; k < n; k++ {
		gate[k] = make(chan struct{})
		icc := base
		if r.Intn(4) == 0 {
			icc = base + 1
		}
		id := uint16(0x0801)
		if r.Intn(3) == 0 {
			id = idPacket
		}
		u := newUpload(r, icc, id, uint32(7+r.Intn(2)), 1+r.Intn(4))
		for q := 1; q <= u.n; q++ {
			u.parts[q] = []byte(fmt.Sprintf("<%d.%d.%d/%d:%x>", i, k, q, u.n, r.Intn(1<<30)))
			if r.Intn(3) == 0 {
				u.parts[q] = append(u.parts[q], randBytes(r, r.Intn(900))...)
			}
		}
		us = append(us, u)
		t := m.terminal(icc)
		for _, q := range u.order {
			f, _ := t.frag(u.id, uint16(u.n), uint16(q), upBody(r, u.id, u.tag, u.parts[q]))
			t.c.PeerSend(f)
			rec.Count("fragments", 1)
		}
		settle()
		rec.Case(fmt.Sprintf("slow/%d/%d/%d/%x/%d", i, k, u.tag, u.id, u.n))
	}
	for _, k := range r.Perm(n) {
		close(gate[k])
		if r.Intn(2) == 0 {
			settle()
		}
	}
	settle()
	left := map[string]int{}
	m.mu.Lock()
	for _, ds := range m.got {
		for _, d := range ds {
			left[fmt.Sprintf("%d/%x/%d/%x", d.icc, d.id, d.tag, d.content)]++
		}
	}
	m.mu.Unlock()
	for k, u := range us {
		key := fmt.Sprintf("%d/%x/%d/%x", u.icc, u.id, u.tag, u.content())
		if left[key] != 1 {
			rec.Violate("slow-reader", "scenario %d: %v, read slowly while other uploads were completed: delivered %d times with the content that was sent (upload %d of %d; deliveries %.300v)", i, u, left[key], k, n, left)
			return
		}
		delete(left, key)
	}
	for key := range left {
		rec.Violate("slow-reader", "scenario %d: delivered but never sent: %.200s", i, key)
	}
	rec.Count("read_slowly", int64(n))
}
