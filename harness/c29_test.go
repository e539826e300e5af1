package harness

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// C29: several servers in one process.

func TestC29(t *testing.T) {
	registerRaw(idCustomA, idCustomB)
	protocol.Register(idPacket, func() protocol.Entity { return new(pktEntity) })
	bubble(t, func() {
		for i := 0; i < scale(120, 1500) && !rec.Enough(); i++ {
			serversScenario(i)
		}
	})
}

type svEvent struct {
	sv     int
	icc    uint64
	serial uint16
	id     uint16
	data   string
}

func (e svEvent) String() string {
	d := e.data
	if len(d) > 40 {
		d = d[:40] + "..."
	}
	return fmt.Sprintf("server %d: message %04x no. %d of %d %q", e.sv, e.id, e.serial, e.icc, d)
}

type svServer struct {
	w        *world
	keep     int64
	merge    bool
	key      *rsa.PrivateKey
	handlers map[uint16]int // version of the handler registered last
	running  bool
}

type svPeer struct {
	t      *terminal
	sv     int
	s      *go808.Session
	open   bool
	last   time.Time
	busy   time.Time
	frames int      // judged so far
	want   []string // frames expected in this step
}

type svWorld struct {
	i       int
	r       *rand.Rand
	servers []*svServer
	peers   []*svPeer
	mu      sync.Mutex
	got     []svEvent
	sess    map[uint64]*go808.Session // by serial number and terminal number of its first message
	want    []svEvent
	serial  uint16
	log     []string
}

func (v *svWorld) note(format string, a ...interface{}) {
	v.log = append(v.log, fmt.Sprintf(format, a...))
	rec.Case(fmt.Sprintf("%d/%d/%s", v.i, len(v.log), v.log[len(v.log)-1]))
}

func (v *svWorld) tail() string {
	l := v.log
	if len(l) > 6 {
		l = l[len(l)-6:]
	}
	return fmt.Sprintf("scenario %d with %d servers, after %s", v.i, len(v.servers), strings.Join(l, "; "))
}

// handle registers a handler of server k that says so.
func (v *svWorld) handle(k int, id uint16) {
	sv := v.servers[k]
	sv.handlers[id]++
	version := sv.handlers[id]
	srv := sv.w.srv
	srv.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
		e := svEvent{sv: k, icc: m.Header.IccID, serial: m.Header.MsgSerialNo, id: uint16(m.Header.MsgID)}
		switch b := m.Body.(type) {
		case *rawEntity:
			e.data = string(b.Data)
		case *pktEntity:
			c, err := readAllEntity(b)
			if err != nil {
				c = "unreadable: " + err.Error()
			}
			e.data = fmt.Sprintf("%d:%s", b.GetTag(), c)
		}
		e.data = fmt.Sprintf("v%d %s", version, e.data)
		if s.GetServer() != srv {
			rec.Violate("server", "%s: a handler of server %d is called with a session of another server", v.tail(), k)
		}
		if x, ok := srv.GetSession(s.ID()); !ok || x != s {
			rec.Violate("lookup", "%s: a session is not found at its own server %d", v.tail(), k)
		}
		v.mu.Lock()
		v.got = append(v.got, e)
		v.sess[uint64(e.serial)<<40|e.icc] = s
		v.mu.Unlock()
		if id == 2 {
			s.Reply(m, protocol.T808_0x8001ResultSuccess)
		}
		if id == 3 {
			time.Sleep(time.Duration(2+e.serial%60) * time.Second)
		}
	})
}

func readAllEntity(e protocol.EntityPacket) (string, error) {
	var b bytes.Buffer
	_, err := b.ReadFrom(e.GetReader())
	return b.String(), err
}

// free says whether the session takes messages at once.
func (p *svPeer) free() bool { return p.open && !time.Now().Before(p.busy) }

func (v *svWorld) pick(ok func(p *svPeer) bool) *svPeer {
	var l []*svPeer
	for _, p := range v.peers {
		if ok(p) {
			l = append(l, p)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[v.r.Intn(len(l))]
}

func (v *svWorld) next() uint16 {
	v.serial++
	if v.serial == 0 {
		v.serial = 1
	}
	return v.serial
}

// say sends one message of a terminal and predicts what comes of it.
func (v *svWorld) say(p *svPeer, id uint16, data string, encrypted bool) uint16 {
	sv := v.servers[p.sv]
	s := v.next()
	h := refHeader{ID: id, Icc: p.t.icc, Serial: s}
	body := []byte(data)
	if encrypted {
		h.Encrypt = true
		body = refEncrypt(&sv.key.PublicKey, body, 0)
	}
	p.t.c.PeerSend(refFrame(h, body))
	p.last = time.Now()
	if ver := sv.handlers[id]; ver > 0 {
		if id != idCustomA && id != idCustomB {
			data = "" // not looked at
		}
		v.want = append(v.want, svEvent{p.sv, p.t.icc, s, id, fmt.Sprintf("v%d %s", ver, data)})
		if id == 2 {
			p.want = append(p.want, fmt.Sprintf("8001 %d 2 0", s))
		}
		if id == 3 {
			p.busy = time.Now().Add(time.Duration(2+s%60) * time.Second)
		}
	}
	if id == idUnknown {
		p.want = append(p.want, fmt.Sprintf("8001 %d %d 3", s, id))
	}
	return s
}

func frameKey(m refMsg) string {
	if g, ok := parseReply(m); ok {
		return fmt.Sprintf("8001 %d %d %d", g.Serial, g.ID, g.Result)
	}
	return fmt.Sprintf("%04x %s", m.H.ID, m.Body)
}

// judge compares everything observed with what was to happen.
func (v *svWorld) judge() {
	settle()
	v.mu.Lock()
	got := v.got
	v.got = nil
	v.mu.Unlock()
	show := func(l []svEvent) []string {
		var o []string
		for _, e := range l {
			o = append(o, e.String())
		}
		sort.Strings(o)
		return o
	}
	g, w := show(got), show(v.want)
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		rec.Violate("handled", "%s: handled %v, to be handled %v", v.tail(), g, w)
	}
	rec.Count("messages_handled", int64(len(g)))
	v.want = nil
	now := time.Now()
	for _, p := range v.peers {
		ms, ok := p.t.got()
		if !ok {
			continue
		}
		var g []string
		for _, m := range ms[p.frames:] {
			if m.H.Icc != p.t.icc {
				rec.Violate("icc", "%s: terminal %d gets a message for %d", v.tail(), p.t.icc, m.H.Icc)
			}
			g = append(g, frameKey(m))
		}
		p.frames = len(ms)
		sort.Strings(g)
		sort.Strings(p.want)
		if strings.Join(g, "\n") != strings.Join(p.want, "\n") {
			rec.Violate("wire", "%s: terminal %d of server %d got %q, to get %q", v.tail(), p.t.icc, p.sv, g, p.want)
		}
		p.want = nil
		if !p.open {
			continue
		}
		sv := v.servers[p.sv]
		closed, _ := p.t.c.Closed()
		idle := now.Sub(p.last)
		keep := time.Duration(sv.keep) * time.Second
		if closed && idle < keep-time.Second {
			rec.Violate("closed", "%s: a session of server %d (keepalive %d s) is closed %v after its last message", v.tail(), p.sv, sv.keep, idle)
		}
		if !closed && idle > keep+2*time.Second {
			rec.Violate("timeout", "%s: a session of server %d (keepalive %d s) is open %v after its last message", v.tail(), p.sv, sv.keep, idle)
		}
		if closed {
			v.gone(p, "timeout")
			continue
		}
		for k, o := range v.servers {
			x, ok := o.w.srv.GetSession(p.s.ID())
			if k == p.sv && (!ok || x != p.s) {
				rec.Violate("lookup", "%s: an open session of server %d is not registered there", v.tail(), k)
			}
			if k != p.sv && ok && x.GetServer() != o.w.srv {
				rec.Violate("lookup", "%s: server %d hands out a session of server %d", v.tail(), k, p.sv)
			}
		}
	}
	for k, sv := range v.servers {
		if sv.w.srv.GetPrivateKey() != sv.key {
			rec.Violate("key", "%s: server %d has another private key than it was given", v.tail(), k)
		}
	}
}

// gone: the session is over; its own server's close handler was told, once.
func (v *svWorld) gone(p *svPeer, why string) {
	p.open = false
	rec.Count("closed_by_"+why, 1)
	for k, sv := range v.servers {
		sv.w.mu.Lock()
		n, s := sv.w.closed[p.s.ID()], sv.w.sess[p.s.ID()]
		sv.w.mu.Unlock()
		switch {
		case k == p.sv && (n != 1 || s != p.s):
			rec.Violate("close-handler", "%s: the close handler of server %d ran %d times for its session", v.tail(), k, n)
		case k != p.sv && s == p.s:
			rec.Violate("close-handler", "%s: the close handler of server %d ran for a session of server %d", v.tail(), k, p.sv)
		}
	}
}

func (v *svWorld) openPeer(k int, icc uint64) {
	sv := v.servers[k]
	t := sv.w.terminal(icc)
	if t == nil {
		rec.Violate("accept", "%s: server %d refuses a connection", v.tail(), k)
		return
	}
	p := &svPeer{t: t, sv: k, open: true}
	v.peers = append(v.peers, p)
	s := v.say(p, 2, "", false)
	settle()
	v.mu.Lock()
	p.s = v.sess[uint64(s)<<40|icc]
	v.mu.Unlock()
	if p.s == nil {
		rec.Violate("handled", "%s: the first message to server %d is not handled", v.tail(), k)
		v.peers = v.peers[:len(v.peers)-1]
	}
	rec.Count("sessions", 1)
}

// stop stops server k and looks at what that does to its sessions.
func (v *svWorld) stop(k int) bool {
	if !v.servers[k].w.stop() {
		rec.Violate("stop", "%s: Stop of one of several servers hangs", v.tail())
		return false
	}
	if !within(5*time.Second, func() { <-v.servers[k].w.runErr }) {
		rec.Violate("stop", "%s: Run does not return", v.tail())
		return false
	}
	v.servers[k].running = false
	settle()
	for _, p := range v.peers {
		if c, _ := p.t.c.Closed(); p.open && p.sv == k {
			if !c {
				rec.Violate("stop", "%s: a connection of the stopped server is open", v.tail())
			}
			v.gone(p, "stop")
		}
	}
	rec.Count("stops", 1)
	return true
}

func serversScenario(i int) {
	r := newRand("C29", i)
	v := &svWorld{i: i, r: r, sess: map[uint64]*go808.Session{}, serial: uint16(r.Intn(65536))}
	add := func() {
		sv := &svServer{keep: 3600, merge: r.Intn(2) == 0, handlers: map[uint16]int{}}
		if r.Intn(3) == 0 {
			sv.keep = int64([]int{3 + r.Intn(40), 5, 10, 25}[r.Intn(4)])
		}
		sv.key = []*rsa.PrivateKey{nil, key("a"), key("b"), key("c")}[r.Intn(4)]
		sv.w = newWorld(go808.Options{Keepalive: sv.keep, AutoMergePacket: sv.merge, PrivateKey: sv.key})
		v.servers = append(v.servers, sv)
		k := len(v.servers) - 1
		v.handle(k, 2)
		for _, id := range []uint16{3, idCustomA, idCustomB, idPacket} {
			if r.Intn(2) == 0 {
				v.handle(k, id)
			}
		}
		rec.Count("servers", 1)
	}
	run := func(k int) bool {
		if err := v.servers[k].w.start(); err != nil {
			rec.Violate("run", "%s: server %d does not run: %v", v.tail(), k, err)
			return false
		}
		v.servers[k].running = true
		return true
	}
	for n := 2 + r.Intn(3); n > 0; n-- {
		add()
	}
	for k := range v.servers {
		if !run(k) {
			return
		}
	}
	defer func() {
		for _, sv := range v.servers {
			sv.w.end()
		}
		time.Sleep(70 * time.Second) // slow handlers return
		settle()
	}()
	icc := iccPool(r)
	running := func() []int {
		var l []int
		for k, sv := range v.servers {
			if sv.running {
				l = append(l, k)
			}
		}
		return l
	}
	free := func(p *svPeer) bool { return p.free() }
	for step := 10 + r.Intn(50); step > 0 && !rec.Any(); step-- {
		switch r.Intn(17) {
		case 0, 1: // a connection
			if l := running(); len(l) > 0 {
				k := l[r.Intn(len(l))]
				v.note("connect to %d", k)
				for n := 1 + r.Intn(3); n > 0; n-- {
					v.openPeer(k, icc())
				}
			}
		case 2, 3: // messages to all servers at once
			v.note("messages")
			for _, p := range v.peers {
				for n := r.Intn(4); n > 0 && p.free(); n-- {
					v.say(p, []uint16{2, idCustomA, idCustomB, idUnknown}[r.Intn(4)], fmt.Sprintf("text %d", r.Intn(1<<20)), false)
					if r.Intn(2) == 0 {
						break
					}
				}
			}
		case 4: // encrypted with the key of the own server, or of another one
			p := v.pick(func(p *svPeer) bool { return p.free() && v.servers[p.sv].handlers[idCustomA] > 0 })
			if p == nil {
				continue
			}
			own := v.servers[p.sv].key
			if own != nil {
				v.note("encrypted message to %d", p.sv)
				v.say(p, idCustomA, fmt.Sprintf("secret %d", r.Intn(1<<20)), true)
				rec.Count("encrypted_messages", 1)
				v.judge()
			}
			other := []*rsa.PrivateKey{key("a"), key("b"), key("c")}[r.Intn(3)]
			if other != own && r.Intn(3) == 0 {
				v.note("message encrypted with a foreign key to %d", p.sv)
				h := refHeader{ID: idCustomA, Icc: p.t.icc, Serial: v.next(), Encrypt: true}
				p.t.c.PeerSend(refFrame(h, refEncrypt(&other.PublicKey, []byte("secret"), 0)))
				rec.Count("foreign_keys", 1)
				settle()
				if c, _ := p.t.c.Closed(); c {
					v.gone(p, "foreign_key")
				} else {
					p.last = time.Now()
				}
			}
		case 5: // broadcast
			k := r.Intn(len(v.servers))
			text := fmt.Sprintf("broadcast %d", r.Intn(1<<20))
			v.note("broadcast on %d", k)
			n := 0
			for _, p := range v.peers {
				if p.open && p.sv == k {
					n++
					p.want = append(p.want, fmt.Sprintf("%04x %s", idCustomA, text))
				}
			}
			if c := v.servers[k].w.srv.Broadcast(&rawEntity{idCustomA, []byte(text)}); c != n {
				rec.Violate("broadcast", "%s: it counts %d sessions, the server has %d", v.tail(), c, n)
			}
			rec.Count("broadcasts", 1)
		case 6: // requests on sessions of two servers
			p := v.pick(free)
			if p == nil {
				continue
			}
			q := v.pick(func(q *svPeer) bool { return q.free() && q.sv != p.sv })
			if q == nil {
				continue
			}
			v.note("requests on %d and %d", p.sv, q.sv)
			var mu sync.Mutex
			calls := [2]int{}
			pair := []*svPeer{p, q}
			var serial [2]uint16
			for x, o := range pair {
				x, o := x, o
				s, err := o.s.Request(&protocol.T808_0x8104{}, func(m *protocol.Message) {
					mu.Lock()
					calls[x]++
					mu.Unlock()
				})
				if err != nil {
					rec.Violate("request", "%s: %v", v.tail(), err)
				}
				serial[x] = s
				o.want = append(o.want, "8104 ")
			}
			for x, o := range pair {
				if serial[0] != serial[1] {
					v.say(o, 1, string(ack(serial[1-x], 0x8104, 0)), false)
					settle()
				}
				mu.Lock()
				c := calls
				mu.Unlock()
				if c[0] != x || c[1] != 0 {
					rec.Violate("answer", "%s: callbacks ran %v times before they were answered", v.tail(), c)
				}
				v.say(o, 1, string(ack(serial[x], 0x8104, 0)), false)
				settle()
				mu.Lock()
				c = calls
				mu.Unlock()
				if c[x] != 1 {
					rec.Violate("answer", "%s: the callback of server %d's session ran %d times", v.tail(), o.sv, c[x])
				}
			}
			rec.Count("requests", 2)
		case 7, 8: // an upload, merged or not as the server was told
			p := v.pick(free)
			if p == nil {
				continue
			}
			sv := v.servers[p.sv]
			old := p.t.icc
			n := 2 + r.Intn(3)
			u := newUpload(r, newIcc(), idPacket, uint32(1+r.Intn(1<<20)), n)
			v.note("upload of %d parts to %d", n, p.sv)
			for k := 1; k <= n; k++ {
				s := v.next()
				p.t.c.PeerSend(refFrame(refHeader{ID: idPacket, Icc: u.icc, Serial: s, Frag: true, Sum: uint16(n), Seq: uint16(k)}, upBody(r, idPacket, u.tag, u.parts[k])))
				p.last = time.Now()
				ver := sv.handlers[idPacket]
				content := string(u.parts[k])
				if sv.merge {
					p.want = append(p.want, fmt.Sprintf("8001 %d %d 0", s, idPacket))
					content = string(u.content())
				}
				if ver > 0 && (!sv.merge || k == n) {
					v.want = append(v.want, svEvent{p.sv, u.icc, s, idPacket, fmt.Sprintf("v%d %d:%s", ver, u.tag, content)})
				}
			}
			p.t.icc = u.icc
			rec.Count("uploads", 1)
			v.judge()
			p.t.icc = old
			v.say(p, 2, "", false)
		case 9: // a handler that takes long
			p := v.pick(func(p *svPeer) bool { return p.free() && v.servers[p.sv].handlers[3] > 0 })
			if p != nil {
				v.note("slow handler on %d", p.sv)
				v.say(p, 3, "", false)
				rec.Count("slow_handlers", 1)
			}
		case 10: // handlers are added or replaced
			k := r.Intn(len(v.servers))
			id := []uint16{2, 3, idCustomA, idCustomB, idPacket}[r.Intn(5)]
			v.note("handler for %04x on %d", id, k)
			v.handle(k, id)
		case 11: // time passes
			d := time.Duration(r.Intn(20000)) * time.Millisecond
			v.note("%v", d)
			time.Sleep(d)
		case 12: // a server stops or runs again
			k := r.Intn(len(v.servers))
			for try := r.Intn(6); try > 0 && v.servers[k].running; try-- {
				k = r.Intn(len(v.servers))
			}
			if !v.servers[k].running {
				v.note("run %d", k)
				if !run(k) {
					return
				}
				continue
			}
			v.note("stop %d", k)
			if !v.stop(k) {
				return
			}
		case 13: // another server
			if len(v.servers) < 6 && r.Intn(3) == 0 {
				v.note("new server")
				add()
				if r.Intn(2) == 0 && !run(len(v.servers)-1) {
					return
				}
			}
		case 15, 16: // everything at once, one server stops meanwhile
			l := running()
			if len(l) == 0 {
				continue
			}
			k := l[r.Intn(len(l))]
			if r.Intn(3) > 0 {
				k = -1
			}
			v.note("storm while %d stops", k)
			var wg sync.WaitGroup
			for j, sv := range v.servers {
				if j == k {
					continue
				}
				n := 0
				text := fmt.Sprintf("storm %d", r.Intn(1<<20))
				times := 1 + r.Intn(3)
				for _, p := range v.peers {
					if p.open && p.sv == j {
						n++
						for x := 0; x < times; x++ {
							p.want = append(p.want, fmt.Sprintf("%04x %s", idCustomA, text))
						}
						for p.free() && r.Intn(3) > 0 && len(p.want) < 10 {
							v.say(p, []uint16{2, idCustomA, idCustomB, idUnknown}[r.Intn(4)], fmt.Sprintf("text %d", r.Intn(1<<20)), false)
						}
					}
				}
				sv := sv
				for x := 0; x < times; x++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if c := sv.w.srv.Broadcast(&rawEntity{idCustomA, []byte(text)}); c != n {
							rec.Violate("broadcast", "%s: a broadcast on %d counts %d sessions, the server has %d", v.tail(), j, c, n)
						}
					}()
				}
			}
			if k >= 0 && !v.stop(k) {
				return
			}
			wg.Wait()
			rec.Count("storms", 1)
		case 14: // one session closes
			p := v.pick(func(p *svPeer) bool { return p.open })
			if p == nil || !p.free() {
				continue
			}
			if r.Intn(2) == 0 {
				v.note("terminal of %d leaves", p.sv)
				p.t.c.PeerClose(r.Intn(2) == 0)
			} else {
				v.note("session of %d closed", p.sv)
				p.s.Close()
			}
			settle()
			v.gone(p, "request")
		}
		v.judge()
	}
	rec.Count("scenarios", 1)
}
