package harness

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"github.com/funny/link"
)

// TestC27TCP: conversations over real sockets, in real time, with everything
// going on at once: each terminal streams messages and uploads and listens, the
// platform replies, sends and broadcasts.
func TestC27TCP(t *testing.T) {
	registerRaw(idCustomA, idCustomB)
	protocol.Register(idPacket, func() protocol.Entity { return new(pktEntity) })
	for i := 0; i < scale(3, 40) && !rec.Enough(); i++ {
		tcpTalk(i)
	}
}

type tcpTerminal struct {
	icc     uint64
	conn    net.Conn
	mu      sync.Mutex
	s       *go808.Session
	up      []string // what the handlers got
	upWant  []string
	acks    []string // general replies the terminal got
	ackWant []string
	down    []string // other messages it got: serial and text
	sent    []string
	casts   []string // broadcasts it got
	err     error
}

func (p *tcpTerminal) count(f func() int) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return f()
}

// until waits in real time; false after a minute.
func until(ok func() bool) bool {
	end := time.Now().Add(60 * time.Second)
	for n := 0; !ok(); n++ {
		if time.Now().After(end) {
			return false
		}
		progress.Add(1)
		if n < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(200 * time.Microsecond)
		}
	}
	return true
}

func tcpTalk(i int) {
	r := newRand("C27TCP", i)
	perturb(newRand("C27TCPp", i))
	defer calm()
	addrs := make(chan net.Addr, 1)
	link.SetHookPoint(nil)
	link.HookListener = func(l net.Listener) net.Listener {
		addrs <- l.Addr()
		return l
	}
	defer func() { link.HookListener = nil }()
	merge := r.Intn(2) == 0
	opts := go808.Options{AutoMergePacket: merge}
	var pub *rsa.PublicKey
	if r.Intn(2) == 0 {
		opts.PrivateKey = key("a")
		pub = &key("a").PublicKey
	}
	var closes sync.Map
	opts.CloseHandler = func(s *go808.Session) { closes.Store(s.ID(), true) }
	srv, err := go808.NewServer(opts)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var mu sync.Mutex
	byIcc := map[uint64]*tcpTerminal{}
	of := func(s *go808.Session, m *protocol.Message) *tcpTerminal {
		mu.Lock()
		defer mu.Unlock()
		p := byIcc[m.Header.IccID]
		if p == nil {
			rec.Violate("stranger", "real sockets: a message of terminal %d, which sent none", m.Header.IccID)
			return &tcpTerminal{}
		}
		return p
	}
	srv.AddHandler(idCustomA, func(s *go808.Session, m *protocol.Message) {
		p := of(s, m)
		text := "?"
		if e, ok := m.Body.(*rawEntity); ok {
			text = string(e.Data)
		}
		p.mu.Lock()
		p.s = s
		p.up = append(p.up, text)
		p.mu.Unlock()
		s.Reply(m, protocol.T808_0x8001ResultSuccess)
	})
	srv.AddHandler(idPacket, func(s *go808.Session, m *protocol.Message) {
		p := of(s, m)
		text := "?"
		if e, ok := m.Body.(*pktEntity); ok {
			c, err := readAllEntity(e)
			if err != nil {
				rec.Violate("up-read", "real sockets: the content of an upload cannot be read: %v", err)
			}
			text = fmt.Sprintf("upload %d:%s", e.GetTag(), c)
		}
		p.mu.Lock()
		p.up = append(p.up, text)
		p.mu.Unlock()
		if !merge {
			s.Reply(m, protocol.T808_0x8001ResultSuccess)
		}
	})
	runErr := make(chan error, 1)
	go func() { runErr <- srv.Run("tcp", 0) }()
	var addr string
	select {
	case a := <-addrs:
		addr = fmt.Sprintf("127.0.0.1:%d", a.(*net.TCPAddr).Port)
	case err := <-runErr:
		panic(fmt.Sprint("harness: the server does not run: ", err))
	}
	n := 1 + r.Intn(6)
	var ps []*tcpTerminal
	var wg, readers sync.WaitGroup
	for k := 0; k < n; k++ {
		conn, err := net.Dial("tcp", addr)
		if err != nil {
			rec.Violate("accept", "real sockets: %v", err)
			return
		}
		p := &tcpTerminal{icc: newIcc(), conn: conn}
		mu.Lock()
		byIcc[p.icc] = p
		mu.Unlock()
		ps = append(ps, p)
		codec, err := go808.Protocol{}.NewCodec(conn)
		if err != nil {
			panic("harness: " + err.Error())
		}
		readers.Add(1)
		go func() { // the terminal listens
			defer readers.Done()
			for {
				x, err := codec.Receive()
				p.mu.Lock()
				if err != nil {
					p.err = err
					p.mu.Unlock()
					return
				}
				m := x.(protocol.Message)
				switch e := m.Body.(type) {
				case *protocol.T808_0x8001:
					p.acks = append(p.acks, fmt.Sprintf("%d %04x %d", e.ReplyMsgSerialNo, uint16(e.ReplyMsgID), e.Result))
				case *rawEntity:
					text := string(e.Data)
					if strings.HasPrefix(text, "all") {
						p.casts = append(p.casts, text)
					} else {
						p.down = append(p.down, fmt.Sprintf("%d %s", m.Header.MsgSerialNo, text))
					}
				default:
					p.down = append(p.down, fmt.Sprintf("%T", m.Body))
				}
				if m.Header.IccID != p.icc {
					rec.Violate("icc", "real sockets: terminal %d gets a message for %d", p.icc, m.Header.IccID)
				}
				p.mu.Unlock()
			}
		}()
	}
	for k, p := range ps {
		r1, r2 := rand.New(rand.NewSource(r.Int63())), rand.New(rand.NewSource(r.Int63()))
		wg.Add(2)
		go func() { // the terminal speaks
			defer wg.Done()
			serial := uint16(r1.Intn(65536))
			var pending []byte
			flush := func() bool {
				for len(pending) > 0 {
					c := 1 + r1.Intn(len(pending))
					if r1.Intn(3) == 0 {
						c = minInt(len(pending), 1+r1.Intn(5))
					}
					if _, err := p.conn.Write(pending[:c]); err != nil {
						rec.Violate("closed", "real sockets, scenario %d: terminal %d of %d cannot write: %v", i, k, n, err)
						return false
					}
					pending = pending[c:]
					if r1.Intn(10) == 0 {
						time.Sleep(time.Duration(r1.Intn(300)) * time.Microsecond)
					}
				}
				return true
			}
			put := func(e protocol.Entity, packet *protocol.Packet) bool {
				if serial++; serial == 0 {
					serial = 1
				}
				m := protocol.Message{Header: protocol.Header{IccID: p.icc, MsgSerialNo: serial, Packet: packet}, Body: e}
				var f []byte
				var err error
				if pub != nil && r1.Intn(6) == 0 {
					f, err = m.Encode(pub)
				} else {
					f, err = m.Encode()
				}
				if err != nil {
					rec.Violate("refused", "real sockets: a message that fits cannot be encoded: %v", err)
					return false
				}
				pending = append(pending, f...)
				p.ackWant = append(p.ackWant, fmt.Sprintf("%d %04x 0", serial, uint16(e.MsgID())))
				rec.Case(fmt.Sprintf("%d/%d/%d", i, p.icc, len(p.ackWant)))
				if len(p.ackWant)%(1+r1.Intn(5)) == 0 && !flush() {
					return false
				}
				// at most eight messages without a reply
				if p.count(func() int { return len(p.ackWant) - len(p.acks) }) >= 8 {
					if !flush() {
						return false
					}
					if !until(func() bool { return p.count(func() int { return len(p.ackWant) - len(p.acks) }) < 4 }) {
						rec.Violate("lost", "real sockets, scenario %d, terminal %d of %d: no reply to %d messages within a minute", i, k, n, p.count(func() int { return len(p.ackWant) - len(p.acks) }))
						return false
					}
				}
				return true
			}
			for x := 0; x < 150; x++ {
				if x > 0 && r1.Intn(25) == 0 {
					c, tag := 1+r1.Intn(5), uint32(1+r1.Intn(1<<20))
					var all []byte
					for q := 1; q <= c; q++ {
						d := randBytes(r1, r1.Intn(500))
						all = append(all, d...)
						if !merge {
							p.upWant = append(p.upWant, fmt.Sprintf("upload %d:%s", tag, d))
						}
						if !put(&pktEntity{Kind: 1, Tag: tag, reader: bytes.NewReader(d)}, &protocol.Packet{Sum: uint16(c), Seq: uint16(q)}) {
							return
						}
					}
					if merge {
						p.upWant = append(p.upWant, fmt.Sprintf("upload %d:%s", tag, all))
					}
					rec.Count("tcp_uploads", 1)
					continue
				}
				text := fmt.Sprintf("%d/%d %s", p.icc, x, rBody(r1, r1.Intn(200)))
				p.upWant = append(p.upWant, text)
				if !put(&rawEntity{idCustomA, []byte(text)}, nil) {
					return
				}
			}
			flush()
		}()
		go func() { // the platform speaks
			defer wg.Done()
			if !until(func() bool { return p.count(func() int { return len(p.up) }) > 0 }) {
				rec.Violate("lost", "real sockets, scenario %d, terminal %d of %d: nothing is handled within a minute", i, k, n)
				return
			}
			p.mu.Lock()
			s := p.s
			p.mu.Unlock()
			for x := 0; x < 100; x++ {
				text := fmt.Sprintf("to %d/%d %s", p.icc, x, rBody(r2, r2.Intn(300)))
				no, err := s.Send(&rawEntity{idCustomB, []byte(text)})
				if err != nil {
					rec.Violate("refused", "real sockets, scenario %d, terminal %d of %d: message %d cannot be sent: %v", i, k, n, x, err)
					return
				}
				p.sent = append(p.sent, fmt.Sprintf("%d %s", no, text))
				if len(p.sent)-p.count(func() int { return len(p.down) }) > 5 && !until(func() bool { return len(p.sent)-p.count(func() int { return len(p.down) }) < 3 }) {
					rec.Violate("lost", "real sockets, scenario %d, terminal %d of %d: messages of the platform do not arrive within a minute", i, k, n)
					return
				}
			}
		}()
	}
	var casts []string
	for x := 0; x < 20 && !rec.Any(); x++ {
		known := true
		for _, p := range ps {
			known = known && p.count(func() int { return len(p.up) }) > 0
		}
		if !known {
			time.Sleep(time.Millisecond)
			continue
		}
		text := fmt.Sprintf("all %d", x)
		if c := srv.Broadcast(&rawEntity{idCustomB, []byte(text)}); c != n {
			rec.Violate("broadcast", "real sockets, scenario %d: a broadcast counts %d of %d sessions", i, c, n)
		}
		casts = append(casts, text)
		for _, p := range ps {
			if !until(func() bool { return p.count(func() int { return len(p.casts) }) >= len(casts) }) {
				rec.Violate("lost", "real sockets, scenario %d: a broadcast does not arrive within a minute", i)
				break
			}
		}
	}
	wg.Wait()
	for k, p := range ps {
		all := func() bool {
			return p.count(func() int {
				return len(p.acks) + len(p.up) + len(p.down) - len(p.ackWant) - len(p.upWant) - len(p.sent)
			}) >= 0
		}
		if !rec.Any() && !until(all) {
			rec.Violate("lost", "real sockets, scenario %d, terminal %d of %d: messages are missing after a minute", i, k, n)
		}
	}
	time.Sleep(2 * time.Millisecond) // what comes in addition
	for k, p := range ps {
		p.mu.Lock()
		who := fmt.Sprintf("real sockets, scenario %d, terminal %d of %d (merging %v)", i, k, n, merge)
		sameList(who+": messages handled", p.up, p.upWant)
		sameList(who+": replies received", p.acks, p.ackWant)
		sameList(who+": messages received", p.down, p.sent)
		sameList(who+": broadcasts received", p.casts, casts)
		if p.err != nil && p.err != io.EOF {
			rec.Violate("down-error", "%s: the terminal's codec reports %v", who, p.err)
		}
		rec.Count("tcp_up", int64(len(p.up)))
		rec.Count("tcp_down", int64(len(p.acks)+len(p.down)+len(p.casts)))
		p.mu.Unlock()
	}
	stopped := make(chan bool)
	go func() { srv.Stop(); close(stopped) }()
	select {
	case <-stopped:
	case <-time.After(60 * time.Second):
		rec.Violate("stop", "real sockets: Stop does not return")
		return
	}
	<-runErr
	for _, p := range ps {
		if p.s == nil {
			continue
		}
		if _, ok := closes.Load(p.s.ID()); !ok {
			rec.Violate("closed", "real sockets: Stop has returned and a close handler has not run")
		}
	}
	readers.Wait()
	for _, p := range ps {
		p.conn.Close()
	}
	rec.Count("tcp_scenarios", 1)
}

func sameList(what string, got, want []string) {
	for k := 0; k < len(got) || k < len(want); k++ {
		g, w := "nothing", "nothing"
		if k < len(got) {
			g = got[k]
		}
		if k < len(want) {
			w = want[k]
		}
		if g != w {
			rec.Violate("sequence", "%s: number %d of %d is %.80q, should be %.80q (of %d)", what, k, len(got), g, w, len(want))
			return
		}
	}
}
