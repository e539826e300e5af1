package harness

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"github.com/funny/link"
)

// The workloads of C19 run under the race detector, which is the oracle. The
// harness adds as little synchronisation of its own as possible: no hooks, no
// shared counters while the workload runs, net.Pipe connections whose two
// directions are independent, separate generators for every goroutine.

type raceWorld struct {
	srv  *go808.Server
	ln   *memListener
	base uint64 // ids of the sessions of this round start here
	done chan struct{}
}

func startRace(opts go808.Options) (*raceWorld, chan error) {
	w := &raceWorld{done: make(chan struct{})}
	srv, err := go808.NewServer(opts)
	if err != nil {
		panic(err)
	}
	w.srv = srv
	got := make(chan *memListener, 1)
	link.SetHookPoint(nil)
	link.HookListener = func(l net.Listener) net.Listener {
		m := newMemListener(l)
		got <- m
		return m
	}
	ret := make(chan error, 1)
	go func() { ret <- srv.Run("tcp", 0) }()
	w.ln = <-got
	return w, ret
}

// raceTerminal opens a connection and plays a terminal until its messages are sent.
func raceTerminal(w *raceWorld, r *rand.Rand, icc uint64, n int) {
	a, b := net.Pipe()
	if !w.ln.dial(b) {
		return
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { // reads, slowly or not
		defer wg.Done()
		buf := make([]byte, 300)
		q := rand.New(rand.NewSource(int64(icc)))
		for {
			if _, err := a.Read(buf); err != nil {
				return
			}
			if q.Intn(30) == 0 {
				time.Sleep(time.Duration(q.Intn(400)) * time.Millisecond)
			}
		}
	}()
	serial := uint16(0)
	send := func(h refHeader, body []byte) bool {
		serial++
		h.Serial = serial
		if r.Intn(20) == 0 {
			h.Icc = icc + 1000000
		} else {
			h.Icc = icc
		}
		for _, c := range chop(r, refFrame(h, body)) {
			if len(c) == 0 {
				continue
			}
			if _, err := a.Write(c); err != nil {
				return false
			}
		}
		return true
	}
	loc := upBody(r, 0x0801, 0, nil)[8:36]
	for i := 0; i < n; i++ {
		ok := true
		switch r.Intn(12) {
		case 0:
			ok = send(refHeader{ID: 2}, nil)
		case 1, 2:
			ok = send(refHeader{ID: 0x0200}, append(append([]byte{}, loc...), 0x01, 4, 0, 0, 1, byte(i), 0x30, 1, 7))
		case 3, 4, 5:
			ok = send(refHeader{ID: 1}, ack(uint16(r.Intn(40)), 0x8104, 0))
		case 6:
			ok = send(refHeader{ID: 0x0f7e}, randBytes(r, 5))
		case 7, 8:
			ok = send(refHeader{ID: 0x0801, Frag: true, Sum: 3, Seq: uint16(1 + r.Intn(3))}, upBody(r, 0x0801, uint32(r.Intn(2)), randBytes(r, 20)))
		case 9:
			ok = send(refHeader{ID: idCustomA}, randBytes(r, 40))
		case 10:
			ok = send(refHeader{ID: idCustomB}, nil)
		case 11:
			k := key("b")
			e := protocol.T808_0x0A00{PublicKey: &k.PublicKey}
			b, err := e.Encode()
			if err == nil {
				ok = send(refHeader{ID: 0x0a00}, b)
			}
		}
		if !ok {
			break
		}
		if r.Intn(10) == 0 {
			time.Sleep(time.Duration(r.Intn(700)) * time.Millisecond)
		}
	}
	if r.Intn(3) == 0 {
		time.Sleep(4 * time.Second) // runs into the idle timeout
	}
	a.Close()
	wg.Wait()
}

// use does random things with a session, as an application would.
func use(r *rand.Rand, srv *go808.Server, s *go808.Session, m *protocol.Message) {
	switch r.Intn(12) {
	case 0, 1:
		e := &protocol.T808_0x8300{Text: fmt.Sprintf("text %d", r.Intn(1000))}
		s.Send(e)
		e.Text = "changed afterwards"
		e.Flag = 7
	case 2:
		e := &protocol.T808_0x8104{}
		s.Request(e, func(a *protocol.Message) { read(a) })
	case 3:
		e := &protocol.T808_0x8103{Params: []*protocol.Param{new(protocol.Param).SetUint32(1, 2)}}
		s.Request(e, func(a *protocol.Message) { read(a); s.Send(&protocol.T808_0x8104{}) })
		e.Params[0].SetString(1, "changed")
		e.Params = nil
	case 4:
		if m != nil {
			s.Reply(m, protocol.T808_0x8001ResultSuccess)
		} else {
			s.Reply(&protocol.Message{}, protocol.T808_0x8001ResultFail)
		}
	case 5:
		k := key([]string{"a", "b", "c"}[r.Intn(3)])
		s.SetPublicKey(&k.PublicKey)
	case 6:
		if k := s.GetPublicKey(); k != nil {
			_ = k.N.BitLen()
		}
	case 7:
		if q, ok := s.GetServer().GetSession(s.ID()); ok && q != s {
			rec.Violate("lookup", "lookup returns another session")
		}
	case 8:
		if r.Intn(4) == 0 {
			s.Close()
		}
	case 9:
		e := &protocol.T808_0x8300{Text: "to all"}
		srv.Broadcast(e)
		e.Text = "changed afterwards"
	case 10:
		srv.AddHandler(protocol.MsgID(idCustomB), func(s *go808.Session, m *protocol.Message) { read(m) })
	case 11:
		s.Send(&protocol.T808_0x8100{MsgSerialNo: 1, Result: 0, AuthKey: "key"})
	}
}

// read looks at everything in a message.
func read(m *protocol.Message) {
	_ = fmt.Sprint(m.Header)
	if m.Header.Packet != nil {
		_ = fmt.Sprint(*m.Header.Packet)
	}
	switch e := m.Body.(type) {
	case *protocol.T808_0x0200:
		_ = e.Lat.String()
		for _, x := range e.Extras {
			if b, ok := x.(*extra.Extra_0x01); ok {
				_ = b.Value()
			}
			_ = fmt.Sprint(x.Data())
		}
	case *protocol.T808_0x0801:
		_ = e.MediaID
	case *aliasEntity:
		_ = fmt.Sprint(e.Data)
	case *rawEntity:
		_ = fmt.Sprint(e.Data)
	default:
		_ = fmt.Sprint(e)
	}
}

func TestC19(t *testing.T) {
	// an application type that keeps the slice it is given: what the library
	// hands out must stay untouched
	protocol.Register(idCustomA, func() protocol.Entity { return &aliasEntity{id: idCustomA} })
	registerRaw(idCustomB)
	bubble(t, func() {
		for i := 0; i < scale(14, 200) && !rec.Enough(); i++ {
			raceRound(i)
		}
	})
}

func raceRound(i int) {
	r := newRand("C19", i)
	perturb(newRand("C19p", i))
	w, ret := startRace(go808.Options{Keepalive: int64(1 + r.Intn(3)), AutoMergePacket: r.Intn(3) != 0, PrivateKey: key("a"),
		CloseHandler: func(s *go808.Session) { s.ID(); s.Send(&protocol.T808_0x8104{}); s.Close() }})
	first := make(chan uint64, 1)
	probe := make(chan struct{})
	w.srv.AddHandler(3, func(s *go808.Session, m *protocol.Message) {
		first <- s.ID()
		close(probe)
	})
	a, b := net.Pipe()
	w.ln.dial(b)
	go io.Copy(io.Discard, a)
	a.Write(refFrame(refHeader{ID: 3, Icc: 5, Serial: 1}, nil))
	w.base = <-first
	<-probe
	hseed := r.Int63()
	handler := func(id uint16) go808.MessageHandler {
		return func(s *go808.Session, m *protocol.Message) {
			q := rand.New(rand.NewSource(hseed + int64(s.ID())*131 + int64(m.Header.MsgSerialNo)))
			if q.Intn(3) == 0 {
				use(q, w.srv, s, m)
			}
			if q.Intn(2) == 0 {
				read(m)
			} else {
				go func() { // keeps the message
					time.Sleep(time.Duration(q.Intn(50)) * time.Millisecond)
					read(m)
				}()
			}
			if e, ok := m.Body.(*protocol.T808_0x0801); ok {
				io.ReadAll(e.GetReader())
			}
			if e, ok := m.Body.(*protocol.T808_0x0A00); ok && e.PublicKey != nil {
				s.SetPublicKey(e.PublicKey)
			}
		}
	}
	for _, id := range []uint16{1, 2, 0x0200, 0x0801, idCustomA, idCustomB, 0x0a00} {
		w.srv.AddHandler(protocol.MsgID(id), handler(id))
	}
	var wg, tg sync.WaitGroup
	nt := 3 + r.Intn(6)
	for k := 0; k < nt; k++ {
		q := rand.New(rand.NewSource(r.Int63()))
		icc := newIcc()
		tg.Add(1)
		go func() {
			defer tg.Done()
			for g := 0; g < 3; g++ {
				raceTerminal(w, q, icc, 40)
				time.Sleep(time.Duration(q.Intn(300)) * time.Millisecond)
			}
		}()
	}
	stop := w.done
	for k := 0; k < 4; k++ {
		q := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				if s, ok := w.srv.GetSession(w.base + uint64(q.Intn(nt*3+2))); ok {
					use(q, w.srv, s, nil)
				} else if q.Intn(4) == 0 {
					e := &protocol.T808_0x0200{}
					e.Extras = append(e.Extras, extra.NewExtra_0x30(byte(n)))
					w.srv.Broadcast(e)
					e.Extras = nil
					e.Alarm = 5
				}
				if q.Intn(6) == 0 {
					time.Sleep(time.Duration(1+q.Intn(60)) * time.Millisecond)
				}
			}
		}()
	}
	if r.Intn(3) == 0 {
		// the server is stopped and run again under load
		time.Sleep(2 * time.Second)
		link.HookListener = nil
		w.srv.Stop()
		<-ret
		rec.Count("stopped_under_load", 1)
	}
	a.Close()
	tg.Wait()
	close(stop)
	wg.Wait()
	if !within(60*time.Second, w.srv.Stop) {
		rec.Violate("hang", "round %d: Stop hangs", i)
	}
	settle()
	rec.Case(fmt.Sprintf("round/%d/%d", shard, i))
	rec.Count("terminals", int64(nt*3))
	rec.Count("messages_at_most", int64(nt*3*40))
	rec.Sample("round %d: %d terminals connecting three times, 4 application goroutines", i, nt)
}

// TestC19Run: run, stop and everything else at the same time.
func TestC19Run(t *testing.T) {
	registerRaw(idCustomA)
	bubble(t, func() {
		for i := 0; i < scale(30, 400) && !rec.Enough(); i++ {
			raceRun(i)
		}
	})
}

func raceRun(i int) {
	r := newRand("C19Run", i)
	perturb(newRand("C19Runp", i))
	srv, err := go808.NewServer(go808.Options{Keepalive: 1, CloseHandler: func(s *go808.Session) { s.Close() }})
	if err != nil {
		panic(err)
	}
	lns := make(chan *memListener, 1000)
	link.SetHookPoint(nil)
	link.HookListener = func(l net.Listener) net.Listener {
		m := newMemListener(l)
		lns <- m
		return m
	}
	var wg, rg sync.WaitGroup
	for k := 0; k < 3; k++ {
		q := rand.New(rand.NewSource(r.Int63()))
		rg.Add(1)
		go func() {
			defer rg.Done()
			for n := 0; n < 8; n++ {
				srv.Run("tcp", 0)
				jitterN(q.Intn(40))
			}
		}()
		q2 := rand.New(rand.NewSource(r.Int63()))
		wg.Add(2)
		go func() {
			defer wg.Done()
			for n := 0; n < 12; n++ {
				time.Sleep(time.Duration(q2.Intn(40)) * time.Millisecond)
				srv.Stop()
				srv.Broadcast(&protocol.T808_0x8104{})
				srv.GetSession(uint64(q2.Intn(500)))
				srv.GetPrivateKey()
				srv.AddHandler(2, func(s *go808.Session, m *protocol.Message) { s.Reply(m, 0) })
			}
		}()
		go func() {
			defer wg.Done()
			for n := 0; n < 10; n++ {
				select {
				case l := <-lns:
					for c := 0; c < 3; c++ {
						a, b := net.Pipe()
						if !l.dial(b) {
							a.Close()
							continue
						}
						go io.Copy(io.Discard, a)
						go func() {
							a.Write(refFrame(refHeader{ID: 2, Icc: 7, Serial: 1}, nil))
							a.Write(refFrame(refHeader{ID: 1, Icc: 8, Serial: 2}, ack(1, 0x8104, 0)))
							time.Sleep(3 * time.Second)
							a.Close()
						}()
					}
				case <-time.After(20 * time.Millisecond):
				}
			}
		}()
	}
	stopped := make(chan struct{})
	go func() {
		for {
			select {
			case <-stopped:
				return
			case <-time.After(50 * time.Millisecond):
				srv.Stop()
			}
		}
	}()
	if !within(600*time.Second, func() { rg.Wait(); wg.Wait() }) {
		rec.Violate("hang", "round %d: running and stopping concurrently hangs", i)
	}
	close(stopped)
	settle()
	rec.Case(fmt.Sprintf("run/%d/%d", shard, i))
	rec.Count("runs", 24)
	rec.Count("stops", 36)
}

// TestC19Timer: the countdown timer under concurrent use.
func TestC19Timer(t *testing.T) {
	bubble(t, func() {
		for i := 0; i < scale(40, 600) && !rec.Enough(); i++ {
			r := newRand("C19Timer", i)
			perturb(newRand("C19Timerp", i))
			var tm *go808.CountdownTimer
			ready := make(chan struct{})
			tm = go808.NewCountdownTimer(int64(1+r.Intn(3)), func(key string) {
				<-ready
				if len(key)%2 == 0 {
					tm.Update(key)
				}
			})
			close(ready)
			var wg sync.WaitGroup
			for k := 0; k < 6; k++ {
				q := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for n := 0; n < 60; n++ {
						key := fmt.Sprint(q.Intn(12))
						switch q.Intn(6) {
						case 0, 1, 2:
							tm.Update(key)
						case 3:
							tm.Remove(key)
						case 4:
							tm.SetExpiration(int64(q.Intn(4)))
						case 5:
							time.Sleep(time.Duration(q.Intn(900)) * time.Millisecond)
						}
					}
				}()
			}
			wg.Wait()
			rec.Case(fmt.Sprintf("timer/%d/%d", shard, i))
			rec.Count("timer_operations", 360)
		}
	})
}
