package harness

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"github.com/funny/link"
)

// lean is a server on the in-memory transport that keeps no records, so that
// what the heap holds is what the library holds.
type lean struct {
	srv  *go808.Server
	ln   *memListener
	errc chan error

	mu       sync.Mutex
	cur      map[uint64]*go808.Session // by terminal number, while open
	ids      []uint64
	closed   atomic.Int64
	early    atomic.Int64 // length of the name of the point at which to close
	panics   bool
	bare     bool // no close handler
	messages atomic.Int64
}

const (
	idNormal = 0x0002
	idPanics = 0x0f41 // its handler panics
	idBusy   = 0x0f42 // its handler sends, requests and reads accessors
	idPlain  = 0x0f43 // registered, no handler
)

func startLean(opts go808.Options, bare bool) *lean {
	l := &lean{cur: map[uint64]*go808.Session{}, errc: make(chan error, 1)}
	l.bare = bare
	opts.CloseHandler = func(s *go808.Session) {
		progress.Add(1)
		l.closed.Add(1)
		if l.panics && l.closed.Load()%7 == 0 {
			panic("deliberate")
		}
	}
	if bare {
		opts.CloseHandler = nil
		rec.Count("servers_without_close_handler", 1)
	}
	srv, err := go808.NewServer(opts)
	if err != nil {
		panic(err)
	}
	l.srv = srv
	got := make(chan *memListener, 1)
	link.HookListener = func(x net.Listener) net.Listener {
		m := newMemListener(x)
		got <- m
		return m
	}
	link.SetHookPoint(func(point string, s *link.Session) {
		if point == "created" {
			l.mu.Lock()
			l.ids = append(l.ids, s.ID())
			l.mu.Unlock()
		}
		if l.early.Load() == int64(len(point)) && s.ID()%2 == 0 { // closed right after accept
			rec.Count("closed_at_"+point, 1)
			if g, ok := l.srv.GetSession(s.ID()); ok {
				g.Close()
			} else {
				s.Close()
			}
		}
	})
	seen := func(s *go808.Session, m *protocol.Message) {
		progress.Add(1)
		l.messages.Add(1)
		l.mu.Lock()
		l.cur[m.Header.IccID] = s
		l.mu.Unlock()
	}
	srv.AddHandler(idNormal, seen)
	srv.AddHandler(idPanics, func(s *go808.Session, m *protocol.Message) {
		seen(s, m)
		panic("deliberate")
	})
	srv.AddHandler(idBusy, func(s *go808.Session, m *protocol.Message) {
		seen(s, m)
		s.Reply(m, protocol.T808_0x8001ResultSuccess)
		s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {})
		s.Request(&protocol.T808_0x8201{}, func(*protocol.Message) { panic("deliberate") })
	})
	go func() { l.errc <- srv.Run("tcp", 0) }()
	l.ln = <-got
	return l
}

func (l *lean) dial(icc uint64) *terminal {
	c := newMemConn()
	c.discard = true
	if !l.ln.dial(c) {
		panic("harness: cannot dial")
	}
	return &terminal{c: c, icc: icc}
}

func (l *lean) session(icc uint64) *go808.Session {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.cur[icc]
}

func (l *lean) forget() []uint64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	ids := l.ids
	l.ids = nil
	l.cur = map[uint64]*go808.Session{}
	return ids
}

// heap is what is reachable after collection.
func heapNow() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func fdsNow() (int, string) {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1, ""
	}
	var names []string
	for _, e := range ents {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && !strings.HasPrefix(t, "/proc/") {
			names = append(names, t)
		}
	}
	sort.Strings(names)
	return len(names), strings.Join(names, "\n")
}

var stackBuf = make([]byte, 16<<20)

// libGoroutines counts the goroutines that run or were started by the library.
func libGoroutines() int {
	n := 0
	for _, g := range strings.Split(string(stackBuf[:runtime.Stack(stackBuf, true)]), "\n\n") {
		if strings.Contains(g, "gitee.com/coco/go808") || strings.Contains(g, "github.com/funny/link") {
			n++
		}
	}
	return n
}

func goStacks() string {
	buf := make([]byte, 4<<20)
	s := stacksOf(buf[:runtime.Stack(buf, true)])
	if len(s) > 12000 {
		s = s[:12000]
	}
	return s
}

// one session from accept to close; the kind decides what happens on it
var churnKinds = []string{"silent", "eof", "reset", "damaged", "oversize", "local", "twice", "stalled", "writefail", "idle", "panics", "busy", "fragments", "unknown", "keyed"}

func (l *lean) churn(r *rand.Rand, kind string) (finish func()) {
	icc := newIcc()
	t := l.dial(icc)
	switch kind {
	case "silent":
		return func() { t.c.PeerClose(r.Intn(2) == 0) }
	case "panics":
		t.send(idPanics, []byte{1})
		t.send(idPanics, []byte{2})
	case "busy":
		for k := 0; k < 3; k++ {
			t.send(idBusy, []byte{byte(k)})
		}
		t.send(0x0001, ack(2, 0x8104, 0))
		t.send(0x0001, ack(3, 0x8201, 0))
	case "fragments":
		n := uint16(2 + r.Intn(3))
		if r.Intn(6) == 0 {
			n = uint16(10 + r.Intn(60))
		}
		for k := uint16(1); k <= n; k++ {
			f, _ := t.frag(0x0801, n, k, upBody(r, 0x0801, 7, []byte("abc")))
			t.c.PeerSend(f)
			if k%15 == 0 {
				settle()
			}
		}
	case "unknown":
		t.send(0x0fee, []byte{1, 2})
		t.send(idPlain, []byte{1, 2})
		t.send(0x0200, []byte{1})
	case "keyed":
		t.send(0x0a00, append([]byte{0, 1, 0, 1}, randBytes(r, 128)...))
	}
	t.send(idNormal, nil)
	settle()
	s := l.session(icc)
	if s == nil {
		if kind != "damaged" {
			rec.Count("session_not_seen", 1)
		}
	}
	cause := kind
	switch kind {
	case "panics", "busy", "fragments", "unknown", "keyed":
		cause = []string{"eof", "reset", "local", "damaged"}[r.Intn(4)]
		if kind == "keyed" && s != nil {
			s.SetPublicKey(&key("a").PublicKey)
		}
	case "twice":
		cause = "local"
	case "idle":
		return func() {}
	}
	return func() {
		closeNow(nil, cause, t, s, r)
		if kind == "twice" && s != nil {
			closeNow(nil, []string{"local", "eof", "damaged"}[r.Intn(3)], t, s, r)
			s.Send(&protocol.T808_0x8104{})
			s.Request(&protocol.T808_0x8104{}, func(*protocol.Message) {})
		}
	}
}

// churnMany runs n sessions, up to par at a time.
func (l *lean) churnMany(r *rand.Rand, n, par int, kinds []string) {
	for n > 0 {
		k := 1 + r.Intn(par)
		if k > n {
			k = n
		}
		n -= k
		var fin []func()
		for j := 0; j < k; j++ {
			kind := kinds[r.Intn(len(kinds))]
			rec.Count("sessions_"+kind, 1)
			fin = append(fin, l.churn(r, kind))
		}
		if r.Intn(3) == 0 {
			l.srv.Broadcast(&protocol.T808_0x8104{})
		}
		r.Shuffle(len(fin), func(a, b int) { fin[a], fin[b] = fin[b], fin[a] })
		for _, f := range fin {
			f()
		}
		settle()
	}
}

// registered counts the sessions that can still be looked up.
func (l *lean) registered(ids []uint64) (n int, one uint64) {
	for _, id := range ids {
		if _, ok := l.srv.GetSession(id); ok {
			n++
			one = id
		}
	}
	return
}

func TestC24(t *testing.T) {
	registerRaw(idPanics, idBusy, idPlain)
	protocol.Register(idPacket, func() protocol.Entity { return &pktEntity{} })
	bubble(t, func() {
		for i := 0; i < scale(12, 120) && !rec.Enough(); i++ {
			goroutineScenario(i)
		}
		for i := 0; i < scale(2, 12) && !rec.Enough(); i++ {
			heapScenario(i)
		}
		for i := 0; i < scale(2, 10) && !rec.Enough(); i++ {
			longSession(i)
		}
		for i := 0; i < scale(6, 60) && !rec.Enough(); i++ {
			uploadScenario(i)
		}
		if !rec.Enough() {
			timerHeap()
		}
	})
}

func goroutineScenario(i int) {
	r := newRand("C24g", i)
	perturb(newRand("C24gp", i))
	ka := int64(2 + r.Intn(8))
	base0 := libGoroutines()
	l := startLean(go808.Options{Keepalive: ka, AutoMergePacket: i%2 == 0}, i%5 == 4)
	l.panics = i%3 == 0
	l.churnMany(r, 3, 3, []string{"eof"})
	time.Sleep(3 * time.Second)
	settle()
	base := libGoroutines()
	fd0, _ := fdsNow()
	kinds := append([]string{}, churnKinds...)
	if i%2 == 1 {
		k := r.Intn(len(kinds))
		kinds = kinds[k : k+1]
	}
	n := 40 + r.Intn(120)
	c0 := l.closed.Load()
	if i%4 == 3 {
		l.early.Store(int64(len([]string{"created", "addcb", "received"}[i/4%3])))
	}
	l.churnMany(r, n, 12, kinds)
	l.early.Store(0)
	time.Sleep(time.Duration(ka+4) * time.Second)
	settle()
	ids := l.forget()
	rec.Case(fmt.Sprintf("churn %d %d %v %d", shard, i, kinds, n))
	rec.Count("sessions", int64(len(ids)))
	if len(ids) < n {
		rec.Count("not_accepted", int64(n-len(ids)))
	}
	if g := libGoroutines(); g != base {
		rec.Violate("goroutines", "%d sessions (%v) came and went: %d goroutines before, %d after\n%s", n, kinds, base, g, goStacks())
	}
	if fd, names := fdsNow(); fd > fd0 {
		rec.Violate("fds", "%d sessions (%v) came and went: %d open files before, %d after\n%s", n, kinds, fd0, fd, names)
	}
	if k, id := l.registered(ids); k > 0 {
		rec.Violate("registered", "%d of %d closed sessions (%v) are still registered, e.g. %d", k, n, kinds, id)
	}
	if d := l.closed.Load() - c0; !l.bare && d != int64(n) {
		rec.Violate("closes", "%d sessions (%v) came and went, the close handler ran %d times", n, kinds, d)
	}
	if c := l.srv.Broadcast(&protocol.T808_0x8104{}); c != 0 {
		rec.Violate("broadcast", "a broadcast after all sessions were closed counts %d", c)
	}
	// sessions that the stop closes
	for j := 0; j < r.Intn(6); j++ {
		l.churn(r, churnKinds[r.Intn(len(churnKinds))])
	}
	if !within(30*time.Second, l.srv.Stop) {
		rec.Violate("stop", "Stop does not return after churn of %v", kinds)
	}
	<-l.errc
	settle()
	link.SetHookPoint(nil)
	// the timer of a server lives as long as the process
	if g := libGoroutines(); g > base0+1 {
		rec.Violate("goroutines-stop", "after Stop %d goroutines remain, %d existed before the server was created\n%s", g, base0, goStacks())
	}
	if ids := l.forget(); len(ids) > 0 {
		if k, id := l.registered(ids); k > 0 {
			rec.Violate("registered", "after Stop %d sessions are still registered, e.g. %d", k, id)
		}
	}
}

const leakBytes = 24 // per session, request or arming; the smallest entry kept anywhere costs more

func heapScenario(i int) {
	r := newRand("C24h", i)
	ka := int64(1000000) // a timeout left armed stays
	kinds := []string{"silent", "eof", "reset", "damaged", "local", "twice", "busy", "unknown", "writefail"}
	if i%2 == 1 {
		ka = 5
		kinds = []string{churnKinds[(shard+i*5)%len(churnKinds)]}
	}
	l := startLean(go808.Options{Keepalive: ka, AutoMergePacket: false}, (shard+i/2)%2 == 1)
	warm := func(n int) {
		for n > 0 {
			k := 500
			if kinds[0] == "oversize" {
				k = 100
			}
			l.churnMany(r, k, 20, kinds)
			n -= k
			time.Sleep(9 * time.Second)
			settle()
			l.forget()
		}
	}
	warm(1500)
	h0 := heapNow()
	n := scale(6000, 30000)
	if kinds[0] == "oversize" {
		n /= 10
	}
	warm(n)
	h1 := heapNow()
	rec.Case(fmt.Sprintf("heap %d %d %v", shard, i, kinds))
	rec.Count("heap_sessions", int64(n))
	rec.Count("heap_growth_bytes", h1-h0)
	if grow := h1 - h0; grow > int64(n)*leakBytes+heapNoise {
		// once more: noise does not grow with the number of sessions
		warm(n)
		h2 := heapNow()
		if h2-h1 > int64(n)*leakBytes+heapNoise {
			rec.Violate("heap", "the heap grows by %d, then %d bytes with every %d sessions (%v) that came and went", grow, h2-h1, n, kinds)
		}
	}
	within(30*time.Second, l.srv.Stop)
	<-l.errc
	settle()
	link.SetHookPoint(nil)
}

const heapNoise = 96 << 10

// longSession watches one session that stays open.
func longSession(i int) {
	r := newRand("C24l", i)
	l := startLean(go808.Options{Keepalive: 30, AutoMergePacket: false}, i%2 == 1)
	icc := newIcc()
	t := l.dial(icc)
	t.send(idNormal, nil)
	settle()
	s := l.session(icc)
	if s == nil {
		panic("harness: no session")
	}
	round := func(n int) bool {
		for j := 0; j < n; j++ {
			switch (i + r.Intn(2)*j) % 4 {
			case 0: // requests of ever new kinds that nobody answers
				if _, err := s.Request(&rawEntity{id: uint16(0x8000 + r.Intn(0x4000))}, func(*protocol.Message) {}); err != nil {
					return false
				}
			case 1: // requests of a few kinds, some answered
				sn, err := s.Request([]protocol.Entity{&protocol.T808_0x8104{}, &protocol.T808_0x8201{}, &protocol.T808_0x8107{}}[r.Intn(3)], func(*protocol.Message) {})
				if err != nil {
					return false
				}
				if r.Intn(2) == 0 {
					t.send(0x0001, ack(sn, 0x8104, 0))
				}
			case 2:
				t.send([]uint16{idNormal, idPanics, idPlain, 0x0fee, idBusy, 0x0001, 0x0200}[r.Intn(7)], randBytes(r, 5))
			case 3:
				t.c.PeerSend(chop(r, t.frame(idNormal, randBytes(r, r.Intn(900))))...)
			}
			if j%8 == 7 {
				settle()
			}
		}
		settle()
		l.mu.Lock()
		l.cur = map[uint64]*go808.Session{}
		l.mu.Unlock()
		return true
	}
	n := scale(12000, 60000)
	ok := round(3000)
	g0 := libGoroutines()
	h0 := heapNow()
	ok = ok && round(n)
	h1 := heapNow()
	g1 := libGoroutines()
	if !ok {
		rec.Violate("long", "sending on an open session whose terminal reads everything failed")
	} else {
		rec.Case(fmt.Sprintf("long %d %d", shard, i))
		rec.Count("long_operations", int64(n))
		if g1 > g0 {
			rec.Violate("goroutines-long", "%d messages and requests on one session: %d goroutines before, %d after\n%s", n, g0, g1, goStacks())
		}
		if h1-h0 > int64(n)*leakBytes+heapNoise {
			if round(n); heapNow()-h1 > int64(n)*leakBytes+heapNoise {
				rec.Violate("heap-long", "the heap grows by %d bytes, and again, with %d messages and requests on one open session (mix %d)", h1-h0, n, i%4)
			}
		}
	}
	within(30*time.Second, l.srv.Stop)
	<-l.errc
	settle()
	link.SetHookPoint(nil)
}

// timerHeap re-arms, removes and lets expire the keys of one countdown timer.
func timerHeap() {
	r := newRand("C24t", 0)
	tm := go808.NewCountdownTimer(3, func(string) { progress.Add(1) })
	round := func(n int) {
		for j := 0; j < n; j++ {
			k := fmt.Sprintf("key-%d-%d", r.Intn(1<<30), j)
			switch r.Intn(3) {
			case 0:
				tm.Update(k)
				tm.Remove(k)
			case 1:
				tm.Update(fmt.Sprint("fixed", r.Intn(50)))
			case 2:
				tm.Update(k)
				tm.Update(k)
			}
			if j%100 == 99 {
				time.Sleep(time.Second)
			}
		}
		time.Sleep(6 * time.Second)
		settle()
	}
	round(4000)
	h0 := heapNow()
	n := scale(20000, 200000)
	round(n)
	h1 := heapNow()
	rec.Case(fmt.Sprintf("timer %d", shard))
	rec.Count("timer_armings", int64(n))
	if h1-h0 > int64(n)*leakBytes/2+heapNoise {
		if round(n); heapNow()-h1 > int64(n)*leakBytes/2+heapNoise {
			rec.Violate("heap-timer", "the heap grows by %d bytes, and again, with %d armings that all expired or were removed", h1-h0, n)
		}
	}
}

// filesBelow counts the regular files under dir.
func filesBelow(dir string) (n int, names []string) {
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			n++
			if len(names) < 20 {
				names = append(names, p)
			}
		}
		return nil
	})
	return
}

// uploadScenario watches files and descriptors while uploads complete.
func uploadScenario(i int) {
	r := newRand("C24u", i)
	old := debug.SetGCPercent(-1) // nobody else closes a forgotten file
	defer debug.SetGCPercent(old)
	dir, err := os.MkdirTemp("", "c24")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	prev := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", dir)
	defer os.Setenv("TMPDIR", prev)

	l := startLean(go808.Options{Keepalive: 60, AutoMergePacket: true}, i%3 == 2)
	mode := []string{"read", "partly", "panic", "ignore", "close", "nohandler"}[i%6]
	var delivered atomic.Int64
	take := func(s *go808.Session, m *protocol.Message) {
		delivered.Add(1)
		progress.Add(1)
		p, ok := m.Body.(protocol.EntityPacket)
		if !ok {
			return
		}
		rd := p.GetReader()
		switch mode {
		case "read":
			io.Copy(io.Discard, rd)
		case "partly":
			rd.Read(make([]byte, 3))
		case "panic":
			rd.Read(make([]byte, 3))
			panic("deliberate")
		case "close":
			s.Close()
		}
	}
	if mode != "nohandler" {
		l.srv.AddHandler(0x0801, take)
		l.srv.AddHandler(idPacket, take)
	}
	type ident struct {
		icc uint64
		id  uint16
		tag uint32
	}
	merged := map[ident]bool{}
	icc := newIcc()
	t := l.dial(icc)
	t.send(idNormal, nil)
	settle()
	g0 := libGoroutines()
	fd0, _ := fdsNow()
	n := 20 + r.Intn(40)
	for k := 0; k < n; k++ {
		id := []uint16{0x0801, idPacket}[r.Intn(2)]
		u := newUpload(r, icc, id, tagPool[r.Intn(6)], 1+r.Intn(5))
		for _, seq := range u.order {
			f, _ := t.frag(id, uint16(u.n), uint16(seq), upBody(r, id, u.tag, u.parts[seq]))
			t.c.PeerSend(f)
			settle()
		}
		if k%4 == 0 { // refused fragment
			f, _ := t.frag(id, uint16(u.n), uint16(u.n+1), upBody(r, id, u.tag, nil))
			t.c.PeerSend(f)
		}
		settle()
		merged[ident{icc, id, u.tag}] = true
		rec.Case(fmt.Sprintf("upload %d %d %d %s", shard, i, k, mode))
		if mode == "close" {
			t = l.dial(icc)
			t.send(idNormal, nil)
			settle()
		}
	}
	settle()
	rec.Count("uploads", int64(n))
	rec.Count("uploads_"+mode, int64(n))
	if mode != "nohandler" {
		rec.Count("upload_deliveries", delivered.Load())
	}
	if nf, names := filesBelow(dir); nf > len(merged) {
		rec.Violate("part-files", "%d uploads of %d identities were completed and merged, %d files remain:\n%s", n, len(merged), nf, strings.Join(names, "\n"))
	}
	if fd, names := fdsNow(); fd > fd0 {
		rec.Violate("upload-fds", "%d uploads (handler: %s): %d open files before, %d after\n%s", n, mode, fd0, fd, names)
	}
	if g := libGoroutines(); g > g0 {
		rec.Violate("upload-goroutines", "%d uploads (handler: %s): %d goroutines before, %d after\n%s", n, mode, g0, g, goStacks())
	}
	within(30*time.Second, l.srv.Stop)
	<-l.errc
	settle()
	link.SetHookPoint(nil)

	// the store by itself: writing, querying and refused merges keep nothing open
	fd1, _ := fdsNow()
	for k := 0; k < 40; k++ {
		f := go808.MultipartFile{IccID: icc + 1 + uint64(k%3), MsgID: 0x801, Tag: uint32(k % 4), Sum: uint16(1 + r.Intn(3))}
		f.Write(uint16(r.Intn(5)), []byte("x"))
		f.IsFull()
		if rd, err := f.Merge(); err == nil {
			rd.Close()
		}
	}
	if fd, names := fdsNow(); fd > fd1 {
		rec.Violate("store-fds", "writing, querying and merging: %d open files before, %d after\n%s", fd1, fd, names)
	}
}

// TestC24TCP does it with real sockets.
func TestC24TCP(t *testing.T) {
	registerRaw(idPanics, idBusy, idPlain)
	for i := 0; i < scale(2, 10) && !rec.Enough(); i++ {
		tcpChurn(i)
	}
}

func tcpChurn(i int) {
	r := newRand("C24tcp", i)
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	var closes atomic.Int64
	srv, err := go808.NewServer(go808.Options{Keepalive: 2, CloseHandler: func(*go808.Session) { closes.Add(1) }})
	if err != nil {
		panic(err)
	}
	srv.AddHandler(idNormal, func(s *go808.Session, m *protocol.Message) {
		s.Reply(m, protocol.T808_0x8001ResultSuccess)
		if m.Header.MsgSerialNo%3 == 0 {
			s.Close()
		}
	})
	addrc := make(chan net.Addr, 1)
	link.HookListener = func(l net.Listener) net.Listener { addrc <- l.Addr(); return l }
	link.SetHookPoint(nil)
	errc := make(chan error, 1)
	fdAll, _ := fdsNow()
	go func() { errc <- srv.Run("tcp", 0) }()
	addr := (<-addrc).(*net.TCPAddr)
	to := fmt.Sprintf("127.0.0.1:%d", addr.Port)
	time.Sleep(20 * time.Millisecond)
	base := libGoroutines()
	fd0, _ := fdsNow()
	n := scale(150, 600)
	for k := 0; k < n; k++ {
		c, err := net.Dial("tcp", to)
		if err != nil {
			time.Sleep(10 * time.Millisecond)
			n--
			continue
		}
		progress.Add(1)
		switch r.Intn(5) {
		case 0:
		case 1:
			c.Write([]byte{0x7e, 1, 2, 3, 0x7e})
			io.Copy(io.Discard, c)
		case 2:
			c.Write(refFrame(refHeader{ID: idNormal, Icc: 5, Serial: 3}, nil))
			io.Copy(io.Discard, c)
		case 3:
			c.Write(refFrame(refHeader{ID: idNormal, Icc: 5, Serial: 1}, nil))
			c.Read(make([]byte, 10))
		case 4:
			c.(*net.TCPConn).SetLinger(0)
		}
		c.Close()
		rec.Case(fmt.Sprintf("tcp %d %d %d", shard, i, k))
	}
	var g, fd int
	var names string
	ok := false
	for end := time.Now().Add(10 * time.Second); !ok && time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		g = libGoroutines()
		fd, names = fdsNow()
		ok = g <= base && fd <= fd0
	}
	if !ok {
		rec.Violate("tcp", "10 s after %d connections came and went: goroutines %d, before %d; open files %d, before %d\n%s\n%s", n, g, base, fd, fd0, names, goStacks())
	}
	rec.Count("tcp_connections", int64(n))
	srv.Stop()
	<-errc
	ok = false
	for end := time.Now().Add(10 * time.Second); !ok && time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		fd, names = fdsNow()
		ok = fd <= fdAll+1 // the poller of the runtime
	}
	if !ok && i > 0 {
		rec.Violate("tcp-stop", "10 s after Stop %d files are open, %d before Run\n%s", fd, fdAll, names)
	}
}

// ---------------------------------------------------------------- allocation

func allocOf(f func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

const (
	allocFactor = 16 << 10
	allocBase   = 256 << 10
)

// TestC24Alloc gives the decoder frames that claim more than they hold.
func TestC24Alloc(t *testing.T) {
	runtime.LockOSThread()
	g := &gen{r: newRand("C24a", 0)}
	r := g.r
	worst := int64(0)
	check := func(id uint16, what string, body []byte) {
		if len(body) > 1023 {
			body = body[:1023]
		}
		f := refFrame(refHeader{ID: id, Icc: 13800138000, Serial: 7}, body)
		var pan string
		a := allocOf(func() { _, _, pan = decodeSafe(f) })
		if pan != "" {
			rec.Violate("panic", "0x%04x %s: %s", id, hx(f), pan)
			return
		}
		rec.Case(string(f))
		rec.Count("hostile_frames", 1)
		if a > worst {
			worst = a
			rec.Sample("0x%04x %s: a frame of %d bytes makes the decoder allocate %d bytes", id, what, len(f), a)
		}
		if a > allocFactor*int64(len(f))+allocBase {
			rec.Violate(fmt.Sprintf("alloc-%04x", id), "0x%04x %s: a frame of %d bytes makes the decoder allocate %d bytes: %s", id, what, len(f), a, hx(f))
		}
	}
	for round := 0; round < scale(2, 20) && !rec.Enough(); round++ {
		for _, s := range schemas {
			_, body := s.gen(g)
			check(s.id, "plain", body)
			// every byte, pair and quadruple raised to its maximum
			for k := 0; k < len(body) && k < 120; k++ {
				for _, w := range []int{1, 2, 4} {
					if k+w > len(body) {
						continue
					}
					b := append([]byte{}, body...)
					for j := 0; j < w; j++ {
						b[k+j] = 0xff
					}
					check(s.id, fmt.Sprintf("bytes %d+%d raised", k, w), b)
					if w == 4 {
						b[k] = 0x7f
						check(s.id, fmt.Sprintf("bytes %d+%d raised", k, w), b)
						b[k] = 0x08
						check(s.id, fmt.Sprintf("bytes %d+%d raised", k, w), b)
					}
				}
				if rec.Enough() {
					return
				}
			}
			for _, n := range []int{0, 1, 2, 3, 5, 8, 20, 40, 1023} {
				check(s.id, "all ff", bytes.Repeat([]byte{0xff}, n))
				check(s.id, "all 00", bytes.Repeat([]byte{0}, n))
				check(s.id, "noise", randBytes(r, n))
			}
			if len(body) > 0 { // counts at the front, then as much valid content as fits
				b := append([]byte{}, body...)
				for len(b) < 900 {
					b = append(b, body...)
				}
				for k := 0; k < 6; k++ {
					c := append([]byte{}, b...)
					c[k] = 0xff
					check(s.id, "long", c)
				}
			}
		}
	}
	// compressed bodies expand by a factor of about 1000 at most
	for _, n := range []int{1 << 10, 100 << 10, 500 << 10, 900 << 10} {
		var buf bytes.Buffer
		z, _ := gzip.NewWriterLevel(&buf, gzip.BestCompression)
		z.Write(make([]byte, n))
		z.Close()
		if buf.Len() > 1000 {
			continue
		}
		check(0x0901, fmt.Sprintf("compressed %d zeros", n), append(u32b(uint32(buf.Len())), buf.Bytes()...))
		check(0x0901, fmt.Sprintf("compressed %d zeros", n), append([]byte{0xff, 0xff, 0xff, 0xff}, buf.Bytes()...))
	}
	// a stream without frame end is not buffered without limit
	for _, size := range []int{1 << 20, 8 << 20} {
		junk := make([]byte, size)
		junk[0] = 0x7e
		for j := 1; j < size; j++ {
			junk[j] = byte(j % 100)
		}
		cr := &chunkReader{}
		for j := 0; j < size; j += 1000 {
			e := j + 1000
			if e > size {
				e = size
			}
			cr.chunks = append(cr.chunks, junk[j:e])
		}
		codec := newCodec(cr)
		var got error
		a := allocOf(func() { _, got = codec.Receive() })
		rec.Case(fmt.Sprintf("endless %d", size))
		if got == nil {
			rec.Violate("endless", "%d bytes without frame end give a message", size)
		}
		if a > 2<<20 {
			rec.Violate("endless", "%d bytes without frame end make the codec allocate %d bytes", size, a)
		}
	}
	rec.Count("worst_allocation", worst)
}
