package harness

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	go808 "gitee.com/coco/go808"
	"github.com/funny/link"
)

// world is one server on the in-memory transport, inside a bubble.
type world struct {
	srv    *go808.Server
	mu     sync.Mutex
	ln     *memListener
	lnGot  chan *memListener
	runErr chan error
	conns  []*memConn

	created []uint64       // link sessions in the order of creation
	closed  map[uint64]int // close handler calls per session id
	order   []uint64
	onClose func(*go808.Session)
	onPoint func(point string, s *link.Session)
	sess    map[uint64]*go808.Session // sessions seen by the close handler
	bare    bool                      // the server has no close handler
	ids     *rand.Rand                // decides when session ids jump
}

// newWorldOr creates a server with or without a close handler.
func newWorldOr(bare bool, opts go808.Options) *world { return makeWorld(opts, bare) }

// newWorld creates the server; opts.CloseHandler is called after the world has
// recorded the close.
func newWorld(opts go808.Options) *world { return makeWorld(opts, false) }

func makeWorld(opts go808.Options, bare bool) *world {
	w := &world{bare: bare, closed: map[uint64]int{}, sess: map[uint64]*go808.Session{}, lnGot: make(chan *memListener, 4), runErr: make(chan error, 4)}
	user := opts.CloseHandler
	opts.CloseHandler = func(s *go808.Session) {
		id := s.ID()
		w.mu.Lock()
		w.closed[id]++
		w.order = append(w.order, id)
		w.sess[id] = s
		f := w.onClose
		w.mu.Unlock()
		progress.Add(1)
		if f != nil {
			f(s)
		}
		if user != nil {
			user(s)
		}
	}
	if bare {
		opts.CloseHandler = nil
		rec.Count("servers_without_close_handler", 1)
	}
	n := worldSeq.Add(1)
	perturb(newRand("perturb", int(n)))
	w.ids = newRand("session ids", int(n))
	raiseIDs(w.ids)
	srv, err := go808.NewServer(opts)
	if err != nil {
		panic("NewServer: " + err.Error())
	}
	w.srv = srv
	return w
}

// raiseIDs now and then makes session ids continue as if many sessions had come
// and gone before, so that they cross the widths of the integer types.
func raiseIDs(r *rand.Rand) {
	if r.Intn(5) != 0 {
		return
	}
	for _, width := range []uint{8, 16, 31, 32} {
		id := uint64(1)<<width - uint64(r.Intn(4))
		if next := link.RaiseSessionID(id); next == id {
			rec.Count(fmt.Sprintf("session_ids_reaching_2^%d", width), 1)
			return
		}
	}
}

// jumpID now and then makes the next id look like that of an earlier session of
// this server to whoever keeps only the low bits. w.mu is held.
func (w *world) jumpID() {
	if w.ids.Intn(8) != 0 {
		return
	}
	step := uint64(1) << []uint{8, 8, 16, 16, 16, 32}[w.ids.Intn(6)]
	id, next := w.created[w.ids.Intn(len(w.created))], link.RaiseSessionID(0)
	id += step
	if id < next {
		id += (next - id + step - 1) / step * step
	}
	link.RaiseSessionID(id)
	rec.Count("session_ids_alike_in_their_low_bits", 1)
}

func (w *world) hook() {
	link.HookListener = func(l net.Listener) net.Listener {
		m := newMemListener(l)
		w.lnGot <- m
		return m
	}
	link.SetHookPoint(func(point string, s *link.Session) {
		progress.Add(1)
		w.mu.Lock()
		if point == "created" {
			w.created = append(w.created, s.ID())
			w.jumpID()
		}
		f := w.onPoint
		w.mu.Unlock()
		if f != nil {
			f(point, s)
		}
	})
}

// start runs the server and waits until it listens; it returns the error of a
// Run that did not get that far.
func (w *world) start() error {
	w.hook()
	errc := make(chan error, 1)
	go func() {
		err := w.srv.Run("tcp", 0)
		errc <- err
	}()
	select {
	case m := <-w.lnGot:
		w.mu.Lock()
		w.ln = m
		w.mu.Unlock()
		go func() { w.runErr <- <-errc }()
		return nil
	case err := <-errc:
		if err == nil {
			err = fmt.Errorf("Run returned nil")
		}
		return err
	}
}

func (w *world) mustStart() {
	if err := w.start(); err != nil {
		panic("harness: server does not start: " + err.Error())
	}
}

// dial opens a connection.
func (w *world) dial() *memConn {
	c := newMemConn()
	w.mu.Lock()
	c.id = len(w.conns)
	w.conns = append(w.conns, c)
	ln := w.ln
	w.mu.Unlock()
	if !ln.dial(c) {
		return nil
	}
	return c
}

// stop stops the server; false if that takes more than 30 virtual seconds.
func (w *world) stop() bool {
	return within(30*time.Second, w.srv.Stop)
}

// end stops the server without judging it, so that the next scenario starts clean.
func (w *world) end() {
	w.mu.Lock()
	w.onPoint, w.onClose = nil, nil
	cs := w.conns
	w.mu.Unlock()
	for _, c := range cs {
		c.PeerResume()
	}
	calm()
	if !w.stop() {
		rec.Count("stop_slow", 1)
	}
	for _, c := range cs {
		c.PeerClose(true)
	}
	synctest.Wait()
	link.SetHookPoint(nil)
}

// closes says how often the close handler ran for a session; where there is no
// close handler, a session that is no longer registered counts as reported.
func (w *world) closes(id uint64) int {
	if w.bare {
		if _, ok := w.srv.GetSession(id); ok {
			return 0
		}
		return 1
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.closed[id]
}

// reported says whether the close handler has run; it calls nothing of the library.
func (w *world) reported(id uint64) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.bare || w.closed[id] > 0
}

func (w *world) createdIDs() []uint64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]uint64{}, w.created...)
}

// terminal drives one connection.
type terminal struct {
	w      *world
	c      *memConn
	icc    uint64
	serial uint16
}

// iccPool gives out terminal numbers, in some scenarios the same ones to several
// connections.
func iccPool(r *rand.Rand) func() uint64 {
	if r.Intn(3) > 0 {
		return newIcc
	}
	rec.Count("scenarios_with_shared_terminal_numbers", 1)
	base, n := newIcc(), 1+r.Intn(3)
	var pool []uint64
	for k := 0; k < n; k++ {
		pool = append(pool, base)
		base = newIcc()
	}
	r = rand.New(rand.NewSource(r.Int63()))
	var mu sync.Mutex
	return func() uint64 {
		mu.Lock()
		defer mu.Unlock()
		if r.Intn(4) == 0 {
			return newIcc()
		}
		return pool[r.Intn(n)]
	}
}

// twin opens another connection with the number of t.
func (w *world) twin(t *terminal) {
	if x := w.terminal(t.icc); x != nil {
		x.send(idUnknown, nil)
		rec.Count("second_connections_of_a_terminal", 1)
	}
}

func (w *world) terminal(icc uint64) *terminal {
	c := w.dial()
	if c == nil {
		return nil
	}
	return &terminal{w: w, c: c, icc: icc}
}

func (t *terminal) next() uint16 {
	t.serial++
	if t.serial == 0 {
		t.serial = 1
	}
	return t.serial
}

// frame builds the next frame of the terminal.
func (t *terminal) frame(id uint16, body []byte) []byte {
	return refFrame(refHeader{ID: id, Icc: t.icc, Serial: t.next()}, body)
}

func (t *terminal) send(id uint16, body []byte) uint16 {
	f := t.frame(id, body)
	t.c.PeerSend(f)
	return t.serial
}

// frag builds one fragment.
func (t *terminal) frag(id uint16, sum, seq uint16, body []byte) ([]byte, uint16) {
	s := t.next()
	return refFrame(refHeader{ID: id, Icc: t.icc, Serial: s, Frag: true, Sum: sum, Seq: seq}, body), s
}

// got returns the messages the terminal received, reporting a byte stream that
// is not a sequence of intact frames.
func (t *terminal) got() ([]refMsg, bool) {
	m, _, err := t.c.Frames()
	if err != nil {
		rec.Violate("wire", "the terminal received a broken byte stream: %v in %s", err, hx(t.c.Out()))
		return m, false
	}
	return m, true
}

// chop cuts data at random places.
func chop(r *rand.Rand, data []byte) [][]byte {
	return segment(r, data, []int{0, 1, 2, 3, 4, 4, 4, 1}[r.Intn(8)])
}

// settle lets everything that can happen without time passing happen.
func settle() { synctest.Wait() }

// within runs f and says whether it returned within d of virtual time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// replies of the platform
type genReply struct {
	Serial uint16
	ID     uint16
	Result byte
}

func parseReply(m refMsg) (genReply, bool) {
	if m.H.ID != 0x8001 || len(m.Body) != 5 {
		return genReply{}, false
	}
	b := m.Body
	return genReply{uint16(b[0])<<8 | uint16(b[1]), uint16(b[2])<<8 | uint16(b[3]), b[4]}, true
}

// ack is the body of a terminal general reply.
func ack(serial, id uint16, result byte) []byte {
	return []byte{byte(serial >> 8), byte(serial), byte(id >> 8), byte(id), result}
}

// blame says whether a panic with this stack comes out of the library.
func blame(stack string) bool {
	i := strings.Index(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "verif/harness.") {
			return false
		}
		if strings.HasPrefix(line, "gitee.com/coco/go808") || strings.HasPrefix(line, "github.com/funny/link") {
			return true
		}
	}
	return false
}

func bubblePanic(e interface{}) {
	st := string(debug.Stack())
	if blame(st) {
		rec.Violate("crash", "panic: %v\n%s", e, st)
		rec.flush(true)
		os.Exit(0)
	}
	fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", e, st)
	rec.flush(false)
	os.Exit(2)
}

var worldSeq atomic.Int64

var iccSeq atomic.Uint64

// newIcc returns a terminal number nobody else uses.
func newIcc() uint64 { return 100000000 + iccSeq.Add(1) }

func u16b(n uint16) []byte { return []byte{byte(n >> 8), byte(n)} }
func u32b(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }
