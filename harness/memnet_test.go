package harness

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// In-memory transport whose blocking is visible to synctest.

type memListener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      []net.Conn
	closed bool
	under  net.Listener
}

func newMemListener(under net.Listener) *memListener {
	l := &memListener{under: under}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *memListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for len(l.q) == 0 && !l.closed {
		l.cond.Wait()
	}
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	c := l.q[0]
	l.q = l.q[1:]
	return c, nil
}

func (l *memListener) Close() error {
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return net.ErrClosed
	}
	l.closed = true
	q := l.q
	l.q = nil
	l.cond.Broadcast()
	l.mu.Unlock()
	for _, c := range q {
		c.Close() // what the kernel does with connections nobody accepted
	}
	if l.under != nil {
		return l.under.Close()
	}
	return nil
}

func (l *memListener) Addr() net.Addr {
	if l.under != nil {
		return l.under.Addr()
	}
	return &net.TCPAddr{}
}

// dial hands the server a connection; false if the listener is closed.
func (l *memListener) dial(c net.Conn) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return false
	}
	l.q = append(l.q, c)
	l.cond.Broadcast()
	return true
}

type wrec struct {
	At   time.Time
	Data []byte
}

// memConn is the server side of one connection; the terminal side is driven
// through the Peer* methods.
type memConn struct {
	mu   sync.Mutex
	cond *sync.Cond

	in     [][]byte // chunks from the terminal; one Read never crosses a chunk
	inEOF  bool     // terminal finished sending
	inErr  error    // reported by Read once in is drained
	rdl    time.Time
	wdl    time.Time
	rdlGen int

	out      []byte // everything the server wrote
	writes   []wrec
	stalled  bool  // terminal does not read and its window is full: Write blocks
	window   int   // with stalled: bytes that still fit
	wErr     error // Write fails
	wFails   int   // times it did
	closed   bool  // server side closed
	closedAt time.Time
	closes   int
	blocked  int  // writers that wait for the terminal to read
	discard  bool // do not keep what the server writes
	outLen   int

	consumed atomic.Int64
	onWrite  func([]byte)
	id       int
}

func newMemConn() *memConn {
	c := &memConn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *memConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			n := copy(p, c.in[0])
			if n == len(c.in[0]) {
				c.in = c.in[1:]
			} else {
				c.in[0] = c.in[0][n:]
			}
			c.consumed.Add(int64(n))
			progress.Add(1)
			return n, nil
		}
		if c.inErr != nil {
			return 0, c.inErr
		}
		if c.inEOF {
			return 0, io.EOF
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		c.cond.Wait()
	}
}

func (c *memConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	n := 0
	for {
		if c.closed {
			c.mu.Unlock()
			return n, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		}
		if c.wErr != nil {
			err := c.wErr
			c.wFails++
			c.mu.Unlock()
			return n, err
		}
		if c.stalled {
			k := len(p) - n
			if k > c.window {
				k = c.window
			}
			if k > 0 {
				c.window -= k
				c.record(p[n : n+k])
				n += k
			}
			if n == len(p) {
				break
			}
			if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
				c.mu.Unlock()
				return n, os.ErrDeadlineExceeded
			}
			c.blocked++
			c.cond.Wait()
			c.blocked--
			continue
		}
		c.record(p[n:])
		n = len(p)
		break
	}
	f := c.onWrite
	c.mu.Unlock()
	progress.Add(1)
	if f != nil {
		f(p)
	}
	return n, nil
}

func (c *memConn) record(p []byte) {
	c.outLen += len(p)
	if c.discard {
		return
	}
	d := append([]byte{}, p...)
	c.out = append(c.out, d...)
	c.writes = append(c.writes, wrec{time.Now(), d})
}

func (c *memConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.closedAt = time.Now()
	c.cond.Broadcast()
	return nil
}

func (c *memConn) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 808} }
func (c *memConn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + c.id}
}

func (c *memConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *memConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.mu.Unlock()
	c.wakeAt(t)
	return nil
}

func (c *memConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.mu.Unlock()
	c.wakeAt(t)
	return nil
}

func (c *memConn) wakeAt(t time.Time) {
	c.cond.Broadcast()
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	}
}

// ---- terminal side

func (c *memConn) PeerSend(chunks ...[]byte) {
	c.mu.Lock()
	for _, b := range chunks {
		if len(b) > 0 {
			c.in = append(c.in, append([]byte{}, b...))
		}
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

// PeerClose ends the terminal's side: the server reads EOF after what was sent,
// and its writes fail.
func (c *memConn) PeerClose(abrupt bool) {
	c.mu.Lock()
	c.inEOF = true
	if abrupt {
		c.in = nil
		c.inErr = errors.New("read tcp: connection reset by peer")
	}
	c.wErr = errors.New("write tcp: broken pipe")
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *memConn) PeerStall(window int) {
	c.mu.Lock()
	c.stalled, c.window = true, window
	c.mu.Unlock()
}

func (c *memConn) PeerResume() {
	c.mu.Lock()
	c.stalled = false
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Out is a copy of everything the terminal got so far.
func (c *memConn) Out() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte{}, c.out...)
}

func (c *memConn) Closed() (bool, time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed, c.closedAt
}

// Pending is the number of bytes the server has not read yet.
func (c *memConn) Pending() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, b := range c.in {
		n += len(b)
	}
	return n
}

// Frames parses everything the terminal got; complete frames only.
func (c *memConn) Frames() (msgs []refMsg, rest []byte, err error) {
	fr, rest, err := refSplit(c.Out())
	for _, f := range fr {
		m, e := refParse(f)
		if e != nil {
			return msgs, rest, e
		}
		if m.Declared != len(m.Body) {
			return msgs, rest, errors.New("body length differs from declared length")
		}
		msgs = append(msgs, m)
	}
	return msgs, rest, err
}
