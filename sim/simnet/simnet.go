//go:build go1.25

// Package simnet stands in for the listener of net/http servers: connections
// live in memory, and the simulated clients decide when bytes move.
package simnet

import (
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/qiniu/uip/verifsim/rt"
)

var (
	mu        sync.Mutex
	listeners []*listener // no map: the scheduler looks for listeners, and the runtime reports map accesses as races
	servers   []*http.Server
	accepted  []*Conn
	// ListenErr, if set, is returned by the next listen (port in use).
	ListenErr error
	// AcceptErrs are errors the next accepts return (temporary failures).
	AcceptErrs atomic.Int32
)

// Reset forgets all listeners.
func Reset() {
	listeners = nil
	servers = nil
	accepted = nil
	ListenErr = nil
	AcceptErrs.Store(0)
}

type addr string

func (a addr) Network() string { return "sim" }
func (a addr) String() string  { return string(a) }

type listener struct {
	a      string
	ch     chan *Conn
	done   chan struct{}
	closed bool
	fails  int
}

// tempErr is a temporary network error (EMFILE, ECONNABORTED).
type tempErr struct{}

func (tempErr) Error() string   { return "accept: too many open files" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

func (l *listener) Accept() (net.Conn, error) {
	if AcceptErrs.Load() > 0 {
		AcceptErrs.Add(-1)
		return nil, tempErr{}
	}
	select {
	case c := <-l.ch:
		mu.Lock()
		accepted = append(accepted, c)
		mu.Unlock()
		rt.Yield() // one connection starts at a time, when the scheduler says so
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *listener) Close() error {
	mu.Lock()
	defer mu.Unlock()
	if !l.closed {
		l.closed = true
		close(l.done)
		for i, x := range listeners {
			if x == l {
				listeners = append(append([]*listener(nil), listeners[:i]...), listeners[i+1:]...)
				break
			}
		}
	}
	return nil
}

func (l *listener) Addr() net.Addr { return addr(l.a) }

//go:norace
func find(a string) *listener {
	for _, l := range listeners {
		if l.a == a {
			return l
		}
	}
	return nil
}

// Listen replaces net.Listen.
func Listen(network, a string) (net.Listener, error) {
	if !rt.InSim() {
		return nil, errors.New("simnet: not in a simulation")
	}
	mu.Lock()
	defer mu.Unlock()
	if ListenErr != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: ListenErr}
	}
	if find(a) != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &listener{a: a, ch: make(chan *Conn, 64), done: make(chan struct{})}
	listeners = append(listeners, l)
	return l, nil
}

// ServeHTTPServer replaces (*http.Server).ListenAndServe.
func ServeHTTPServer(s *http.Server) error {
	l, err := Listen("tcp", s.Addr)
	if err != nil {
		return err
	}
	mu.Lock()
	servers = append(servers, s)
	mu.Unlock()
	return s.Serve(l)
}

// ListenAndServe replaces http.ListenAndServe.
func ListenAndServe(a string, h http.Handler) error {
	return ServeHTTPServer(&http.Server{Addr: a, Handler: h})
}

// Serve replaces http.Serve.
func Serve(l net.Listener, h http.Handler) error {
	s := &http.Server{Handler: h}
	mu.Lock()
	servers = append(servers, s)
	mu.Unlock()
	return s.Serve(l)
}

// Shutdown closes every server and listener.
func Shutdown() {
	mu.Lock()
	ss, cs := servers, accepted
	var ls []*listener
	for _, l := range listeners {
		ls = append(ls, l)
	}
	mu.Unlock()
	for _, s := range ss {
		s.Close()
	}
	for _, l := range ls {
		l.Close()
	}
	for _, c := range cs {
		c.Close()
	}
}

// Listening tells whether someone listens there.
//
//go:norace
func Listening(a string) bool {
	mu.Lock()
	defer mu.Unlock()
	return find(a) != nil
}

// half is one direction of a connection.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	eof    bool // writer closed
	reset  bool // connection reset
	chunk  int
	cap    int
	ddl    time.Time
	ddlT   *time.Timer
	closed bool // reader closed
}

func newHalf(chunk, capacity int) *half {
	h := &half{chunk: chunk, cap: capacity}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *half) read(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.closed {
			return 0, net.ErrClosed
		}
		if h.reset {
			return 0, &net.OpError{Op: "read", Net: "sim", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
		}
		if !h.ddl.IsZero() && !time.Now().Before(h.ddl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(h.buf) > 0 {
			n := len(b)
			if h.chunk > 0 && n > h.chunk {
				n = h.chunk
			}
			n = copy(b[:n], h.buf)
			h.buf = h.buf[n:]
			h.cond.Broadcast()
			return n, nil
		}
		if h.eof {
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

func (h *half) write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	t := 0
	for len(b) > 0 {
		if h.reset || h.closed {
			return t, &net.OpError{Op: "write", Net: "sim", Err: os.NewSyscallError("write", syscall.EPIPE)}
		}
		if h.eof {
			return t, net.ErrClosed
		}
		n := len(b)
		if h.cap > 0 {
			if free := h.cap - len(h.buf); free <= 0 {
				h.cond.Wait()
				continue
			} else if n > free {
				n = free
			}
		}
		h.buf = append(h.buf, b[:n]...)
		b = b[n:]
		t += n
		h.cond.Broadcast()
	}
	return t, nil
}

func (h *half) set(f func()) {
	h.mu.Lock()
	f()
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (h *half) deadline(t time.Time) {
	h.set(func() {
		h.ddl = t
		if h.ddlT != nil {
			h.ddlT.Stop()
			h.ddlT = nil
		}
		if !t.IsZero() {
			d := time.Until(t)
			if d < 0 {
				d = 0
			}
			h.ddlT = time.AfterFunc(d, func() { h.set(func() {}) })
		}
	})
}

// Conn is one end of a simulated connection.
type Conn struct {
	in, out *half
	l, r    addr
}

func (c *Conn) Read(b []byte) (int, error)  { return c.in.read(b) }
func (c *Conn) Write(b []byte) (int, error) { return c.out.write(b) }
func (c *Conn) Close() error {
	c.out.set(func() { c.out.eof = true })
	c.in.set(func() { c.in.closed = true })
	c.in.deadline(time.Time{})
	return nil
}

// CloseWrite ends the sending direction only.
func (c *Conn) CloseWrite() error { c.out.set(func() { c.out.eof = true }); return nil }

// Reset aborts the connection: both directions fail.
func (c *Conn) Reset() {
	c.out.set(func() { c.out.reset = true; c.out.buf = nil })
	c.in.set(func() { c.in.reset = true; c.in.buf = nil })
}

func (c *Conn) LocalAddr() net.Addr                { return c.l }
func (c *Conn) RemoteAddr() net.Addr               { return c.r }
func (c *Conn) SetDeadline(t time.Time) error      { c.in.deadline(t); return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.in.deadline(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// Avail is what could be read now without waiting.
//
//go:norace
func (c *Conn) Avail() (n int, eof bool) {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return len(c.in.buf), c.in.eof || c.in.reset || c.in.closed
}

// Dial connects to a listener.  chunk limits what one read delivers to the
// server; capacity bounds what the server may send before the client reads.
func Dial(a, from string, chunk, capacity int) (*Conn, error) {
	mu.Lock()
	l := find(a)
	mu.Unlock()
	if l == nil {
		return nil, &net.OpError{Op: "dial", Net: "sim", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	up, down := newHalf(chunk, 0), newHalf(0, capacity)
	cl := &Conn{in: down, out: up, l: addr(from), r: addr(a)}
	sv := &Conn{in: up, out: down, l: addr(a), r: addr(from)}
	select {
	case l.ch <- sv:
		return cl, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
