// Package vnet is package net with TCP replaced by an in-memory model on the virtual runtime.
//
// A connection is a pair of byte-segment queues. One Write makes one segment, one Read returns bytes of at most one
// segment. A queue may be bounded (then writers block: TCP back-pressure) or unbounded. Closing one's own end makes
// pending and later operations on it fail with net.ErrClosed; the peer reads what was sent before and then io.EOF,
// and its writes fail with EPIPE (optionally after one write that is accepted and lost, as TCP does).
package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/mc/vs"
	"verif.local/mc/vtime"
)

// ---- world

// World is the network of one execution.
type World struct {
	listeners []*TCPListener
	passive   map[string]func(peer *TCPConn)
	black     map[string]bool
	refuse    map[string]bool
	unbind    map[string]error
	Conns     []*TCPConn
	Dialled   []string
	port      int
	o         vs.Obj
	// Window is the number of segments in flight per direction of new connections (0: unlimited).
	Window int
	// AbsorbOne makes the first write after the peer has closed succeed (and be lost).
	AbsorbOne bool
	// Remote, if set, gives the remote address of the n-th connection.
	Remote func(n int) *net.TCPAddr
	// AcceptErrs are errors returned by the next Accept calls (front first) of every listener.
	AcceptErrs []error
	// OnListen observes bind attempts.
	OnListen func(addr string, err error)
	// CloseErr makes closing a listener return this error (the listener is closed all the same).
	CloseErr error
	// ConnCloseErr makes closing a connection of the program return this error (it is closed all the same).
	ConnCloseErr func(c *TCPConn) error
	// Coalesce lets a read return several writes of the peer at once.
	Coalesce bool
}

type worldKey struct{}

// W returns the network of the current execution.
func W() *World {
	if w, ok := vs.X.Local[worldKey{}]; ok {
		return w.(*World)
	}
	w := &World{passive: map[string]func(*TCPConn){}, black: map[string]bool{}, refuse: map[string]bool{}, unbind: map[string]error{}, port: 40000}
	vs.X.Local[worldKey{}] = w
	return w
}

func normHost(h string) string {
	switch h {
	case "", "0.0.0.0", "::":
		return "*"
	case "localhost", "::1":
		return "127.0.0.1"
	}
	if ip := net.ParseIP(h); ip != nil {
		return ip.String()
	}
	return h
}

func normalize(addr string) (string, string, error) {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return "", "", err
	}
	if _, e := strconv.Atoi(p); e != nil {
		n, e := net.LookupPort("tcp", p)
		if e != nil {
			return "", "", e
		}
		p = strconv.Itoa(n)
	} else if n, _ := strconv.Atoi(p); n < 0 || n > 65535 {
		return "", "", &net.AddrError{Err: "invalid port", Addr: p}
	} else {
		p = strconv.Itoa(n)
	}
	return normHost(h), p, nil
}

// suits reports whether the network has addresses like addr.
func suits(network, addr string) error {
	var four, six bool
	switch network {
	case "tcp":
		return nil
	case "tcp4":
		four = true
	case "tcp6":
		six = true
	default:
		return net.UnknownNetworkError(network)
	}
	h, _, err := net.SplitHostPort(addr)
	if err != nil {
		return err
	}
	if i := strings.IndexByte(h, '%'); i >= 0 {
		h = h[:i]
	}
	if ip := net.ParseIP(h); ip != nil && (four && ip.To4() == nil || six && ip.To4() != nil) {
		return &net.AddrError{Err: "no suitable address found", Addr: h}
	}
	return nil
}

func key(addr string) string {
	h, p, err := normalize(addr)
	if err != nil {
		return addr
	}
	if h == "*" {
		h = "127.0.0.1"
	}
	return h + ":" + p
}

// Canonical is one spelling for all spellings of an address.
func Canonical(addr string) string { return key(addr) }

// Passive makes addr reachable: f gets the far end of each dialled connection, without a scheduling point.
func Passive(addr string, f func(peer *TCPConn)) { W().passive[key(addr)] = f }

// Blackhole makes dials to addr hang.
func Blackhole(addr string) { W().black[key(addr)] = true }

// Unblackhole undoes Blackhole.
func Unblackhole(addr string) { delete(W().black, key(addr)) }

// Refuse makes (or no longer makes) dials to a passive address fail.
func Refuse(addr string, on bool) { W().refuse[key(addr)] = on }

// Unbindable makes listening on addr fail.
func Unbindable(addr string) {
	W().unbind[key(addr)] = os.NewSyscallError("bind", syscall.EADDRNOTAVAIL)
}

// Bindable undoes Unbindable.
func Bindable(addr string) { delete(W().unbind, key(addr)) }

func tcpAddr(s string) *net.TCPAddr {
	h, p, err := net.SplitHostPort(s)
	if err != nil {
		return &net.TCPAddr{}
	}
	n, _ := strconv.Atoi(p)
	ip := net.ParseIP(h)
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	return &net.TCPAddr{IP: ip, Port: n}
}

// ---- operations

type op struct {
	what  string
	ready func() bool
	exec  func(t *vs.Thread)
}

func (o *op) Ready(*vs.Thread) bool { return o.ready == nil || o.ready() }
func (o *op) Exec(t *vs.Thread)     { o.exec(t) }
func (o *op) String() string        { return o.what }

func do(what string, ready func() bool, exec func(t *vs.Thread)) { vs.Do(&op{what, ready, exec}) }

// ---- connections

type segment struct {
	b []byte
	o vs.Obj
}

// half is one direction of a connection.
type half struct {
	cap     int
	segs    []*segment
	nsent   int
	slots   []*vs.Obj
	sObj    vs.Obj // order of sends
	rObj    vs.Obj // order of receives
	wclosed bool   // the writer has closed
	wObj    vs.Obj
	rclosed bool // the reader has closed
	rcObj   vs.Obj
	reset   bool
	lost    int // writes accepted after the reader closed
	all     []byte
	onData  func()
}

// TCPConn is one end of a virtual connection; it stands for *net.TCPConn.
type TCPConn struct {
	in, out   *half
	left      []byte
	closed    bool
	cObj      vs.Obj
	name      string
	laddr     *net.TCPAddr
	raddr     *net.TCPAddr
	Peer      *TCPConn
	rdl, wdl  deadline
	Accepted  bool // handed out by Accept
	Dialled   bool // handed out by Dial
	Env       bool // belongs to the environment
	CloseHook func()
}

type deadline struct {
	expired bool
	t       *vs.Timer
	o       vs.Obj
}

var _ net.Conn = (*TCPConn)(nil)

func (c *TCPConn) operr(o string, e error) error {
	return &net.OpError{Op: o, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: e}
}

// NewPair makes a connection; a is the side of the program, b that of the environment.
func NewPair(name string) (a, b *TCPConn) {
	w := W()
	w.port++
	h1, h2 := &half{cap: w.Window}, &half{cap: w.Window}
	la, ra := tcpAddr("127.0.0.1:9999"), tcpAddr("127.0.0.1:"+strconv.Itoa(w.port))
	if w.Remote != nil {
		ra = w.Remote(w.port)
	}
	a = &TCPConn{in: h1, out: h2, name: name, laddr: la, raddr: ra}
	b = &TCPConn{in: h2, out: h1, name: name + "'", laddr: ra, raddr: la, Env: true}
	a.Peer, b.Peer = b, a
	w.Conns = append(w.Conns, a)
	return
}

// Pipe is net.Pipe (with one segment of buffering per direction).
func Pipe() (net.Conn, net.Conn) {
	if vs.X == nil {
		return net.Pipe()
	}
	a, b := NewPair("pipe")
	a.in.cap, a.out.cap = 1, 1
	b.Env = false
	W().Conns = append(W().Conns, b)
	return a, b
}

// Name identifies the connection.
func (c *TCPConn) Name() string { return c.name }

// Read is net.Conn.Read.
func (c *TCPConn) Read(p []byte) (n int, err error) {
	if vs.Aborting() {
		return 0, c.operr("read", net.ErrClosed)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.left) > 0 {
		if c.closed {
			c.cObj.Acquire(501)
			return 0, c.operr("read", net.ErrClosed)
		}
		if c.rdl.expired {
			c.rdl.o.Acquire(509)
			return 0, c.operr("read", os.ErrDeadlineExceeded)
		}
		n = copy(p, c.left)
		c.left = c.left[n:]
		return n, nil
	}
	h := c.in
	do("read "+c.name, func() bool {
		return c.closed || c.rdl.expired || len(h.segs) > 0 || h.wclosed || h.reset
	}, func(t *vs.Thread) {
		switch {
		case c.closed:
			c.cObj.Acquire(502)
			err = c.operr("read", net.ErrClosed)
		case c.rdl.expired:
			c.rdl.o.Acquire(503)
			err = c.operr("read", os.ErrDeadlineExceeded)
		case len(h.segs) > 0:
			take := 1
			if W().Coalesce && len(h.segs) > 1 && len(h.segs[0].b) < len(p) && vs.ChooseCost(2, 1) == 1 {
				take = len(h.segs)
			}
			for ; take > 0 && n < len(p); take-- {
				s := h.segs[0]
				h.segs = append([]*segment(nil), h.segs[1:]...)
				s.o.Acquire(504)
				h.rObj.Update(505)
				so := &vs.Obj{}
				so.Release(506)
				h.slots = append(h.slots, so)
				k := copy(p[n:], s.b)
				c.left = append([]byte(nil), s.b[k:]...)
				n += k
			}
		case h.reset:
			h.wObj.Acquire(507)
			err = c.operr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		default:
			h.wObj.Acquire(508)
			err = io.EOF
		}
	})
	return
}

// Write is net.Conn.Write.
func (c *TCPConn) Write(p []byte) (n int, err error) {
	if vs.Aborting() {
		return 0, c.operr("write", net.ErrClosed)
	}
	if len(p) == 0 {
		return 0, nil
	}
	h := c.out
	do("write "+c.name, func() bool {
		return c.closed || c.wdl.expired || h.wclosed || h.rclosed || h.cap == 0 || len(h.segs) < h.cap
	}, func(t *vs.Thread) {
		switch {
		case c.closed:
			c.cObj.Acquire(512)
			err = c.operr("write", net.ErrClosed)
		case c.wdl.expired:
			c.wdl.o.Acquire(513)
			err = c.operr("write", os.ErrDeadlineExceeded)
		case h.wclosed:
			h.wObj.Acquire(514)
			err = c.operr("write", os.NewSyscallError("write", syscall.EPIPE))
		case h.rclosed:
			h.rcObj.Acquire(515)
			if W().AbsorbOne && h.lost == 0 {
				h.lost++
				h.sObj.Update(516)
				n = len(p)
				return
			}
			h.sObj.Update(517)
			err = c.operr("write", os.NewSyscallError("write", syscall.EPIPE))
		default:
			h.push(p)
			n = len(p)
		}
	})
	return
}

func (h *half) push(p []byte) {
	h.sObj.Update(520)
	if k := h.nsent - h.cap; h.cap > 0 && k >= 0 && k < len(h.slots) {
		h.slots[k].Acquire(521)
	}
	s := &segment{b: append([]byte(nil), p...)}
	s.o.Release(522)
	h.segs = append(h.segs, s)
	h.all = append(h.all, p...)
	h.nsent++
	if h.onData != nil {
		h.onData()
	}
}

// Close is net.Conn.Close.
func (c *TCPConn) Close() (err error) {
	if vs.Aborting() {
		c.closed = true
		return nil
	}
	do("close "+c.name, nil, func(t *vs.Thread) {
		if c.closed {
			c.cObj.Acquire(531)
			err = c.operr("close", net.ErrClosed)
			return
		}
		c.closeNow()
		if f := W().ConnCloseErr; f != nil && !c.Env {
			err = f(c)
		}
	})
	return
}

func (c *TCPConn) closeNow() {
	if c.closed {
		return
	}
	c.closed = true
	c.cObj.Update(532)
	if !c.out.wclosed {
		c.out.wclosed = true
		c.out.wObj.Update(533)
	}
	c.in.rclosed = true
	c.in.rcObj.Update(534)
	if c.CloseHook != nil {
		c.CloseHook()
	}
}

// CloseWrite is TCPConn.CloseWrite.
func (c *TCPConn) CloseWrite() (err error) {
	if vs.Aborting() {
		return nil
	}
	do("closewrite "+c.name, nil, func(t *vs.Thread) {
		if c.closed {
			c.cObj.Acquire(535)
			err = c.operr("close", net.ErrClosed)
			return
		}
		if !c.out.wclosed {
			c.out.wclosed = true
			c.out.wObj.Update(536)
		}
	})
	return
}

// CloseRead is TCPConn.CloseRead.
func (c *TCPConn) CloseRead() error { return nil }

// LocalAddr is net.Conn.LocalAddr.
func (c *TCPConn) LocalAddr() net.Addr { return c.laddr }

// RemoteAddr is net.Conn.RemoteAddr.
func (c *TCPConn) RemoteAddr() net.Addr { return c.raddr }

func (d *deadline) set(t time.Time) {
	d.t.Stop()
	d.t = nil
	if t.IsZero() {
		d.expired = false
		d.o.Update(541)
		return
	}
	left := vtime.Nanos(t) - vtime.Nanos(vtime.Now())
	if left <= 0 {
		d.expired = true
		d.o.Update(542)
		return
	}
	d.expired = false
	d.o.Update(543)
	d.t = vs.AddTimer(left, "deadline", true, func() { d.expired = true; d.o.Update(544) })
}

func (c *TCPConn) setDeadline(t time.Time, r, w bool) (err error) {
	if vs.Aborting() {
		return nil
	}
	do("set deadline "+c.name, nil, func(*vs.Thread) {
		if c.closed {
			c.cObj.Acquire(545)
			err = c.operr("set", net.ErrClosed)
			return
		}
		if r {
			c.rdl.set(t)
		}
		if w {
			c.wdl.set(t)
		}
	})
	return
}

// SetDeadline is net.Conn.SetDeadline.
func (c *TCPConn) SetDeadline(t time.Time) error { return c.setDeadline(t, true, true) }

// SetReadDeadline is net.Conn.SetReadDeadline.
func (c *TCPConn) SetReadDeadline(t time.Time) error { return c.setDeadline(t, true, false) }

// SetWriteDeadline is net.Conn.SetWriteDeadline.
func (c *TCPConn) SetWriteDeadline(t time.Time) error { return c.setDeadline(t, false, true) }

// Socket options have no effect on the model.
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }
func (c *TCPConn) File() (*os.File, error)                { return nil, errors.New("vnet: no file") }
func (c *TCPConn) SyscallConn() (syscall.RawConn, error)  { return nil, errors.New("vnet: no raw conn") }

// ---- environment interface of connections (no scheduling points)

// Inject makes b available to the other end as one segment.
func (c *TCPConn) Inject(b []byte) {
	if c.closed || c.out.wclosed || len(b) == 0 {
		return
	}
	if c.out.rclosed {
		return
	}
	c.out.push(b)
}

// HangupNow closes this end.
func (c *TCPConn) HangupNow() { c.closeNow() }

// HalfCloseNow ends the data this end sends; it can still read.
func (c *TCPConn) HalfCloseNow() {
	if !c.closed && !c.out.wclosed {
		c.out.wclosed = true
		c.out.wObj.Update(536)
	}
}

// OnData makes f run, within the same step, whenever the other end has written something.
func (c *TCPConn) OnData(f func()) { c.in.onData = f }

// ResetNow aborts the connection: the other end loses what it has not read.
func (c *TCPConn) ResetNow() {
	c.out.segs = nil
	c.out.reset = true
	c.closeNow()
}

// Sent returns all bytes the other end has written to this one so far.
func (c *TCPConn) Sent() []byte { return c.in.all }

// PeerClosed tells whether the other end has been closed.
func (c *TCPConn) PeerClosed() bool { return c.Peer.closed }

// IsClosed tells whether this end has been closed.
func (c *TCPConn) IsClosed() bool { return c.closed }

// SetWindow bounds the segments in flight: toward this end, and from it.
func (c *TCPConn) SetWindow(in, out int) { c.in.cap, c.out.cap = in, out }

// Unread returns the number of segments not yet read by this end.
func (c *TCPConn) Unread() int { return len(c.in.segs) }

// ---- listeners

// TCPListener is a virtual listener; it stands for *net.TCPListener.
type TCPListener struct {
	host, port string
	addr       *net.TCPAddr
	backlog    []*TCPConn
	bo         []*vs.Obj
	sObj, rObj vs.Obj
	closed     bool
	cObj       vs.Obj
	dl         deadline
	Env        bool
	errs       []error
	w          *World
}

var _ net.Listener = (*TCPListener)(nil)

// ListenNow makes a listener without a scheduling point.
func ListenNow(network, addr string) (*TCPListener, error) {
	w := W()
	h, p, err := normalize(addr)
	fail := func(e error) (*TCPListener, error) {
		e = &net.OpError{Op: "listen", Net: network, Addr: tcpAddr(addr), Err: e}
		if w.OnListen != nil {
			w.OnListen(addr, e)
		}
		return nil, e
	}
	if err == nil {
		err = suits(network, addr)
	}
	if err != nil {
		return fail(err)
	}
	w.o.Update(551)
	if e := w.unbind[key(addr)]; e != nil {
		return fail(e)
	}
	if p == "0" {
		w.port++
		p = strconv.Itoa(w.port)
	}
	for _, l := range w.listeners {
		if !l.closed && l.port == p && (l.host == h || l.host == "*" || h == "*") {
			return fail(os.NewSyscallError("bind", syscall.EADDRINUSE))
		}
	}
	a := h
	if h == "*" {
		a = "0.0.0.0"
	}
	l := &TCPListener{host: h, port: p, addr: tcpAddr(net.JoinHostPort(a, p)), w: w}
	w.listeners = append(w.listeners, l)
	if w.OnListen != nil {
		w.OnListen(addr, nil)
	}
	return l, nil
}

// Listen is net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	if vs.X == nil {
		return net.Listen(network, addr)
	}
	if vs.Aborting() {
		return nil, net.ErrClosed
	}
	var l *TCPListener
	var err error
	do("listen "+addr, nil, func(*vs.Thread) { l, err = ListenNow(network, addr) })
	if err != nil {
		return nil, err
	}
	return l, nil
}

// ListenTCP is net.ListenTCP.
func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	if a == nil {
		a = &net.TCPAddr{}
	}
	l, err := Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

// Listen is net.ListenConfig.Listen.
func (lc *ListenConfig) Listen(ctx context.Context, network, addr string) (net.Listener, error) {
	return Listen(network, addr)
}

func (l *TCPListener) err(e error) error {
	return &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: e}
}

// Accept is net.Listener.Accept.
func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// AcceptTCP is TCPListener.AcceptTCP.
func (l *TCPListener) AcceptTCP() (c *TCPConn, err error) {
	if vs.Aborting() {
		return nil, l.err(net.ErrClosed)
	}
	do("accept "+l.addr.String(), func() bool {
		return l.closed || l.dl.expired || len(l.backlog) > 0 || len(l.errs) > 0
	}, func(*vs.Thread) {
		switch {
		case l.closed:
			l.cObj.Acquire(561)
			err = l.err(net.ErrClosed)
		case l.dl.expired:
			l.dl.o.Acquire(562)
			err = l.err(os.ErrDeadlineExceeded)
		case len(l.errs) > 0:
			l.rObj.Update(564)
			err = l.err(l.errs[0])
			l.errs = l.errs[1:]
		default:
			c = l.backlog[0]
			l.backlog = append([]*TCPConn(nil), l.backlog[1:]...)
			l.bo[0].Acquire(563)
			l.bo = l.bo[1:]
			l.rObj.Update(565)
			c.Accepted = true
		}
	})
	return
}

// Close is net.Listener.Close.
func (l *TCPListener) Close() (err error) {
	if vs.Aborting() {
		l.closed = true
		return nil
	}
	do("close listener "+l.addr.String(), nil, func(*vs.Thread) {
		if l.closed {
			l.cObj.Acquire(571)
			err = &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
			return
		}
		l.closed = true
		l.cObj.Update(572)
		l.w.o.Update(573)
		for i, c := range l.backlog {
			l.bo[i].Acquire(574)
			c.out.reset = true
			c.closeNow()
		}
		l.backlog, l.bo = nil, nil
		if l.w.CloseErr != nil {
			err = l.w.CloseErr
		}
	})
	return
}

// Addr is net.Listener.Addr.
func (l *TCPListener) Addr() net.Addr { return l.addr }

// SetDeadline is TCPListener.SetDeadline.
func (l *TCPListener) SetDeadline(t time.Time) error {
	if !vs.Aborting() {
		do("set deadline", nil, func(*vs.Thread) { l.dl.set(t) })
	}
	return nil
}

// IsClosed tells whether the listener has been closed.
func (l *TCPListener) IsClosed() bool { return l.closed }

// Failing tells how many of the errors set by FailNext are still to be returned.
func (l *TCPListener) Failing() int { return len(l.errs) }

// FailNext makes the next Accept fail with e.
func (l *TCPListener) FailNext(e error) {
	l.sObj.Update(566)
	l.errs = append(l.errs, e)
}

// Pending returns the number of connections not yet accepted.
func (l *TCPListener) Pending() int { return len(l.backlog) }

func (w *World) find(addr string) *TCPListener {
	h, p, err := normalize(addr)
	if err != nil {
		return nil
	}
	for _, l := range w.listeners {
		if !l.closed && l.port == p && (l.host == "*" || l.host == h || h == "*") {
			return l
		}
	}
	return nil
}

// Listeners returns the open listeners.
func (w *World) Listeners() []*TCPListener {
	var r []*TCPListener
	for _, l := range w.listeners {
		if !l.closed {
			r = append(r, l)
		}
	}
	return r
}

func (l *TCPListener) push(name string) (far *TCPConn) {
	a, b := NewPair(name)
	l.sObj.Update(581)
	bo := &vs.Obj{}
	bo.Release(582)
	l.backlog = append(l.backlog, a)
	l.bo = append(l.bo, bo)
	return b
}

// ConnectNow connects the environment to the listener on addr, without a scheduling point; nil if refused.
func ConnectNow(addr, name string) *TCPConn {
	w := W()
	l := w.find(addr)
	w.o.Acquire(583)
	if l == nil {
		return nil
	}
	return l.push(name)
}

// Connect is ConnectNow at a scheduling point.
func Connect(addr, name string) (c *TCPConn) {
	do("connect "+addr, nil, func(*vs.Thread) { c = ConnectNow(addr, name) })
	return
}

// ---- dialling

// Dialer is net.Dialer.
type Dialer struct {
	Timeout        time.Duration
	Deadline       time.Time
	LocalAddr      net.Addr
	DualStack      bool
	FallbackDelay  time.Duration
	KeepAlive      time.Duration
	Resolver       *net.Resolver
	Cancel         <-chan struct{}
	Control        func(network, address string, c syscall.RawConn) error
	ControlContext func(ctx context.Context, network, address string, c syscall.RawConn) error
}

var errCanceled = errors.New("operation was canceled")

// DialContext is net.Dialer.DialContext.
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	if vs.X == nil {
		return (&net.Dialer{Timeout: d.Timeout, Deadline: d.Deadline, Cancel: d.Cancel}).DialContext(ctx, network, addr)
	}
	if vs.Aborting() {
		return nil, net.ErrClosed
	}
	w := W()
	fail := func(e error) error {
		return &net.OpError{Op: "dial", Net: network, Addr: tcpAddr(addr), Err: e}
	}
	if _, _, err := normalize(addr); err != nil {
		return nil, fail(err)
	}
	if err := suits(network, addr); err != nil {
		return nil, fail(err)
	}
	var ddl deadline
	if d.Timeout > 0 {
		ddl.set(vtime.Now().Add(d.Timeout))
	}
	if !d.Deadline.IsZero() && d.Timeout <= 0 {
		ddl.set(d.Deadline)
	}
	k := key(addr)
	cancelled := func() bool { return vs.IsClosed(d.Cancel) || vs.IsClosed(ctx.Done()) }
	var conn *TCPConn
	var err error
	do("dial "+addr, func() bool {
		return !w.black[k] || ddl.expired || cancelled()
	}, func(*vs.Thread) {
		w.Dialled = append(w.Dialled, addr)
		switch {
		case cancelled():
			vs.JoinClose(d.Cancel)
			vs.JoinClose(ctx.Done())
			err = fail(errCanceled)
		case ddl.expired:
			ddl.o.Acquire(591)
			err = fail(os.ErrDeadlineExceeded)
		default:
			if f := w.passive[k]; f != nil && !w.refuse[k] {
				a, b := NewPair("db")
				a.Dialled = true
				conn = a
				f(b)
				return
			}
			w.o.Acquire(592)
			l := w.find(addr)
			if l == nil {
				err = fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
				return
			}
			// the program's end is the dialler here
			far := l.push(fmt.Sprintf("db(%s)", addr))
			far.Env = false
			far.Peer.Env = l.Env
			far.Dialled = true
			for i, c := range w.Conns {
				if c == far.Peer {
					w.Conns[i] = far
				}
			}
			conn = far
		}
	})
	ddl.t.Stop()
	if err != nil {
		return nil, err
	}
	return conn, nil
}

// Dial is net.Dialer.Dial.
func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, addr)
}

// Dial is net.Dial.
func Dial(network, addr string) (net.Conn, error) { return (&Dialer{}).Dial(network, addr) }

// DialTimeout is net.DialTimeout.
func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: d}).Dial(network, addr)
}

// DialTCP is net.DialTCP.
func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	c, err := Dial(network, raddr.String())
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

// OpenProgramConns lists the connection ends of the program that were handed to it and are still open.
func (w *World) OpenProgramConns() []*TCPConn {
	var r []*TCPConn
	for _, c := range w.Conns {
		if !c.Env && !c.closed && (c.Accepted || c.Dialled) {
			r = append(r, c)
		}
	}
	return r
}
