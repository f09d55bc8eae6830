package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/mc/h"
	"verif.local/mc/vnet"
	"verif.local/mc/vs"
	"verif.local/mc/vtime"
)

const (
	addrA = "127.0.0.1:7001"
	addrB = "127.0.0.1:7002"
	addrC = "127.0.0.1:7003"
	addrU = "10.9.9.9:7004" // cannot be bound
)

// call is one call of the server's interface.
type call struct {
	name string
	err  error
	done bool
	// facts at the moment of the return
	ret func()
}

// vsim is one server with its environment.
type vsim struct {
	src   chan *server.Config
	dist  *server.ConfigDistributor
	srv   *server.Server
	calls []*call
	dbs   []*vnet.TCPConn
	onDB  func(db *vnet.TCPConn)
	// clients by name
	clients []*vnet.TCPConn
	w       *vnet.World
	closes  int
	// closedClean is the state of the world when the first Close returned
	atClose string
	// whether the calls had returned when nothing could run any more
	settled []bool
	blocked string
}

func newVsim() *vsim {
	m := &vsim{src: make(chan *server.Config, 8), w: vnet.W()}
	m.dist = server.NewConfigDistributor(m.src)
	m.srv = server.NewServer(m.dist)
	vnet.Unbindable(addrU)
	vnet.Passive(dbHost, func(db *vnet.TCPConn) {
		m.dbs = append(m.dbs, db)
		if m.onDB != nil {
			m.onDB(db)
		}
	})
	return m
}

func cfgAt(addr string) *server.Config { return &server.Config{Listen: addr, DatabaseURL: dbURL} }

func (m *vsim) update(c *server.Config) {
	vs.SendTo((chan<- *server.Config)(m.src), "config update")(c)
}

// async performs a call in a thread of its own.
func (m *vsim) async(name string, f func() error) *call {
	c := &call{name: name}
	m.calls = append(m.calls, c)
	vs.GoEnv(name, func() { c.run(f) })
	return c
}

func (c *call) run(f func() error) {
	vs.SetEnv(false)
	c.err = f()
	vs.SetEnv(true)
	c.done = true
	if c.ret != nil {
		c.ret()
	}
}

func (m *vsim) start() *call { return m.async("Start", m.srv.Start) }

// closeAt calls Close at the n-th step (in a thread of its own).
func (m *vsim) closeAt(n int) *call {
	m.closes++
	c := &call{name: fmt.Sprintf("Close#%d", m.closes)}
	if m.closes == 1 {
		c.ret = func() { m.atClose = m.open() }
	}
	m.calls = append(m.calls, c)
	vs.GoAt(n, c.name, func() { c.run(m.srv.Close) })
	return c
}

func (m *vsim) close() *call {
	m.closes++
	c := &call{name: fmt.Sprintf("Close#%d", m.closes)}
	if m.closes == 1 {
		c.ret = func() { m.atClose = m.open() }
	}
	m.calls = append(m.calls, c)
	c.run(m.srv.Close)
	return c
}

// open describes what the server holds open.
func (m *vsim) open() string {
	for _, l := range m.w.Listeners() {
		return "the listener on " + l.Addr().String() + " is still open"
	}
	for _, c := range m.w.OpenProgramConns() {
		return "the connection " + c.Name() + " is still open"
	}
	return ""
}

// ended judges an execution in which the server was closed.
func (m *vsim) ended(x *vs.Exec) string {
	for i, c := range m.calls {
		if i >= len(m.settled) || !m.settled[i] {
			return c.name + " has not returned although the server was closed" + m.blocked
		}
	}
	if m.atClose != "" {
		return "when Close returned " + m.atClose
	}
	if s := m.open(); s != "" {
		return "after Close " + s
	}
	for _, u := range x.Unfinished() {
		if !u.Env {
			return "still running after Close: " + u.Name + " at " + u.Op
		}
	}
	return ""
}

// client connects and sends b.
func (m *vsim) client(addr string, b []byte) *vnet.TCPConn {
	c := vnet.ConnectNow(addr, fmt.Sprintf("client%d", len(m.clients)+1))
	if c == nil {
		vs.Fail("nobody listens on %s", addr)
	}
	m.clients = append(m.clients, c)
	c.Inject(b)
	return c
}

// echo makes every database answer the startup with the bytes b.
func greet(b []byte) func(db *vnet.TCPConn) { return func(db *vnet.TCPConn) { db.Inject(b) } }

// served checks that a new client on addr is connected to the database and relayed both ways.
func (m *vsim) served(what, addr string) {
	n := len(m.dbs)
	c := m.client(addr, cat(goodStartup, query(7)))
	vs.WaitIdle()
	if len(m.dbs) != n+1 {
		vs.Fail("%s: a client on %s was not connected to the database", what, addr)
	}
	m.relays(what, c, m.dbs[n], goodStartup)
}

// relays checks that an established session relays in both directions.
func (m *vsim) relays(what string, c, db *vnet.TCPConn, _ []byte) {
	a, b := len(c.Sent()), len(db.Sent())
	q, r := query(len(m.calls)%7+1), dbMsg(2)
	c.Inject(q)
	db.Inject(r)
	vs.WaitIdle()
	if s := diff(what+": to the database", db.Sent()[min(b, len(db.Sent())):], q, false); s != "" {
		vs.Fail("%s", s)
	}
	if s := diff(what+": to the client", c.Sent()[min(a, len(c.Sent())):], r, false); s != "" {
		vs.Fail("%s", s)
	}
}

// refused checks that nobody listens on addr.
func (m *vsim) refused(what, addr string) {
	for _, l := range m.w.Listeners() {
		if l.Addr().String() == addr {
			vs.Fail("%s: still listening on %s", what, addr)
		}
	}
}

func (m *vsim) listening(what string, addrs ...string) {
	var got []string
	for _, l := range m.w.Listeners() {
		got = append(got, l.Addr().String())
	}
	if fmt.Sprint(got) != fmt.Sprint(addrs) {
		vs.Fail("%s: listening on %v, expected %v", what, got, addrs)
	}
}

// storm raises the limits of a scenario in which the server may pause thousands of times.
func storm(mk func() *vs.Scenario) func() *vs.Scenario {
	return func() *vs.Scenario {
		s := mk()
		s.MaxSteps, s.MaxTimers = 100000, 6000
		return s
	}
}

// crowd is storm for scenarios with many clients.
func crowd(mk func() *vs.Scenario) func() *vs.Scenario {
	return func() *vs.Scenario {
		s := mk()
		s.MaxSteps, s.MaxTimers = 1000000, 6000
		return s
	}
}

func serv(body func(m *vsim), end func(m *vsim, x *vs.Exec) string) func() *vs.Scenario {
	return func() *vs.Scenario {
		var m *vsim
		return &vs.Scenario{
			Body: func() {
				m = newVsim()
				vs.SetEnv(true)
				body(m)
				// once everything has settled, end what is not part of the server
				vs.WaitIdle()
				for _, c := range m.calls {
					m.settled = append(m.settled, c.done)
				}
				m.blocked = blockedAt(vs.X)
				vs.Freeze(true)
				m.dist.Close()
			},
			End:      func(x *vs.Exec) string { return end(m, x) },
			MaxSteps: 20000,
		}
	}
}

// up starts the server on A and waits until it listens, following the default schedule.
func (m *vsim) up() {
	vs.Freeze(true)
	m.start()
	m.update(cfgAt(addrA))
	vs.WaitIdle()
	m.listening("after start", addrA)
	vs.Freeze(false)
}

var errTemp = &net.OpError{Op: "accept", Net: "tcp", Err: tempErr{}}

type tempErr struct{}

func (tempErr) Error() string   { return "too many open files" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

func init() {
	add := func(name, props string, q, t int, what string, mk func() *vs.Scenario) {
		h.Add(&h.Sc{Name: name, Props: append(strings.Fields(props), "R01"), What: what, Make: mk, Mode: vs.Delay, Quick: q, Thorough: t})
	}
	okErrs := func(c *call, errs ...error) string {
		for _, e := range errs {
			if c.err == e {
				return ""
			}
		}
		return fmt.Sprintf("%s returned %v, expected %v", c.name, c.err, errs)
	}

	// ---- closing at every step

	type phase struct {
		name, what string
		steps      int
		prep       func(m *vsim)
	}
	for _, p := range []phase{
		{"idle", "a server starting up", 40, func(m *vsim) {
			m.start()
			m.update(cfgAt(addrA))
		}},
		{"noconfig", "a server waiting for its configuration", 15, func(m *vsim) { m.start() }},
		{"unbindable", "a server that cannot bind its address", 30, func(m *vsim) {
			m.start()
			m.update(cfgAt(addrU))
		}},
		{"relay", "a server with a relaying session", 60, func(m *vsim) {
			m.up()
			m.onDB = greet(dbMsg(1))
			vs.Freeze(true)
			m.client(addrA, goodStartup)
			vs.WaitIdle()
			vs.Freeze(false)
			m.clients[0].Inject(query(1))
		}},
		{"accept", "a server to which a client is connecting", 90, func(m *vsim) {
			m.up()
			m.client(addrA, cat(goodStartup, query(1)))
		}},
		{"accept2", "a server to which two clients are connecting, one of them silent", 70, func(m *vsim) {
			m.up()
			m.client(addrA, goodStartup)
			m.client(addrA, nil)
		}},
		{"dial", "a server whose database does not answer", 60, func(m *vsim) {
			vnet.Blackhole(dbHost)
			m.up()
			m.client(addrA, cat(goodStartup, query(1)))
		}},
		{"hello-full", "a server whose database does not read the startup message", 50, func(m *vsim) {
			m.onDB = func(db *vnet.TCPConn) { db.SetWindow(-1, 0) }
			m.up()
			m.client(addrA, cat(goodStartup, query(1)))
		}},
		{"refusal", "a server that refuses a client that does not read", 40, func(m *vsim) {
			m.up()
			c := m.client(addrA, nil)
			c.SetWindow(-1, 0)
			c.Inject(startup(v3, "user", "u", "database", "bank"))
		}},
		{"move", "a server adopting another listen address, a client connecting to the old one", 70, func(m *vsim) {
			m.up()
			m.update(cfgAt(addrB))
			m.client(addrA, nil)
		}},
		{"move2", "a server adopting two more listen addresses in a row", 70, func(m *vsim) {
			m.up()
			m.update(cfgAt(addrB))
			m.update(cfgAt(addrC))
		}},
		{"hangup", "a server whose session is ending because a side hung up", 60, func(m *vsim) {
			m.up()
			m.onDB = greet(dbMsg(1))
			vs.Freeze(true)
			m.client(addrA, goodStartup)
			vs.WaitIdle()
			vs.Freeze(false)
			if vs.Choose(2) == 0 {
				m.clients[0].HangupNow()
			} else {
				m.dbs[0].HangupNow()
			}
		}},
		{"full", "a server with a session whose client has stopped reading", 30, func(m *vsim) {
			m.up()
			m.onDB = greet(cat(msgs(dbMsg, 140)...))
			vs.Freeze(true)
			c := m.client(addrA, nil)
			c.SetWindow(1, 0)
			c.Inject(goodStartup)
			vs.WaitIdle()
			vs.Freeze(false)
			c.Inject(query(1))
		}},
	} {
		p := p
		add("srv-close-"+p.name, "V01", 2, 3, "Close at every step of "+p.what, serv(func(m *vsim) {
			n := vs.Choose(p.steps)
			p.prep(m)
			m.closeAt(n)
		}, func(m *vsim, x *vs.Exec) string {
			if s := m.ended(x); s != "" {
				return s
			}
			for _, c := range m.calls {
				if c.name == "Start" {
					if s := okErrs(c, server.ErrServerClosed); s != "" {
						return s
					}
				} else if c.err != nil {
					return fmt.Sprintf("%s returned %v", c.name, c.err)
				}
			}
			return ""
		}))
		if p.name == "accept" || p.name == "relay" || p.name == "move" {
			add("srv-close-twice-"+p.name, "V01 V02", 1, 2, "two Close calls at every step of "+p.what, serv(func(m *vsim) {
				n := vs.Choose(p.steps)
				p.prep(m)
				m.closeAt(n)
				m.closeAt(n + vs.Choose(4))
			}, func(m *vsim, x *vs.Exec) string {
				for _, c := range m.calls {
					c.ret = nil
				}
				m.atClose = ""
				if s := m.ended(x); s != "" {
					return s
				}
				for _, c := range m.calls {
					if c.name != "Start" && c.err != nil {
						return fmt.Sprintf("%s returned %v", c.name, c.err)
					}
				}
				return ""
			}))
		}
	}
	add("srv-close-serve", "V01 V02", 2, 4, "Close at every step of Serve with a client connecting", serv(func(m *vsim) {
		n := vs.Choose(60)
		m.update(cfgAt(addrA))
		vs.Freeze(true)
		_, _ = m.dist.Get()
		vs.WaitIdle()
		vs.Freeze(false)
		ln, _ := vnet.ListenNow("tcp", addrC)
		m.async("Serve", func() error { return m.srv.Serve(ln) })
		m.client(addrC, goodStartup)
		m.closeAt(n)
	}, func(m *vsim, x *vs.Exec) string {
		if m.calls[0].done && m.calls[0].err == nil {
			return "Serve returned no error"
		}
		// a Serve call that comes after Close has returned is judged at the end
		m.atClose = ""
		return m.ended(x)
	}))
	add("srv-close-serveconn", "V01 V02", 2, 4, "Close at every step of ServeConn", serv(func(m *vsim) {
		n := vs.Choose(60)
		m.update(cfgAt(addrA))
		vs.Freeze(true)
		_, _ = m.dist.Get()
		vs.WaitIdle()
		vs.Freeze(false)
		a, b := vnet.NewPair("client")
		a.Accepted = true
		b.Inject(goodStartup)
		c := m.async("ServeConn", func() error { return m.srv.ServeConn(a) })
		_ = c
		m.closeAt(n)
	}, func(m *vsim, x *vs.Exec) string {
		// the session of a ServeConn call that is not the server's own is closed, but nobody waits for the call
		m.atClose = ""
		return m.ended(x)
	}))
	add("srv-close-listener-error", "V02", 1, 2, "closing the listener fails", serv(func(m *vsim) {
		boom := errors.New("boom")
		m.up()
		m.w.CloseErr = boom
		c := m.close()
		if c.err != boom {
			vs.Fail("Close returned %v, expected the listener's error", c.err)
		}
		if c = m.close(); c.err != nil {
			vs.Fail("the second Close returned %v", c.err)
		}
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))

	add("srv-close-errors", "V01 V02", 1, 2, "closing the listener, a client's connection or a database's connection fails, in all combinations, with 0 to 2 sessions relaying and one in its startup: only the listener's error is returned", serv(func(m *vsim) {
		boom, bang := errors.New("boom"), errors.New("bang")
		m.up()
		vs.Freeze(true)
		n := vs.Choose(3)
		for i := 0; i < n; i++ {
			m.served("session", addrA)
		}
		if vs.Choose(2) == 1 {
			m.client(addrA, goodStartup[:5])
			vs.WaitIdle()
		}
		vs.Freeze(false)
		var want error
		if vs.Choose(2) == 1 {
			want = boom
			m.w.CloseErr = boom
		}
		if k := vs.Choose(4); k > 0 {
			m.w.ConnCloseErr = func(c *vnet.TCPConn) error {
				if k&1 != 0 && c.Accepted || k&2 != 0 && c.Dialled {
					return bang
				}
				return nil
			}
		}
		c := m.close()
		if c.err != want {
			vs.Fail("Close returned %v, expected %v", c.err, want)
		}
		if c = m.close(); c.err != nil {
			vs.Fail("the second Close returned %v", c.err)
		}
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))

	// ---- lifecycle

	add("srv-start-many", "V02", 3, 6, "three concurrent Start calls; once one is running another one; then Close", serv(func(m *vsim) {
		m.update(cfgAt(addrA))
		for i := 0; i < 3; i++ {
			m.start()
		}
		vs.WaitIdle()
		n := 0
		for _, c := range m.calls {
			if !c.done {
				n++
			} else if s := okErrs(c, server.ErrServerAlreadyStarted); s != "" {
				vs.Fail("%s", s)
			}
		}
		if n != 1 {
			vs.Fail("%d of 3 Start calls are running", n)
		}
		m.listening("after start", addrA)
		c := m.start()
		vs.WaitIdle()
		if !c.done {
			vs.Fail("a later Start call has not returned")
		}
		if s := okErrs(c, server.ErrServerAlreadyStarted); s != "" {
			vs.Fail("%s", s)
		}
		m.close()
		c = m.start()
		vs.WaitIdle()
		if s := okErrs(c, server.ErrServerClosed); s != "" || !c.done {
			vs.Fail("after Close: %s done=%v", s, c.done)
		}
	}, func(m *vsim, x *vs.Exec) string {
		if s := m.ended(x); s != "" {
			return s
		}
		n := 0
		for _, c := range m.calls[:3] {
			if c.name == "Start" && c.err == server.ErrServerClosed {
				n++
			}
		}
		if n != 1 {
			return fmt.Sprintf("%d of the 3 first Start calls returned the closed error, expected the running one only", n)
		}
		return ""
	}))
	add("srv-start-close", "V02 V01", 3, 6, "two Start calls and Close, all concurrent", serv(func(m *vsim) {
		m.update(cfgAt(addrA))
		m.start()
		m.start()
		m.close()
	}, func(m *vsim, x *vs.Exec) string {
		if s := m.ended(x); s != "" {
			return s
		}
		already := 0
		for _, c := range m.calls {
			if c.name != "Start" {
				continue
			}
			if s := okErrs(c, server.ErrServerClosed, server.ErrServerAlreadyStarted); s != "" {
				return s
			}
			if c.err == server.ErrServerAlreadyStarted {
				already++
			}
		}
		if already == 2 {
			return "both Start calls returned the already-started error"
		}
		return ""
	}))
	add("srv-start-failed", "V02", 2, 4, "Start calls (1 to 3, one after the other or at once) of a server whose source of configurations has ended or is closed, before or after a first configuration, then Close: one of them runs and fails, the others are told that the server has been started", serv(func(m *vsim) {
		first := vs.Choose(2) == 1
		if first {
			m.update(cfgAt(addrA))
			vs.WaitIdle()
		}
		closed := vs.Choose(2) == 0
		if closed {
			m.dist.Close()
		} else {
			vs.Close((chan<- *server.Config)(m.src), "end of source")
		}
		together := vs.Choose(2) == 1
		n := 1 + vs.Choose(3)
		for i := 0; i < n; i++ {
			m.start()
			if !together {
				vs.WaitIdle()
			}
		}
		vs.WaitIdle()
		already, ran := 0, 0
		for _, c := range m.calls {
			switch {
			case !c.done || c.err != server.ErrServerAlreadyStarted:
				ran++
				if !c.done && closed {
					vs.Fail("Start waits for configurations although it is refused them")
				}
				if c.done && c.err == nil {
					vs.Fail("Start returned no error")
				}
			default:
				already++
			}
		}
		if ran != 1 {
			vs.Fail("%d Start calls: %d were told that the server has been started, expected %d", n, already, n-1)
		}
		m.close()
		c := m.start()
		vs.WaitIdle()
		if s := okErrs(c, server.ErrServerClosed); s != "" {
			vs.Fail("after Close: %s", s)
		}
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	add("srv-after-close", "V02 V01", 2, 4, "Start, Serve and ServeConn after Close return the closed error and serve nothing", serv(func(m *vsim) {
		started := vs.Choose(2) == 1
		if started {
			m.up()
		} else {
			m.update(cfgAt(addrA))
		}
		if c := m.close(); c.err != nil {
			vs.Fail("Close returned %v", c.err)
		}
		ln, _ := vnet.ListenNow("tcp", addrC)
		pend := m.client(addrC, goodStartup)
		a, b := vnet.NewPair("client")
		a.Accepted = true
		b.Inject(goodStartup)
		for _, f := range []struct {
			n string
			f func() error
		}{{"Start", m.srv.Start}, {"Serve", func() error { return m.srv.Serve(ln) }}, {"ServeConn", func() error { return m.srv.ServeConn(a) }}, {"Close", m.srv.Close}} {
			c := m.async(f.n, f.f)
			vs.WaitIdle()
			want := server.ErrServerClosed
			if f.n == "Close" {
				want = nil
			}
			if !c.done {
				vs.Fail("%s has not returned although the server is closed", f.n)
			} else if c.err != want {
				vs.Fail("%s returned %v after Close, expected %v", f.n, c.err, want)
			}
		}
		if len(m.dbs) > 0 || len(pend.Sent()) > 0 || len(b.Sent()) > 0 {
			vs.Fail("a client was served after Close")
		}
		if !a.IsClosed() {
			vs.Fail("the connection refused by ServeConn was left open")
		}
	}, func(m *vsim, x *vs.Exec) string {
		return m.ended(x)
	}))

	// ---- listen addresses

	moves := func(name string, q, t int, what string, length int, pause bool, alphabet []string) {
		add(name, "V03", q, t, what, serv(func(m *vsim) {
			cur, last := addrA, addrA
			m.up()
			first := m.w.Listeners()[0]
			moved := false
			// an established session
			m.onDB = nil
			vs.Freeze(true)
			m.served("before", addrA)
			vs.Freeze(false)
			var hist []string
			for i := 0; i < length; i++ {
				a := alphabet[vs.Choose(len(alphabet))]
				c := cfgAt(a)
				if a == "same" {
					c = &server.Config{Listen: last, DatabaseURL: "postgres://other@10.0.0.9:6543/shop"}
				}
				last = c.Listen
				hist = append(hist, c.Listen)
				if c.Listen != addrU && !strings.Contains(c.Listen, "bad") {
					moved = moved || c.Listen != cur
					cur = c.Listen
				}
				m.update(c)
				if pause {
					vs.WaitIdle()
					m.listening(fmt.Sprint("after the configurations ", hist), cur)
				}
			}
			vs.WaitIdle()
			m.listening(fmt.Sprint("after the configurations ", hist), cur)
			if !moved && first.IsClosed() {
				vs.Fail("after the configurations %v: the listener was closed although the address did not change", hist)
			}
			vs.Freeze(true)
			m.relays(fmt.Sprintf("established session after the configurations %v", hist), m.clients[0], m.dbs[0], nil)
			m.served(fmt.Sprintf("after the configurations %v", hist), cur)
			m.close()
		}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	}
	moves("srv-moves-burst2", 2, 4, "every burst of 2 further configurations over 5 listen settings; a session is established before", 2, false, []string{addrA, addrB, addrC, addrU, "same"})
	moves("srv-moves-burst3", 1, 2, "every burst of 3 further configurations over 5 listen settings", 3, false, []string{addrA, addrB, addrC, addrU, "same"})
	moves("srv-moves-steps", 1, 2, "every sequence of 3 further configurations over 6 listen settings, one after the other", 3, true, []string{addrA, addrB, addrC, addrU, "same", "bad:address:1"})
	moves("srv-moves-hosts", 0, 1, "every sequence of 3 further configurations over 6 listen settings that differ in the host or the port alone, one after the other", 3, true, []string{addrA, "127.0.0.2:7001", "127.0.0.11:7001", "127.0.0.1:7011", "127.0.0.1:701", "127.0.0.1:17001"})
	moves("srv-moves-long", 0, 1, "every sequence of 5 further configurations over 4 listen settings, one after the other", 5, true, []string{addrA, addrB, addrU, "same"})
	add("srv-moves-freed", "V03", 0, 1, "every sequence of 4 further configurations (other addresses, the same one, another database), before each of which one of the addresses becomes unusable or usable again or not: the server adopts the latest address whenever it can be bound", serv(func(m *vsim) {
		vs.Freeze(true)
		m.up()
		vs.Freeze(true)
		free := vs.Choose(2) == 1
		if !free {
			vnet.Unbindable(addrB)
		}
		cur, last := addrA, addrA
		var hist []string
		m.served("before", addrA)
		for i := 0; i < 4; i++ {
			if vs.Choose(2) == 1 {
				if free = !free; free {
					vnet.Bindable(addrB)
				} else {
					vnet.Unbindable(addrB)
				}
			}
			k := vs.Choose(4)
			c := &server.Config{Listen: last, DatabaseURL: fmt.Sprintf("postgres://other%d@10.0.0.9:6543/shop", i)}
			if k < 3 {
				c = cfgAt([]string{addrA, addrB, addrC}[k])
			}
			last = c.Listen
			if last != addrB || free {
				cur = last
			}
			hist = append(hist, fmt.Sprintf("%s (%s usable: %v)", last, addrB, free))
			was := m.w.Listeners()
			m.update(c)
			vs.WaitIdle()
			m.listening(fmt.Sprint("after the configurations ", hist), cur)
			if now := m.w.Listeners(); was[0].Addr().String() == cur && now[0] != was[0] {
				vs.Fail("after the configurations %v: the listener was replaced although its address did not change", hist)
			}
		}
		m.relays(fmt.Sprintf("established session after the configurations %v", hist), m.clients[0], m.dbs[0], nil)
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	add("srv-moves-close-error", "V03 V02", 1, 2, "closing the previous listener reports an error each time: every sequence of 2 further configurations takes effect", serv(func(m *vsim) {
		m.up()
		m.w.CloseErr = errors.New("boom")
		cur := addrA
		for i := 0; i < 2; i++ {
			cur = []string{addrA, addrB, addrC}[vs.Choose(3)]
			m.update(cfgAt(cur))
			if vs.Choose(2) == 0 {
				vs.WaitIdle()
			}
		}
		vs.WaitIdle()
		m.listening("after the changes", cur)
		vs.Freeze(true)
		m.served("after the changes", cur)
		m.w.CloseErr = nil
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	add("srv-moves-spelling", "V03", 0, 1, "listen settings without a host, with a host name, with port 0; then updates of the database URL alone: the listener stays the same", serv(func(m *vsim) {
		a := []string{":7005", "localhost:7005", "127.0.0.1:0", ":0", "0.0.0.0:7005", "127.0.0.1:http"}[vs.Choose(6)]
		fresh := vs.Choose(2) == 0
		if fresh {
			m.start()
		} else {
			m.up()
		}
		m.update(cfgAt(a))
		vs.WaitIdle()
		ls := m.w.Listeners()
		if len(ls) != 1 || ls[0].Addr().String() == addrA {
			vs.Fail("listen setting %q: not adopted", a)
		}
		m.client(ls[0].Addr().String(), nil)
		for i := 0; i < 2; i++ {
			m.update(&server.Config{Listen: a, DatabaseURL: fmt.Sprintf("postgres://other%d@10.0.0.9:6543/shop", i)})
			vs.WaitIdle()
			if n := m.w.Listeners(); len(n) != 1 || n[0] != ls[0] {
				vs.Fail("listen setting %q: the listener was replaced although only the database URL changed", a)
			}
		}
		vs.Freeze(true)
		m.served("after the updates", ls[0].Addr().String())
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	add("srv-moves-startup", "V03 V04", 1, 2, "clients at every stage of their startup when the address changes, once or twice: they are served all the same", serv(func(m *vsim) {
		m.up()
		vs.Freeze(true)
		b := cat(sslRequest, goodStartup)
		k := []int{0, 3, 8, 12, len(b) - 1}[vs.Choose(5)]
		c := m.client(addrA, b[:k])
		vs.WaitIdle()
		vs.Freeze(false)
		cur := addrB
		m.update(cfgAt(addrB))
		if vs.Choose(2) == 1 {
			cur = addrA
			m.update(cfgAt(addrA))
		}
		if vs.Choose(2) == 1 {
			vs.WaitIdle()
		}
		c.Inject(cat(b[k:], query(1)))
		vs.WaitIdle()
		m.listening("after the change", cur)
		if len(m.dbs) != 1 {
			vs.Fail("a client that was in its startup when the address changed was not connected to the database")
		}
		if s := diff("database", m.dbs[0].Sent(), cat(goodStartup, query(1)), false); s != "" {
			vs.Fail("%s", s)
		}
		vs.Freeze(true)
		m.relays("the client that was in its startup when the address changed", c, m.dbs[0], nil)
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	add("srv-first-config", "V03", 2, 4, "the first configurations arrive while the server starts; the first one may be unusable", serv(func(m *vsim) {
		alph := []string{addrA, addrB, addrU}
		i, j := alph[vs.Choose(3)], alph[vs.Choose(3)]
		m.update(cfgAt(i))
		m.start()
		m.update(cfgAt(j))
		vs.WaitIdle()
		want := []string{}
		if j != addrU {
			want = []string{j}
		} else if i != addrU {
			want = []string{i}
		}
		// a configuration that is replaced before the server subscribes need not be adopted
		if j == addrU && len(m.w.Listeners()) == 0 {
			want = nil
		}
		m.listening(fmt.Sprintf("configurations %s, %s", i, j), want...)
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	add("srv-moves-clients", "V03 V04", 2, 3, "clients connect to the old and the new address while the address changes: those accepted are served", serv(func(m *vsim) {
		m.up()
		m.update(cfgAt(addrB))
		c := m.client(addrA, goodStartup)
		vs.WaitIdle()
		m.listening("after the change", addrB)
		if len(m.dbs) == 0 && !c.PeerClosed() {
			vs.Fail("a client that connected during the change is neither served nor refused")
		}
		vs.Freeze(true)
		m.served("after the change", addrB)
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))

	// ---- clients

	neighbours := []struct {
		what string
		b    []byte
		prep func(m *vsim)
		post func(m *vsim, c *vnet.TCPConn)
	}{
		{"is silent", nil, nil, nil},
		{"stops in the middle of its startup", goodStartup[:9], nil, nil},
		{"asks for another database", startup(v3, "user", "u", "database", "bank"), nil, nil},
		{"sends garbage", bytes.Repeat([]byte{0xff}, 50), nil, nil},
		{"hangs up", goodStartup, nil, func(m *vsim, c *vnet.TCPConn) { c.HangupNow() }},
		{"resets the connection", goodStartup, nil, func(m *vsim, c *vnet.TCPConn) { c.ResetNow() }},
		{"does not read", goodStartup, nil, func(m *vsim, c *vnet.TCPConn) { c.SetWindow(1, 0) }},
		{"waits for a database that does not answer", goodStartup, func(m *vsim) { vnet.Blackhole(dbHost) }, func(m *vsim, c *vnet.TCPConn) { vnet.Unblackhole(dbHost) }},
	}
	add("srv-neighbours", "V04 S07", 1, 2, "a second client is served while the first one misbehaves in one of 8 ways, and a third after that", serv(func(m *vsim) {
		n := neighbours[vs.Choose(len(neighbours))]
		if n.prep != nil {
			n.prep(m)
		}
		m.up()
		big := cat(msgs(dbMsg, 140)...)
		m.onDB = func(db *vnet.TCPConn) {
			if n.what == "does not read" && len(m.dbs) == 1 {
				db.Inject(big)
			}
		}
		c := m.client(addrA, n.b)
		if n.post != nil && n.prep == nil {
			n.post(m, c)
		}
		if n.prep != nil {
			vs.WaitIdle()
			// the address answers again, but the first dial stays stuck
			m.dbs = nil
			m.cfgOther()
			c2 := m.client(addrB, startup(v3, "user", "u", "database", "other"))
			vs.WaitIdle()
			if len(m.dbs) != 1 {
				vs.Fail("a client was not served while another one's database does not answer")
			}
			_ = c2
		} else {
			before := len(m.dbs)
			d := m.client(addrA, cat(goodStartup, query(1)))
			vs.WaitIdle()
			if len(m.dbs) == before {
				vs.Fail("a client was not served while another one %s", n.what)
			}
			ok := false
			for _, db := range m.dbs {
				ok = ok || bytes.Equal(db.Sent(), cat(goodStartup, query(1)))
			}
			if !ok {
				vs.Fail("a client's query was not relayed while another one %s", n.what)
			}
			_ = d
			vs.Freeze(true)
			m.served("while another client "+n.what, addrA)
		}
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	var temporary []error
	for _, e := range []syscall.Errno{syscall.EMFILE, syscall.ENFILE, syscall.EINTR, syscall.ETIMEDOUT} {
		temporary = append(temporary, os.NewSyscallError("accept4", e))
	}
	temporary = append(temporary, syscall.ECONNABORTED, errTemp)
	add("srv-accept-errors", "V04", 1, 3, "accepting fails temporarily, up to 3 times, before and between clients", serv(func(m *vsim) {
		m.up()
		l := m.w.Listeners()[0]
		for i := 0; i < 2; i++ {
			if k := vs.Choose(1 + 2*len(temporary)); k > 0 {
				for j := 0; j <= (k-1)%2; j++ {
					l.FailNext(temporary[(k-1)/2])
				}
			}
			m.served(fmt.Sprintf("client %d after temporary accept errors", i+1), addrA)
		}
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	add("srv-accept-storm", "V04", 0, 1, "accepting fails temporarily 1 to 2000 times in a row, or before each of 1 to 60 clients: all clients are served", storm(serv(func(m *vsim) {
		m.up()
		vs.Freeze(true)
		l := m.w.Listeners()[0]
		e := temporary[vs.Choose(len(temporary))]
		if vs.Choose(2) == 0 {
			n := []int{1, 4, 5, 9, 17, 33, 65, 101, 129, 257, 513, 1025, 2000}[vs.Choose(13)]
			for i := 0; i < n; i++ {
				l.FailNext(e)
			}
			for left := n + 1; l.Failing() > 0 && left > l.Failing(); {
				left = l.Failing()
				vs.WaitIdle()
			}
			vs.WaitIdle()
			m.served(fmt.Sprintf("after %d temporary accept errors in a row", n), addrA)
		} else {
			k := 1 + vs.Choose(2)
			for i := 0; i < 60; i++ {
				for j := 0; j < k; j++ {
					l.FailNext(e)
				}
				m.served(fmt.Sprintf("client %d, %d temporary accept errors before each", i+1, k), addrA)
				m.clients[i].HangupNow()
			}
		}
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) })))
	add("srv-close-storm", "V01 V04", 0, 1, "1 to 14 temporary accept errors of every kind, then 0.1 to 300 s later a client, who is served, or Close, which returns", storm(serv(func(m *vsim) {
		m.up()
		vs.Freeze(true)
		l := m.w.Listeners()[0]
		e := temporary[vs.Choose(len(temporary))]
		for n := 1 + vs.Choose(14); n > 0; n-- {
			l.FailNext(e)
		}
		vtime.Sleep([]time.Duration{100 * time.Millisecond, 1100 * time.Millisecond, 3 * time.Second, 20 * time.Second, 300 * time.Second}[vs.Choose(5)])
		if vs.Choose(2) == 0 && l.Failing() == 0 {
			m.served("after a storm of accept errors", addrA)
		}
		vs.Freeze(false)
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) })))
	add("srv-accept-fatal", "V01 V03", 1, 3, "accepting fails for good, before or after a client, on the listener of Start or of Serve; then another client, another address or not; then Close: every listener is closed, and only the latest address is in service", serv(func(m *vsim) {
		m.up()
		vs.Freeze(true)
		own := vs.Choose(2) == 1
		addr := addrA
		if own {
			addr = addrC
			ln, _ := vnet.ListenNow("tcp", addrC)
			m.async("Serve", func() error { return m.srv.Serve(ln) })
			vs.WaitIdle()
			m.listening("after Serve", addrC)
		}
		l := m.w.Listeners()[0]
		if vs.Choose(2) == 1 {
			m.served("before accepting fails", addr)
		}
		e := []error{errors.New("boom"), io.EOF, os.NewSyscallError("accept4", syscall.EINVAL), os.NewSyscallError("accept4", syscall.EBADF), os.ErrDeadlineExceeded}[vs.Choose(5)]
		l.FailNext(e)
		vs.WaitIdle()
		if vs.Choose(2) == 1 {
			vnet.ConnectNow(addr, "late")
		}
		vs.Freeze(false)
		if vs.Choose(2) == 1 {
			m.update(cfgAt(addrB))
			vs.WaitIdle()
			m.listening(fmt.Sprintf("after accepting on %s has failed and the address has changed", addr), addrB)
			m.served("on the new address", addrB)
		}
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	add("srv-url-invalid", "S06 S05 V03", 0, 1, "every sequence of 3 configurations whose database URLs are valid (two databases) or invalid in one of 7 ways, sessions before and after each: a client is connected to the database of the latest configuration, or refused; earlier sessions go on", storm(serv(func(m *vsim) {
		vs.Freeze(true)
		m.up()
		vs.Freeze(true)
		const other = "10.0.0.8:6544"
		var dbs2 []*vnet.TCPConn
		vnet.Passive(other, func(db *vnet.TCPConn) { dbs2 = append(dbs2, db) })
		urls := []string{dbURL, "postgres://u@" + other + "/shop", "", "mysql://u@10.0.0.9:6543/shop", "://", "postgres://u@10.0.0.9:x/shop", "10.0.0.9", "postgres://u@10.0.0.9:6543/shop?a=%zz", "postgres://u@[10.0.0.9:6543/shop"}
		m.served("first", addrA)
		var history []string
		for i := 0; i < 3; i++ {
			k := vs.Choose(len(urls))
			history = append(history, urls[k])
			what := fmt.Sprintf("after the database URLs %q", history)
			m.update(&server.Config{Listen: addrA, DatabaseURL: urls[k]})
			vs.WaitIdle()
			a, b := len(m.dbs), len(dbs2)
			c := m.client(addrA, goodStartup)
			vs.WaitIdle()
			na, nb := len(m.dbs)-a, len(dbs2)-b
			switch {
			case k == 0 && (na != 1 || nb != 0), k == 1 && (na != 0 || nb != 1):
				vs.Fail("%s: a client was connected %d and %d times to the two databases", what, na, nb)
			case k == 0:
				m.relays(what, c, m.dbs[a], nil)
			case k == 1:
				m.relays(what, c, dbs2[b], nil)
			case na+nb > 0:
				vs.Fail("%s: a client was connected to a database", what)
			case !c.PeerClosed():
				vs.Fail("%s: the client was not let go", what)
			}
			m.relays("the first session "+what, m.clients[0], m.dbs[0], nil)
		}
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) })))
	add("srv-crowd", "V04", 0, 0, "17 to 1030 clients at once that are silent, stop in their startup, wait for a database that does not answer, or relay: the next one is served; then all of them hang up", crowd(serv(func(m *vsim) {
		vs.Freeze(true)
		m.up()
		kind := vs.Choose(4)
		n := []int{17, 65, 129, 257}[vs.Choose(4)]
		if kind == 0 && n == 257 {
			n = 1030
		}
		for i := 0; i < n; i++ {
			switch kind {
			case 0:
				m.client(addrA, nil)
			case 1:
				m.client(addrA, goodStartup[:9])
			case 2:
				vnet.Blackhole(dbHost)
				m.client(addrA, goodStartup)
			case 3:
				m.client(addrA, goodStartup)
			}
			if i%100 == 99 {
				vs.WaitIdle()
			}
		}
		vs.WaitIdle()
		vnet.Unblackhole(dbHost) // those that still wait for it are connected now
		vs.WaitIdle()
		m.served(fmt.Sprintf("beside %d clients that %s", n, []string{"are silent", "stop in their startup", "wait for a database", "relay"}[kind]), addrA)
		for _, c := range m.clients[:n] {
			c.HangupNow()
		}
		vs.WaitIdle()
		if kind != 2 {
			for i, c := range m.clients[:n] {
				if !c.PeerClosed() {
					vs.Fail("client %d of %d has hung up, but its connection is still open", i+1, n)
				}
			}
		}
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) })))
	add("srv-many-ends", "V04 V01", 0, 0, "1100 sessions, one after the other, that end in one of 6 ways; then a client is served", crowd(serv(func(m *vsim) {
		vs.Freeze(true)
		m.up()
		kind := vs.Choose(6)
		refuse := false
		m.onDB = func(db *vnet.TCPConn) {
			if refuse {
				db.ResetNow()
			}
		}
		for i := 0; i < 1100; i++ {
			n := len(m.dbs)
			switch kind {
			case 0:
				m.client(addrA, nil).HangupNow()
			case 1:
				m.client(addrA, startup(v3, "user", "u", "database", "bank"))
			case 2:
				m.client(addrA, startup(0x00020000, "user", "u", "database", "bank.customers"))
			case 3:
				m.client(addrA, cat(goodStartup, query(1))).HangupNow()
			case 4:
				m.client(addrA, cat(goodStartup, query(1)))
				vs.WaitIdle()
				m.dbs[n].HangupNow()
			case 5:
				refuse = true
				m.client(addrA, goodStartup)
			}
			vs.WaitIdle()
			if c := m.clients[i]; !c.PeerClosed() && (kind != 5 || c.Unread() > 0) {
				vs.Fail("session %d has ended (way %d), but its connection is still open", i+1, kind)
			}
		}
		refuse = false
		m.served(fmt.Sprintf("after 1100 sessions (way %d)", kind), addrA)
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) })))
	add("srv-ends", "V04 S03", 2, 4, "of two relaying sessions one ends (by either side): its connections are closed, the other one relays on, a third is served", serv(func(m *vsim) {
		m.up()
		vs.Freeze(true)
		m.served("first", addrA)
		m.served("second", addrA)
		vs.Freeze(false)
		if vs.Choose(2) == 0 {
			m.clients[0].HangupNow()
		} else {
			m.dbs[0].HangupNow()
		}
		vs.WaitIdle()
		if !m.clients[0].PeerClosed() || !m.dbs[0].PeerClosed() {
			vs.Fail("the connections of the ended session have not been closed")
		}
		vs.Freeze(true)
		m.relays("the other session", m.clients[1], m.dbs[1], nil)
		m.served("third", addrA)
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	add("srv-same-address", "V04 V01 S04", 0, 0, "2 or 3 clients of one server whose remote addresses are the same, differ in the port alone or in the host alone, or are IPv6: one ends in one of 3 ways, the others relay on, further ones are served, Close ends all", serv(func(m *vsim) {
		kind := vs.Choose(5)
		m.w.Remote = func(n int) *net.TCPAddr {
			switch kind {
			case 0:
				return &net.TCPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 4000}
			case 1:
				return &net.TCPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 4000 + n}
			case 2:
				return &net.TCPAddr{IP: net.IPv4(192, 0, 2, byte(n)), Port: 4000}
			case 3:
				return &net.TCPAddr{IP: net.ParseIP("2001:db8::1"), Port: 4000 + n%2, Zone: "eth0"}
			}
			return &net.TCPAddr{}
		}
		vs.Freeze(true)
		m.up()
		vs.Freeze(true)
		n := 2 + vs.Choose(2)
		m.served("first", addrA)
		if vs.Choose(2) == 1 {
			m.update(cfgAt(addrB))
			vs.WaitIdle()
		}
		cur := m.w.Listeners()[0].Addr().String()
		for i := 1; i < n; i++ {
			m.served(fmt.Sprintf("client %d", i+1), cur)
		}
		pend := m.client(cur, nil)
		vs.WaitIdle()
		k := vs.Choose(n + 1)
		if k < n {
			switch vs.Choose(3) {
			case 0:
				m.clients[k].HangupNow()
			case 1:
				m.dbs[k].HangupNow()
			default:
				m.clients[k].ResetNow()
			}
			vs.WaitIdle()
		}
		for i := 0; i < n; i++ {
			if i != k {
				m.relays(fmt.Sprintf("client %d of %d with like addresses, after client %d has ended", i+1, n, k+1), m.clients[i], m.dbs[i], nil)
			}
		}
		m.served("a further client", cur)
		if pend.PeerClosed() {
			vs.Fail("a client that says nothing was let go")
		}
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	add("srv-twins", "V04 S07 S01", 0, 0, "2 or 3 sessions of one server that say exactly the same: every message of the protocol, or 12 of them in a row; one of them ends in one of 3 ways, the others relay on and new ones are served", serv(func(m *vsim) {
		vs.Freeze(true)
		m.up()
		vs.Freeze(true)
		n := 2 + vs.Choose(2)
		p := protocol()
		first := vs.Choose(len(p) + 4)
		if first >= len(p) {
			k := (first - len(p)) * 12
			p = p[k:min(k+12, len(p))]
		} else {
			p = p[first : first+1]
		}
		toDB, toClient := goodStartup, []byte(nil)
		for i := 0; i < n; i++ {
			m.client(addrA, goodStartup)
			vs.WaitIdle()
			if len(m.dbs) != i+1 {
				vs.Fail("client %d was not connected to the database", i+1)
			}
		}
		for _, f := range p {
			if f.db {
				toClient = cat(toClient, f.b)
			} else {
				toDB = cat(toDB, f.b)
			}
			for i := 0; i < n; i++ {
				if f.db {
					m.dbs[i].Inject(f.b)
				} else {
					m.clients[i].Inject(f.b)
				}
				vs.WaitIdle()
			}
		}
		check := func(when string, i int) {
			s := diff("database", m.dbs[i].Sent(), toDB, false)
			if s == "" {
				s = diff("client", m.clients[i].Sent(), toClient, false)
			}
			if s != "" {
				vs.Fail("session %d of %d that all said %q%s: %s", i+1, n, cat(toDB, toClient), when, s)
			}
		}
		for i := 0; i < n; i++ {
			check("", i)
		}
		gone := vs.Choose(n)
		switch vs.Choose(3) {
		case 0:
			m.clients[gone].HangupNow()
		case 1:
			m.dbs[gone].HangupNow()
		default:
			m.clients[gone].Inject(frame('X', ""))
			vs.WaitIdle()
			m.clients[gone].ResetNow()
		}
		vs.WaitIdle()
		if !m.clients[gone].PeerClosed() || !m.dbs[gone].PeerClosed() {
			vs.Fail("session %d of %d that all said %q has ended, but its connections are still open", gone+1, n, cat(toDB, toClient))
		}
		for i := 0; i < n; i++ {
			if i != gone {
				check(fmt.Sprintf(", after the end of session %d", gone+1), i)
				m.relays(fmt.Sprintf("session %d of %d that all said %q, after the end of session %d", i+1, n, cat(toDB, toClient), gone+1), m.clients[i], m.dbs[i], nil)
			}
		}
		m.served("after that", addrA)
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	add("srv-half-messages", "V04 S07 S02", 0, 0, "1 or 70 clients, or their databases, stop in the middle of a message of 30 bytes to 1 MB (startup or later, at 3 places); meanwhile messages of 30 bytes to 1 MB of another session, and its startup, get through; then theirs do", crowd(serv(func(m *vsim) {
		vs.Freeze(true)
		m.up()
		vs.Freeze(true)
		n := []int{1, 70}[vs.Choose(2)]
		who := vs.Choose(3) // 0: in the startup; 1: the client later; 2: the database
		sizes := []int{30, 300, 1100, 5000, 9000, 70000, 1100000}
		if n > 1 {
			sizes = []int{300, 5000, 70000}
		}
		if who == 0 {
			sizes = sizes[:len(sizes)-1-len(sizes)/6]
		}
		like := 5
		if n > 1 {
			like = 2
		}
		size := sizes[vs.Choose(len(sizes))]
		size2 := []int{size, size + 5, 30, 70000, 1100000}[vs.Choose(like)]
		hello := func(size int) []byte {
			return startup(v3, "user", "u", "database", "shop", "options", strings.Repeat("o", min(size, 9500)))
		}
		big := func(size int) []byte { return frame('d', strings.Repeat("d", size)) }
		var f []byte
		if who == 0 {
			f = hello(size)
		} else {
			f = big(size)
		}
		cut := []int{len(f) / 2, 5, len(f) - 1}[vs.Choose(4-min(n, 3))]
		for i := 0; i < n; i++ {
			if who == 0 {
				m.client(addrA, f[:cut])
				continue
			}
			m.client(addrA, goodStartup)
			vs.WaitIdle()
			if len(m.dbs) != i+1 {
				vs.Fail("client %d was not connected to the database", i+1)
			}
			[]*vnet.TCPConn{nil, m.clients[i], m.dbs[i]}[who].Inject(f[:cut])
		}
		vs.WaitIdle()
		what := fmt.Sprintf("%d peers (%s) stopped after %d of %d bytes of a message; then messages of %d bytes of another session", n, []string{"clients in their startup", "clients", "databases"}[who], cut, len(f), size2)
		k := len(m.dbs)
		c := m.client(addrA, hello(size2))
		vs.WaitIdle()
		if len(m.dbs) != k+1 {
			vs.Fail("%s: the client was not connected to the database", what)
		}
		c.Inject(big(size2))
		m.dbs[k].Inject(big(size2))
		vs.WaitIdle()
		if s := diff(what+": to the database", m.dbs[k].Sent(), cat(hello(size2), big(size2)), false); s != "" {
			vs.Fail("%s", s)
		}
		if s := diff(what+": to the client", c.Sent(), big(size2), false); s != "" {
			vs.Fail("%s", s)
		}
		// the others go on
		for i := 0; i < n; i++ {
			switch who {
			case 0:
				before := len(m.dbs)
				m.clients[i].Inject(f[cut:])
				vs.WaitIdle()
				if len(m.dbs) != before+1 {
					vs.Fail("%s: client %d was not connected to the database when its startup was complete", what, i+1)
				}
				if s := diff(what+": startup of the others", m.dbs[before].Sent(), f, false); s != "" {
					vs.Fail("%s", s)
				}
			case 1:
				m.clients[i].Inject(f[cut:])
				vs.WaitIdle()
				if s := diff(what+": message of the others", m.dbs[i].Sent(), cat(goodStartup, f), false); s != "" {
					vs.Fail("%s", s)
				}
			default:
				m.dbs[i].Inject(f[cut:])
				vs.WaitIdle()
				if s := diff(what+": message of the others", m.clients[i].Sent(), f, false); s != "" {
					vs.Fail("%s", s)
				}
			}
		}
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) })))
	add("srv-recovers", "V04 S07", 0, 0, "1 to 100 clients, one after the other or at once, whose database cannot be reached, does not answer, hangs up or sends garbage, each 0 s to 5 min after the other; then the database is there: the next clients are served, and so was a session from before", crowd(serv(func(m *vsim) {
		vs.Freeze(true)
		m.up()
		vs.Freeze(true)
		m.served("before", addrA)
		n := []int{1, 2, 3, 5, 10, 33, 100}[vs.Choose(7)]
		together := vs.Choose(2) == 1
		pause := []time.Duration{0, 0, time.Second, 5 * time.Minute}[vs.Choose(4)]
		kind := vs.Choose(5)
		what := []string{"cannot be reached", "does not answer", "hangs up", "resets the connection", "sends garbage and hangs up"}[kind]
		switch kind {
		case 0:
			vnet.Refuse(dbHost, true)
		case 1:
			vnet.Blackhole(dbHost)
		default:
			m.onDB = func(db *vnet.TCPConn) {
				switch kind {
				case 2:
					db.HangupNow()
				case 3:
					db.ResetNow()
				default:
					db.Inject([]byte("garbage"))
					db.HangupNow()
				}
			}
		}
		for i := 0; i < n; i++ {
			c := m.client(addrA, goodStartup)
			if !together {
				vs.WaitIdle()
			}
			if kind == 1 {
				c.HangupNow()
			}
			if pause > 0 {
				vtime.Sleep(pause)
			}
		}
		vs.WaitIdle()
		vnet.Unblackhole(dbHost)
		vnet.Refuse(dbHost, false)
		vs.WaitIdle()
		m.onDB = nil
		for i := 0; i < 3; i++ {
			m.served(fmt.Sprintf("client %d after %d clients whose database %s", i+1, n, what), addrA)
		}
		m.relays(fmt.Sprintf("a session from before %d clients whose database %s", n, what), m.clients[0], m.dbs[0], nil)
		for i, c := range m.clients[1 : n+1] {
			if kind != 1 && !c.PeerClosed() {
				vs.Fail("client %d of %d, whose database %s, was not let go", i+1, n, what)
			}
		}
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) })))
	add("srv-patience", "V04 S02", 0, 0, "sessions of a server in which nothing happens for 30 s to 400 days, in 4 stages (connected, half a startup message, waiting for the database, established), then they go on; the server itself waits as long for its next client or its next address", storm(serv(func(m *vsim) {
		vs.Freeze(true)
		m.up()
		vs.Freeze(true)
		pause := []time.Duration{30 * time.Second, 7 * time.Minute, 3 * time.Hour, 25 * time.Hour, 8 * 24 * time.Hour, 400 * 24 * time.Hour}[vs.Choose(6)]
		stage := vs.Choose(5)
		what := fmt.Sprintf("%v in which %s", pause, []string{"nobody was there", "a client said nothing", "a client stopped in its startup", "a client asked for SSL only", "a session relayed nothing"}[stage])
		said, n := goodStartup, 0
		switch stage {
		case 1:
			m.client(addrA, nil)
		case 2:
			n = 9
			m.client(addrA, goodStartup[:9])
		case 3:
			m.client(addrA, sslRequest)
		case 4:
			n = len(said)
			m.served("at first", addrA)
		}
		vs.WaitIdle()
		vtime.Sleep(pause)
		switch {
		case stage == 4:
			m.relays("after "+what, m.clients[0], m.dbs[0], nil)
		case stage > 0 && !m.clients[0].PeerClosed(): // a server may lose patience with a client that does not start up
			m.clients[0].Inject(said[n:])
			vs.WaitIdle()
			if len(m.dbs) != 1 {
				vs.Fail("after %s: the client was not connected to the database", what)
			}
			m.relays("after "+what, m.clients[0], m.dbs[0], nil)
		}
		m.served("after "+what, addrA)
		m.update(cfgAt(addrB))
		vs.WaitIdle()
		m.listening("after "+what, addrB)
		m.served("after "+what, addrB)
		if stage == 4 {
			m.relays("after "+what+" and a new address", m.clients[0], m.dbs[0], nil)
		}
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) })))
	add("srv-forgets", "V04 S03", 0, 0, "after 5 sessions of different fates have ended, none of their connections is reachable any more (object graph of the server)", serv(func(m *vsim) {
		vs.Freeze(true)
		m.update(cfgAt(addrA))
		_, _ = m.dist.Get()
		vs.WaitIdle()
		ln, _ := vnet.ListenNow("tcp", addrC)
		wl := &seenListener{TCPListener: ln}
		m.async("Serve", func() error { return m.srv.Serve(wl) })
		for _, b := range [][]byte{goodStartup, nil, startup(v3, "user", "u", "database", "bank"), []byte("garbage garbage"), cat(sslRequest, goodStartup, query(1))} {
			m.client(addrC, b)
			vs.WaitIdle()
		}
		for i, c := range m.clients {
			if i%2 == 1 {
				c.HangupNow()
			} else {
				c.ResetNow()
			}
		}
		vs.WaitIdle()
		if len(wl.seen) != 5 {
			vs.Fail("%d of 5 clients were accepted", len(wl.seen))
		}
		held := reachable(m.srv)
		for i, c := range wl.seen {
			if held[unsafe.Pointer(c)] {
				vs.Fail("the server still holds on to connection %d, whose session has ended", i+1)
			}
		}
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
	hostile := hostileBytes()
	add("srv-hostile", "S07", 0, 1, fmt.Sprintf("a client of a server sends %d hostile byte strings before or after its startup, and stays or hangs up: others are served on", len(hostile)), serv(func(m *vsim) {
		vs.Freeze(true)
		b := hostile[vs.Choose(len(hostile))]
		if vs.Choose(2) == 1 {
			b = cat(goodStartup, b)
		}
		m.up()
		vs.Freeze(true)
		m.served("first", addrA)
		c := m.client(addrA, b)
		if vs.Choose(2) == 1 {
			c.HangupNow()
		}
		vs.WaitIdle()
		m.relays(fmt.Sprintf("after hostile bytes %q", b), m.clients[0], m.dbs[0], nil)
		m.served(fmt.Sprintf("after hostile bytes %q", b), addrA)
		m.close()
	}, func(m *vsim, x *vs.Exec) string { return m.ended(x) }))
}

// cfgOther moves the server to address B and to a database that answers.
func (m *vsim) cfgOther() {
	vnet.Passive("10.0.0.8:1", func(db *vnet.TCPConn) { m.dbs = append(m.dbs, db) })
	m.update(&server.Config{Listen: addrB, DatabaseURL: "postgres://o@10.0.0.8:1/other"})
	vs.WaitIdle()
}

// seenListener hands out connections whose reachability can be observed.
type seenListener struct {
	*vnet.TCPListener
	seen []*seenConn
}

type seenConn struct {
	net.Conn
}

func (l *seenListener) Accept() (net.Conn, error) {
	c, err := l.TCPListener.Accept()
	if err != nil {
		return nil, err
	}
	w := &seenConn{Conn: c}
	l.seen = append(l.seen, w)
	return w, nil
}

// reachable collects the pointers that can be reached from v through fields, elements, maps and interfaces (not
// through channels and closures), without entering the environment.
func reachable(v interface{}) map[unsafe.Pointer]bool {
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			p := v.UnsafePointer()
			if p == nil || seen[p] {
				return
			}
			seen[p] = true
			if strings.Contains(v.Type().String(), "Listener") || strings.Contains(v.Type().String(), "TCPConn") {
				return
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice, reflect.Array:
			if k := v.Type().Elem().Kind(); k == reflect.Uint8 {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				walk(it.Key())
				walk(it.Value())
			}
		}
	}
	walk(reflect.ValueOf(v))
	return seen
}
