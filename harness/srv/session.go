package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net/url"
	"runtime"
	"strings"
	"time"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/mc/h"
	"verif.local/mc/vnet"
	"verif.local/mc/vs"
	"verif.local/mc/vtime"
)

const (
	dbHost = "10.0.0.9:6543"
	dbURL  = "postgres://owner@10.0.0.9:6543/shop"
)

// ---- bytes

// frame builds a regular protocol frame.
func frame(t byte, body string) []byte {
	b := append([]byte{t}, 0, 0, 0, 0)
	binary.BigEndian.PutUint32(b[1:], uint32(4+len(body)))
	return append(b, body...)
}

// startup builds a startup frame with the given version and name/value pairs.
func startup(version uint32, kv ...string) []byte {
	b := make([]byte, 8)
	for _, s := range kv {
		b = append(append(b, s...), 0)
	}
	b = append(b, 0)
	binary.BigEndian.PutUint32(b, uint32(len(b)))
	binary.BigEndian.PutUint32(b[4:], version)
	return b
}

const v3 = 196608

var (
	goodStartup = startup(v3, "user", "u", "database", "shop")
	sslRequest  = []byte{0, 0, 0, 8, 4, 210, 22, 47}
)

func cat(b ...[]byte) []byte { return bytes.Join(b, nil) }

// query and row are the i-th messages of the client and the database.
func query(i int) []byte { return frame('Q', fmt.Sprintf("q%d\x00", i)) }
func row(i int) []byte   { return frame('Z', string([]byte{'I' + byte(i%3)})) }

func msgs(f func(int) []byte, n int) (r [][]byte) {
	for i := 1; i <= n; i++ {
		r = append(r, f(i))
	}
	return
}

// note rows: every other database message is longer
func dbMsg(i int) []byte {
	if i%2 == 0 {
		return frame('D', "\x00\x01\x00\x00\x00\x03v"+fmt.Sprintf("%02d", i))
	}
	return row(i)
}

// mixed are n messages of all types (but Terminate), some of them big.
func mixed(n int) [][]byte {
	var r [][]byte
	samples := sampleFrames()
	for i := 1; len(r) < n; i++ {
		switch f := samples[i%len(samples)]; {
		case i%3 == 0:
			r = append(r, dbMsg(i))
		case i%50 == 0:
			r = append(r, frame('d', strings.Repeat("big", 3000+i)))
		case f[0] != 'X':
			r = append(r, f)
		}
	}
	return r
}

// ---- configuration stub

// store is a ConfigStore whose answers are scripted: the k-th Get returns the k-th configuration (the last one ever after).
type store struct {
	cfgs   []*server.Config
	gets   int
	pend   bool // Get does not return until released
	gate   chan struct{}
	failed error
}

func (c *store) Get() (*server.Config, error) {
	if c.pend {
		vs.Recv((<-chan struct{})(c.gate), "configuration pending")
	}
	if c.failed != nil {
		return nil, c.failed
	}
	k := min(c.gets, len(c.cfgs)-1)
	c.gets++
	return c.cfgs[k], nil
}

func (c *store) Subscribe(ch chan<- *server.Config, checks ...server.ConfigChangedCheckFn) error {
	if c.failed != nil {
		return c.failed
	}
	cfg := c.cfgs[0]
	vs.GoEnv("subscription", func() {
		if c.pend {
			vs.Recv((<-chan struct{})(c.gate), "configuration pending")
		}
		vs.SendTo(ch, "deliver")(cfg)
	})
	return nil
}

func (c *store) Unsubscribe(ch chan<- *server.Config) {}

func oneConfig(url string) *store {
	return &store{cfgs: []*server.Config{{Listen: "127.0.0.1:1", DatabaseURL: url}}, gate: make(chan struct{})}
}

// ---- one session and its environment

type ssim struct {
	s    *server.Session
	cfg  *store
	cl   *vnet.TCPConn   // the client's end
	prog *vnet.TCPConn   // the proxy's end of the client connection
	dbs  []*vnet.TCPConn // the database's ends
	// preloaded by the database when a connection arrives
	dbHello [][]byte
	onDB    func(db *vnet.TCPConn)

	started, returned bool
	err               error
	closes, closed    int // Close calls begun and returned
}

func newSsim() *ssim {
	m := &ssim{cfg: oneConfig(dbURL)}
	m.prog, m.cl = vnet.NewPair("client")
	m.prog.Accepted = true
	m.listenDB(dbHost)
	return m
}

func (m *ssim) listenDB(addr string) {
	vnet.Passive(addr, func(db *vnet.TCPConn) {
		m.dbs = append(m.dbs, db)
		for _, b := range m.dbHello {
			db.Inject(b)
		}
		if m.onDB != nil {
			m.onDB(db)
		}
	})
}

// start creates the session and runs it in a thread of its own.
func (m *ssim) start() {
	m.s = server.NewSession(m.prog, m.cfg)
	m.startThread()
}

func (m *ssim) startThread() {
	m.started = true
	vs.GoEnv("start", func() {
		vs.SetEnv(false)
		m.err = m.s.Start()
		vs.SetEnv(true)
		m.returned = true
	})
}

func (m *ssim) close() {
	m.closes++
	_ = m.s.Close()
	m.closed++
}

// closeAt calls Close at the n-th step.
func (m *ssim) closeAt(n int, label string) { vs.GoAt(n, label, m.close) }

func (m *ssim) db() *vnet.TCPConn {
	if len(m.dbs) == 0 {
		return nil
	}
	return m.dbs[0]
}

func (m *ssim) dbGot() []byte {
	if d := m.db(); d != nil {
		return d.Sent()
	}
	return nil
}

func brief(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%d bytes %q…%q", len(b), b[:25], b[len(b)-25:])
	}
	return fmt.Sprintf("%q", b)
}

// diff compares a stream with what it must be (or, if only a prefix is required, begin).
func diff(who string, got, want []byte, prefix bool) string {
	if bytes.Equal(got, want) || prefix && bytes.HasPrefix(want, got) {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%s: got %s, expected %s (they differ from byte %d on)", who, brief(got), brief(want), i)
}

// gone checks that nothing of the session is left.
func (m *ssim) gone(x *vs.Exec, allow ...string) string {
	if m.started && !m.returned {
		return "the session has ended but Start has not returned" + blockedAt(x)
	}
	if m.closed != m.closes {
		return "Close has not returned" + blockedAt(x)
	}
	if !m.prog.IsClosed() {
		return "the client connection has not been closed"
	}
	for _, d := range m.dbs {
		if !d.PeerClosed() {
			return "the database connection has not been closed"
		}
	}
	for _, u := range x.Unfinished() {
		ok := u.Env
		for _, a := range allow {
			ok = ok || strings.Contains(u.Op, a)
		}
		if !ok {
			return "still running after the end of the session: " + u.Name + " at " + u.Op
		}
	}
	return ""
}

func blockedAt(x *vs.Exec) string {
	var r []string
	for _, u := range x.Unfinished() {
		if !u.Env {
			r = append(r, u.Name+" at "+u.Op)
		}
	}
	if r == nil {
		return ""
	}
	return " (blocked: " + strings.Join(r, ", ") + ")"
}

// sess makes a scenario.
func sess(body func(m *ssim), end func(m *ssim, x *vs.Exec) string) func() *vs.Scenario {
	return func() *vs.Scenario {
		var m *ssim
		return &vs.Scenario{
			Body: func() {
				m = newSsim()
				vs.SetEnv(true)
				body(m)
			},
			End:      func(x *vs.Exec) string { return end(m, x) },
			MaxSteps: 20000,
		}
	}
}

// onStartup runs f when the whole startup message has arrived.
func onStartup(db *vnet.TCPConn, f func()) {
	done := false
	db.OnData(func() {
		if !done && bytes.HasPrefix(db.Sent(), goodStartup) {
			done = true
			f()
		}
	})
}

// readFrame reads one frame of the environment (startup: without a type byte); nil at the end.
func readFrame(c io.Reader, startup bool) []byte {
	n := 5
	if startup {
		n = 4
	}
	hd := make([]byte, n)
	if _, err := io.ReadFull(c, hd); err != nil {
		return nil
	}
	l := int(binary.BigEndian.Uint32(hd[n-4:])) - 4
	b := make([]byte, l)
	if _, err := io.ReadFull(c, b); err != nil {
		return nil
	}
	return append(hd, b...)
}

// sink keeps reading and forgets.
func sink(c io.Reader) {
	b := make([]byte, 4096)
	for {
		if _, err := c.Read(b); err != nil {
			return
		}
	}
}

func cname(b bool, t, f string) string {
	if b {
		return t
	}
	return f
}

func init() {
	add := func(name, props string, q, t int, what string, mk func() *vs.Scenario) {
		p := strings.Fields(props)
		if name != "sess-protocol" && name != "sess-long" { // sess-types has all types of messages for R01
			p = append(p, "R01")
		}
		h.Add(&h.Sc{Name: name, Props: p, What: what, Make: mk, Mode: vs.Delay, Quick: q, Thorough: t})
	}

	// ---- relaying

	relayed := func(m *ssim, c, d [][]byte) {
		if s := diff("database", m.dbGot(), cat(goodStartup, cat(c...)), false); s != "" {
			vs.Fail("%s", s)
		}
		if s := diff("client", m.cl.Sent(), cat(d...), false); s != "" {
			vs.Fail("%s", s)
		}
	}
	for _, k := range [][3]int{{2, 2, 3}, {0, 4, 4}, {4, 0, 4}} {
		c, d := msgs(query, k[0]), msgs(dbMsg, k[1])
		add(fmt.Sprintf("sess-relay-%d-%d", k[0], k[1]), "S01 S02 S04", k[2], 6, fmt.Sprintf("startup, %d messages from the client, %d from the database, then Close", k[0], k[1]),
			sess(func(m *ssim) {
				m.cl.Inject(cat(goodStartup, cat(c...)))
				m.dbHello = d
				m.start()
				vs.WaitIdle()
				relayed(m, c, d)
				m.close()
			}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))
	}
	// request and response, each side waiting for the other
	add("sess-pingpong", "S01 S02", 3, 6, "2 requests, each answered before the next is sent", sess(func(m *ssim) {
		m.onDB = func(db *vnet.TCPConn) {
			vs.GoEnv("database", func() {
				readFrame(db, true)
				for i := 1; ; i++ {
					if f := readFrame(db, false); f == nil {
						return
					} else if !bytes.Equal(f, query(i)) {
						vs.Fail("database: got %q as message %d", f, i)
					}
					db.Inject(dbMsg(i))
				}
			})
		}
		m.cl.Inject(goodStartup)
		m.start()
		for i := 1; i <= 2; i++ {
			m.cl.Inject(query(i))
			if f := readFrame(m.cl, false); !bytes.Equal(f, dbMsg(i)) {
				vs.Fail("client: got %q as answer %d", f, i)
			}
		}
		m.cl.HangupNow()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))
	// messages arriving in arbitrary pieces at arbitrary times
	add("sess-drip", "S01 S02", 2, 4, "messages of both sides arrive in pieces (every division in two), at every time", sess(func(m *ssim) {
		d, c := cat(dbMsg(1), dbMsg(2)), cat(query(1), query(2))
		i, j := vs.Choose(len(d)), vs.Choose(3)*4
		m.cl.Inject(cat(goodStartup, c[:j]))
		m.dbHello = [][]byte{d[:i]}
		m.start()
		vs.GoEnv("db drip", func() {
			vs.WaitIdle()
			m.db().Inject(d[i:])
		})
		vs.GoEnv("client drip", func() {
			vs.WaitIdle()
			m.cl.Inject(c[j:])
		})
		vs.WaitQuiet()
		relayed(m, [][]byte{c}, [][]byte{d})
	}, func(m *ssim, x *vs.Exec) string { return "" }))

	// conversations: whatever one side has said before, the next message of either side is relayed
	add("sess-protocol", "S01 S02", 0, 0, fmt.Sprintf("every sequence of 3 messages out of %d (all types of clients and databases, in every state of the protocol), each one delivered before the next", len(protocol())), sess(func(m *ssim) {
		vs.Freeze(true)
		p := protocol()
		m.cl.Inject(goodStartup)
		m.start()
		vs.WaitIdle()
		toDB, toClient := goodStartup, []byte(nil)
		what := ""
		for i := 0; i < 3; i++ {
			if k := vs.Choose(len(p)); p[k].db {
				m.db().Inject(p[k].b)
				toClient = cat(toClient, p[k].b)
				what += fmt.Sprintf(" database: %q", p[k].b)
			} else {
				m.cl.Inject(p[k].b)
				toDB = cat(toDB, p[k].b)
				what += fmt.Sprintf(" client: %q", p[k].b)
			}
			vs.WaitIdle()
			s := diff("database", m.dbGot(), toDB, false)
			if s == "" {
				s = diff("client", m.cl.Sent(), toClient, false)
			}
			if s != "" {
				vs.Fail("%s:%s", s, what)
			}
		}
		m.close()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))

	// every type byte, with different bodies, both ways
	add("sess-types", "S01", 0, 0, "every type byte, in both directions, with 6 bodies (empty to 70000 bytes), between two ordinary messages", sess(func(m *ssim) {
		vs.Freeze(true)
		t := byte(vs.Choose(256))
		d := vs.Choose(2)
		body := []string{"", "\x00", "\x00\x00\x00\x05rest", "S\x00M\x00\x00", "\xff\xff\xff\xff", strings.Repeat("0123456", 10000)}[vs.Choose(6)]
		f := frame(t, body)
		m.cl.Inject(goodStartup)
		m.start()
		vs.WaitIdle()
		c, b := [][]byte{query(1), query(2)}, [][]byte{dbMsg(1), dbMsg(2)}
		if d == 0 {
			c = [][]byte{query(1), f, query(2)}
		} else {
			b = [][]byte{dbMsg(1), f, dbMsg(2)}
		}
		m.cl.Inject(cat(c...))
		m.db().Inject(cat(b...))
		vs.WaitIdle()
		relayed(m, c, b)
		m.close()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))

	// an endpoint that does not read must hold up only its own traffic
	for _, slow := range []string{"client", "db"} {
		slow := slow
		for _, after := range []string{"resume", "hangup-self", "hangup-other", "close"} {
			after := after
			props := map[string]string{"resume": "S02", "hangup-self": "S03", "hangup-other": "S03", "close": "S04"}[after]
			add("sess-full-"+slow+"-"+after, props, 1, 2, "the "+slow+" stops reading and 140 messages pile up toward it; 2 messages must get through in the other direction; then: "+after,
				sess(func(m *ssim) {
					big, small := mixed(140), msgs(query, 2)
					var far, near *vnet.TCPConn // far: the one that does not read
					vs.Freeze(true)
					if slow == "client" {
						m.cl.SetWindow(1, 0)
						m.dbHello = [][]byte{cat(big...)}
						m.cl.Inject(goodStartup)
						m.start()
						vs.WaitIdle()
						far, near = m.cl, m.db()
					} else {
						small = msgs(dbMsg, 2)
						m.onDB = func(db *vnet.TCPConn) { db.SetWindow(2, 0) }
						m.cl.Inject(cat(goodStartup, cat(big...)))
						m.start()
						vs.WaitIdle()
						if m.db() == nil {
							vs.Fail("the database was not contacted")
						}
						far, near = m.db(), m.cl
					}
					vs.Freeze(false)
					prefix := func(c *vnet.TCPConn) []byte {
						if c == m.cl {
							return nil
						}
						return goodStartup
					}
					far.Inject(cat(small...))
					vs.WaitIdle()
					if s := diff("traffic from the side that does not read", near.Sent(), cat(prefix(near), cat(small...)), false); s != "" {
						vs.Fail("%s", s)
					}
					switch after {
					case "resume":
						vs.GoEnv("reader", func() { sink(far) })
						vs.WaitIdle()
						if s := diff("traffic to the side that was not reading", far.Sent(), cat(prefix(far), cat(big...)), false); s != "" {
							vs.Fail("%s", s)
						}
						near.HangupNow()
					case "hangup-self":
						far.HangupNow()
					case "hangup-other":
						near.HangupNow()
						vs.GoEnv("reader", func() { sink(far) })
						vs.WaitIdle()
						if s := diff("traffic sent before the hang-up", far.Sent(), cat(prefix(far), cat(big...)), false); s != "" {
							vs.Fail("%s", s)
						}
					case "close":
						vs.GoEnv("close2", m.close)
						m.close()
					}
				}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))
		}
	}

	// more messages than small counters hold
	add("sess-long", "S02 S01", 0, 0, "70000 messages in either direction, one message of the other direction after every 1000, with all messages small or every hundredth big; then a hang-up", func() *vs.Scenario {
		s := sess(func(m *ssim) {
			vs.Freeze(true)
			m.cl.Inject(goodStartup)
			m.start()
			vs.WaitIdle()
			far, near, fromFar, fromNear := m.cl, m.db(), query, dbMsg
			toFar, toNear := m.cl.Sent(), m.dbGot()
			if vs.Choose(2) == 0 {
				far, near, fromFar, fromNear = near, far, dbMsg, query
				toFar, toNear = toNear, toFar
			}
			big := vs.Choose(2) == 1
			for i := 1; i <= 70; i++ {
				var b []byte
				for j := 1; j <= 1000; j++ {
					f := fromNear(i*1000 + j)
					if big && j%100 == 0 {
						f = frame('d', strings.Repeat("big", 700+j))
					}
					b = append(b, f...)
				}
				near.Inject(b)
				far.Inject(fromFar(i))
				toFar, toNear = append(toFar, b...), append(toNear, fromFar(i)...)
				vs.WaitIdle()
				if !bytes.Equal(far.Sent(), toFar) || !bytes.Equal(near.Sent(), toNear) {
					vs.Fail("by message %d: one way: %s; other way: %s", i*1000, diff("got", far.Sent(), toFar, false), diff("got", near.Sent(), toNear, false))
				}
			}
			near.HangupNow()
		}, func(m *ssim, x *vs.Exec) string { return m.gone(x) })()
		s.MaxSteps = 5000000
		return s
	})

	// many more messages than any queue holds, of all types
	add("sess-pile", "S02 S01", 0, 0, "300 to 5000 messages of all types and sizes, or 300 of one type, pile up toward a side that does not read, then it reads: all of them arrive, in order", storm(sess(func(m *ssim) {
		vs.Freeze(true)
		var pile [][]byte
		var samples [][]byte
		for _, f := range sampleFrames() {
			if f[0] != 'X' {
				samples = append(samples, f)
			}
		}
		switch k := vs.Choose(3 + len(samples)); k {
		case 0, 1, 2:
			pile = mixed([]int{300, 1500, 5000}[k])
		default:
			for i := 0; i < 300; i++ {
				pile = append(pile, samples[k-3])
			}
		}
		var far, near *vnet.TCPConn
		if vs.Choose(2) == 0 {
			m.cl.SetWindow(1, 0)
			m.cl.Inject(goodStartup)
			m.start()
			vs.WaitIdle()
			far, near = m.cl, m.db()
		} else {
			m.onDB = func(db *vnet.TCPConn) { db.SetWindow(2, 0) }
			m.cl.Inject(goodStartup)
			m.start()
			vs.WaitIdle()
			far, near = m.db(), m.cl
		}
		n := len(far.Sent())
		for i := 0; i < len(pile); i += 7 {
			near.Inject(cat(pile[i:min(i+7, len(pile))]...))
		}
		vs.WaitIdle()
		hangs := vs.Choose(2) == 1
		if hangs {
			near.HangupNow()
		}
		vs.GoEnv("reader", func() { sink(far) })
		vs.WaitIdle()
		if s := diff(fmt.Sprintf("%d messages to the side that was not reading", len(pile)), far.Sent()[n:], cat(pile...), false); s != "" {
			vs.Fail("%s", s)
		}
		m.close()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) })))

	// traffic in one direction does not hold up the other, whatever it is
	add("sess-cross", "S02 S01", 0, 1, "0, 70, 100 or 300 messages pile up toward a side that does not read; meanwhile that side sends every sample message 3 times, between queries: each message arrives at once", storm(sess(func(m *ssim) {
		vs.Freeze(true)
		n := []int{0, 70, 100, 300}[vs.Choose(4)]
		toDB := vs.Choose(2) == 1
		m.onDB = func(db *vnet.TCPConn) {
			if toDB {
				db.SetWindow(2, 0)
			}
		}
		m.cl.Inject(goodStartup)
		if !toDB {
			m.cl.SetWindow(1, 0)
		}
		m.start()
		vs.WaitIdle()
		a, b := m.cl, m.db() // a does not read
		if toDB {
			a, b = b, a
		}
		skip := len(b.Sent())
		pile := mixed(n)
		b.Inject(cat(pile...))
		vs.WaitIdle()
		var sent []byte
		for k := 0; k < 3; k++ {
			for i, f := range sampleFrames() {
				if f[0] == 'X' {
					continue
				}
				for _, f := range [][]byte{f, query(i)} {
					a.Inject(f)
					sent = append(sent, f...)
					vs.WaitIdle()
					if s := diff(fmt.Sprintf("with %d messages piled up in the other direction", n), b.Sent()[skip:], sent, false); s != "" {
						vs.Fail("%s", s)
					}
				}
			}
		}
		m.close()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) })))

	// a session has all the time in the world
	add("sess-patience", "S02 S03", 0, 0, "an established session in which for 10 s to 400 days one side is silent, stops in the middle of a message or does not read (with 0, 1 or 200 messages waiting): afterwards everything arrives", storm(sess(func(m *ssim) {
		vs.Freeze(true)
		pause := []time.Duration{10 * time.Second, 45 * time.Second, 6 * time.Minute, 65 * time.Minute, 25 * time.Hour, 8 * 24 * time.Hour, 400 * 24 * time.Hour}[vs.Choose(7)]
		m.onDB = func(db *vnet.TCPConn) { db.Inject(dbMsg(1)) }
		m.cl.Inject(cat(goodStartup, query(1)))
		m.start()
		vs.WaitIdle()
		a, b := m.cl, m.db() // b sends to a
		if vs.Choose(2) == 1 {
			a, b = b, a
		}
		toA, toB := a.Sent(), b.Sent()
		what := ""
		switch k := vs.Choose(5); k {
		case 0:
			what = "silence"
			vtime.Sleep(pause)
		case 1:
			what = "a message in two pieces"
			f := frame('Q', strings.Repeat("piece ", 2000)+"\x00")
			n := []int{1, 3, 5, 700}[vs.Choose(4)]
			b.Inject(f[:n])
			vtime.Sleep(pause)
			b.Inject(f[n:])
			toA = cat(toA, f)
		default:
			n := []int{0, 1, 200}[k-2]
			what = fmt.Sprintf("not reading %d messages", n)
			a.SetWindow(1, 0)
			pile := mixed(n)
			b.Inject(cat(pile...))
			toA = cat(toA, cat(pile...))
			vtime.Sleep(pause)
			// the other direction goes on
			a.Inject(query(8))
			toB = cat(toB, query(8))
			vs.WaitIdle()
			if s := diff("the other direction, after "+what+" for "+pause.String(), b.Sent(), toB, false); s != "" {
				vs.Fail("%s", s)
			}
			vs.GoEnv("reader", func() { sink(a) })
		}
		vs.WaitIdle()
		a.Inject(query(9))
		b.Inject(query(9))
		toA, toB = cat(toA, query(9)), cat(toB, query(9))
		vs.WaitIdle()
		for i, c := range []*vnet.TCPConn{a, b} {
			if s := diff(fmt.Sprintf("side %d, after %s for %v", i, what, pause), c.Sent(), [][]byte{toA, toB}[i], false); s != "" {
				vs.Fail("%s", s)
			}
		}
		b.HangupNow()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) })))

	// ---- hang-ups

	hang := map[string]func(c *vnet.TCPConn){
		"close": func(c *vnet.TCPConn) { c.HangupNow() },
		"half":  func(c *vnet.TCPConn) { c.HalfCloseNow() },
		"reset": func(c *vnet.TCPConn) { c.ResetNow() },
	}
	add("sess-late-reader", "S03 S02", 0, 0, "one side sends 1 to 200 messages and hangs up (close and half-close) while the other one does not read yet for up to 10 minutes, or reads one piece of data every 0.3 to 20 s: everything arrives, then the session ends", storm(sess(func(m *ssim) {
		vs.Freeze(true)
		m.onDB = func(db *vnet.TCPConn) { db.Inject(dbMsg(1)) }
		m.cl.Inject(cat(goodStartup, query(1)))
		m.start()
		vs.WaitIdle()
		a, b := m.cl, m.db() // b sends to a
		if vs.Choose(2) == 1 {
			a, b = b, a
		}
		want := a.Sent()
		for a.Unread() > 0 {
			a.Read(make([]byte, 4096))
		}
		n := []int{1, 3, 30, 200}[vs.Choose(4)]
		pile := cat(mixed(n)...)
		want = cat(want, pile)
		a.SetWindow(1, 0)
		b.Inject(pile)
		how := []string{"close", "half"}[vs.Choose(2)]
		hang[how](b)
		wait := []time.Duration{0, 7 * time.Second, 10 * time.Minute}[vs.Choose(3)]
		each := []time.Duration{0, 300 * time.Millisecond, 3 * time.Second, 20 * time.Second}[vs.Choose(4)]
		ended := false
		vs.GoEnv("slow reader", func() {
			vtime.Sleep(wait)
			buf := make([]byte, 70000)
			for {
				if _, err := a.Read(buf); err != nil {
					ended = true
					return
				}
				vtime.Sleep(each)
			}
		})
		vtime.Sleep(wait + time.Duration(2*n+10)*each)
		vs.WaitIdle()
		if s := diff(fmt.Sprintf("%d messages before the hang-up (%s), receiver waits %v and pauses %v after every read", n, how, wait, each), a.Sent(), want, false); s != "" {
			vs.Fail("%s", s)
		}
		if !ended {
			vs.Fail("%d messages before the hang-up (%s), receiver waits %v and pauses %v after every read: its connection is still open", n, how, wait, each)
		}
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) })))
	for _, who := range []string{"client", "db", "both"} {
		for _, how := range []string{"close", "half"} {
			for _, partial := range []bool{false, true} {
				who, how, partial := who, how, partial
				if partial && how != "close" {
					continue
				}
				k := 2
				c, d := msgs(query, k), msgs(dbMsg, k)
				q := 3
				if who == "both" {
					q = 2
				}
				add("sess-hangup-"+who+"-"+how+cname(partial, "-partial", ""), "S03 S02", q, 5,
					fmt.Sprintf("%d messages each way; %s hangs up (%s) right behind its last message%s", k, who, how, cname(partial, ", in the middle of a frame", "")),
					sess(func(m *ssim) {
						cb, db := cat(c...), cat(d...)
						if partial {
							cb, db = append(cb, query(3)[:3+3*vs.Choose(2)]...), append(db, dbMsg(4)[:3+3*vs.Choose(2)]...)
						}
						m.cl.Inject(cat(goodStartup, cb))
						m.onDB = func(e *vnet.TCPConn) {
							onStartup(e, func() {
								e.Inject(db)
								if who != "client" {
									hang[how](e)
								}
							})
						}
						if who != "db" {
							hang[how](m.cl)
						}
						m.start()
					}, func(m *ssim, x *vs.Exec) string {
						if s := m.gone(x); s != "" {
							return s
						}
						if m.db() == nil {
							return "the database was not contacted"
						}
						// what was sent before hanging up arrives unless the other side has hung up as well
						s := diff("database", m.dbGot(), cat(goodStartup, cat(c...)), who != "client")
						if s == "" {
							s = diff("client", m.cl.Sent(), cat(d...), who != "db")
						}
						return s
					}))
			}
		}
	}
	for _, who := range []string{"client", "db"} {
		for _, how := range []string{"close", "reset"} {
			who, how := who, how
			add("sess-hangup-at-"+who+"-"+how, "S03", 1, 3, "2 messages each way; the "+who+" goes away ("+how+") at every step",
				sess(func(m *ssim) {
					c, d := msgs(query, 2), msgs(dbMsg, 2)
					n := vs.Choose(70)
					m.cl.Inject(cat(goodStartup, cat(c...)))
					m.dbHello = d
					m.start()
					vs.GoAt(n, "hang up", func() {
						if who == "client" {
							hang[how](m.cl)
						} else if bytes.HasPrefix(m.dbGot(), goodStartup) {
							hang[how](m.db())
						} else if m.db() != nil {
							onStartup(m.db(), func() { hang[how](m.db()) })
						} else {
							m.onDB = func(db *vnet.TCPConn) { onStartup(db, func() { hang[how](db) }) }
						}
					})
				}, func(m *ssim, x *vs.Exec) string {
					if s := m.gone(x); s != "" {
						return s
					}
					c, d := cat(msgs(query, 2)...), cat(msgs(dbMsg, 2)...)
					if s := diff("database", m.dbGot(), cat(goodStartup, c), who == "db" || how == "reset"); s != "" {
						return s
					}
					return diff("client", m.cl.Sent(), d, who == "client" || how == "reset")
				}))
		}
	}
	add("sess-early-ends", "S03 S07", 2, 4, "the client hangs up at every byte of its startup (close and reset), the database refuses the connection or hangs up at once", sess(func(m *ssim) {
		k := vs.Choose(len(goodStartup) + 3)
		reset := vs.Choose(2) == 1
		switch {
		case k < len(goodStartup):
			m.cl.Inject(goodStartup[:k])
			if reset {
				m.cl.ResetNow()
			} else {
				m.cl.HangupNow()
			}
		case k == len(goodStartup):
			m.cl.Inject(goodStartup)
			m.cfg = oneConfig("postgres://owner@10.0.0.10:6543/shop") // nobody listens there
		case k == len(goodStartup)+1:
			m.cl.Inject(cat(goodStartup, query(1)))
			m.onDB = func(db *vnet.TCPConn) {
				if reset {
					db.ResetNow()
				} else {
					db.HangupNow()
				}
			}
		default:
			m.cl.Inject(goodStartup)
			m.cfg.failed = server.ErrConfigDistributorClosed
		}
		m.start()
	}, func(m *ssim, x *vs.Exec) string {
		if s := m.gone(x); s != "" {
			return s
		}
		if m.db() == nil && m.err == nil {
			return "Start returned no error although the session was never established"
		}
		return diff("database", m.dbGot(), cat(goodStartup, query(1)), true)
	}))

	// ---- Close

	type phase struct {
		name, what string
		steps      int
		prep       func(m *ssim)
		allow      []string
	}
	for _, p := range []phase{
		{"startup", "while it waits for the client's startup message", 12, func(m *ssim) { m.cl.Inject(goodStartup[:vs.Choose(2)*7]) }, nil},
		{"config", "while it waits for the configuration", 20, func(m *ssim) {
			m.cl.Inject(goodStartup)
			m.cfg.pend = true
		}, []string{"configuration pending"}},
		{"dial", "while it connects to the database", 25, func(m *ssim) {
			m.cl.Inject(goodStartup)
			vnet.Blackhole(dbHost)
		}, nil},
		{"relay", "while it relays", 80, func(m *ssim) {
			m.cl.Inject(cat(goodStartup, query(1)))
			m.dbHello = msgs(dbMsg, 1)
		}, nil},
		{"relay-more", "while it relays 2 messages each way", 100, func(m *ssim) {
			m.cl.Inject(cat(goodStartup, query(1), query(2)))
			m.dbHello = msgs(dbMsg, 2)
		}, nil},
		{"hello", "while the startup message is being sent", 30, func(m *ssim) {
			m.cl.Inject(cat(sslRequest, goodStartup))
		}, nil},
		{"hello-full", "while the startup message is being sent to a database that does not read it", 40, func(m *ssim) {
			m.onDB = func(db *vnet.TCPConn) { db.SetWindow(-1, 0) }
			m.cl.Inject(goodStartup)
		}, nil},
		{"refusal", "while it refuses a client that does not read", 30, func(m *ssim) {
			m.cl.SetWindow(-1, 0)
			m.cl.Inject(startup(v3, "user", "u", "database", "bank"))
		}, nil},
		{"ssl-full", "while it answers the SSL request of a client that does not read", 30, func(m *ssim) {
			m.cl.SetWindow(-1, 0)
			m.cl.Inject(cat(sslRequest, goodStartup))
		}, nil},
	} {
		p := p
		for _, twice := range []bool{false, true} {
			twice := twice
			q := 2
			if strings.HasPrefix(p.name, "relay") && (twice || p.name != "relay") {
				q = 1
			}
			add("sess-close-"+p.name+cname(twice, "-twice", ""), "S04", q, 4, "Close at every step "+p.what+cname(twice, ", from two callers", ""), sess(func(m *ssim) {
				n := vs.Choose(p.steps)
				p.prep(m)
				m.start()
				m.closeAt(n, "close")
				if twice {
					m.closeAt(n+vs.Choose(3), "close2")
				}
				vs.WaitIdle()
				if m.closes == 0 || m.closed != m.closes || !m.returned {
					vs.Fail("Close has been called, 2 s later %d of %d Close calls have returned, Start: %v%s", m.closed, m.closes, m.returned, blockedAt(vs.X))
				}
			}, func(m *ssim, x *vs.Exec) string {
				if s := m.gone(x, p.allow...); s != "" {
					return s
				}
				if s := diff("database", m.dbGot(), cat(goodStartup, query(1), query(2)), true); s != "" {
					return s
				}
				got := bytes.TrimPrefix(m.cl.Sent(), []byte("N"))
				return diff("client", got, cat(msgs(dbMsg, 2)...), true)
			}))
		}
	}
	// closing a connection may report an error (the descriptor is gone all the same)
	add("sess-close-errors", "S04 S03", 1, 2, "closing the client's, the database's or both connections reports an error: Close at every step, or a hang-up of either side", sess(func(m *ssim) {
		which := vs.Choose(3)
		boom := errors.New("boom")
		vnet.W().ConnCloseErr = func(c *vnet.TCPConn) error {
			if which == 0 && c != m.prog || which == 1 && c == m.prog {
				return nil
			}
			return boom
		}
		m.cl.Inject(cat(goodStartup, query(1)))
		m.dbHello = msgs(dbMsg, 1)
		switch how := vs.Choose(3); how {
		case 0:
			n := vs.Choose(50)
			m.start()
			m.closeAt(n, "close")
		default:
			vs.Freeze(true)
			m.start()
			vs.WaitIdle()
			vs.Freeze(false)
			if how == 1 {
				m.cl.HangupNow()
			} else {
				m.db().HangupNow()
			}
		}
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))
	// what Close returns, of an established session
	add("sess-close-result", "S04", 2, 4, "closing the client's, the database's, both connections or none reports an error while a session relays: what Close, called once or from two callers, returns", sess(func(m *ssim) {
		which, two := vs.Choose(4), vs.Choose(2)
		boom := errors.New("boom")
		vnet.W().ConnCloseErr = func(c *vnet.TCPConn) error {
			if which == 3 || which == 0 && c != m.prog || which == 1 && c == m.prog {
				return nil
			}
			return boom
		}
		m.cl.Inject(cat(goodStartup, query(1)))
		m.dbHello = msgs(dbMsg, 1)
		vs.Freeze(true)
		m.start()
		vs.WaitIdle()
		vs.Freeze(false)
		var results vs.Ghost[[]error]
		for i := 0; i <= two; i++ {
			vs.GoEnv(fmt.Sprint("closer", i), func() {
				err := m.s.Close()
				results.Update(func(r []error) []error { return append(r[:len(r):len(r)], err) })
			})
		}
		vs.WaitIdle()
		res := results.Get()
		failed := 0
		for _, err := range res {
			if err != nil {
				failed++
			}
		}
		if len(res) != two+1 {
			vs.Fail("%d of %d Close calls have returned", len(res), two+1)
		}
		if which == 3 && failed > 0 {
			vs.Fail("Close returned %v, nothing has failed", res)
		}
		if which != 3 && failed == 0 {
			vs.Fail("Close returned no error although closing %s failed", []string{"the client connection", "the database connection", "both connections"}[which])
		}
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))
	add("sess-close-first", "S04", 4, 8, "Close before and during Start, then Start", sess(func(m *ssim) {
		m.cl.Inject(goodStartup)
		m.s = server.NewSession(m.prog, m.cfg)
		switch vs.Choose(3) {
		case 0:
			m.close()
			m.startThread()
		case 1:
			vs.GoEnv("close", m.close)
			m.startThread()
		default:
			m.startThread()
			vs.GoEnv("close", m.close)
			m.close()
		}
	}, func(m *ssim, x *vs.Exec) string {
		if s := m.gone(x); s != "" {
			return s
		}
		if m.err == nil {
			return "Start of a closed session returned no error"
		}
		return diff("database", m.dbGot(), goodStartup, true)
	}))
	// the configuration arrives after the session was closed
	add("sess-close-config-late", "S04", 2, 4, "Close while the configuration is pending, which then arrives", sess(func(m *ssim) {
		m.cl.Inject(goodStartup)
		m.cfg.pend = true
		m.start()
		n := vs.Choose(20)
		m.closeAt(n, "close")
		vs.WaitIdle()
		vs.Close((chan<- struct{})(m.cfg.gate), "configuration arrives")
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))

	// ---- who may reach the database

	type su struct {
		what string
		b    []byte
		ok   bool
		any  bool // the verdict is not specified
	}
	bad := func(f func(b []byte) []byte) []byte { return f(append([]byte(nil), goodStartup...)) }
	setLen := func(b []byte, n uint32) []byte {
		binary.BigEndian.PutUint32(b, n)
		return b
	}
	table := []su{
		{"as configured", goodStartup, true, false},
		{"database first", startup(v3, "database", "shop", "user", "u"), true, false},
		{"many parameters", startup(v3, "user", "u", "application_name", "a=b", "database", "shop", "client_encoding", "", "options", "-c x=y"), true, false},
		{"no user", startup(v3, "database", "shop"), true, false},
		{"repeated, the same", startup(v3, "database", "shop", "user", "u", "database", "shop"), true, true},
		{"no database", startup(v3, "user", "shop"), false, false},
		{"no parameters", startup(v3), false, false},
		{"another database", startup(v3, "user", "u", "database", "bank"), false, false},
		{"upper case", startup(v3, "user", "u", "database", "Shop"), false, false},
		{"longer name", startup(v3, "user", "u", "database", "shop2"), false, false},
		{"prefix", startup(v3, "user", "u", "database", "sho"), false, false},
		{"trailing blank", startup(v3, "user", "u", "database", "shop "), false, false},
		{"empty name", startup(v3, "user", "u", "database", ""), false, false},
		{"name as the value of another parameter", startup(v3, "user", "database", "shop", "bank"), false, false},
		{"parameter name in upper case", startup(v3, "user", "u", "DATABASE", "shop"), false, false},
		{"first another, then configured", startup(v3, "database", "bank", "user", "u", "database", "shop"), false, false},
		{"first configured, then another", startup(v3, "database", "shop", "user", "u", "database", "bank"), false, false},
		{"configured, another, configured", startup(v3, "database", "shop", "database", "bank", "database", "shop"), false, false},
		{"configured, then empty", startup(v3, "database", "shop", "database", ""), false, false},
		{"version 2.0", startup(131072, "user", "u", "database", "shop"), false, false},
		{"version 3.1", startup(196609, "user", "u", "database", "shop"), false, false},
		{"version 3.2", startup(196610, "user", "u", "database", "shop"), false, false},
		{"version 4.0", startup(262144, "user", "u", "database", "shop"), false, false},
		{"version 0", startup(0, "user", "u", "database", "shop"), false, false},
		{"version -1", startup(0xffffffff, "user", "u", "database", "shop"), false, false},
		{"version 3.0 with high bit", startup(v3|1<<31, "user", "u", "database", "shop"), false, false},
		{"cancel request", append(startup(80877102)[:8], 0, 0, 0, 1, 0, 0, 0, 2), false, false},
		{"GSS encryption request", []byte{0, 0, 0, 8, 4, 210, 22, 48}, false, false},
		{"no final terminator", bad(func(b []byte) []byte { return setLen(b[:len(b)-1], uint32(len(b)-1)) }), false, false},
		{"value not terminated", bad(func(b []byte) []byte { return setLen(b[:len(b)-2], uint32(len(b)-2)) }), false, false},
		{"value missing", setLen(append(startup(v3, "user", "u", "database", "shop", "x")), uint32(len(startup(v3, "user", "u", "database", "shop", "x")))), false, false},
		{"length 0", bad(func(b []byte) []byte { return setLen(b, 0) }), false, false},
		{"length 4", bad(func(b []byte) []byte { return setLen(b, 4) }), false, false},
		{"length 7", bad(func(b []byte) []byte { return setLen(b, 7) }), false, false},
		{"length -1", bad(func(b []byte) []byte { return setLen(b, 0xffffffff) }), false, false},
		{"length one too small", bad(func(b []byte) []byte { return setLen(b, uint32(len(b)-1)) }), false, false},
		{"regular frame", query(1), false, false},
		{"TLS hello", []byte{0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3}, false, false},
		{"HTTP", []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"), false, false},
	}
	for _, w := range []string{"database=shop,user=u", "user=u,database=shop", "database=shop,user=u,x="} {
		b := startup(v3, strings.FieldsFunc(w, func(r rune) bool { return r == '=' || r == ',' })...)
		if strings.HasSuffix(w, "x=") {
			b = startup(v3, "database", "shop", "user", "u", "x", "")
		}
		for n := 8; n < len(b); n++ {
			table = append(table, su{fmt.Sprintf("%s, shortened to %d of %d bytes", w, n, len(b)), setLen(append([]byte(nil), b[:n]...), uint32(n)), false, false})
		}
	}
	add("sess-startup", "S05 S06", 1, 3, "every startup message of a table of admissible and inadmissible ones, with and without an SSL request before and a query behind it, ending in silence or hang-up", sess(func(m *ssim) {
		t := table[vs.Choose(len(table))]
		ssl := vs.Choose(2)
		tail := [][]byte{nil, query(1)}[vs.Choose(2)]
		cut := 0
		if t.ok && tail == nil {
			cut = vs.Choose(len(t.b) + 1) // drop that many bytes at the end
		}
		end := vs.Choose(2) // does the client hang up?
		b := cat(bytes.Repeat(sslRequest, ssl), t.b[:len(t.b)-cut], tail)
		m.cl.Inject(b)
		if end == 1 {
			m.cl.HangupNow()
		}
		m.start()
		vs.WaitIdle()
		if !bytes.HasPrefix(m.cl.Sent(), bytes.Repeat([]byte("N"), ssl)) && end == 0 {
			vs.Fail("%s: %d SSL requests were answered with %q", t.what, ssl, m.cl.Sent())
		}
		if bytes.HasPrefix(m.cl.Sent(), []byte("NN")) {
			vs.Fail("%s: an SSL request was answered twice: %q", t.what, m.cl.Sent())
		}
		switch {
		case t.any && cut == 0:
		case t.ok && cut == 0:
			if m.db() == nil && !(end == 1 && ssl == 1) {
				vs.Fail("%s: an admissible client was not connected to the database (%v)", t.what, m.err)
			}
			if s := diff(t.what+": database", m.dbGot(), cat(t.b, tail), end == 1 && ssl == 1); s != "" {
				vs.Fail("%s", s)
			}
			if end == 0 && (m.returned || m.prog.IsClosed()) {
				vs.Fail("%s: an admissible client was dropped (%v)", t.what, m.err)
			}
		default:
			if m.db() != nil || len(vnet.W().Dialled) > 0 {
				vs.Fail("%s (%d bytes missing): the database was contacted and got %q", t.what, cut, m.dbGot())
			}
			if complete := cut == 0 && declared(t.b) <= len(t.b)+len(tail) && declared(t.b) >= 0; complete && !m.prog.IsClosed() {
				vs.Fail("%s: the client was not refused", t.what)
			} else if complete && end == 0 && wrongDatabase(t.b) {
				if s := isRefusal(m.cl.Sent(), ssl); s != "" {
					vs.Fail("%s: the client was not told that it is refused: %s", t.what, s)
				}
			}
		}
		if end == 1 {
			return
		}
		m.close()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))

	add("sess-database-names", "S05", 0, 1, "configured and requested database names from a set of peculiar ones, all pairs", sess(func(m *ssim) {
		long := strings.Repeat("n", 62)
		names := []string{"shop", "Shop", "shop ", " shop", "a b", "ä", "a\u0308", "postgres", "template1", "0", "a/b", "shop\x01", "%73hop", "sh%op", "database",
			"/shop", "shop/", "shop\n", "\tshop", "\"shop\"", "'shop'", "shop;", "public.shop", "shop.public", "shop,bank", "sho", "shopp", "sh*p", "sh_p", "shop?x=1", "dbname=shop",
			long + "1", long + "1x", long + "1y", long + long + long + long + long + "1", long + long + long + long + long + "2", "-shop", "owner", "*", "."}
		i, j := vs.Choose(len(names)), vs.Choose(len(names)+1)
		m.cfg = oneConfig("postgres://owner@10.0.0.9:6543/" + url.PathEscape(names[i]))
		kv := []string{"user", "u"}
		if j < len(names) {
			kv = append(kv, "database", names[j])
		}
		m.cl.Inject(startup(v3, kv...))
		m.start()
		vs.WaitIdle()
		if (m.db() != nil) != (i == j) {
			vs.Fail("configured %q, requested %q: contacted=%v (%v)", names[i], kv, m.db() != nil, m.err)
		}
		if i != j {
			if s := isRefusal(m.cl.Sent(), 0); s != "" {
				vs.Fail("configured %q, requested %q: the client was not told that it is refused: %s", names[i], kv, s)
			}
		}
		m.close()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))

	add("sess-database-places", "S05", 0, 0, "the configured database and another one (or the same one again), each named at one of up to 17 places among up to 3000 parameters", sess(func(m *ssim) {
		vs.Freeze(true)
		n := []int{0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300, 512, 1000, 1024, 3000}[vs.Choose(21)]
		var places []int // of the database parameters: in front of so many others
		for _, p := range []int{0, 1, 2, 7, 8, 9, 15, 16, 31, 32, 63, 64, 100, 128, 256, 1000} {
			if p < n {
				places = append(places, p)
			}
		}
		places = append(places, n)
		first := vs.Choose(len(places))
		second := first + vs.Choose(len(places)-first)
		names := [][2]string{{"shop", "other"}, {"other", "shop"}, {"shop", "shop"}}[vs.Choose(3)]
		var kv []string
		for i := 0; i <= n; i++ {
			for k, at := range []int{first, second} {
				if places[at] == i {
					kv = append(kv, "database", names[k])
				}
			}
			if i < n {
				kv = append(kv, fmt.Sprintf("p%d", i), "")
			}
		}
		hello := startup(v3, kv...)
		m.cl.Inject(hello)
		m.start()
		vs.WaitIdle()
		what := fmt.Sprintf("databases %q in front of parameters %d and %d of %d", names, places[first], places[second], n)
		if names[0] != names[1] {
			if m.db() != nil {
				vs.Fail("%s: the database was contacted", what)
			}
			if !m.cl.PeerClosed() {
				vs.Fail("%s: the connection of the client was not closed", what)
			}
			if s := isRefusal(m.cl.Sent(), 0); s != "" {
				vs.Fail("%s: %s", what, s)
			}
			return
		}
		if s := diff("database, with "+what, m.dbGot(), hello, false); s != "" {
			vs.Fail("%s", s)
		}
		m.cl.HangupNow()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))
	add("sess-config-unusable", "S05 S07", 1, 2, "configurations whose database URL is unusable: nobody is admitted, nothing crashes", sess(func(m *ssim) {
		urls := []string{"", "mysql://u@10.0.0.9:6543/shop", "://", "postgres://u@10.0.0.9:99999/shop", "postgres://u@10.0.0.9:x/shop", "10.0.0.9"}
		m.cfg = oneConfig(urls[vs.Choose(len(urls))])
		m.cl.Inject(cat(goodStartup, query(1)))
		m.start()
	}, func(m *ssim, x *vs.Exec) string {
		if s := m.gone(x); s != "" {
			return s
		}
		if m.db() != nil {
			return "the database was contacted"
		}
		if m.err == nil {
			return "Start returned no error"
		}
		return ""
	}))

	// ---- forwarding of the startup

	add("sess-ssl", "S06 S05", 1, 2, "0 to 3, 10 and 60 SSL requests, pipelined or one at a time, then the startup", sess(func(m *ssim) {
		n := []int{0, 1, 2, 3, 10, 60}[vs.Choose(6)]
		d := &depthConn{TCPConn: m.prog}
		pipelined := vs.Choose(2) == 0
		if pipelined {
			m.cl.Inject(cat(bytes.Repeat(sslRequest, n), goodStartup))
		}
		vs.Freeze(n > 3)
		m.s = server.NewSession(d, m.cfg)
		m.startThread()
		if !pipelined {
			for i := 1; i <= n; i++ {
				m.cl.Inject(sslRequest)
				b := make([]byte, 1)
				if _, err := io.ReadFull(m.cl, b); err != nil || b[0] != 'N' {
					vs.Fail("SSL request %d was answered with %q, %v", i, b, err)
				}
				vs.WaitIdle()
				if len(m.cl.Sent()) != i {
					vs.Fail("%d SSL requests were answered with %q", i, m.cl.Sent())
				}
			}
			m.cl.Inject(goodStartup)
		}
		vs.WaitIdle()
		if s := diff("client", m.cl.Sent(), bytes.Repeat([]byte("N"), n), false); s != "" {
			vs.Fail("%s", s)
		}
		if s := diff("database", m.dbGot(), goodStartup, false); s != "" {
			vs.Fail("%s", s)
		}
		if n == 60 && d.max > d.early+8 {
			vs.Fail("reading the startup after 60 SSL requests needs %d stack frames, after one %d: they pile up", d.max, d.early)
		}
		m.close()
	}, func(m *ssim, x *vs.Exec) string {
		if n := x.Threads(); n > 20 {
			return fmt.Sprintf("%d threads were started for one client", n)
		}
		return m.gone(x)
	}))

	add("sess-ssl-many", "S06", 0, 0, "100 to 70000 SSL requests in a row, then the startup: each is answered with N, the client is connected", func() *vs.Scenario {
		s := sess(func(m *ssim) {
			vs.Freeze(true)
			n := []int{100, 101, 129, 257, 1025, 10001, 70000}[vs.Choose(7)]
			m.cl.Inject(cat(bytes.Repeat(sslRequest, n), goodStartup))
			m.start()
			vs.WaitIdle()
			if s := diff(fmt.Sprintf("client, %d SSL requests", n), m.cl.Sent(), bytes.Repeat([]byte("N"), n), false); s != "" {
				vs.Fail("%s", s)
			}
			if s := diff(fmt.Sprintf("database, %d SSL requests", n), m.dbGot(), goodStartup, false); s != "" {
				vs.Fail("%s", s)
			}
			m.close()
		}, func(m *ssim, x *vs.Exec) string { return m.gone(x) })()
		s.MaxSteps = 2000000
		return s
	})
	var params [][]string
	for _, kv := range []string{"application_name=psql", "application_name=", "application_name=pgbench", "application_name=gevulot", "application_name=" + strings.Repeat("long ", 200), "client_encoding=UTF8", "client_encoding=SQL_ASCII", "client_encoding=latin1", "DateStyle=ISO, MDY", "TimeZone=UTC",
		"options=-c geqo=off", "options=--search_path=x -c a=b\\ c", "options=", "replication=true", "replication=database", "replication=false", "replication=0", "extra_float_digits=3", "statement_timeout=0", "search_path=app", "standard_conforming_strings=on",
		"_pq_.compression=1", "_pq_.=", "sslmode=require", "gssencmode=disable", "password=secret", "host=10.0.0.66", "port=1", "dbname=bank", "Database=bank", "DATABASE=shop", "USER=root", "é=ü", "x= spaced ", "\x01=\x02",
		" options=-c a=b", "options =-c a=b", "\tuser=root", " database=shop", "database =shop", "database\n=bank", "application-name=x", "user.name=y"} {
		i := strings.IndexByte(kv, '=')
		params = append(params, []string{kv[:i], kv[i+1:]})
	}
	add("sess-params-known", "S06", 0, 1, fmt.Sprintf("%d parameters that clients send, every one and every pair, in 3 places among user and database; the database gets exactly the client's startup message", len(params)), sess(func(m *ssim) {
		vs.Freeze(true)
		i, j := vs.Choose(len(params)), vs.Choose(len(params)+1)
		var extra []string
		extra = append(extra, params[i]...)
		if j < len(params) {
			extra = append(extra, params[j]...)
		}
		var b []byte
		switch vs.Choose(3) {
		case 0:
			b = startup(v3, append([]string{"user", "u", "database", "shop"}, extra...)...)
		case 1:
			b = startup(v3, append(extra, "user", "u", "database", "shop")...)
		default:
			b = startup(v3, append(append([]string{"database", "shop"}, extra...), "user", "u")...)
		}
		m.cl.Inject(cat(b, query(1)))
		m.start()
		vs.WaitIdle()
		if s := diff("database", m.dbGot(), cat(b, query(1)), false); s != "" {
			vs.Fail("%q: %s", extra, s)
		}
		if len(m.cl.Sent()) > 0 {
			vs.Fail("%q: the client was sent %q", extra, m.cl.Sent())
		}
		m.close()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))
	add("sess-params-many", "S06", 0, 0, "startup messages of 1 to 9000 bytes of parameters, in 1 to 1000 parameters, or with one parameter of up to 1 MB", sess(func(m *ssim) {
		vs.Freeze(true)
		n := []int{1, 5, 16, 33, 64, 101, 257, 1000}[vs.Choose(8)]
		size := []int{1, 3, 100, 1000, 8900, 9960, 20000, 70000, 1 << 20}[vs.Choose(9)]
		if n*(size+6) > 9000 && n > 1 {
			size = max(0, 9000/n-7)
		}
		kv := []string{"user", "u"}
		for i := 0; i < n; i++ {
			kv = append(kv, fmt.Sprintf("p%d", i%777), strings.Repeat("v", size))
		}
		b := startup(v3, append(kv, "database", "shop")...)
		m.cl.Inject(cat(b, query(1)))
		m.start()
		vs.WaitIdle()
		if s := diff(fmt.Sprintf("database, %d parameters of %d bytes", n, size), m.dbGot(), cat(b, query(1)), false); s != "" {
			vs.Fail("%s", s)
		}
		m.close()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))

	addresses := []struct{ url, want string }{
		{"postgres://u@10.0.0.9:6543/shop", "10.0.0.9:6543"},
		{"postgresql://u:p@10.0.0.9:6543/shop", "10.0.0.9:6543"},
		{"postgres://u@10.0.0.9/shop", "10.0.0.9:5432"},
		{"postgres://u@localhost:6543/shop", "localhost:6543"},
		{"postgres://u@localhost/shop", "localhost:5432"},
		{"postgres://u@/shop", "localhost:5432"},
		{"postgres:///shop", "localhost:5432"},
		{"postgres://u@[::1]:6543/shop", "[::1]:6543"},
		{"postgres://u@[2001:db8::7]:6543/shop", "[2001:db8::7]:6543"},
		{"postgres://u@[2001:db8::7]/shop", "[2001:db8::7]:5432"},
		{"postgres://u@db.example.org:1/shop", "db.example.org:1"},
		{"postgres://u@db.example.org:65535/shop", "db.example.org:65535"},
		{"postgres:///shop?host=10.0.0.8&port=77", "10.0.0.8:77"},
		{"postgres://u@/shop?host=db.example.org", "db.example.org:5432"},
		{"postgres://u@10.0.0.9/shop?port=77", "10.0.0.9:77"},
		{"postgres://u@10.0.0.9:6543/shop?host=10.0.0.8", "10.0.0.8:6543"},
		{"postgres://u@10.0.0.9:6543/shop?port=77&sslmode=disable", "10.0.0.9:77"},
		{"postgres://u@10.0.0.9:6543/bank?database=shop", "10.0.0.9:6543"},
		{"postgres://u@10.0.0.9:6543?database=shop", "10.0.0.9:6543"},
		{"postgres://shop@10.0.0.9:6543", "10.0.0.9:6543"},
		{"postgres://shop@10.0.0.9:6543/", "10.0.0.9:6543"},
		{"postgres://10.0.0.9:6543/shop", "10.0.0.9:6543"},
		{"postgres://u@db.example.org.:6543/shop", "db.example.org.:6543"},
		{"postgres://u@db.example.org./shop", "db.example.org.:5432"},
		{"postgres://u@DB/shop", "DB:5432"},
		{"postgres://u@10.0.0.9:0/shop", "10.0.0.9:0"},
		{"postgres://u@10.0.0.9:06543/shop", "10.0.0.9:6543"},
		{"postgres://u@[2001:DB8:0::7]:6543/shop", "[2001:db8::7]:6543"},
		{"postgres://u@[::ffff:10.0.0.9]:6543/shop", "10.0.0.9:6543"},
		{"postgres://u@[fe80::1%25eth0]:6543/shop", "[fe80::1%eth0]:6543"},
		{"postgres://u@/shop?host=2001:db8::7&port=77", "[2001:db8::7]:77"},
		{"postgres://u@255.255.255.254/shop", "255.255.255.254:5432"},
		{"postgres://u@x_y-z.test:6543/shop", "x_y-z.test:6543"},
		{"postgres://u@" + strings.Repeat("a", 63) + "." + strings.Repeat("b", 63) + ".test/shop", strings.Repeat("a", 63) + "." + strings.Repeat("b", 63) + ".test:5432"},
	}
	add("sess-addresses", "S06", 0, 1, fmt.Sprintf("%d database URLs with hosts and ports written in every way: the one connection goes to the address the URL names", len(addresses)), sess(func(m *ssim) {
		a := addresses[vs.Choose(len(addresses))]
		m.cfg = oneConfig(a.url)
		m.listenDB(a.want)
		m.cl.Inject(goodStartup)
		m.start()
		vs.WaitIdle()
		if d := vnet.W().Dialled; len(d) == 0 {
			vs.Fail("%s: the client was not admitted (%v)", a.url, m.err)
		} else {
			for _, x := range d {
				if vnet.Canonical(x) != vnet.Canonical(a.want) {
					vs.Fail("%s: connected to %s, expected %s", a.url, x, a.want)
				}
			}
		}
		if s := diff(a.url+": database", m.dbGot(), goodStartup, false); s != "" {
			vs.Fail("%s", s)
		}
		m.close()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))

	add("sess-one-config", "S06 S05", 1, 2, "the configuration changes between any two requests for it: database name, host and port must come from one and the same", sess(func(m *ssim) {
		u := []string{"postgres://a@10.0.0.1:1111/shop", "postgres://b@10.0.0.2:2222/shop", "postgres://c@10.0.0.3:3333/bank", "postgres://d@10.0.0.4/shop"}
		m.cfg.cfgs = nil
		for i := 0; i < 4; i++ {
			m.cfg.cfgs = append(m.cfg.cfgs, &server.Config{DatabaseURL: u[vs.Choose(len(u))]})
		}
		for _, a := range []string{"10.0.0.1:1111", "10.0.0.2:2222", "10.0.0.3:3333", "10.0.0.4:5432"} {
			m.listenDB(a)
		}
		m.cl.Inject(goodStartup)
		m.start()
		vs.WaitIdle()
		for _, a := range vnet.W().Dialled {
			ok := false
			for i, c := range m.cfg.cfgs {
				ok = ok || i < m.cfg.gets && c.DatabaseURL != u[2] && strings.HasPrefix(strings.SplitN(c.DatabaseURL, "@", 2)[1]+"/", strings.TrimSuffix(a, ":5432")+"/")
			}
			if !ok {
				vs.Fail("connected to %s, which no configuration names for database shop", a)
			}
		}
		m.close()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))

	add("sess-own-config", "S06 S05", 1, 2, "two sessions, one after the other or at the same time, with different configurations: each one follows its own", sess(func(m *ssim) {
		u := []string{"postgres://a@10.0.0.1:1111/shop", "postgres://b@10.0.0.2:1111/shop", "postgres://a@10.0.0.1:2222/shop", "postgres://a@10.0.0.1:1111/bank"}
		at := []string{"10.0.0.1:1111", "10.0.0.2:1111", "10.0.0.1:2222", "10.0.0.1:1111"}
		i, j := vs.Choose(4), vs.Choose(4)
		parallel := vs.Choose(2) == 1
		o := newSsim()
		m.cfg, o.cfg = oneConfig(u[i]), oneConfig(u[j])
		dialled := map[string]int{}
		for _, a := range at {
			a := a
			vnet.Passive(a, func(db *vnet.TCPConn) { dialled[a]++ })
		}
		db := func(i int) string {
			if i == 3 {
				return "bank"
			}
			return "shop"
		}
		m.cl.Inject(startup(v3, "user", "u", "database", db(i)))
		o.cl.Inject(startup(v3, "user", "u", "database", db(j)))
		vs.Freeze(!parallel)
		m.start()
		if !parallel {
			vs.WaitIdle()
			m.close()
			vs.WaitIdle()
		}
		o.start()
		vs.WaitIdle()
		want := map[string]int{at[i]: 1}
		want[at[j]]++
		if fmt.Sprint(dialled) != fmt.Sprint(want) {
			vs.Fail("sessions configured with %s and %s connected to %v (errors %v, %v)", u[i], u[j], dialled, m.err, o.err)
		}
		if parallel {
			m.close()
		}
		o.close()
	}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))

	// ---- hostile bytes

	hostile := hostileBytes()
	for _, where := range []string{"before", "after", "db"} {
		where := where
		add("sess-hostile-"+where, "S07", 0, 1, fmt.Sprintf("a session fed with %d hostile byte strings (%s), then silence, data or hang-up, next to a session that keeps relaying", len(hostile), map[string]string{
			"before": "by the client before the startup", "after": "by the client after the startup", "db": "by the database"}[where]), sess(func(m *ssim) {
			bad := newSsim()
			m.onDB = nil
			n := vs.Choose(len(hostile))
			then := vs.Choose(3)
			payload := hostile[n]
			if then == 1 {
				payload = cat(payload, bytes.Repeat([]byte{0}, 40), query(1))
			}
			dials := 0
			vnet.Passive(dbHost, func(db *vnet.TCPConn) {
				dials++
				if dials == 1 {
					m.dbs = append(m.dbs, db)
					db.Inject(dbMsg(1))
					return
				}
				bad.dbs = append(bad.dbs, db)
				if where == "db" {
					db.Inject(payload)
					if then == 2 {
						db.HangupNow()
					}
				}
			})
			// the good one
			m.cl.Inject(cat(goodStartup, query(1)))
			m.start()
			vs.WaitIdle()
			// the bad one
			switch where {
			case "before":
				bad.cl.Inject(payload)
			case "after":
				bad.cl.Inject(cat(goodStartup, payload))
			default:
				bad.cl.Inject(cat(goodStartup, query(9)))
			}
			if then == 2 && where != "db" {
				bad.cl.HangupNow()
			}
			bad.start()
			vs.WaitIdle()
			if then == 2 && !bad.returned {
				vs.Fail("hostile bytes %q: the session did not end after the hang-up", payload)
			}
			m.db().Inject(dbMsg(2))
			m.cl.Inject(query(2))
			vs.WaitIdle()
			relayed(m, msgs(query, 2), msgs(dbMsg, 2))
			vs.GoEnv("close bad", func() { _ = bad.s.Close() })
			m.close()
		}, func(m *ssim, x *vs.Exec) string { return m.gone(x) }))
	}
}

// declared is the length that a startup frame declares, -1 if there is none or it is absurd.
func declared(b []byte) int {
	if len(b) < 4 {
		return -1
	}
	n := int32(binary.BigEndian.Uint32(b))
	if n < 0 {
		return 0
	}
	return int(n)
}

// depthConn measures how deep the stack is when the connection is read.
type depthConn struct {
	*vnet.TCPConn
	reads, early, max int
}

func (d *depthConn) Read(p []byte) (int, error) {
	pc := make([]uintptr, 2000)
	n := runtime.Callers(0, pc)
	d.reads++
	if d.reads <= 6 {
		d.early = max(d.early, n)
	}
	d.max = max(d.max, n)
	return d.TCPConn.Read(p)
}

// hostileBytes are byte strings that try the parsers: every type byte with hostile lengths and bodies, fragments of
// startup messages, garbage.
func hostileBytes() [][]byte {
	var r [][]byte
	u32 := func(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }
	lens := []uint32{0, 1, 3, 4, 5, 6, 7, 8, 0x7fffffff, 0x80000000, 0xffffffff, 70000}
	for _, t := range []byte("RvKSpZQTDCIENX\x00\xffdcfHPBh") {
		for _, l := range lens {
			r = append(r, append([]byte{t}, u32(l)...))
		}
		for _, body := range []string{"", "\x00", "\xff\xff", "\x00\x01\xff\xff\xff\xfe", "\x7f\xff", "\xff\xff\xff\xff", "\x00\x00\x00\x01\x7f\xff\xff\xff", "abc", "S\x00", "S", "\x00\x02\x00\x00\x00\x01a", "\x00\x00\x00\x0a\xff\xff\xff\xff", "\x00\x01a\x00\x00\x00\x00"} {
			r = append(r, frame(t, body))
		}
	}
	for _, l := range lens {
		r = append(r, u32(l))
		for _, v := range []uint32{v3, 80877103, 80877102, 80877104, 0} {
			r = append(r, append(u32(l), u32(v)...))
			r = append(r, append(append(u32(l), u32(v)...), "user\x00u\x00database\x00"...))
		}
	}
	for _, f := range sampleFrames() {
		for n := 5; n < len(f); n++ { // a complete frame with a body that is cut short
			b := append([]byte{f[0]}, u32(uint32(n-1))...)
			r = append(r, append(b, f[5:n]...))
		}
		for n := 5; n < len(f); n++ { // a body with one byte replaced
			for _, v := range []byte{0, 0x7f, 0x80, 0xff} {
				if f[n] != v {
					b := append([]byte{}, f...)
					b[n] = v
					r = append(r, b)
				}
			}
		}
	}
	r = append(r, nil, []byte{0}, []byte{0xff}, []byte("GET / HTTP/1.0\r\n\r\n"), bytes.Repeat([]byte{0}, 100), bytes.Repeat([]byte{0xff}, 100))
	return r
}

// sampleFrames are well-formed messages of every type, with every kind of field.
// said is a message and who says it.
type said struct {
	db bool
	b  []byte
}

// protocol are the messages of clients and databases.
func protocol() []said {
	var r []said
	for _, b := range [][]byte{
		frame('R', "\x00\x00\x00\x00"), frame('R', "\x00\x00\x00\x03"), frame('R', "\x00\x00\x00\x05salt"), frame('K', "\x00\x00\x00\x07\x00\x00\x00\x09"), frame('S', "name\x00value\x00"),
		frame('Z', "I"), frame('Z', "T"), frame('Z', "E"), frame('T', "\x00\x00"), frame('D', "\x00\x01\x00\x00\x00\x03v01"), frame('C', "SELECT 1\x00"), frame('C', "DISCARD ALL\x00"), frame('I', ""),
		frame('E', "SERROR\x00VERROR\x00C42P01\x00Mno\x00\x00"), frame('E', "SFATAL\x00VFATAL\x00C57P01\x00Mbye\x00\x00"), frame('E', "SPANIC\x00C57P02\x00Mcrash\x00\x00"), frame('N', "SWARNING\x00C25001\x00Mhm\x00\x00"),
		frame('1', ""), frame('2', ""), frame('3', ""), frame('n', ""), frame('s', ""), frame('t', "\x00\x01\x00\x00\x00\x19"), frame('G', "\x00\x00\x00"), frame('H', "\x00\x00\x00"), frame('W', "\x00\x00\x00"), frame('d', "row\n"), frame('c', ""),
		frame('A', "\x00\x00\x00\x07chan\x00pay\x00"), frame('V', "\x00\x00\x00\x01x"), frame('v', "\x00\x03\x00\x00\x00\x00\x00\x00"),
	} {
		r = append(r, said{true, b})
	}
	for _, b := range [][]byte{
		frame('Q', "select 1\x00"), frame('Q', "BEGIN\x00"), frame('Q', "COMMIT\x00"), frame('Q', "\x00"), frame('P', "s\x00select $1\x00\x00\x00"), frame('P', "\x00\x00\x00\x00"), frame('B', "\x00s\x00\x00\x00\x00\x00\x00\x00"), frame('D', "Ss\x00"), frame('D', "P\x00"),
		frame('E', "\x00\x00\x00\x00\x00"), frame('C', "Ss\x00"), frame('H', ""), frame('S', ""), frame('F', "\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00"), frame('p', "secret\x00"), frame('d', "row\n"), frame('c', ""), frame('f', "no\x00"), frame('X', ""),
	} {
		r = append(r, said{false, b})
	}
	return r
}

func sampleFrames() [][]byte {
	var r [][]byte
	for _, c := range []string{"\x00", "\x02", "\x03", "\x05salt", "\x06", "\x07", "\x08data", "\x09", "\x0a" + "SCRAM\x00\x00", "\x0bx", "\x0cx"} {
		r = append(r, frame('R', "\x00\x00\x00"+c))
	}
	return append(r,
		frame('v', "\x00\x03\x00\x02\x00\x00\x00\x02_pq_.a\x00_pq_.b\x00"),
		frame('K', "\x00\x00\x00\x07\x00\x00\x00\x09"),
		frame('S', "name\x00value\x00"),
		frame('p', "secret\x00"),
		frame('Z', "I"),
		frame('Q', "select 1\x00"),
		frame('T', "\x00\x02a\x00\x00\x00\x00\x01\x00\x02\x00\x00\x00\x19\xff\xff\xff\xff\xff\xff\x00\x00"+"b\x00\x00\x00\x00\x01\x00\x03\x00\x00\x00\x17\x00\x04\xff\xff\xff\xff\x00\x01"),
		frame('D', "\x00\x03\x00\x00\x00\x02ab\xff\xff\xff\xff\x00\x00\x00\x00"),
		frame('C', "SELECT 1\x00"),
		frame('E', "SERROR\x00C42P01\x00Mno\x00\x00"),
		frame('N', "SNOTICE\x00Mhm\x00\x00"),
		frame('I', ""), frame('X', ""), frame('d', "copy"), frame('f', "fail\x00"), frame('B', "\x00s\x00\x00\x00\x00\x00\x00\x00"))
}

// wrongDatabase tells whether b is a complete, well-formed startup message of version 3.0 (whatever the database).
func wrongDatabase(b []byte) bool {
	if len(b) < 9 || declared(b) != len(b) || binary.BigEndian.Uint32(b[4:]) != v3 || b[len(b)-1] != 0 {
		return false
	}
	for b = b[8:]; len(b) > 1; {
		for i := 0; i < 2; i++ {
			n := bytes.IndexByte(b, 0)
			if n < 0 || i == 0 && n == 0 {
				return false
			}
			b = b[n+1:]
		}
	}
	return len(b) == 1
}

// isRefusal checks that what the client was sent is the answers to ssl SSL requests and one fatal error response.
func isRefusal(b []byte, ssl int) string {
	got := fmt.Sprintf("%q", b)
	if len(b) < ssl+6 || b[ssl] != 'E' || int(binary.BigEndian.Uint32(b[ssl+1:])) != len(b)-ssl-1 {
		return got
	}
	fields := map[byte]string{}
	for b = b[ssl+5:]; len(b) > 1; {
		n := bytes.IndexByte(b, 0)
		if n < 0 || b[0] == 0 {
			return got
		}
		fields[b[0]] = string(b[1:n])
		b = b[n+1:]
	}
	if len(b) != 1 || b[0] != 0 || fields['S'] == "" || fields['M'] == "" {
		return got
	}
	return ""
}
