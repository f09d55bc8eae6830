package main

import (
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// fake is a PostgreSQL server with one catalog and scripted faults.
type fake struct {
	l    net.Listener
	port int
	mu   sync.Mutex
	cond *sync.Cond
	cur  *script
}

// script is what the server does during one execution.
type script struct {
	cat    *catalog
	auth   string // "", "password", "md5", "sasl"
	fault  fault
	all    bool // every connection has the fault, not only the first
	raw    []byte
	isRaw  bool // not a PostgreSQL server: it sends raw and hangs up
	split  int  // bytes per write; 0: whole messages
	mu     sync.Mutex
	conns  int // accepted
	open   int // not closed by the client yet
	undec  string
	shapes []shape // what each connection sent
	hit    bool    // the fault took place
	raws   []net.Conn
}

// shape is the outline of a connection's output: the ends of its messages.
type shape struct {
	ends  []int
	start int // messages of the startup phase
}

type fault struct {
	kind string // "", "cut", "reset", "error", "fatal", "notice", "parameter", "none", "null", "value"
	at   int    // byte for cut and reset, row for null and value, message otherwise
	col  int    // column for null
	text string // value of the object id for value
}

func newFake() *fake {
	f := &fake{}
	var err error
	if f.l, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		panic(err)
	}
	f.port = f.l.Addr().(*net.TCPAddr).Port
	go func() {
		for {
			c, err := f.l.Accept()
			if err != nil {
				panic(err)
			}
			f.mu.Lock()
			s := f.cur
			f.mu.Unlock()
			s.mu.Lock()
			n := s.conns
			s.conns++
			s.open++
			s.shapes = append(s.shapes, shape{})
			s.raws = append(s.raws, c)
			s.mu.Unlock()
			go func() {
				k := &conn{f: f, s: s, c: c, n: n, pending: s.fault}
				if n > 0 && !s.all {
					k.pending = fault{}
				}
				k.serve()
				// whatever happened, find out when the client closes its side
				_ = c.SetReadDeadline(time.Time{})
				b := make([]byte, 4096)
				for {
					if _, err := c.Read(b); err != nil {
						break
					}
				}
				c.Close()
				s.mu.Lock()
				s.open--
				s.mu.Unlock()
			}()
		}
	}()
	return f
}

func (f *fake) begin(s *script) {
	f.mu.Lock()
	f.cur = s
	f.mu.Unlock()
}

// settled waits until the client has closed all its connections.
func (s *script) settled() bool {
	ok := false
	for end := time.Now().Add(15 * time.Second); !ok && time.Now().Before(end); {
		s.mu.Lock()
		ok = s.open == 0
		s.mu.Unlock()
		if !ok {
			time.Sleep(50 * time.Microsecond)
		}
	}
	s.mu.Lock()
	for _, c := range s.raws {
		c.Close()
	}
	s.mu.Unlock()
	return ok
}

type conn struct {
	f       *fake
	s       *script
	c       net.Conn
	n       int
	sent    int
	pending fault
	skip    bool // the rest of the answer is not sent, after an error
	dead    bool
	stmts   map[string]string
	portals map[string]portal
	tx      byte // state of the transaction, as in ReadyForQuery
	failed  bool // extended protocol: skip until Sync
	dbname  string
}

// raw is text that is sent as it is.
type raw string

type portal struct {
	sql    string
	params []value
}

type ended struct{}

func (k *conn) bytes(b []byte) {
	if k.dead {
		panic(ended{})
	}
	if (k.pending.kind == "cut" || k.pending.kind == "reset") && k.sent+len(b) > k.pending.at {
		b = b[:k.pending.at-k.sent]
		k.dead = true
	}
	for len(b) > 0 {
		n := len(b)
		if k.s.split > 0 && n > k.s.split {
			n = k.s.split
		}
		if _, err := k.c.Write(b[:n]); err != nil {
			panic(ended{})
		}
		k.sent += n
		b = b[n:]
	}
	if k.dead {
		k.s.mu.Lock()
		k.s.hit = true
		k.s.mu.Unlock()
		t := k.c.(*net.TCPConn)
		if k.pending.kind == "reset" {
			_ = t.SetLinger(0)
			t.Close()
		} else {
			_ = t.CloseWrite()
		}
		panic(ended{})
	}
}

func message(t byte, body []byte) []byte {
	b := append([]byte{t}, 0, 0, 0, 0)
	binary.BigEndian.PutUint32(b[1:], uint32(4+len(body)))
	return append(b, body...)
}

func errorBody(severity, code, text string) []byte {
	return []byte("S" + severity + "\x00V" + severity + "\x00C" + code + "\x00M" + text + "\x00\x00")
}

// send sends a message, after whatever the fault puts before it.
func (k *conn) send(t byte, body []byte) {
	s := k.s
	s.mu.Lock()
	sh := &s.shapes[k.n]
	i := len(sh.ends)
	starting := sh.start == 0
	s.mu.Unlock()
	switch k.pending.kind {
	case "none", "null", "value":
		i = -1 // see answer
	}
	if k.pending.at == i && k.pending.kind != "" && k.pending.kind != "cut" && k.pending.kind != "reset" {
		kind := k.pending.kind
		k.pending = fault{}
		s.mu.Lock()
		s.hit = true
		s.mu.Unlock()
		switch kind {
		case "error":
			k.bytes(message('E', errorBody("ERROR", "58030", "zz failure")))
			if starting {
				k.finish()
			}
			k.skip = true
			k.fail()
		case "fatal":
			k.bytes(message('E', errorBody("FATAL", "57P01", "zz shutdown")))
			k.finish()
		case "notice":
			k.bytes(message('N', errorBody("NOTICE", "00000", "zz notice")))
		case "parameter":
			k.bytes(message('S', []byte("application_name\x00zz\x00")))
		}
	}
	if k.skip && t != 'Z' {
		return
	}
	k.skip = false
	if t == 'Z' {
		body = []byte{k.tx}
	}
	s.mu.Lock()
	n := 0
	if len(sh.ends) > 0 {
		n = sh.ends[len(sh.ends)-1]
	}
	s.shapes[k.n].ends = append(s.shapes[k.n].ends, n+5+len(body))
	if t == 'Z' && s.shapes[k.n].start == 0 {
		s.shapes[k.n].start = len(s.shapes[k.n].ends)
	}
	s.mu.Unlock()
	k.bytes(message(t, body))
}

func (k *conn) finish() {
	k.dead = true
	_ = k.c.(*net.TCPConn).CloseWrite()
	panic(ended{})
}

func (k *conn) read(n int) []byte {
	b := make([]byte, n)
	if _, err := io.ReadFull(k.c, b); err != nil {
		panic(ended{})
	}
	return b
}

func (k *conn) recv() (byte, []byte) {
	h := k.read(5)
	return h[0], k.read(int(binary.BigEndian.Uint32(h[1:])) - 4)
}

func str(b []byte) (string, []byte) {
	i := strings.IndexByte(string(b), 0)
	if i < 0 {
		panic(ended{})
	}
	return string(b[:i]), b[i+1:]
}

func (k *conn) serve() {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(ended); !ok {
				panic(e)
			}
		}
	}()
	s := k.s
	if s.isRaw {
		k.bytes(s.raw)
		k.finish()
	}
	if (k.pending.kind == "cut" || k.pending.kind == "reset") && k.pending.at == 0 {
		k.bytes([]byte{0})
	}
	user := ""
	for {
		b := k.read(int(binary.BigEndian.Uint32(k.read(4))) - 4)
		if v := binary.BigEndian.Uint32(b); v == 80877103 {
			k.bytes([]byte("N"))
			continue
		} else if v != 196608 {
			k.bytes(message('E', errorBody("FATAL", "0A000", "unsupported frontend protocol")))
			k.finish()
		}
		for b = b[4:]; len(b) > 1; {
			var n, v string
			n, b = str(b)
			v, b = str(b)
			switch n {
			case "user":
				user = v
			case "database":
				k.dbname = v
			}
		}
		break
	}
	if k.dbname == "" {
		k.dbname = user
	}
	switch s.auth {
	case "password", "md5":
		want := "s3cret"
		if s.auth == "password" {
			k.send('R', []byte{0, 0, 0, 3})
		} else {
			k.send('R', []byte{0, 0, 0, 5, 's', 'a', 'l', 't'})
			h := md5.Sum([]byte(want + user))
			h = md5.Sum([]byte(hex.EncodeToString(h[:]) + "salt"))
			want = "md5" + hex.EncodeToString(h[:])
		}
		_, b := k.recv()
		if got, _ := str(b); got != want {
			k.bytes(message('E', errorBody("FATAL", "28P01", "password authentication failed")))
			k.finish()
		}
	case "unknown":
		k.send('R', []byte{0, 0, 0, 99})
	case "refused":
		k.bytes(message('E', errorBody("FATAL", "53300", "sorry, too many clients already")))
		k.finish()
	}
	k.send('R', []byte{0, 0, 0, 0})
	k.send('S', []byte("server_version\x0012.1\x00"))
	k.send('S', []byte("client_encoding\x00UTF8\x00"))
	k.send('S', []byte("standard_conforming_strings\x00on\x00"))
	k.send('K', []byte{0, 0, 0, 1, 0, 0, 0, 2})
	k.tx = 'I'
	k.ready()
	k.stmts, k.portals = map[string]string{}, map[string]portal{}
	for {
		t, b := k.recv()
		if k.failed && t != 'S' && t != 'X' {
			if t != 'Q' {
				continue
			}
		}
		switch t {
		case 'X':
			return
		case 'Q':
			k.failed = false
			q, _ := str(b)
			k.simple(q)
			k.failed = false
			k.ready()
		case 'S':
			k.failed = false
			k.ready()
		case 'H':
		case 'P':
			n, r := str(b)
			q, _ := str(r)
			if _, fail := k.eval(q, nil, true); fail != "" {
				k.refuse(fail)
				continue
			}
			k.stmts[n] = q
			k.send('1', nil)
		case 'D':
			n, _ := str(b[1:])
			q := k.stmts[n]
			if b[0] == 'P' {
				q = k.portals[n].sql
			} else {
				np := params(q)
				p := []byte{byte(np >> 8), byte(np)}
				for i := 0; i < np; i++ {
					p = append(p, 0, 0, 0, tText)
				}
				k.send('t', p)
			}
			res, fail := k.eval(q, make([]value, params(q)), true)
			switch {
			case fail != "":
				k.refuse(fail)
			case res == nil:
				k.send('n', nil)
			default:
				k.send('T', describe(res))
			}
		case 'B':
			pn, r := str(b)
			sn, r := str(r)
			p := portal{sql: k.stmts[sn]}
			nf := int(binary.BigEndian.Uint16(r))
			for i := 0; i < nf; i++ {
				if binary.BigEndian.Uint16(r[2+2*i:]) != 0 {
					k.undecided("binary parameters")
				}
			}
			r = r[2+2*nf:]
			np := int(binary.BigEndian.Uint16(r))
			r = r[2:]
			for i := 0; i < np; i++ {
				l := int32(binary.BigEndian.Uint32(r))
				r = r[4:]
				if l < 0 {
					p.params = append(p.params, nil)
					continue
				}
				p.params = append(p.params, string(r[:l]))
				r = r[l:]
			}
			nr := int(binary.BigEndian.Uint16(r))
			for i := 0; i < nr; i++ {
				if binary.BigEndian.Uint16(r[2+2*i:]) != 0 {
					k.undecided("binary results")
				}
			}
			k.portals[pn] = p
			k.send('2', nil)
		case 'E':
			n, _ := str(b)
			p := k.portals[n]
			k.answer(p.sql, p.params, false)
		case 'C':
			k.send('3', nil)
		default:
			k.undecided("message " + string(t))
			k.finish()
		}
	}
}

// params is the number of parameters of the query.
func params(q string) (n int) {
	defer func() { _ = recover() }()
	for _, t := range tokens(q) {
		if t.kind == 'p' {
			if i, _ := strconv.Atoi(t.s); i > n {
				n = i
			}
		}
	}
	return
}

func (k *conn) undecided(why string) {
	k.s.mu.Lock()
	k.s.undec = why
	k.s.mu.Unlock()
}

// fail notes an error: a transaction is aborted by it.
func (k *conn) fail() {
	k.failed = true
	if k.tx == 'T' {
		k.tx = 'E'
	}
}

func (k *conn) refuse(why string) {
	k.bytes(message('E', errorBody("ERROR", "42601", why)))
	k.fail()
}

// eval evaluates the query; a nil table without failure is an empty query.
func (k *conn) eval(q string, ps []value, dry bool) (t *table, fail string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case unsupported:
			k.undecided(string(e) + " in " + q)
			t, fail = nil, "not supported here: "+string(e)
		case failing:
			if dry {
				return // may depend on the parameters
			}
			t, fail = nil, string(e)
		default:
			panic(e)
		}
	}()
	switch w := normal(q); {
	case utility(q) != "":
		return nil, ""
	case strings.HasPrefix(w, "set "):
		k.undecided(w)
		return nil, ""
	}
	p := parse(q)
	if p == nil {
		return nil, ""
	}
	db := *k.s.cat
	db.name = k.dbname
	return p.run(&scope{db: &db, params: ps}), ""
}

// normal is the statement without space and semicolons around it, in lower case.
func normal(q string) string {
	return strings.ToLower(strings.TrimSpace(strings.TrimRight(strings.TrimSpace(q), "; \t\n")))
}

// utility is the command tag of a statement that controls the transaction, or sets what no result depends on.
func utility(q string) string {
	w := normal(q)
	if strings.Contains(w, ";") {
		return ""
	}
	f := append(strings.Fields(w), "", "", "")
	switch f[0] {
	case "begin":
		return "BEGIN"
	case "start":
		return "START TRANSACTION"
	case "commit", "end":
		return "COMMIT"
	case "rollback", "abort":
		if f[1] == "to" || f[2] == "to" {
			return ""
		}
		return "ROLLBACK"
	case "set":
		if f[1] == "local" || f[1] == "session" {
			f = f[1:]
		}
		switch n := strings.SplitN(f[1], "=", 2)[0]; {
		case n == "transaction", n == "characteristics", n == "statement_timeout", n == "lock_timeout", n == "application_name", n == "extra_float_digits",
			strings.HasPrefix(n, "default_transaction_"), strings.HasPrefix(n, "idle_in_transaction"):
			return "SET"
		}
	}
	return ""
}

// control executes a utility statement.
func (k *conn) control(tag string) {
	switch tag {
	case "COMMIT":
		if k.tx == 'E' {
			tag = "ROLLBACK"
		}
		k.tx = 'I'
	case "ROLLBACK":
		k.tx = 'I'
	}
	k.send('C', []byte(tag+"\x00"))
	if !k.failed && (tag == "BEGIN" || tag == "START TRANSACTION") {
		k.tx = 'T'
	}
}

// ready tells that the connection is ready for the next query.
func (k *conn) ready() { k.send('Z', []byte{k.tx}) }

func describe(t *table) []byte {
	b := []byte{byte(len(t.cols) >> 8), byte(len(t.cols))}
	for i, c := range t.cols {
		b = append(append(b, c...), 0)
		size := map[int]int{tBool: 1, tName: 64, tInt8: 8, tInt4: 4, tOid: 4, tChar: 1, tText: -1}[t.types[i]]
		b = append(b, 0, 0, 0, 0, 0, 0, 0, 0, byte(t.types[i]>>8), byte(t.types[i]), byte(size>>8), byte(size), 255, 255, 255, 255, 0, 0)
	}
	return b
}

func (k *conn) simple(q string) { k.answer(q, nil, true) }

func (k *conn) answer(q string, ps []value, desc bool) {
	tag := utility(q)
	if k.tx == 'E' && tag != "COMMIT" && tag != "ROLLBACK" {
		k.bytes(message('E', errorBody("ERROR", "25P02", "current transaction is aborted, commands ignored until end of transaction block")))
		k.failed = true
		return
	}
	if tag != "" {
		k.control(tag)
		return
	}
	t, fail := k.eval(q, ps, false)
	switch {
	case fail != "":
		k.refuse(fail)
		return
	case t == nil:
		k.send('I', nil)
		return
	}
	if desc {
		k.send('T', describe(t))
	}
	odd := func() {
		k.s.mu.Lock()
		k.s.hit = true
		k.s.mu.Unlock()
	}
	switch f := k.pending; {
	case f.kind == "none":
		t.rows = nil
		odd()
	case f.kind != "null" && f.kind != "value" || f.at >= len(t.rows):
	default:
		t.rows = append([][]value{}, t.rows...)
		r := append([]value{}, t.rows[f.at]...)
		t.rows[f.at] = r
		if f.kind == "null" && f.col < len(r) {
			r[f.col] = nil
			odd()
		}
		for c := range r {
			if f.kind == "value" && t.types[c] == tOid {
				r[c] = raw(f.text)
				odd()
			}
		}
	}
	for _, r := range t.rows {
		b := []byte{byte(len(r) >> 8), byte(len(r))}
		for _, v := range r {
			if v == nil {
				b = append(b, 255, 255, 255, 255)
				continue
			}
			x, ok := v.(raw)
			if !ok {
				x = raw(text(v))
			}
			b = append(b, byte(len(x)>>24), byte(len(x)>>16), byte(len(x)>>8), byte(len(x)))
			b = append(b, x...)
		}
		k.send('D', b)
	}
	k.send('C', []byte(fmt.Sprintf("SELECT %d\x00", len(t.rows))))
}
