// Command prog runs the real program, as a process, on the real operating system: command line, configuration file,
// inotify, sockets. It binds the explorations on the virtual runtime to what users run.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/hired/gevulot/zzverif/x"
)

// patience is how long the program may take to do what it must do.
const patience = 20 * time.Second

func main() { x.Main() }

var (
	dir  string
	prog = os.Getenv("GEVULOT_PROG")
	ips  int
)

func setup() {
	var err error
	if dir, err = os.MkdirTemp(os.Getenv("MC_SCRATCH"), "prog-"); err != nil {
		panic(err)
	}
	if prog == "" {
		panic("GEVULOT_PROG is not set")
	}
}

// address returns a loopback address that nobody else uses.
func address() string {
	for {
		ips++
		ip := fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()%250, 1+os.Getpid()/250%250, 1+ips%250)
		l, err := net.Listen("tcp", ip+":0")
		if err != nil {
			continue
		}
		a := l.Addr().String()
		l.Close()
		return a
	}
}

type buffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *buffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *buffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

// proc is a run of the program.
type proc struct {
	c        *x.C
	cmd      *exec.Cmd
	out, err buffer
	done     chan struct{}
	code     int
	what     string
	listen   string
	db       net.Listener
}

func start(c *x.C, cwd string, args ...string) *proc {
	p := &proc{c: c, cmd: exec.Command(prog, args...), done: make(chan struct{}), what: fmt.Sprintf("%q", args)}
	p.cmd.Dir = cwd
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.err
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	for _, pre := range []string{"", "GEVULOT_"} { // what nobody asked for on the command line
		p.cmd.Env = append(p.cmd.Env, pre+"DEBUG=1", pre+"VERBOSE=1", pre+"LOG_LEVEL=debug", pre+"CONFIG=/nonexistent.toml", pre+"CONFIG_PATH=/nonexistent.toml", pre+"CONFIG_FILE=/nonexistent.toml", pre+"PORT=9", pre+"LISTEN=127.0.0.1:9")
	}
	p.cmd.Env = append(p.cmd.Env, "PGHOST=192.0.2.1", "PGPORT=9", "PGUSER=env", "PGDATABASE=env", "PGPASSWORD=env", "DATABASE_URL=postgres://env@192.0.2.1:9/env")
	started := make(chan error)
	go func() {
		runtime.LockOSThread() // the signal at the parent's death is tied to the thread
		err := p.cmd.Start()
		started <- err
		if err != nil {
			return
		}
		_ = p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	if err := <-started; err != nil {
		panic(err)
	}
	return p
}

func (p *proc) outputs() string {
	return fmt.Sprintf("stdout %.300q, stderr %.300q", p.out.String(), p.err.String())
}

// wait waits for the end of the program.
func (p *proc) wait() {
	select {
	case <-p.done:
	case <-time.After(patience):
		p.kill()
		p.c.Failf("arguments %s: the program does not end (%s)", p.what, p.outputs())
	}
}

func (p *proc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.done
	if p.db != nil {
		p.db.Close()
	}
}

func (p *proc) running() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

// until polls for a condition while the program runs.
func (p *proc) until(cond func() bool) bool {
	for end := time.Now().Add(patience); time.Now().Before(end); {
		if cond() {
			return true
		}
		if !p.running() {
			return cond()
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func accepts(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

func put(name, content string) {
	if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
		panic(err)
	}
}

func config(listen, db string) string {
	return fmt.Sprintf("listen = %q\ndatabase-url = \"postgres://u@%s/shop\"\n", listen, db)
}

// want is what a list of arguments must lead to.
type want struct {
	info, invalid, unspecified, verbose, given bool
	config                                     string
}

func parse(args []string) (w want) {
	seen := map[string]bool{}
	once := func(n string) {
		w.unspecified = w.unspecified || seen[n]
		seen[n] = true
	}
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "--":
			w.invalid = w.invalid || i+1 < len(args)
			return
		case a == "--help" || a == "--version" || a == "--help-long":
			once(a)
			w.info = true
		case a == "--verbose" || a == "-v":
			once("verbose")
			w.verbose = true
		case strings.HasPrefix(a, "--config="):
			once("config")
			w.config, w.given = a[len("--config="):], true
		case a == "--config" || a == "-c":
			once("config")
			if i+1 >= len(args) || strings.HasPrefix(args[i+1], "-") {
				w.invalid = true
				continue
			}
			i++
			w.config, w.given = args[i], true
		default:
			w.invalid = true
		}
	}
	return
}

func init() {
	alphabet := []string{"--help", "--version", "--verbose", "-v", "--config=good.toml", "--config", "-c", "good.toml", "--config=missing.toml", "--config=bad.toml", "--bogus", "--", "--help-long"}
	x.Add(&x.Space{Name: "program-args", Props: []string{"L01"}, Hang: 200, Setup: setup,
		What: "the program itself, run with every list of up to 2 (3) arguments out of 13, with a good, a missing or an unusable default configuration file: exit status, output, listening",
		Body: func(c *x.C) {
			var args []string
			for i, n := 0, c.Choose(c.N(2, 3)+1, "arguments"); i < n; i++ {
				args = append(args, alphabet[c.Choose(len(alphabet), "argument")])
			}
			w := parse(args)
			good, def := address(), address()
			put(filepath.Join(dir, "good.toml"), config(good, "localhost:1"))
			put(filepath.Join(dir, "bad.toml"), "listen = ")
			_ = os.Remove(filepath.Join(dir, "gevulot.toml"))
			usable, serves := false, ""
			if w.given {
				if usable = w.config == "good.toml"; usable {
					serves = good
				}
			} else {
				switch c.Choose(3, "default configuration") {
				case 0:
					usable, serves = true, def
					put(filepath.Join(dir, "gevulot.toml"), config(def, "localhost:1"))
				case 1:
				case 2:
					put(filepath.Join(dir, "gevulot.toml"), "listen = '127.0.0.1:1'")
				}
			}
			c.Note("%q", args)
			p := start(c, dir, args...)
			defer p.kill()
			bad := func(what string) {
				c.Failf("arguments %q: %s (status %d, %s)", args, what, p.code, p.outputs())
			}
			switch {
			case w.unspecified:
			case w.info:
				p.wait()
				if accepts(good) || accepts(def) {
					bad("the server is running")
				}
				if !w.invalid && p.code != 0 {
					bad("help or version must end with status 0")
				}
				if !w.invalid && p.out.String()+p.err.String() == "" {
					bad("nothing was printed")
				}
			case w.invalid || !usable:
				p.wait()
				if p.code != 1 || p.err.String() == "" {
					bad("the failure must be reported")
				}
			default:
				if !p.until(func() bool { return accepts(serves) }) || !p.running() {
					bad("the server does not accept connections at " + serves)
				}
				if debug := strings.Contains(p.out.String(), "level=debug"); debug && !w.verbose || !strings.Contains(p.out.String(), "debug output is enabled") && w.verbose {
					bad("debug output appears exactly if it is asked for")
				}
			}
		}})

	x.Add(&x.Space{Name: "program-relay", Props: []string{"S01", "S03", "S06"}, Hang: 200, Setup: setup,
		What: "the program itself between a client and a database on the loopback network: SSL request or not, every sequence of up to 2 (3) messages of several sizes in either direction, then either side hangs up, wholly or only its sending side",
		Body: func(c *x.C) {
			types, sizes := []string{"Q", "Z"}, []int{0, 300000}
			if c.N(0, 1) == 1 {
				types, sizes = append(types, "p", "\x00"), append(sizes, 5, 5000)
			}
			listen := address()
			db, err := net.Listen("tcp", strings.Split(address(), ":")[0]+":0")
			if err != nil {
				panic(err)
			}
			defer db.Close()
			put(filepath.Join(dir, "relay.toml"), config(listen, db.Addr().String()))
			p := start(c, dir, "-c", "relay.toml")
			defer p.kill()
			if !p.until(func() bool { return accepts(listen) }) {
				c.Failf("the server does not accept connections (%s)", p.outputs())
			}
			cl := dial(c, listen)
			defer cl.Close()
			if c.Bool("SSL") {
				send(c, cl, []byte{0, 0, 0, 8, 4, 210, 22, 47})
				if got := recv(c, cl, 1); got[0] != 'N' {
					c.Failf("SSL request answered with %q", got)
				}
			}
			st := startup("user", "u", "database", "shop", "x", "y")
			send(c, cl, st)
			_ = db.(*net.TCPListener).SetDeadline(time.Now().Add(patience))
			dc, err := db.Accept()
			if err != nil {
				c.Failf("the database is not contacted: %v (%s)", err, p.outputs())
			}
			defer dc.Close()
			if got := recv(c, dc, len(st)); !bytes.Equal(got, st) {
				c.Failf("the database got %q as the startup message", got)
			}
			for i, n := 0, c.Choose(c.N(2, 3)+1, "messages"); i < n; i++ {
				from, to, side := net.Conn(cl), dc, "client"
				if c.Bool("from the database") {
					from, to, side = dc, cl, "database"
				}
				f := frame(types[c.Choose(len(types), "type")], strings.Repeat("x", sizes[c.Choose(len(sizes), "size")]))
				go func() { _, _ = from.Write(f) }()
				if got := recv(c, to, len(f)); !bytes.Equal(got, f) {
					c.Failf("a message of the %s of %d bytes arrived as %.50q", side, len(f), got)
				}
				c.Step(1)
			}
			from, to := net.Conn(cl), dc
			if c.Bool("the database hangs up") {
				from, to = dc, cl
			}
			last := frame("X", "bye")
			send(c, from, last)
			if c.Bool("half") {
				_ = from.(*net.TCPConn).CloseWrite()
			} else {
				from.Close()
			}
			_ = to.SetReadDeadline(time.Now().Add(patience))
			got, err := io.ReadAll(to)
			if err != nil || !bytes.Equal(got, last) {
				c.Failf("after the hang-up the other side got %q, %v", got, err)
			}
			if !p.running() {
				c.Failf("the program has ended: %s", p.outputs())
			}
		}})

	x.Add(&x.Space{Name: "program-large", Props: []string{"S01"}, Hang: 200, Setup: setup,
		What: "the program itself relays large frames (64 KiB to 17 MiB, thorough 129 MiB) of two types in either direction, each followed by a small one",
		Body: func(c *x.C) {
			sizes := []int{1 << 16, 1<<16 - 5, 1<<16 - 4, 1 << 20, 1<<24 - 4, 1<<24 + 1, 17 << 20}
			if c.N(0, 1) == 1 {
				sizes = append(sizes, 64<<20, 129<<20)
			}
			p, cl, dc := relaying(c)
			defer p.kill()
			defer cl.Close()
			defer dc.Close()
			from, to, t := net.Conn(cl), dc, []string{"Q", "d"}[c.Choose(2, "type")]
			if c.Bool("from the database") {
				from, to = dc, cl
			}
			n := sizes[c.Choose(len(sizes), "size")]
			f := frame(t, strings.Repeat("0123456789abcde\n", n/16)+strings.Repeat("y", n%16))
			f = append(f, frame("X", "next")...)
			c.Note("%d bytes", n)
			go func() { _, _ = from.Write(f) }()
			if got := recv(c, to, len(f)); !bytes.Equal(got, f) {
				c.Failf("a message of %d bytes did not arrive as it was sent", n)
			}
		}})

	x.Add(&x.Space{Name: "program-backlog", Props: []string{"S02"}, Hang: 200, Setup: setup,
		What: "the program itself while one side does not read and more than all its queues and sockets hold is sent to that side: the other direction goes on; then everything arrives in order",
		Body: func(c *x.C) {
			p, cl, dc := relaying(c)
			defer p.kill()
			defer cl.Close()
			defer dc.Close()
			slow, other := net.Conn(cl), net.Conn(dc)
			if c.Bool("the database does not read") {
				slow, other = dc, cl
			}
			small := c.Bool("small messages")
			var all []byte
			for i, n := 0, []int{300, 60000}[map[bool]int{false: 0, true: 1}[small]]; i < n; i++ {
				all = append(all, frame("D", fmt.Sprintf("%08d", i)+strings.Repeat("z", map[bool]int{false: 100000, true: 400}[small]))...)
			}
			go func() { _, _ = other.Write(all) }()
			// nothing is read until the other direction has worked, at several moments
			for i := 0; i < 5; i++ {
				time.Sleep([]time.Duration{0, 20, 100, 200, 200}[i] * time.Millisecond)
				f := frame("Q", fmt.Sprintf("other way %d", i))
				send(c, slow, f)
				if got := recv(c, other, len(f)); !bytes.Equal(got, f) {
					c.Failf("the other direction delivered %.50q", got)
				}
			}
			if got := recv(c, slow, len(all)); !bytes.Equal(got, all) {
				i := 0
				for got[i] == all[i] {
					i++
				}
				c.Failf("the traffic that had piled up differs from what was sent at byte %d of %d", i, len(all))
			}
		}})

	x.Add(&x.Space{Name: "program-hostile", Props: []string{"S07"}, Hang: 200, Setup: setup,
		What: "the program itself gets hostile frames (every type byte, hostile lengths and bodies, cut off or not) from clients before and after the startup, and from databases: it lives, an established session relays on, new clients are served",
		Body: func(c *x.C) {
			where := c.Choose(3, "where")
			t := byte(c.Choose(256, "type"))
			p, cl, dc := relaying(c)
			defer p.kill()
			defer cl.Close()
			defer dc.Close()
			var bs [][]byte
			for _, l := range []uint32{0, 3, 4, 5, 9, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
				b := []byte{t, 0, 0, 0, 0}
				binary.BigEndian.PutUint32(b[1:], l)
				bs = append(bs, b, append(b[:5:5], 0, 0, 0, 1))
			}
			for _, s := range []string{"", "\x00", "\xff\xff", "\x00\x01\xff\xff\xff\xfe", "\x7f\xff\xff\xff", "S\x00", "S", "abc", "\x00\x00\x00\x0a\xff\xff\xff\xff"} {
				bs = append(bs, frame(string([]byte{t}), s))
			}
			for i := 0; i < 4; i++ {
				b := []byte{0, 0, 0, 9, 0, 3, 0, 0, 0}
				b[3+i] = t
				bs = append(bs, b)
			}
			for i, b := range bs {
				c.Note("%q", b)
				bad := dial(c, p.listen)
				if where == 0 {
					send(c, bad, b)
				} else {
					send(c, bad, startup("user", "u", "database", "shop"))
					_ = p.db.(*net.TCPListener).SetDeadline(time.Now().Add(patience))
					d, err := p.db.Accept()
					if err != nil {
						c.Failf("the database is not contacted: %v (%s)", err, p.outputs())
					}
					to := net.Conn(bad)
					if where == 2 {
						to = d
					}
					send(c, to, b)
					if i%2 == 0 {
						d.Close()
					} else {
						defer d.Close()
					}
				}
				if i%2 == 0 {
					bad.Close()
				} else {
					defer bad.Close()
				}
				for _, w := range [][2]net.Conn{{cl, dc}, {dc, cl}} {
					f := frame("Q", "bystander")
					send(c, w[0], f)
					if got := recv(c, w[1], len(f)); !bytes.Equal(got, f) {
						c.Failf("after hostile bytes %q (%d) the established session got %q", b, where, got)
					}
				}
				c.Step(1)
			}
			// a database connection of a hostile client may still be waiting to be accepted
			a, d := dial(c, p.listen), net.Conn(nil)
			defer a.Close()
			send(c, a, startup("user", "u", "database", "shop", "who", "me"))
			want := startup("user", "u", "database", "shop", "who", "me")
			for end := time.Now().Add(patience); d == nil; {
				_ = p.db.(*net.TCPListener).SetDeadline(end)
				e, err := p.db.Accept()
				if err != nil {
					c.Failf("after hostile bytes a new client is not served: %v (%s)", err, p.outputs())
				}
				defer e.Close()
				got := make([]byte, len(want))
				_ = e.SetReadDeadline(time.Now().Add(patience))
				if _, err := io.ReadFull(e, got); err == nil && bytes.Equal(got, want) {
					d = e
				}
			}
			if !p.running() {
				c.Failf("the program has ended: %s", p.outputs())
			}
		}})

	x.Add(&x.Space{Name: "program-edit", Props: []string{"L03", "V03"}, Hang: 200, Setup: setup,
		What: "the program itself while its configuration file is edited: every sequence of up to 2 (3) edits (other address, same address and other database, incomplete, invalid), written at once, truncated first or in parts; a session goes on throughout",
		Body: func(c *x.C) {
			var dbs []net.Listener
			for i := 0; i < 2; i++ {
				l, err := net.Listen("tcp", strings.Split(address(), ":")[0]+":0")
				if err != nil {
					panic(err)
				}
				defer l.Close()
				dbs = append(dbs, l)
			}
			addrs := []string{address(), address()}
			file := filepath.Join(dir, "edit.toml")
			text := func(a, d int) string { return config(addrs[a], dbs[d].Addr().String()) }
			put(file, text(0, 0))
			p := start(c, dir, "-c", file)
			defer p.kill()
			if !p.until(func() bool { return accepts(addrs[0]) }) {
				c.Failf("the server does not accept connections (%s)", p.outputs())
			}
			cl, dc := session(c, addrs[0], dbs[0])
			defer cl.Close()
			defer dc.Close()
			a, d := 0, 0
			var hist []string
			for i, n := 0, 1+c.Choose(c.N(2, 3), "edits"); i < n; i++ {
				var t string
				switch k := c.Choose(4, "edit"); k {
				case 0:
					a, t = 1-a, text(1-a, d)
				case 1:
					d, t = 1-d, text(a, 1-d)
				case 2:
					t = fmt.Sprintf("listen = %q\n", addrs[1-a])
				case 3:
					t = text(1-a, d) + "x"
				}
				switch how := c.Choose(3, "how"); how {
				case 0:
					put(file, t)
				default:
					f, err := os.OpenFile(file, os.O_WRONLY|os.O_TRUNC, 0)
					if err != nil {
						panic(err)
					}
					if how == 2 {
						time.Sleep(2 * time.Millisecond)
						_, _ = f.WriteString(t[:len(t)/2])
						time.Sleep(2 * time.Millisecond)
						t = t[len(t)/2:]
					}
					_, _ = f.WriteString(t)
					f.Close()
				}
				hist = append(hist, t)
				if c.Bool("settles") {
					time.Sleep(10 * time.Millisecond)
				}
			}
			// a complete edit, to get a definite end
			put(file, text(a, d))
			c.Note("%q", hist)
			if !p.until(func() bool { return accepts(addrs[a]) && !accepts(addrs[1-a]) }) {
				c.Failf("after the edits %q the server accepts at %s: %v, at %s: %v (%s)", hist, addrs[a], accepts(addrs[a]), addrs[1-a], accepts(addrs[1-a]), p.outputs())
			}
			// new sessions use the new database, sooner or later
			end := time.Now().Add(patience)
			for {
				k := trySession(addrs[a], dbs, d)
				if k {
					break
				}
				if time.Now().After(end) || !p.running() {
					c.Failf("after the edits %q new sessions do not use the latest database (%s)", hist, p.outputs())
				}
			}
			for _, w := range [][2]net.Conn{{cl, dc}, {dc, cl}} {
				f := frame("Q", "still there")
				send(c, w[0], f)
				if got := recv(c, w[1], len(f)); !bytes.Equal(got, f) {
					c.Failf("after the edits %q the established session got %q", hist, got)
				}
			}
		}})

	x.Add(&x.Space{Name: "program-edit-ways", Props: []string{"L03"}, Hang: 200, Setup: setup,
		What: "the program itself: one or two edits, each made in place in one of 12 ways (without truncation, byte by byte, cut to length before or after, appended, through a link, after the file has been moved away and back, had its mode or time changed, ...): the server ends up with the last contents",
		Body: func(c *x.C) {
			addrs := []string{address(), address(), address()}
			file := filepath.Join(dir, "ways.toml")
			for _, l := range []string{file, file + ".hard", file + ".soft", file + "~"} {
				os.Remove(l)
			}
			text := func(k int) string { return config(addrs[k], fmt.Sprintf("127.0.0.1:%d", 1000+k)) }
			put(file, text(0))
			if err := os.Link(file, file+".hard"); err != nil {
				panic(err)
			}
			if err := os.Symlink("ways.toml", file+".soft"); err != nil {
				panic(err)
			}
			p := start(c, dir, "-c", "ways.toml")
			defer p.kill()
			if !p.until(func() bool { return accepts(addrs[0]) }) {
				c.Failf("the server does not accept connections (%s)", p.outputs())
			}
			must := func(err error) {
				if err != nil {
					panic(err)
				}
			}
			// over writes t over the contents in parts of n bytes.
			over := func(name, t string, n int, flags int) {
				f, err := os.OpenFile(name, os.O_WRONLY|flags, 0)
				must(err)
				for len(t) > n {
					_, err = f.WriteString(t[:n])
					must(err)
					t = t[n:]
				}
				_, err = f.WriteString(t)
				must(err)
				must(f.Close())
			}
			type way struct {
				what string
				do   func(t string)
			}
			ways := []way{
				{"written", func(t string) { put(file, t) }},
				{"written over the old contents, then cut to length", func(t string) {
					over(file, t, len(t), 0)
					must(os.Truncate(file, int64(len(t))))
				}},
				{"cut to length, then written over the old contents", func(t string) {
					must(os.Truncate(file, int64(len(t))))
					over(file, t, len(t), 0)
				}},
				{"written byte by byte", func(t string) { over(file, t, 1, os.O_TRUNC) }},
				{"written over the old contents byte by byte", func(t string) {
					must(os.Truncate(file, int64(len(t))))
					over(file, t, 1, 0)
				}},
				{"truncated, 20 ms later appended to in two steps", func(t string) {
					must(os.Truncate(file, 0))
					time.Sleep(20 * time.Millisecond)
					over(file, t[:9], 99, os.O_APPEND)
					over(file, t[9:], 999, os.O_APPEND)
				}},
				{"written through a hard link", func(t string) { put(file+".hard", t) }},
				{"written through a symbolic link", func(t string) { put(file+".soft", t) }},
				{"moved away and back, then written", func(t string) {
					mv(file, file+"~")
					mv(file+"~", file)
					put(file, t)
				}},
				{"moved away and 20 ms later back, then written", func(t string) {
					mv(file, file+"~")
					time.Sleep(20 * time.Millisecond)
					mv(file+"~", file)
					time.Sleep(20 * time.Millisecond)
					put(file, t)
				}},
				{"made read-only and writable again, dated back, then written and dated back", func(t string) {
					must(os.Chmod(file, 0444))
					must(os.Chmod(file, 0644))
					past := time.Unix(1000000000, 0)
					must(os.Chtimes(file, past, past))
					put(file, t)
					must(os.Chtimes(file, past, past))
				}},
				{"linked and unlinked, then written", func(t string) {
					must(os.Link(file, file+".more"))
					must(os.Remove(file + ".more"))
					put(file, t)
				}},
			}
			var hist []string
			for i, n := 1, 1+c.Choose(2, "edits"); i <= n; i++ {
				w := ways[c.Choose(len(ways), "way")]
				hist = append(hist, w.what)
				w.do(text(i))
				if i < n && c.Bool("settles") {
					time.Sleep(10 * time.Millisecond)
				}
			}
			k := len(hist)
			c.Note("%q", hist)
			if !p.until(func() bool { return accepts(addrs[k]) && !accepts(addrs[k-1]) }) {
				c.Failf("the file was %q: the server accepts at the latest address: %v, at the one before: %v (%s)", hist, accepts(addrs[k]), accepts(addrs[k-1]), p.outputs())
			}
		}})
}

// relaying starts the program and establishes a session.
func relaying(c *x.C) (p *proc, cl, dc net.Conn) {
	listen := address()
	db, err := net.Listen("tcp", strings.Split(address(), ":")[0]+":0")
	if err != nil {
		panic(err)
	}
	put(filepath.Join(dir, "relay.toml"), config(listen, db.Addr().String()))
	p = start(c, dir, "-c", "relay.toml")
	p.listen, p.db = listen, db
	if !p.until(func() bool { return accepts(listen) }) {
		c.Failf("the server does not accept connections (%s)", p.outputs())
	}
	cl, dc = session(c, listen, db)
	return
}

func dial(c *x.C, addr string) net.Conn {
	cl, err := net.DialTimeout("tcp", addr, patience)
	if err != nil {
		c.Failf("connecting to %s: %v", addr, err)
	}
	return cl
}

func send(c *x.C, w net.Conn, b []byte) {
	_ = w.SetWriteDeadline(time.Now().Add(patience))
	if _, err := w.Write(b); err != nil {
		c.Failf("sending: %v", err)
	}
}

func recv(c *x.C, r net.Conn, n int) []byte {
	b := make([]byte, n)
	_ = r.SetReadDeadline(time.Now().Add(patience))
	if k, err := io.ReadFull(r, b); err != nil {
		c.Failf("%d of %d bytes received (%.50q), then %v", k, n, b[:k], err)
	}
	return b
}

func frame(t, body string) []byte {
	b := append([]byte(t), 0, 0, 0, 0)
	binary.BigEndian.PutUint32(b[1:], uint32(4+len(body)))
	return append(b, body...)
}

func startup(kv ...string) []byte {
	b := []byte{0, 0, 0, 0, 0, 3, 0, 0}
	for _, s := range kv {
		b = append(append(b, s...), 0)
	}
	b = append(b, 0)
	binary.BigEndian.PutUint32(b, uint32(len(b)))
	return b
}

// session establishes a session through the program.
func session(c *x.C, addr string, db net.Listener) (cl, dc net.Conn) {
	cl = dial(c, addr)
	st := startup("user", "u", "database", "shop")
	send(c, cl, st)
	_ = db.(*net.TCPListener).SetDeadline(time.Now().Add(patience))
	dc, err := db.Accept()
	if err != nil {
		c.Failf("the database is not contacted: %v", err)
	}
	if got := recv(c, dc, len(st)); !bytes.Equal(got, st) {
		c.Failf("the database got %q as the startup message", got)
	}
	return
}

// trySession tells whether a new client gets to database d.
func trySession(addr string, dbs []net.Listener, d int) bool {
	cl, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		return false
	}
	defer cl.Close()
	if _, err := cl.Write(startup("user", "u", "database", "shop")); err != nil {
		return false
	}
	for end := time.Now().Add(2 * time.Second); time.Now().Before(end); {
		for i, l := range dbs {
			_ = l.(*net.TCPListener).SetDeadline(time.Now().Add(time.Millisecond))
			dc, err := l.Accept()
			if err != nil {
				continue
			}
			dc.Close()
			return i == d
		}
	}
	return false
}

func mv(a, b string) {
	if err := os.Rename(a, b); err != nil {
		panic(err)
	}
}
