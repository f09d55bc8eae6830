package prog

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Determined are programs with one outcome, written in many ways, to see that the rewriting keeps the meaning.
var Determined = map[string]func() string{}

var errX = errors.New("x")

type pair struct{ a, b int }

type node struct {
	next *node
	val  int
	arr  [3]int
	m    map[string]int
	f    func(int) int
	p    pair
	ch   chan int
	mu   sync.Mutex
}

func (n *node) get() int      { return n.val }
func (p pair) sum() int       { return p.a + p.b }
func (p *pair) inc(d int) int { p.a += d; return p.a }

type named chan int
type recvOnly <-chan string
type strs []string

func (s strs) Len() int           { return len(s) }
func (s strs) Less(i, j int) bool { return s[i] < s[j] }
func (s strs) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }

var (
	global   = map[string]int{"a": 1}
	dep1     = dep2 + 1
	dep2     = initial()
	gx, gy   = two()
	inited   string
	gfn      = func(x int) int { return x + dep1 }
	_        = initial()
	gmu      sync.Mutex
	gptr     = &pair{1, 2}
	gslice   = []int{1, 2, 3}
	garr     [4]int
	gchan    = make(chan int, 1)
	gonce    sync.Once
	gcounter int64
)

func initial() int       { return 41 }
func two() (int, string) { return 7, "seven" }

func init() { inited += "a" }
func init() { inited += "b" }

type iface interface{ get() int }

func named2(x int) (r int, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("recovered %v", p)
			r++
		}
	}()
	r = x
	if x > 1 {
		panic("big")
	}
	return r * 10, nil
}

func variadic(s string, x ...int) string { return fmt.Sprint(s, len(x), x) }

func multi() (a, b int, s string) { return 1, 2, "three" }

func order(log *[]string, s string, v int) int {
	*log = append(*log, s)
	return v
}

const big = 1 << 40

type shape int

const (
	sq shape = iota
	ci
	tr
)

func (s shape) String() string { return [...]string{"sq", "ci", "tr"}[s] }

type embed struct {
	*node
	pair
	sync.Mutex
	extra string
}

type withArr struct {
	a [2]struct{ x, y int }
	s []struct{ z *int }
}

func init() {
	add := func(n string, f func() string) { Determined[n] = f }
	add("globals", func() string {
		return fmt.Sprint(dep1, dep2, gx, gy, inited, gfn(1), global, *gptr, gslice, garr, big)
	})
	add("assign", func() string {
		x, y := 1, 2
		x, y = y, x
		f := func() { x++; y += x }
		f()
		a := []int{1, 2, 3}
		i := 0
		i, a[i] = 2, 9
		p := &pair{1, 2}
		p.a, p.b = p.b, p.a
		m := map[string]pair{}
		m["q"] = pair{3, 4}
		q, ok := m["q"]
		_, no := m["z"]
		var e interface{} = 5
		n, isInt := e.(int)
		_, isStr := e.(string)
		x <<= 2
		y &^= 1
		a[1] *= 5
		p.a--
		return fmt.Sprint(x, y, i, a, *p, q, ok, no, n, isInt, isStr, m)
	})
	add("order of evaluation", func() string {
		var log []string
		arr := make([]int, 3)
		arr[order(&log, "i", 1)] = order(&log, "v", 5)
		m := map[int]int{}
		m[order(&log, "k", 1)] += order(&log, "w", 5)
		s := fmt.Sprint(order(&log, "a", 1)+order(&log, "b", 2), order(&log, "c", 3))
		if order(&log, "l", 0) == 1 && order(&log, "never", 1) == 1 {
			s += "!"
		}
		return fmt.Sprint(arr, m, s, log)
	})
	add("closures", func() string {
		var fs []func() int
		for i := 0; i < 3; i++ {
			j := i
			fs = append(fs, func() int { j++; return j })
		}
		s := ""
		for _, f := range fs {
			s += fmt.Sprint(f(), f())
		}
		acc := 0
		add := func(d int) func() { return func() { acc += d } }
		a, b := add(1), add(10)
		a()
		b()
		b()
		var rec func(int) int
		rec = func(n int) int {
			if n == 0 {
				return 0
			}
			return n + rec(n-1)
		}
		return fmt.Sprint(s, acc, rec(4))
	})
	add("defers", func() string {
		var log []string
		func() {
			defer func() { log = append(log, fmt.Sprint("r", recover())) }()
			for i := 0; i < 3; i++ {
				defer func(n int) { log = append(log, fmt.Sprint("d", n)) }(i)
			}
			ch := make(chan int)
			defer close(ch)
			m := map[string]int{"a": 1}
			defer delete(m, "a")
			var mu sync.Mutex
			mu.Lock()
			defer mu.Unlock()
			var np *node
			_ = np.val
		}()
		a, err := named2(1)
		b, err2 := named2(2)
		return fmt.Sprint(log, a, err, b, err2)
	})
	add("switches", func() string {
		s := ""
		for i := 0; i < 6; i++ {
			switch j := i * 2; {
			case j == 0:
				s += "zero "
			case j < 4:
				s += "small "
				fallthrough
			case j == 100:
				s += "fell "
			case j == 8:
				break
			default:
				s += fmt.Sprint(j, " ")
			}
		}
		for _, v := range []interface{}{1, "a", nil, 2.5, errX, &node{val: 3}, []int{1}, map[string]int{}, pair{1, 2}} {
			switch x := v.(type) {
			case nil:
				s += "nil "
			case int, float64:
				s += fmt.Sprintf("num %v ", x)
			case string:
				s += x + " "
			case error:
				s += x.Error() + " "
			case iface:
				s += fmt.Sprint(x.get(), " ")
			case []int:
				s += fmt.Sprint(len(x), " ")
			default:
				s += fmt.Sprintf("%T ", x)
			}
		}
		switch n, err := named2(1); err {
		case nil:
			s += fmt.Sprint(n)
		}
		switch sq {
		case ci, tr:
			s += "no"
		case sq:
			s += sq.String() + ci.String()
		}
		return s
	})
	add("loops and labels", func() string {
		s := ""
	outer:
		for i := 0; ; i++ {
			for j := range []int{0, 1, 2} {
				switch {
				case j == 1 && i == 0:
					continue outer
				case i == 2:
					break outer
				}
				s += fmt.Sprint(i, j, " ")
			}
		}
		n := 0
	again:
		n++
		if n < 3 {
			goto again
		}
		for range "ab" {
			n++
		}
		for i, r := range "aé" {
			s += fmt.Sprint(i, string(r))
		}
		arr := [3]int{1, 2, 3}
		for i, v := range arr {
			arr[2] = 10
			s += fmt.Sprint(i, v)
		}
		for i := range &arr {
			arr[i]++
		}
		var k int
		for k = range arr {
		}
		var pp pair
		for pp.a, pp.b = range []int{5, 6} {
		}
		for a, b := 0, 10; a < b; a, b = a+1, b-2 {
			s += fmt.Sprint("<", a, b)
		}
	sel:
		for {
			ch := make(chan int, 1)
			ch <- 1
			select {
			case <-ch:
				break sel
			}
		}
		return fmt.Sprint(s, n, arr, k, pp)
	})
	add("maps", func() string {
		m := map[string]int{"a": 1, "b": 2, "c": 3}
		var ks strs
		sum := 0
		for k, v := range m {
			ks = append(ks, k)
			sum += v
		}
		sort.Sort(ks)
		for k := range m {
			if k != "a" {
				delete(m, k)
			}
		}
		for range m {
			sum++
		}
		m["z"]++
		mm := map[pair]map[string][]int{}
		mm[pair{1, 2}] = map[string][]int{}
		mm[pair{1, 2}]["x"] = append(mm[pair{1, 2}]["x"], 4)
		mp := map[int]*node{1: {val: 3}}
		mp[1].val++
		mp[1].arr[2] = 7
		delete(mm, pair{})
		var nilm map[string]int
		st := struct{ m map[string]int }{m: map[string]int{}}
		st.m["q"] += 3
		return fmt.Sprint(ks, sum, m, len(m), mm, mp[1].val, mp[1].arr, nilm["x"], len(nilm), st)
	})
	add("structures", func() string {
		n := &node{val: 1, m: map[string]int{}, p: pair{1, 2}, f: func(x int) int { return x * 2 }}
		n.next = &node{val: 2, arr: [3]int{4, 5, 6}}
		n.next.arr[1]++
		n.p.a = n.f(n.next.arr[1])
		n.m["k"] = n.p.sum()
		pp := &n.p
		pp.b = 100
		f := n.get
		g := (*node).get
		h := pair.sum
		n.val = 50
		inc := n.p.inc
		inc(1)
		e := embed{node: n, pair: pair{8, 9}, extra: "x"}
		e.Lock()
		e.val++
		e.node.val++
		e.a += 2
		e.Unlock()
		w := withArr{s: make([]struct{ z *int }, 2)}
		w.a[1].y = 3
		z := 4
		w.s[1].z = &z
		*w.s[1].z += 5
		c := *n.next
		c.arr[0] = 99
		anon := []struct {
			a int
			b *pair
		}{{1, &pair{2, 3}}, {a: 4}}
		anon[0].b.a = 7
		pa := &anon[1]
		pa.a++
		return fmt.Sprint(f(), g(n), h(n.p), *pp, n.m, e.get(), e.sum(), e.extra, w.a, z, n.next.arr, c.arr, anon[0].b, anon[1].a, len(anon[:1]), cap(anon[:1:2]))
	})
	add("conversions and calls", func() string {
		a, b, s := multi()
		t := fmt.Sprint(multi())
		var r io.Reader = strings.NewReader("hello")
		buf := bytes.NewBuffer(nil)
		n, err := io.Copy(buf, r)
		var i8 = int8(a + 200)
		bs := append([]byte("x"), "yz"...)
		copy(bs[1:], "Q")
		var e error
		_, isNil := e.(fmt.Stringer)
		u := func(x ...int) int { return len(x) }(gslice...)
		np := new(int)
		*np = 3
		pp := &np
		**pp += 2
		return fmt.Sprint(a, b, s, t, buf.String(), n, err, i8, string(bs), isNil, variadic("v"), variadic("w", 1, 2), variadic("u", gslice...), u, *np, len([3]int{}), real(complex(1, 2)), errors.Is(fmt.Errorf("w: %w", errX), errX))
	})
	add("channels", func() string {
		ch := make(chan int, 3)
		ch <- 1
		ch <- 2
		var so chan<- int = ch
		so <- 3
		s := fmt.Sprint(len(ch), cap(ch), len(so), cap(so))
		v := <-ch
		w, ok := <-ch
		close(ch)
		x, ok2 := <-ch
		y, ok3 := <-ch
		var z, ok4 = <-ch
		nm := make(named, 1)
		nm <- 5
		s += fmt.Sprint(v, w, ok, x, ok2, y, ok3, z, ok4, <-nm, len(nm))
		rs := make(chan string, 2)
		rs <- "a"
		rs <- "b"
		close(rs)
		for t := range recvOnly(rs) {
			s += t
		}
		type item struct {
			n  int
			ch chan bool
		}
		items := make(chan *item)
		go func() {
			defer close(items)
			for i := 0; i < 3; i++ {
				it := &item{i, make(chan bool)}
				items <- it
				<-it.ch
			}
		}()
		for it := range items {
			s += fmt.Sprint(it.n)
			close(it.ch)
		}
		var t string
		strs := make(chan string, 2)
		strs <- "p"
		strs <- "q"
		close(strs)
		for t = range strs {
		}
		var nilch chan int
		select {
		case <-nilch:
			s += "never"
		case nilch <- 1:
			s += "never"
		default:
			s += "default"
		}
		if v, ok := <-strs; !ok {
			s += "closed" + v
		}
		errs := make(chan error, 1)
		errs <- nil
		err := <-errs
		ifs := make(chan interface{}, 2)
		ifs <- 1
		ifs <- nil
		n := (<-ifs).(int)
		nn := <-ifs
		cc := make(chan chan int, 1)
		cc <- make(chan int, 1)
		(<-cc) <- 1
		m := map[string]chan int{"a": make(chan int, 1)}
		m["a"] <- 4
		arr := []int{0, 0}
		arr[<-m["a"]-3]++
		func(a, b int) { s += fmt.Sprint(a, b) }(len(ifs), cap(ifs))
		return fmt.Sprint(s, t, err, n, nn, arr)
	})
	add("selects", func() string {
		s := ""
		a, b := make(chan int, 1), make(chan string, 1)
		done := make(chan struct{})
		for i := 0; i < 4; i++ {
			switch i {
			case 0:
				a <- 1
			case 1:
				b <- "x"
			case 3:
				close(done)
			}
			select {
			case v := <-a:
				s += fmt.Sprint("a", v)
			case v, ok := <-b:
				s += fmt.Sprint("b", v, ok)
			case <-done:
				s += "done"
			default:
				s += "-"
			}
		}
		full := make(chan int, 1)
		for i := 0; i < 3; i++ {
			select {
			case full <- i:
				s += "sent"
			default:
				s += "full"
				<-full
			}
		}
		var st struct {
			v  int
			ok bool
		}
		arr := make([]int, 2)
		c := make(chan int, 2)
		c <- 5
		c <- 6
		select {
		case st.v, st.ok = <-c:
		}
		select {
		case arr[1] = <-c:
		}
		close(c)
		select {
		case _, ok := <-c:
			s += fmt.Sprint(ok)
		}
		f := func() chan int { return full }
		<-full
		select {
		case f() <- len(s) % 3:
		}
		return fmt.Sprint(s, st, arr, <-full)
	})
	add("goroutines", func() string {
		var wg sync.WaitGroup
		var mu sync.Mutex
		sum := 0
		add := func(n int) {
			defer wg.Done()
			mu.Lock()
			sum += n
			mu.Unlock()
		}
		p := &pair{}
		for i := 0; i < 3; i++ {
			wg.Add(4)
			go add(i)
			go func() { add(10) }()
			go func(n int, s ...string) { add(n * len(s)) }(i, "a", "b")
			go func() error { add(100); return nil }()
		}
		wg.Wait()
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.inc(5)
		}()
		wg.Wait()
		go p.inc(3)
		res := make(chan int)
		f := []func(chan int){func(c chan int) { c <- 1 }, func(c chan int) { c <- 2 }}
		go f[1](res)
		v := <-res
		m := map[string]func(int, error){"k": func(n int, err error) { res <- n }}
		go m["k"](7, nil)
		v += <-res
		done := make(chan bool)
		go close(done)
		<-done
		return fmt.Sprint(sum, v, p.b)
	})
	add("sync", func() string {
		var once sync.Once
		n := 0
		for i := 0; i < 3; i++ {
			once.Do(func() { n++ })
		}
		var rw sync.RWMutex
		rw.RLock()
		rw.RLock()
		rw.RUnlock()
		rw.RUnlock()
		rw.Lock()
		rw.Unlock()
		var l sync.Locker = &rw
		l.Lock()
		l.Unlock()
		cond := sync.NewCond(&sync.Mutex{})
		ready := false
		go func() {
			cond.L.Lock()
			ready = true
			cond.L.Unlock()
			cond.Broadcast()
		}()
		cond.L.Lock()
		for !ready {
			cond.Wait()
		}
		cond.L.Unlock()
		var m sync.Map
		m.Store("a", 1)
		v, ok := m.Load("a")
		_, loaded := m.LoadOrStore("a", 2)
		m.Range(func(k, v interface{}) bool { n += v.(int); return true })
		m.Delete("a")
		_, gone := m.Load("a")
		var c int32
		atomic.AddInt32(&c, 2)
		sw := atomic.CompareAndSwapInt32(&c, 2, 5)
		atomic.AddInt64(&gcounter, 3)
		var av atomic.Value
		nilv := av.Load()
		av.Store([]string{"x"})
		pool := sync.Pool{New: func() interface{} { return new(pair) }}
		pr := pool.Get().(*pair)
		pool.Put(pr)
		gmu.Lock()
		defer gmu.Unlock()
		gonce.Do(func() { garr[1] = 4 })
		return fmt.Sprint(n, v, ok, loaded, gone, c, sw, gcounter, nilv, av.Load().([]string), *pr, garr)
	})
	add("time and context", func() string {
		s := ""
		ctx, cancel := context.WithCancel(context.Background())
		select {
		case <-ctx.Done():
			s += "early"
		default:
		}
		child, stop := context.WithTimeout(context.WithValue(ctx, "k", "v"), time.Hour)
		defer stop()
		cancel()
		<-child.Done()
		s += fmt.Sprint(child.Err(), child.Value("k"), ctx.Err() == context.Canceled)
		short, stop2 := context.WithTimeout(context.Background(), time.Millisecond)
		defer stop2()
		<-short.Done()
		s += fmt.Sprint(short.Err())
		t := time.NewTimer(time.Hour)
		s += fmt.Sprint(t.Stop(), t.Stop())
		select {
		case <-time.After(time.Millisecond):
			s += "after"
		case <-time.After(time.Hour):
			s += "never"
		}
		start := time.Now()
		time.Sleep(2 * time.Millisecond)
		s += fmt.Sprint(time.Since(start) >= 2*time.Millisecond)
		tk := time.NewTicker(time.Millisecond)
		<-tk.C
		<-tk.C
		tk.Stop()
		fired := make(chan bool)
		af := time.AfterFunc(time.Millisecond, func() { close(fired) })
		<-fired
		s += fmt.Sprint(af.Stop())
		var d time.Duration = 1500 * time.Millisecond
		return s + d.String() + time.Unix(0, 0).UTC().Format(time.RFC3339)
	})
	add("network", func() string {
		s := ""
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return err.Error()
		}
		got := make(chan string, 1)
		go func() {
			c, err := ln.Accept()
			if err != nil {
				got <- err.Error()
				return
			}
			b, err := io.ReadAll(c)
			_, _ = c.Write([]byte("answer"))
			c.Close()
			got <- fmt.Sprint(string(b), err)
		}()
		c, err := net.Dial("tcp", ln.Addr().String())
		if err != nil {
			return err.Error()
		}
		_, _ = c.Write([]byte("hello "))
		_, _ = c.Write([]byte("world"))
		_ = c.(*net.TCPConn).CloseWrite()
		b, err := io.ReadAll(c)
		s += fmt.Sprint(string(b), err, <-got)
		_, err = c.Read(make([]byte, 1))
		s += fmt.Sprint(err)
		s += fmt.Sprint(c.Close() == nil, c.Close() == nil)
		_, err = c.Write([]byte("x"))
		s += fmt.Sprint(errors.Is(err, net.ErrClosed), strings.Contains(err.Error(), "use of closed network connection"))
		_, err = c.Read(make([]byte, 1))
		s += fmt.Sprint(errors.Is(err, net.ErrClosed))
		accErr := make(chan error, 1)
		go func() {
			_, err := ln.Accept()
			accErr <- err
		}()
		addr := ln.Addr().String()
		_, e2 := net.Listen("tcp", addr)
		var oe *net.OpError
		s += fmt.Sprint(errors.As(e2, &oe))
		s += fmt.Sprint(ln.Close() == nil, ln.Close() == nil)
		err = <-accErr
		s += fmt.Sprint(errors.Is(err, net.ErrClosed), strings.Contains(err.Error(), "use of closed network connection"))
		_, err = net.DialTimeout("tcp", addr, time.Second)
		s += fmt.Sprint(err != nil && strings.Contains(err.Error(), "connection refused"))
		// deadlines
		ln, _ = net.Listen("tcp", "127.0.0.1:0")
		c, _ = net.Dial("tcp", ln.Addr().String())
		far, _ := ln.Accept()
		_ = c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
		_, err = c.Read(make([]byte, 1))
		ne, ok := err.(net.Error)
		s += fmt.Sprint(ok && ne.Timeout(), errors.Is(err, os.ErrDeadlineExceeded))
		_ = c.SetReadDeadline(time.Time{})
		_, _ = far.Write([]byte("k"))
		n, err := c.Read(make([]byte, 10))
		s += fmt.Sprint(n, err)
		_ = far.Close()
		_, err = c.Read(make([]byte, 1))
		s += fmt.Sprint(err)
		ln.Close()
		c.Close()
		d := net.Dialer{Timeout: time.Second}
		cctx, cancel := context.WithCancel(context.Background())
		cancel()
		_, err = d.DialContext(cctx, "tcp", addr)
		s += fmt.Sprint(err != nil)
		h, p, err := net.SplitHostPort("[::1]:80")
		s += fmt.Sprint(h, p, err, net.JoinHostPort("::1", "5"), net.ParseIP("1.2.3.4"))
		_, err = net.Listen("tcp", "no-port")
		s += fmt.Sprint(err != nil)
		return s
	})
	add("panics", func() string {
		try := func(f func()) (s string) {
			defer func() { s = fmt.Sprint(recover()) }()
			f()
			return "none"
		}
		return fmt.Sprint(
			try(func() { c := make(chan int); close(c); close(c) }),
			try(func() { c := make(chan int, 1); close(c); c <- 1 }),
			try(func() { var c chan int; close(c) }),
			try(func() { var wg sync.WaitGroup; wg.Done() }),
			try(func() { var m map[string]int; m["a"] = 1 }),
		)
	})
	add("more panics", func() string {
		try := func(f func()) (s string) {
			defer func() { s = fmt.Sprint(recover()) }()
			f()
			return "none"
		}
		return fmt.Sprint(
			try(func() { var a []int; _ = a[3] }),
			try(func() { var n *node; n.val = 1 }),
			try(func() { panic(errX) }),
			try(func() { var e interface{} = "s"; _ = e.(int) }),
			try(func() {}),
		)
	})
}
