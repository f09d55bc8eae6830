package prog

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Jitter perturbs the schedule of the native runtime.
var Jitter = func() {}

// Lit is a program with several outcomes.
type Lit struct {
	Run func() string
	// Want are its outcomes, by the Go memory model and the documentation of the packages it uses.
	Want []string
	// Late are outcomes that need the program to be slower than a timer; the virtual clock, which stands still as
	// long as anything can run, does not have them.
	Late []string
	// Racy programs have data races: their outcomes are those of the interleavings of their memory accesses.
	Racy bool
}

// Litmus are the programs with several outcomes.
var Litmus = map[string]Lit{}

func sorted(s ...string) string { sort.Strings(s); return strings.Join(s, ",") }

// catch returns what f panicked with.
func catch(f func()) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = "panic"
		}
	}()
	f()
	return "ok"
}

// both runs two functions at the same time and returns what they returned.
func both(f, g func() string) (string, string) {
	var a, b string
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); Jitter(); a = f() }()
	go func() { defer wg.Done(); Jitter(); b = g() }()
	wg.Wait()
	return a, b
}

func pipe() (a, b net.Conn, ln net.Listener) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	a, err = net.Dial("tcp", ln.Addr().String())
	if err != nil {
		panic(err)
	}
	b, err = ln.Accept()
	if err != nil {
		panic(err)
	}
	return a, b, ln
}

func readErr(err error) string {
	var ne net.Error
	switch {
	case err == nil:
		return "nil"
	case err == io.EOF:
		return "eof"
	case errors.Is(err, net.ErrClosed):
		return "closed"
	case errors.As(err, &ne) && ne.Timeout():
		return "timeout"
	case strings.Contains(err.Error(), "reset"), strings.Contains(err.Error(), "broken pipe"):
		return "reset"
	}
	return err.Error()
}

func init() {
	add := func(n string, f func() string, want ...string) { Litmus[n] = Lit{Run: f, Want: want} }
	racy := func(n string, f func() string, want ...string) { Litmus[n] = Lit{Run: f, Want: want, Racy: true} }
	racy("racy check then act", func() string {
		taken := false
		take := func() string {
			if taken {
				return "late"
			}
			taken = true
			return "won"
		}
		return sorted(both(take, take))
	}, "late,won", "won,won")
	racy("racy increment", func() string {
		n := 0
		inc := func() string {
			v := n
			n = v + 1
			return fmt.Sprint(v)
		}
		a, b := both(inc, inc)
		return fmt.Sprint(sorted(a, b), n)
	}, "0,01", "0,12")
	racy("racy message", func() string {
		data, flag := 0, 0
		_, r := both(func() string {
			data = 1
			flag = 1
			return ""
		}, func() string {
			f := flag
			d := data
			return fmt.Sprint(f, d)
		})
		return r
	}, "0 0", "0 1", "1 1")
	racy("racy field behind a lock half of the time", func() string {
		var mu sync.Mutex
		var s struct{ v, w int }
		_, r := both(func() string {
			mu.Lock()
			s.v = 1
			s.w = 1
			mu.Unlock()
			return ""
		}, func() string {
			v := s.v
			w := s.w
			return fmt.Sprint(v, w)
		})
		return r
	}, "0 0", "0 1", "1 0", "1 1")
	late := func(n string, f func() string, out string, want ...string) {
		Litmus[n] = Lit{Run: f, Want: want, Late: []string{out}}
	}

	add("channel: two senders", func() string {
		ch := make(chan int)
		go func() { Jitter(); ch <- 1 }()
		go func() { Jitter(); ch <- 2 }()
		return fmt.Sprint(<-ch, <-ch)
	}, "1 2", "2 1")
	add("channel: two senders, two values each", func() string {
		ch := make(chan int, 1)
		for i := 0; i < 2; i++ {
			i := i
			go func() { Jitter(); ch <- i; Jitter(); ch <- i + 2 }()
		}
		return fmt.Sprint(<-ch, <-ch, <-ch, <-ch)
	}, "0 1 2 3", "0 1 3 2", "0 2 1 3", "1 0 2 3", "1 0 3 2", "1 3 0 2")
	add("channel: length", func() string {
		ch := make(chan int, 2)
		go func() { Jitter(); ch <- 1; ch <- 2 }()
		Jitter()
		n := len(ch)
		v := <-ch
		Jitter()
		return fmt.Sprint(n, v, len(ch), cap(ch))
	}, "0 1 0 2", "0 1 1 2", "1 1 0 2", "1 1 1 2", "2 1 1 2")
	add("channel: close and send", func() string {
		ch := make(chan int, 1)
		a, b := both(func() string { return catch(func() { ch <- 1 }) }, func() string { close(ch); return "" })
		return a + b
	}, "ok", "panic")
	add("channel: close and blocked send", func() string {
		ch := make(chan int)
		done := make(chan string)
		go func() { done <- catch(func() { ch <- 1 }) }()
		Jitter()
		close(ch)
		return <-done
	}, "panic")
	add("channel: close twice", func() string {
		ch := make(chan int)
		return sorted(both2(func() string { return catch(func() { close(ch) }) }, func() string { return catch(func() { close(ch) }) })...)
	}, "ok,panic")
	add("channel: values before close", func() string {
		ch := make(chan int, 2)
		go func() { Jitter(); ch <- 1; ch <- 2; close(ch) }()
		s := ""
		for v := range ch {
			s += fmt.Sprint(v)
		}
		return s
	}, "12")
	add("channel: two receivers", func() string {
		ch := make(chan int, 2)
		ch <- 1
		ch <- 2
		close(ch)
		r := func() string { v, ok := <-ch; return fmt.Sprint(v, ok) }
		a, b := both(r, r)
		return a + " " + b
	}, "1 true 2 true", "2 true 1 true")
	add("channel: receivers at close", func() string {
		ch := make(chan int)
		r := func() string { v, ok := <-ch; return fmt.Sprint(v, ok) }
		go func() { Jitter(); ch <- 7; close(ch) }()
		a, b := both(r, r)
		return a + " " + b
	}, "7 true 0 false", "0 false 7 true")
	add("channel: unbuffered send returns after receive began", func() string {
		ch := make(chan int)
		var x int32
		go func() { Jitter(); atomic.StoreInt32(&x, 1); <-ch }()
		ch <- 1
		return fmt.Sprint(atomic.LoadInt32(&x))
	}, "1")
	add("channel: handshake and store", func() string {
		ch := make(chan int)
		var x int32
		done := make(chan bool)
		go func() { <-ch; atomic.StoreInt32(&x, 1); close(done) }()
		ch <- 1
		Jitter()
		s := fmt.Sprint(atomic.LoadInt32(&x))
		<-done
		return s
	}, "0", "1")
	add("channel: token", func() string {
		tok := make(chan struct{}, 1)
		n, max := int32(0), int32(0)
		f := func() string {
			tok <- struct{}{}
			if m := atomic.AddInt32(&n, 1); m > max {
				max = m
			}
			Jitter()
			atomic.AddInt32(&n, -1)
			<-tok
			return ""
		}
		both(f, f)
		return fmt.Sprint(n, max)
	}, "0 1")
	add("select: both ready", func() string {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case v := <-a:
			return fmt.Sprint("a", v)
		case v := <-b:
			return fmt.Sprint("b", v)
		}
	}, "a1", "b2")
	add("select: default", func() string {
		ch := make(chan int)
		done := make(chan bool)
		go func() {
			Jitter()
			select {
			case ch <- 1:
			case <-done:
			}
			done <- true
		}()
		Jitter()
		s := "default"
		select {
		case v := <-ch:
			s = fmt.Sprint(v)
			<-done
		default:
			done <- true
			<-done
		}
		return s
	}, "1", "default")
	add("select: send and receive on both sides", func() string {
		a, b := make(chan int), make(chan int)
		f := func(x int) func() string {
			return func() string {
				select {
				case v := <-a:
					return fmt.Sprint(x, "got a", v)
				case b <- x:
					return fmt.Sprint(x, "sent b")
				}
			}
		}
		g := func() string {
			select {
			case a <- 9:
				return "sent a"
			case v := <-b:
				return fmt.Sprint("got b", v)
			}
		}
		p, q := both(f(1), g)
		return p + "/" + q
	}, "1got a9/sent a", "1sent b/got b1")
	add("select: same channel on both sides", func() string {
		ch := make(chan int)
		f := func(x int) func() string {
			return func() string {
				select {
				case v := <-ch:
					return fmt.Sprint("got", v)
				case ch <- x:
					return "sent"
				}
			}
		}
		p, q := both(f(1), f(2))
		return p + "/" + q
	}, "sent/got1", "got2/sent")
	add("select: closed and data", func() string {
		data, quit := make(chan int, 1), make(chan int)
		go func() { Jitter(); data <- 1; Jitter(); close(quit) }()
		select {
		case <-data:
			return "data"
		case <-quit:
			return "quit"
		}
	}, "data", "quit")
	add("select: one winner", func() string {
		ch := make(chan int)
		var n int32
		var wg sync.WaitGroup
		quit := make(chan bool)
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				Jitter()
				select {
				case <-ch:
					atomic.AddInt32(&n, 1)
				case <-quit:
				}
			}()
		}
		ch <- 1
		close(quit)
		wg.Wait()
		return fmt.Sprint(n)
	}, "1")
	add("select: send to closed", func() string {
		ch, other := make(chan int), make(chan int, 1)
		other <- 1
		go func() { Jitter(); close(ch) }()
		Jitter()
		return catch(func() {
			select {
			case ch <- 1:
			case <-other:
			}
		})
	}, "ok", "panic")
	add("select: loop takes all", func() string {
		a, b := make(chan int, 2), make(chan int, 1)
		a <- 1
		a <- 2
		b <- 3
		s := ""
		for i := 0; i < 3; i++ {
			select {
			case v := <-a:
				s += fmt.Sprint(v)
			case v := <-b:
				s += fmt.Sprint(v)
			}
		}
		return s
	}, "123", "132", "312")
	add("atomic: store buffering", func() string {
		var x, y int32
		a, b := both(func() string {
			atomic.StoreInt32(&x, 1)
			return fmt.Sprint(atomic.LoadInt32(&y))
		}, func() string {
			atomic.StoreInt32(&y, 1)
			return fmt.Sprint(atomic.LoadInt32(&x))
		})
		return a + b
	}, "01", "10", "11")
	add("atomic: message passing", func() string {
		var x, y int32
		a, b := both(func() string {
			atomic.StoreInt32(&x, 1)
			atomic.StoreInt32(&y, 1)
			return ""
		}, func() string {
			f := atomic.LoadInt32(&y)
			return fmt.Sprint(f, atomic.LoadInt32(&x))
		})
		return a + b
	}, "0 0", "0 1", "1 1")
	add("atomic: lost update", func() string {
		var x int64
		f := func() string { v := atomic.LoadInt64(&x); Jitter(); atomic.StoreInt64(&x, v+1); return "" }
		both(f, f)
		return fmt.Sprint(x)
	}, "1", "2")
	add("atomic: add", func() string {
		var x uint32
		f := func() string { return fmt.Sprint(atomic.AddUint32(&x, 1)) }
		a, b := both(f, f)
		return fmt.Sprint(a, b, x)
	}, "122", "212"[:0]+"212")
	add("atomic: compare and swap", func() string {
		var x int32
		f := func() string { return fmt.Sprint(atomic.CompareAndSwapInt32(&x, 0, 1)) }
		a, b := both(f, f)
		return a + " " + b
	}, "true false", "false true")
	add("atomic: value", func() string {
		var v atomic.Value
		a, _ := both(func() string { return fmt.Sprint(v.Load()) }, func() string { v.Store(3); return "" })
		return a + fmt.Sprint(v.Load())
	}, "<nil>3", "33")
	add("mutex: exclusion", func() string {
		var mu sync.Mutex
		in, out := 0, ""
		f := func() string {
			mu.Lock()
			defer mu.Unlock()
			in++
			Jitter()
			out += fmt.Sprint(in)
			in--
			return ""
		}
		both(f, f)
		return out
	}, "11")
	add("mutex: order", func() string {
		var mu sync.Mutex
		s := ""
		f := func(x string) func() string {
			return func() string {
				for i := 0; i < 2; i++ {
					mu.Lock()
					s += x
					mu.Unlock()
				}
				return ""
			}
		}
		both(f("a"), f("b"))
		return s
	}, "aabb", "abab", "abba", "baab", "baba", "bbaa")
	add("mutex: unlocked by another", func() string {
		var mu sync.Mutex
		mu.Lock()
		x := 0
		go func() { Jitter(); x = 1; mu.Unlock() }()
		mu.Lock()
		defer mu.Unlock()
		return fmt.Sprint(x)
	}, "1")
	add("rwmutex: readers together", func() string {
		var mu sync.RWMutex
		var n int32
		f := func() string {
			mu.RLock()
			m := atomic.AddInt32(&n, 1)
			Jitter()
			atomic.AddInt32(&n, -1)
			mu.RUnlock()
			return fmt.Sprint(m)
		}
		return sorted(both2(f, f)...)
	}, "1,1", "1,2")
	add("rwmutex: writer excludes", func() string {
		var mu sync.RWMutex
		x, y := 0, 0
		a, _ := both(func() string {
			mu.RLock()
			defer mu.RUnlock()
			return fmt.Sprint(x, y)
		}, func() string {
			mu.Lock()
			x = 1
			Jitter()
			y = 1
			mu.Unlock()
			return ""
		})
		return a
	}, "0 0", "1 1")
	late("rwmutex: waiting writer keeps readers out", func() string {
		var mu sync.RWMutex
		mu.RLock()
		go func() { Jitter(); mu.Lock(); mu.Unlock() }()
		got := make(chan bool)
		go func() { time.Sleep(200 * time.Microsecond); mu.RLock(); close(got); mu.RUnlock() }()
		select {
		case <-got:
			return "shared"
		case <-time.After(5 * time.Millisecond):
			mu.RUnlock()
			return "kept out"
		}
	}, "shared", "kept out")
	add("once: second waits for the first", func() string {
		var o sync.Once
		x := 0
		f := func() string { o.Do(func() { Jitter(); x++ }); return fmt.Sprint(x) }
		a, b := both(f, f)
		return a + b
	}, "11")
	add("once: panicking counts", func() string {
		var o sync.Once
		f := func() string { return catch(func() { o.Do(func() { panic(1) }) }) }
		return sorted(both2(f, f)...)
	}, "ok,panic")
	add("waitgroup: two waiters", func() string {
		var wg sync.WaitGroup
		var x int32
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() { Jitter(); atomic.AddInt32(&x, 1); wg.Done() }()
		}
		f := func() string { wg.Wait(); return fmt.Sprint(atomic.LoadInt32(&x)) }
		a, b := both(f, f)
		return a + b
	}, "22")
	add("waitgroup: add races with wait", func() string {
		var wg sync.WaitGroup
		var x int32
		wg.Add(1)
		go func() {
			wg.Add(1)
			go func() { Jitter(); atomic.AddInt32(&x, 1); wg.Done() }()
			wg.Done()
		}()
		wg.Wait()
		return fmt.Sprint(x)
	}, "1")
	late("cond: signal wakes at most one", func() string {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		var n int32
		ready := make(chan bool, 2)
		for i := 0; i < 2; i++ {
			go func() {
				mu.Lock()
				ready <- true
				c.Wait()
				n++
				mu.Unlock()
			}()
		}
		<-ready
		Jitter()
		mu.Lock()
		c.Signal()
		mu.Unlock()
		time.Sleep(2 * time.Millisecond)
		mu.Lock()
		m := n
		mu.Unlock()
		<-ready
		mu.Lock()
		c.Broadcast()
		mu.Unlock()
		return fmt.Sprint(m)
	}, "0", "1")
	add("cond: broadcast wakes all", func() string {
		c := sync.NewCond(&sync.Mutex{})
		go_ := false
		f := func() string {
			c.L.Lock()
			for !go_ {
				c.Wait()
			}
			c.L.Unlock()
			return "x"
		}
		go func() { Jitter(); c.L.Lock(); go_ = true; c.Broadcast(); c.L.Unlock() }()
		a, b := both(f, f)
		return a + b
	}, "xx")
	add("cond: lost signal", func() string {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		done := make(chan bool)
		go func() { Jitter(); mu.Lock(); c.Wait(); mu.Unlock(); close(done) }()
		Jitter()
		c.Signal()
		select {
		case <-done:
			return "woken"
		case <-time.After(2 * time.Millisecond):
			return "lost"
		}
	}, "woken", "lost")
	add("sync.Map: one stores", func() string {
		var m sync.Map
		f := func(x int) func() string {
			return func() string { v, loaded := m.LoadOrStore("k", x); return fmt.Sprint(v, loaded) }
		}
		a, b := both(f(1), f(2))
		return a + " " + b
	}, "1 false 1 true", "2 true 2 false")
	add("map: iteration order", func() string {
		s := ""
		for k := range map[string]bool{"a": true, "b": true, "c": true} {
			s += k
		}
		return s
	}, "abc", "acb", "bac", "bca", "cab", "cba")
	add("map: deleted while iterating", func() string {
		m := map[string]bool{"a": true, "b": true}
		s := ""
		for k := range m {
			s += k
			delete(m, "a")
			delete(m, "b")
		}
		return s
	}, "a", "b")
	add("context: cancel and data", func() string {
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan int, 1)
		go func() { Jitter(); ch <- 1 }()
		go func() { Jitter(); cancel() }()
		select {
		case <-ctx.Done():
			return ctx.Err().Error()
		case <-ch:
			return "data"
		}
	}, "context canceled", "data")
	add("context: children are cancelled with the parent", func() string {
		ctx, cancel := context.WithCancel(context.Background())
		child, stop := context.WithCancel(ctx)
		defer stop()
		a, _ := both(func() string {
			if ctx.Err() != nil && child.Err() == nil {
				return "parent only"
			}
			return "fine"
		}, func() string { cancel(); return "" })
		if child.Err() == nil {
			return "child lives"
		}
		return a
	}, "fine", "parent only")
	add("timer: stop and fire", func() string {
		var n int32
		t := time.AfterFunc(100*time.Microsecond, func() { atomic.AddInt32(&n, 1) })
		time.Sleep(100 * time.Microsecond)
		Jitter()
		stopped := t.Stop()
		time.Sleep(2 * time.Millisecond)
		return fmt.Sprint(stopped, atomic.LoadInt32(&n))
	}, "true 0", "false 1")
	add("timer: stopped after expiry, nothing is left in the channel", func() string {
		t := time.NewTimer(time.Microsecond)
		time.Sleep(50 * time.Microsecond)
		stopped := t.Stop()
		select {
		case <-t.C:
			return fmt.Sprint(stopped, "stale")
		default:
			return fmt.Sprint(stopped, "empty")
		}
	}, "trueempty")
	add("timer: two at the same time", func() string {
		select {
		case <-time.After(200 * time.Microsecond):
			return "a"
		case <-time.After(200 * time.Microsecond):
			return "b"
		}
	}, "a", "b")
	late("timer: reset", func() string {
		t := time.NewTimer(time.Hour)
		t.Reset(time.Microsecond)
		select {
		case <-t.C:
			return "soon"
		case <-time.After(20 * time.Millisecond):
			return "never"
		}
	}, "never", "soon")
	add("timer: work and deadline", func() string {
		ch := make(chan int)
		go func() { Jitter(); time.Sleep(time.Millisecond); ch <- 1 }()
		select {
		case <-ch:
			return "work"
		case <-time.After(time.Millisecond):
			go func() { <-ch }()
			return "deadline"
		}
	}, "work", "deadline")
	late("timer: sleep orders", func() string {
		a := make(chan string, 2)
		go func() { a <- "first" }()
		time.Sleep(20 * time.Millisecond)
		a <- "second"
		return <-a
	}, "second", "first") // nothing forbids a goroutine from being late
	add("context: timeout and cancel", func() string {
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Microsecond)
		time.Sleep(100 * time.Microsecond)
		cancel()
		return ctx.Err().Error()
	}, "context canceled", "context deadline exceeded")

	add("tcp: data then end", func() string {
		a, b, ln := pipe()
		defer ln.Close()
		go func() { Jitter(); _, _ = a.Write([]byte("xy")); a.Close() }()
		d, err := io.ReadAll(b)
		b.Close()
		return string(d) + readErr(err)
	}, "xynil")
	add("tcp: writes may come together or apart", func() string {
		a, b, ln := pipe()
		defer ln.Close()
		defer a.Close()
		defer b.Close()
		go func() { Jitter(); _, _ = a.Write([]byte("x")); Jitter(); _, _ = a.Write([]byte("y")) }()
		buf := make([]byte, 10)
		n, _ := b.Read(buf)
		s := string(buf[:n])
		if n < 2 {
			n, _ = b.Read(buf)
			s += "|" + string(buf[:n])
		}
		return s
	}, "xy", "x|y")
	add("tcp: short buffer", func() string {
		a, b, ln := pipe()
		defer ln.Close()
		defer a.Close()
		defer b.Close()
		_, _ = a.Write([]byte("xyz"))
		buf := make([]byte, 2)
		n, _ := b.Read(buf)
		s := string(buf[:n])
		n, _ = b.Read(buf)
		return s + "|" + string(buf[:n])
	}, "xy|z")
	add("tcp: close unblocks a read", func() string {
		a, b, ln := pipe()
		defer ln.Close()
		defer b.Close()
		r, _ := both(func() string { _, err := a.Read(make([]byte, 1)); return readErr(err) }, func() string { a.Close(); return "" })
		return r
	}, "closed")
	add("tcp: close and data", func() string {
		a, b, ln := pipe()
		defer ln.Close()
		go func() { Jitter(); _, _ = b.Write([]byte("x")) }()
		r, _ := both(func() string { n, err := a.Read(make([]byte, 1)); return fmt.Sprint(n, readErr(err)) }, func() string { a.Close(); return "" })
		return r
	}, "1nil", "0closed")
	add("tcp: close and write", func() string {
		a, b, ln := pipe()
		defer ln.Close()
		defer b.Close()
		r, _ := both(func() string { n, err := a.Write([]byte("x")); return fmt.Sprint(n, readErr(err)) }, func() string { a.Close(); return "" })
		d, err := io.ReadAll(b)
		return r + string(d) + readErr(err)
	}, "1nilxnil", "0closednil")
	add("tcp: half close", func() string {
		a, b, ln := pipe()
		defer ln.Close()
		defer a.Close()
		go func() {
			d, _ := io.ReadAll(b)
			_, _ = b.Write(append(d, '!'))
			b.Close()
		}()
		_, _ = a.Write([]byte("q"))
		_ = a.(*net.TCPConn).CloseWrite()
		d, err := io.ReadAll(a)
		return string(d) + readErr(err)
	}, "q!nil")
	add("tcp: two readers", func() string {
		a, b, ln := pipe()
		defer ln.Close()
		defer a.Close()
		defer b.Close()
		go func() { Jitter(); _, _ = a.Write([]byte("x")); Jitter(); _, _ = a.Write([]byte("y")) }()
		f := func() string { p := make([]byte, 1); n, _ := b.Read(p); return string(p[:n]) }
		p, q := both(f, f)
		return p + q
	}, "xy", "yx")
	add("tcp: dial before accept", func() string {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return err.Error()
		}
		defer ln.Close()
		f := func(x string) func() string {
			return func() string {
				c, err := net.Dial("tcp", ln.Addr().String())
				if err != nil {
					return err.Error()
				}
				defer c.Close()
				_, _ = c.Write([]byte(x))
				d, _ := io.ReadAll(c)
				return string(d)
			}
		}
		go func() {
			for i := 0; i < 2; i++ {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				p := make([]byte, 1)
				_, _ = io.ReadFull(c, p)
				_, _ = c.Write([]byte(fmt.Sprint(string(p), i)))
				c.Close()
			}
		}()
		a, b := both(f("a"), f("b"))
		return a + b
	}, "a0b1", "a1b0")
	add("tcp: listener closed while accepting", func() string {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return err.Error()
		}
		a, b := both(func() string {
			c, err := ln.Accept()
			if err == nil {
				c.Close()
			}
			return readErr(err)
		}, func() string { ln.Close(); return "" })
		return a + b
	}, "closed")
	add("tcp: dial and close of the listener", func() string {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return err.Error()
		}
		a, _ := both(func() string {
			c, err := net.Dial("tcp", ln.Addr().String())
			if err != nil {
				return "refused"
			}
			defer c.Close()
			_, err = c.Read(make([]byte, 1))
			if err == io.EOF || readErr(err) == "reset" {
				return "dropped"
			}
			return readErr(err)
		}, func() string { ln.Close(); return "" })
		return a
	}, "refused", "dropped")
	add("tcp: deadline and data", func() string {
		a, b, ln := pipe()
		defer ln.Close()
		defer a.Close()
		defer b.Close()
		_ = a.SetReadDeadline(time.Now().Add(300 * time.Microsecond))
		go func() { Jitter(); time.Sleep(300 * time.Microsecond); _, _ = b.Write([]byte("x")) }()
		n, err := a.Read(make([]byte, 1))
		return fmt.Sprint(n, readErr(err))
	}, "1nil", "0timeout")
	add("tcp: deadline moved to the past unblocks", func() string {
		a, b, ln := pipe()
		defer ln.Close()
		defer a.Close()
		defer b.Close()
		r, _ := both(func() string { _, err := a.Read(make([]byte, 1)); return readErr(err) },
			func() string { _ = a.SetReadDeadline(time.Unix(1, 0)); return "" })
		return r
	}, "timeout")
	add("file: rename is atomic", func() string {
		dir, err := os.MkdirTemp("", "litmus")
		if err != nil {
			return err.Error()
		}
		defer os.RemoveAll(dir)
		_ = os.WriteFile(dir+"/f", []byte("old"), 0o644)
		a, _ := both(func() string {
			d, err := os.ReadFile(dir + "/f")
			if err != nil {
				return err.Error()
			}
			return string(d)
		}, func() string {
			_ = os.WriteFile(dir+"/g", []byte("new"), 0o644)
			_ = os.Rename(dir+"/g", dir+"/f")
			return ""
		})
		return a
	}, "old", "new")
	add("goroutine: captured variable after join", func() string {
		x := 0
		var wg sync.WaitGroup
		for i := 1; i <= 3; i++ {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); Jitter(); x = i }()
			wg.Wait()
		}
		return fmt.Sprint(x)
	}, "3")
	add("goroutine: semaphore of two", func() string {
		sem := make(chan bool, 2)
		var n, max int32
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				m := atomic.AddInt32(&n, 1)
				for {
					o := atomic.LoadInt32(&max)
					if m <= o || atomic.CompareAndSwapInt32(&max, o, m) {
						break
					}
				}
				Jitter()
				atomic.AddInt32(&n, -1)
				<-sem
			}()
		}
		wg.Wait()
		return fmt.Sprint(max)
	}, "1", "2")
}

func both2(f, g func() string) []string { a, b := both(f, g); return []string{a, b} }
