// Package vsync is package sync on the virtual runtime.
package vsync

import (
	"fmt"
	"sync"

	"verif.local/mc/vs"
)

// Locker is sync.Locker.
type Locker = sync.Locker

type fatal string

func (f fatal) Error() string { return string(f) }

// ---- Mutex

// Mutex is sync.Mutex.
type Mutex struct {
	nat    sync.Mutex
	locked bool
	o      vs.Obj
}

type lockOp struct {
	m    *Mutex
	try  bool
	got  bool
	what string
}

func (l *lockOp) Ready(*vs.Thread) bool { return l.try || !l.m.locked }
func (l *lockOp) String() string        { return fmt.Sprintf("lock mutex %s", l.what) }
func (l *lockOp) Exec(t *vs.Thread) {
	l.got = !l.m.locked
	l.m.o.Acquire(101)
	if !l.got {
		vs.X.Mix(t, 103)
	}
	if l.got {
		l.m.locked = true
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	if vs.X == nil {
		m.nat.Lock()
		return
	}
	vs.Do(&lockOp{m: m})
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if vs.X == nil {
		return m.nat.TryLock()
	}
	o := &lockOp{m: m, try: true}
	vs.Do(o)
	return o.got
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if vs.X == nil {
		m.nat.Unlock()
		return
	}
	if vs.Aborting() {
		m.locked = false
		return
	}
	if !m.locked {
		panic(fatal("sync: unlock of unlocked mutex"))
	}
	m.o.Release(102)
	m.locked = false
}

// ---- RWMutex

// RWMutex is sync.RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	nat     sync.RWMutex
	writer  bool // a writer holds or has announced itself
	held    bool
	readers int
	w, r    vs.Obj
}

type rwOp struct {
	m     *RWMutex
	phase int // 0 rlock, 1 announce, 2 wait for readers, 3 tryrlock, 4 trylock
	done  bool
}

func (l *rwOp) Ready(*vs.Thread) bool {
	switch l.phase {
	case 0, 1:
		return !l.m.writer
	case 2:
		return l.m.readers == 0
	}
	return true
}

func (l *rwOp) String() string {
	return [...]string{"rlock", "lock (announce)", "lock (wait for readers)", "tryrlock", "trylock"}[l.phase] + " rwmutex"
}

func (l *rwOp) Exec(t *vs.Thread) {
	m := l.m
	if l.phase >= 3 {
		defer func() {
			if !l.done {
				vs.X.Mix(t, 118)
			}
		}()
	}
	switch l.phase {
	case 0:
		m.w.Acquire(111)
		m.readers++
	case 1:
		m.w.Acquire(112)
		m.writer = true
		if m.readers == 0 {
			m.r.Acquire(113)
			m.held, l.done = true, true
		}
	case 2:
		m.r.Acquire(113)
		m.held = true
	case 3:
		m.w.Acquire(114)
		if !m.writer {
			m.readers++
			l.done = true
		}
	case 4:
		m.w.Acquire(115)
		m.r.Acquire(115)
		if !m.writer && m.readers == 0 {
			m.writer, m.held, l.done = true, true, true
		}
	}
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	if vs.X == nil {
		m.nat.RLock()
		return
	}
	vs.Do(&rwOp{m: m})
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	if vs.X == nil {
		return m.nat.TryRLock()
	}
	o := &rwOp{m: m, phase: 3}
	vs.Do(o)
	return o.done
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	if vs.X == nil {
		m.nat.RUnlock()
		return
	}
	if vs.Aborting() {
		return
	}
	if m.readers <= 0 {
		panic(fatal("sync: RUnlock of unlocked RWMutex"))
	}
	m.readers--
	m.r.Accumulate(116)
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if vs.X == nil {
		m.nat.Lock()
		return
	}
	o := &rwOp{m: m, phase: 1}
	vs.Do(o)
	if !o.done {
		vs.Do(&rwOp{m: m, phase: 2})
	}
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	if vs.X == nil {
		return m.nat.TryLock()
	}
	o := &rwOp{m: m, phase: 4}
	vs.Do(o)
	return o.done
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	if vs.X == nil {
		m.nat.Unlock()
		return
	}
	if vs.Aborting() {
		m.held, m.writer = false, false
		return
	}
	if !m.held {
		panic(fatal("sync: Unlock of unlocked RWMutex"))
	}
	m.held, m.writer = false, false
	m.w.Release(117)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---- WaitGroup

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	nat sync.WaitGroup
	n   int
	o   vs.Obj
}

type addOp struct {
	w *WaitGroup
	d int
	e string
}

func (a *addOp) Ready(*vs.Thread) bool { return true }
func (a *addOp) String() string        { return fmt.Sprintf("waitgroup add %d", a.d) }
func (a *addOp) Exec(t *vs.Thread) {
	a.w.n += a.d
	if a.w.n < 0 {
		a.e = "sync: negative WaitGroup counter"
	}
	a.w.o.Accumulate(120 + uint64(a.d+8))
}

// Add adds to the counter.
func (w *WaitGroup) Add(d int) {
	if vs.X == nil {
		w.nat.Add(d)
		return
	}
	o := &addOp{w: w, d: d}
	if d < 0 && !vs.Aborting() {
		// a left mover: needs no scheduling point of its own
		o.Exec(vs.Self())
	} else {
		vs.Do(o)
	}
	if o.e != "" {
		panic(o.e)
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

type waitOp struct{ w *WaitGroup }

func (o waitOp) Ready(*vs.Thread) bool { return o.w.n == 0 }
func (o waitOp) String() string        { return "waitgroup wait" }
func (o waitOp) Exec(*vs.Thread)       { o.w.o.Acquire(130) }

// Wait waits for the counter to be zero.
func (w *WaitGroup) Wait() {
	if vs.X == nil {
		w.nat.Wait()
		return
	}
	vs.Do(waitOp{w})
}

// Go runs f in a goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

// ---- Once

// Once is sync.Once. Entering waits while another caller runs the function: the fast path and the slow path of the
// original are indistinguishable to callers.
type Once struct {
	nat     sync.Once
	done    bool
	running bool
	o       vs.Obj
}

type onceOp struct {
	o    *Once
	done bool
}

func (p *onceOp) Ready(*vs.Thread) bool { return !p.o.running }
func (p *onceOp) String() string        { return fmt.Sprintf("once: already done = %v", p.done) }
func (p *onceOp) Exec(t *vs.Thread) {
	p.done = p.o.done
	p.o.o.Acquire(140)
	if !p.done {
		p.o.running = true
		vs.X.Mix(t, 142)
	}
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if vs.X == nil {
		o.nat.Do(f)
		return
	}
	p := &onceOp{o: o}
	vs.Do(p)
	if p.done {
		return
	}
	defer func() {
		o.done, o.running = true, false
		if vs.Aborting() {
			return
		}
		o.o.Release(141)
	}()
	f()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	o := &Once{}
	var v T1
	var w T2
	return func() (T1, T2) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

// ---- Cond

// Cond is sync.Cond.
type Cond struct {
	L     Locker
	queue []*condWait
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

type condWait struct {
	woken bool
	o     vs.Obj
}

func (w *condWait) Ready(*vs.Thread) bool { return w.woken }
func (w *condWait) String() string        { return "cond wait" }
func (w *condWait) Exec(*vs.Thread)       { w.o.Acquire(150) }

// Wait waits for a signal.
func (c *Cond) Wait() {
	if vs.X == nil {
		panic("vsync: Cond.Wait outside of an execution")
	}
	w := &condWait{}
	c.queue = append(c.queue, w)
	c.L.Unlock()
	vs.Do(w)
	c.L.Lock()
}

type condSig struct {
	c   *Cond
	all bool
}

func (s condSig) Ready(*vs.Thread) bool { return true }
func (s condSig) String() string        { return "cond signal" }
func (s condSig) Exec(t *vs.Thread) {
	for len(s.c.queue) > 0 {
		w := s.c.queue[0]
		s.c.queue = s.c.queue[1:]
		w.woken = true
		w.o.Release(151)
		if !s.all {
			break
		}
	}
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if vs.X != nil {
		vs.Do(condSig{c, false})
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	if vs.X != nil {
		vs.Do(condSig{c, true})
	}
}

// ---- Pool

// Pool is sync.Pool: it always hands out the most recently put item.
type Pool struct {
	New   func() interface{}
	items []interface{}
	o     vs.Obj
}

type poolOp struct {
	p   *Pool
	put interface{}
	get interface{}
}

func (o *poolOp) Ready(*vs.Thread) bool { return true }
func (o *poolOp) String() string        { return "pool access" }
func (o *poolOp) Exec(*vs.Thread) {
	p := o.p
	p.o.Update(160)
	if o.put != nil {
		p.items = append(p.items, o.put)
		return
	}
	if n := len(p.items); n > 0 {
		o.get = p.items[n-1]
		p.items = p.items[:n-1]
	}
}

// Get takes an item.
func (p *Pool) Get() interface{} {
	o := &poolOp{p: p}
	if vs.X != nil {
		vs.Do(o)
	}
	if o.get == nil && p.New != nil {
		return p.New()
	}
	return o.get
}

// Put puts an item back.
func (p *Pool) Put(v interface{}) {
	if v == nil || vs.X == nil || vs.Aborting() {
		return
	}
	vs.Do(&poolOp{p: p, put: v})
}

// ---- Map

// Map is sync.Map.
type Map struct {
	keys []interface{}
	m    map[interface{}]interface{}
	o    vs.Obj
}

type mapOp struct {
	what string
	o    *vs.Obj
	f    func()
}

func (o *mapOp) Ready(*vs.Thread) bool { return true }
func (o *mapOp) String() string        { return "sync.Map " + o.what }
func (o *mapOp) Exec(*vs.Thread)       { o.o.Update(170); o.f() }

func (m *Map) do(what string, f func()) {
	if vs.X == nil {
		f()
		return
	}
	vs.Do(&mapOp{what, &m.o, f})
}

func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k interface{}) {
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(append([]interface{}(nil), m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}

// Load is sync.Map.Load.
func (m *Map) Load(k interface{}) (v interface{}, ok bool) {
	m.do("load", func() { v, ok = m.m[k] })
	return
}

// Store is sync.Map.Store.
func (m *Map) Store(k, v interface{}) { m.do("store", func() { m.set(k, v) }) }

// Delete is sync.Map.Delete.
func (m *Map) Delete(k interface{}) { m.do("delete", func() { m.del(k) }) }

// Clear is sync.Map.Clear.
func (m *Map) Clear() { m.do("clear", func() { m.m, m.keys = nil, nil }) }

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v interface{}) (r interface{}, ok bool) {
	m.do("loadorstore", func() {
		if r, ok = m.m[k]; !ok {
			m.set(k, v)
			r = v
		}
	})
	return
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k interface{}) (v interface{}, ok bool) {
	m.do("loadanddelete", func() { v, ok = m.m[k]; m.del(k) })
	return
}

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v interface{}) (p interface{}, ok bool) {
	m.do("swap", func() { p, ok = m.m[k]; m.set(k, v) })
	return
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, a, b interface{}) (ok bool) {
	m.do("cas", func() {
		if v, has := m.m[k]; has && v == a {
			m.set(k, b)
			ok = true
		}
	})
	return
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, a interface{}) (ok bool) {
	m.do("cad", func() {
		if v, has := m.m[k]; has && v == a {
			m.del(k)
			ok = true
		}
	})
	return
}

// Range is sync.Map.Range.
func (m *Map) Range(f func(k, v interface{}) bool) {
	var ks []interface{}
	m.do("range", func() { ks = append(ks, m.keys...) })
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
