// Package vs is a virtual runtime for Go programs: goroutines, channels, locks, clocks and the network are
// replaced by deterministic models, one thread runs at a time, and every choice the real runtime or the
// environment could make is taken by an explorer that enumerates all of them within a bound.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// X is the execution in progress; nil outside of executions (then every primitive falls back to the native one).
var X *Exec

// Op is a pending operation of a thread. It is executed, atomically, when the explorer picks the thread.
type Op interface {
	Ready(t *Thread) bool // can the operation proceed now?
	Exec(t *Thread)       // perform it
	String() string
}

// Thread is a managed goroutine.
type Thread struct {
	Name     string // canonical name: path of spawn indices, plus label
	Label    string
	ord      string // sort key
	idx      int    // index in X.threads (also the vector clock index)
	cid      uint64
	children int
	wake     chan struct{}
	op       Op
	done     bool // finished
	h        uint64
	vc       VC
	Env      bool // environment (harness) thread
	opDone   bool // pending op already completed by a partner
	steps    int
}

// Blocked describes a thread that never finished.
type Blocked struct {
	Name  string
	Label string
	Env   bool
	Op    string
}

type timer struct {
	when int64
	seq  int
	f    func() // run by a new managed thread, or inline when inline is set
	inl  bool
	dead bool
	lbl  string
	env  bool // set by the environment: not subject to the limit
	obj  Obj
}

// Exec is one execution of a scenario.
type Exec struct {
	threads  []*Thread
	cur      *Thread
	ex       *Explorer
	sig      uint64
	aborting bool
	finished chan struct{}
	exitAck  chan struct{}

	chans  map[unsafe.Pointer]*chanState
	maps   map[unsafe.Pointer]*mapOrder
	cells  map[unsafe.Pointer]*cell
	Local  map[interface{}]interface{} // per-execution storage of the virtual libraries
	timers []*timer
	tseq   int
	now    int64
	clock  Obj

	steps     int
	maxSteps  int
	timerFire int

	Crash     string // panic that would have killed the process
	Failed    string // oracle failure
	Races     []string
	raceSeen  map[string]bool
	raceSites []string
	racy      map[string]bool
	mapClash  string
	Horizon   bool // step limit hit
	Pruned    bool
	Diverged  string
	trace     []string
	wantTrace bool
	Outcome   strings.Builder
	nondet    int
	frozen    bool
}

// Obj carries the happens-before information of a shared object.
type Obj struct {
	h   uint64
	acc uint64
	vc  VC
}

func mix(a uint64, b ...uint64) uint64 {
	h := a ^ 0x9e3779b97f4a7c15
	for _, v := range b {
		h ^= v
		h *= 0xff51afd7ed558ccd
		h ^= h >> 32
		h *= 0xc4ceb9fe1a85ec53
		h ^= h >> 29
	}
	return h
}

// HashString hashes a string.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// setHash moves the thread to a new history hash, maintaining the global signature.
func (x *Exec) setHash(t *Thread, h uint64) {
	x.sig -= mix(t.cid, t.h)
	t.h = h
	x.sig += mix(t.cid, t.h)
}

// Mix adds information to the history of the thread.
func (x *Exec) Mix(t *Thread, v ...uint64) { x.setHash(t, mix(t.h, v...)) }

func (x *Exec) tick(t *Thread) {
	t.vc = t.vc.grow(t.idx + 1)
	t.vc[t.idx]++
}

// Acquire makes everything released into o visible to the current thread.
func (o *Obj) Acquire(kind uint64) {
	x := X
	t := x.cur
	x.setHash(t, mix(t.h, kind, o.h, o.acc))
	t.vc = t.vc.join(o.vc)
}

// Release publishes the history of the current thread in o, ordered after what is there (o changes owner/value).
func (o *Obj) Release(kind uint64) {
	x := X
	t := x.cur
	x.setHash(t, mix(t.h, kind))
	o.h = t.h
	o.acc = 0
	o.vc = t.vc.copyOf()
	x.tick(t)
}

// Update is Acquire followed by Release.
func (o *Obj) Update(kind uint64) {
	o.Acquire(kind)
	o.Release(kind)
}

// Accumulate publishes the history of the current thread, commuting with other accumulations.
func (o *Obj) Accumulate(kind uint64) {
	x := X
	t := x.cur
	x.setHash(t, mix(t.h, kind))
	o.acc += mix(t.h, t.cid)
	o.vc = o.vc.join(t.vc)
	x.tick(t)
}

// VC is a vector clock.
type VC []uint32

func (v VC) grow(n int) VC {
	if len(v) >= n {
		return v
	}
	w := make(VC, n)
	copy(w, v)
	return w
}

func (v VC) copyOf() VC {
	w := make(VC, len(v))
	copy(w, v)
	return w
}

func (v VC) join(o VC) VC {
	v = v.grow(len(o))
	for i, c := range o {
		if c > v[i] {
			v[i] = c
		}
	}
	return v
}

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// Cur returns the running thread.
func (x *Exec) Cur() *Thread { return x.cur }

func (x *Exec) newThread(parent *Thread, label string, env bool) *Thread {
	t := &Thread{wake: make(chan struct{}, 1), idx: len(x.threads), Label: label, Env: env}
	if parent == nil {
		t.ord = "A"
		t.Name = "main"
	} else {
		parent.children++
		n := parent.children
		t.ord = parent.ord + string(rune('0'+n/64)) + string(rune('0'+n%64))
		t.Name = fmt.Sprintf("%s.%d", parent.Name, n)
		t.vc = parent.vc.copyOf()
	}
	if label != "" {
		t.Name += "(" + label + ")"
	}
	t.cid = HashString(t.ord)
	t.h = t.cid
	if parent != nil {
		t.h = mix(t.cid, parent.h)
		x.setHash(parent, mix(parent.h, 77))
		x.tick(parent)
	}
	x.sig += mix(t.cid, t.h)
	x.threads = append(x.threads, t)
	x.tick(t)
	return t
}

type startOp struct{}

func (startOp) Ready(*Thread) bool { return true }
func (startOp) Exec(*Thread)       {}
func (startOp) String() string     { return "start" }

// Go starts a managed goroutine of the system under test.
func Go(label string, f func()) { spawn(label, false, f) }

// GoEnv starts a managed environment thread.
func GoEnv(label string, f func()) { spawn(label, true, f) }

func spawn(label string, env bool, f func()) {
	x := X
	if x == nil {
		go f()
		return
	}
	if x.aborting {
		return
	}
	t := x.newThread(x.cur, label, env)
	x.start(t, f)
}

func (x *Exec) start(t *Thread, f func()) {
	t.op = startOp{}
	go func() {
		normal := false
		defer func() {
			r := recover()
			if x.aborting {
				x.exitAck <- struct{}{}
				return
			}
			if r != nil && !normal {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i > 0 {
					st = st[i:]
				}
				x.Crash = fmt.Sprintf("panic in %s: %v", t.Name, r)
				if x.wantTrace {
					x.note("CRASH " + x.Crash + "\n" + st)
				}
			} else if !normal && r == nil {
				// runtime.Goexit called by the program itself: an ordinary end of the goroutine
				_ = r
			}
			t.done = true
			t.op = nil
			x.Mix(t, 99)
			if x.Crash != "" || x.Failed != "" {
				x.end()
				return
			}
			x.dispatch(t)
		}()
		<-t.wake
		if x.aborting {
			runtime.Goexit()
		}
		t.op = nil
		x.Mix(t, 98)
		if x.wantTrace {
			x.note(fmt.Sprintf("[%s] start", t.Name))
		}
		f()
		normal = true
	}()
}

func (x *Exec) note(s string) {
	if len(x.trace) < 4000 {
		x.trace = append(x.trace, s)
	}
}

// Note adds a line to the trace of the execution (shown in replays).
func Note(format string, a ...interface{}) {
	if X != nil && X.wantTrace {
		X.note(fmt.Sprintf("    -- "+format, a...))
	}
}

// do performs an operation as the current thread: it is a scheduling point.
func (x *Exec) do(op Op) {
	if x.aborting {
		runtime.Goexit()
	}
	t := x.cur
	t.op = op
	t.opDone = false
	x.dispatch(t)
	// we have been picked
	x.run(t)
}

func (x *Exec) run(t *Thread) {
	op := t.op
	before := t.h
	if !t.opDone {
		t.steps++
		op.Exec(t)
	}
	if t.h == before {
		// the state has changed all the same: the thread has moved on
		x.Mix(t, 97)
	}
	t.op = nil
	t.opDone = false
	if x.wantTrace {
		x.note(fmt.Sprintf("[%s] %s", t.Name, op.String()))
	}
}

// Do performs an operation at a scheduling point.
func Do(op Op) { X.do(op) }

func (x *Exec) ready(t *Thread) bool {
	return !t.done && t.op != nil && (t.opDone || t.op.Ready(t))
}

// dispatch picks the next thread to run. Called by the running thread t (which may have ended); returns when t is
// picked again.
func (x *Exec) dispatch(t *Thread) {
	next := x.pick(t)
	if next == nil {
		// execution is over
		x.end()
		if !t.done {
			<-t.wake
			runtime.Goexit()
		}
		return
	}
	x.cur = next
	if next == t {
		return
	}
	next.wake <- struct{}{}
	if t.done {
		return
	}
	<-t.wake
	if x.aborting {
		runtime.Goexit()
	}
}

// end finishes the execution: hands control to the host.
func (x *Exec) end() {
	x.finished <- struct{}{}
}

func (x *Exec) pick(t *Thread) *Thread {
	x.steps++
	if x.steps > x.maxSteps {
		x.Horizon = true
		return nil
	}
	if x.Failed != "" || x.Diverged != "" {
		return nil
	}
	for {
		var cand [64]*Thread
		n := 0
		var idle *Thread
		for _, u := range x.threads {
			if u.done || u.op == nil {
				continue
			}
			if u.opDone || u.op.Ready(u) {
				if n < len(cand) {
					cand[n] = u
					n++
				}
			} else if io, ok := u.op.(*idleOp); ok {
				if idle == nil || idle.op.(*idleOp).rank > io.rank {
					idle = u
				}
			}
		}
		for _, u := range cand[:n] {
			if a, ok := u.op.(*atOp); ok && !a.fire {
				a.fire = true
				return u
			}
		}
		if n == 0 {
			for _, u := range x.threads {
				if a, ok := u.op.(*atOp); ok && !u.done {
					a.at = 0
					return u
				}
			}
			if idle != nil && (idle.op.(*idleOp).rank == 0 && !x.timerBy(idle.op.(*idleOp).until) || !x.hasTimers()) {
				idle.op.(*idleOp).fire = true
				continue
			}
			if x.fireTimer() {
				continue
			}
			if idle != nil {
				idle.op.(*idleOp).fire = true
				continue
			}
			return nil
		}
		if n == 1 {
			return cand[0]
		}
		list := cand[:n]
		// canonical order: running thread first, then cyclically by name
		sort.Slice(list, func(i, j int) bool { return list[i].ord < list[j].ord })
		if !t.done {
			k := sort.Search(n, func(i int) bool { return list[i].ord >= t.ord })
			if k > 0 && k < n {
				var rot [64]*Thread
				copy(rot[:], list[k:])
				copy(rot[n-k:], list[:k])
				copy(list, rot[:n])
			}
		}
		if x.frozen {
			return list[0]
		}
		c := x.ex.chooseThread(x, t, list)
		if c < 0 {
			return nil
		}
		return list[c]
	}
}

// idleOp waits until nothing else can run. Rank 0: and no timer fires until a given time; rank 1: and no timer is
// pending.
type idleOp struct {
	rank  int
	until int64
	fire  bool
}

// Grace is the time that WaitIdle gives the program for pauses of its own (a back-off, a debounce).
const Grace = 2_000_000_000

func (o *idleOp) Ready(*Thread) bool { return o.fire }
func (o *idleOp) Exec(t *Thread)     { X.setHash(t, mix(t.h, 1234, X.sig)) }
func (o *idleOp) String() string     { return "wait until idle" }

// WaitIdle blocks the environment thread until no other thread can run and no timer is due within the grace time.
func WaitIdle() { X.do(&idleOp{rank: 0, until: X.now + Grace}) }

// WaitQuiet blocks until no other thread can run and no timer is pending.
func WaitQuiet() { X.do(&idleOp{rank: 1}) }

// atOp starts a thread at a given step, before anything else, or when nothing else can run.
type atOp struct {
	at   int
	fire bool
}

func (o *atOp) Ready(*Thread) bool { return X.steps >= o.at }
func (o *atOp) Exec(*Thread)       {}
func (o *atOp) String() string     { return "start at step" }

// GoAt starts an environment thread that acts n steps from now, or as soon as nothing else can run.
func GoAt(n int, label string, f func()) {
	x := X
	if x.aborting {
		return
	}
	t := x.newThread(x.cur, label, true)
	x.start(t, f)
	t.op = &atOp{at: x.steps + n}
}

// Freeze switches the exploration of schedules off (the default schedule is followed) or on again.
func Freeze(on bool) { X.frozen = on }

type yieldOp struct{ what string }

func (yieldOp) Ready(*Thread) bool { return true }
func (yieldOp) Exec(t *Thread)     { X.Mix(t, 55) }
func (o yieldOp) String() string   { return o.what }

// Yield is a scheduling point.
func Yield(what string) {
	if X == nil {
		runtime.Gosched()
		return
	}
	X.do(yieldOp{what})
}

type blockOp struct{}

func (blockOp) Ready(*Thread) bool { return false }
func (blockOp) Exec(*Thread)       {}
func (blockOp) String() string     { return "blocked forever" }

// BlockForever is an empty select.
func BlockForever() {
	if X == nil {
		select {}
	}
	X.do(blockOp{})
}

// Choose is a choice of the environment among n alternatives; all are explored.
func Choose(n int) int { return ChooseCost(n, 0) }

// ChooseCost is a choice whose alternatives other than the first cost deviations.
func ChooseCost(n int, cost int) int {
	x := X
	if n <= 1 {
		return 0
	}
	c := x.ex.chooseData(x, n, cost)
	x.Mix(x.cur, 31, uint64(c))
	return c
}

// Fail reports that the property under test is violated in this execution.
func Fail(format string, a ...interface{}) {
	x := X
	if x == nil {
		panic(fmt.Sprintf(format, a...))
	}
	if x.aborting {
		runtime.Goexit()
	}
	if x.Failed == "" {
		x.Failed = fmt.Sprintf(format, a...)
	}
	x.note("FAIL " + x.Failed)
	x.do(blockOp{})
}

// Log appends to the observed outcome of the execution (for outcome statistics and determinism checks).
func Log(format string, a ...interface{}) {
	if X != nil && !X.aborting {
		fmt.Fprintf(&X.Outcome, format, a...)
		X.Outcome.WriteByte(';')
	}
}

// Unfinished lists the threads that have not ended.
func (x *Exec) Unfinished() []Blocked {
	var r []Blocked
	for _, t := range x.threads {
		if !t.done {
			b := Blocked{Name: t.Name, Label: t.Label, Env: t.Env}
			if t.op != nil {
				b.Op = t.op.String()
			}
			r = append(r, b)
		}
	}
	return r
}

// Self returns the running thread.
func Self() *Thread { return X.cur }

// SetEnv marks the running thread (and, by inheritance, unlabelled children) as environment or not.
func SetEnv(env bool) { X.cur.Env = env }

// Steps returns the number of scheduling points passed so far.
func (x *Exec) Steps() int { return x.steps }

// Aborting tells whether the execution is being torn down.
func Aborting() bool { return X != nil && X.aborting }

// teardown ends all remaining goroutines of the execution.
func (x *Exec) teardown() {
	x.aborting = true
	for _, t := range x.threads {
		if t.done {
			continue
		}
		x.cur = t
		t.wake <- struct{}{}
		<-x.exitAck
	}
}

// ---- timers and clock

// timerBy tells whether a timer fires at or before the given time.
func (x *Exec) timerBy(until int64) bool {
	for _, tm := range x.timers {
		if !tm.dead && tm.when <= until && (tm.env || x.timerFire < x.ex.MaxTimers) {
			return true
		}
	}
	return false
}

func (x *Exec) hasTimers() bool {
	for _, tm := range x.timers {
		if !tm.dead && (tm.env || x.timerFire < x.ex.MaxTimers) {
			return true
		}
	}
	return false
}

func (x *Exec) fireTimer() bool {
	var ties []*timer // the timers due next, in the order they were set
	for _, tm := range x.timers {
		switch {
		case tm.dead || !tm.env && x.timerFire >= x.ex.MaxTimers || len(ties) > 0 && tm.when > ties[0].when:
		case len(ties) == 0 || tm.when < ties[0].when:
			ties = append(ties[:0], tm)
		default:
			ties = append(ties, tm)
		}
	}
	if len(ties) == 0 {
		return false
	}
	best := ties[0]
	if len(ties) > 1 && !x.frozen {
		k := x.ex.chooseData(x, len(ties), 1)
		best = ties[k]
		x.clock.h = mix(x.clock.h, uint64(best.seq))
	}
	if !best.env {
		x.timerFire++
	}
	best.dead = true
	if best.when > x.now {
		x.now = best.when
	}
	x.clock.h = mix(x.clock.h, uint64(x.now))
	if x.wantTrace {
		x.note(fmt.Sprintf("    -- timer fires at +%dms: %s", x.now/1e6, best.lbl))
	}
	// timer threads are spawned by the main thread as far as naming is concerned
	saved := x.cur
	x.cur = x.threads[0]
	if best.inl {
		best.f()
	} else {
		t := x.newThread(x.cur, "timer:"+best.lbl, false)
		t.vc = t.vc.join(best.obj.vc)
		x.start(t, best.f)
	}
	x.cur = saved
	return true
}

// Timer is a virtual timer.
type Timer struct{ tm *timer }

// AddTimer schedules f at d nanoseconds from now. With inline, f runs without a thread of its own and must not block.
func AddTimer(d int64, label string, inline bool, f func()) *Timer {
	x := X
	if d < 0 {
		d = 0
	}
	x.tseq++
	tm := &timer{when: x.now + d, seq: x.tseq, f: f, inl: inline, lbl: label, env: x.cur != nil && x.cur.Env}
	tm.obj.Release(61)
	x.timers = append(x.timers, tm)
	return &Timer{tm}
}

// Stop cancels the timer; it tells whether it was still pending.
func (t *Timer) Stop() bool {
	if t == nil || t.tm == nil {
		return false
	}
	was := !t.tm.dead
	t.tm.dead = true
	return was
}

// Clock returns the virtual time without looking at the clock (for observers).
func (x *Exec) Clock() int64 { return x.now }

// Now returns the virtual time in nanoseconds.
func Now() int64 {
	x := X
	x.clock.Acquire(62)
	return x.now
}
