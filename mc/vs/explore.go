package vs

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Bounding modes.
const (
	Unbounded = "full"       // every interleaving
	Preempt   = "preemption" // switching away from a runnable thread costs 1
	Delay     = "delay"      // taking the i-th candidate in round-robin order costs i
)

// Scenario is a closed system: the program under test plus a driver.
type Scenario struct {
	Name string
	// Body runs as the first thread of each execution.
	Body func()
	// End judges a finished execution (nothing can run any more). It returns "" or the description of a violation.
	End func(x *Exec) string
	// AllowCrash makes panics a matter for End rather than a violation.
	AllowCrash bool
	MaxSteps   int
	MaxTimers  int
	Mode       string
	Bound      int // largest bound explored (modes other than full)
	MaxSecs    float64
}

type decision struct {
	n      int
	chosen int
	thread bool
	free   bool // PB: the running thread could not continue, so alternatives are free
	cost   int  // data choices: cost of alternatives
	rem    int  // remaining budget before the choice
	sig    uint64
}

// Explorer enumerates the executions of a scenario by depth-first search with replay.
type Explorer struct {
	S         *Scenario
	Mode      string
	Bound     int
	MaxTimers int

	stack   []decision
	pos     int
	rem     int
	visited map[[2]uint64]int8
	replay  []int // fixed choices (replay mode)
	fixed   bool
	cut     bool // an alternative was left out because of the bound

	Stats Stats
}

// Stats counts what an exploration covered.
type Stats struct {
	Scenario    string         `json:"scenario"`
	Mode        string         `json:"mode"`
	Bound       int            `json:"bound_completed"`
	Executions  int            `json:"executions"`
	Complete    int            `json:"complete_executions"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	MaxDepth    int            `json:"max_decisions"`
	MaxSteps    int            `json:"max_steps"`
	MaxThreads  int            `json:"max_threads"`
	Outcomes    map[string]int `json:"-"`
	NOutcomes   int            `json:"distinct_outcomes"`
	Exhaustive  bool           `json:"exhaustive"`
	Horizon     int            `json:"horizon_hits"`
	WallS       float64        `json:"wall_s"`
	SampleOut   []string       `json:"sample_outcomes,omitempty"`
	FullSpace   bool           `json:"bound_did_not_cut"`

	// RacyLocations counts the locations at which memory accesses were made scheduling points in a second exploration.
	RacyLocations int `json:"racy_locations,omitempty"`
}

// Violation is a failing execution.
type Violation struct {
	Kind    string   `json:"kind"` // oracle, crash, race, livelock
	Message string   `json:"message"`
	Choices []int    `json:"choices"`
	Trace   []string `json:"trace"`
	Mode    string   `json:"mode"`
	Bound   int      `json:"bound"`
	Racy    []string `json:"racy,omitempty"` // locations at which memory accesses were scheduling points
}

func (e *Explorer) chooseThread(x *Exec, t *Thread, list []*Thread) int {
	free := t.done || list[0] != t
	sig := mix(x.sig, uint64(x.now))
	if e.fixed {
		c := e.nextFixed(x, len(list))
		return c
	}
	e.Stats.Transitions++
	if e.pos < len(e.stack) {
		d := &e.stack[e.pos]
		if d.n != len(list) || !d.thread || d.sig != sig {
			x.Diverged = fmt.Sprintf("replay diverged at decision %d: %d/%d candidates, thread=%v sig %x/%x", e.pos, d.n, len(list), d.thread, d.sig, sig)
			return -1
		}
		e.pos++
		e.rem = d.rem - e.tcost(d.free, d.chosen)
		return d.chosen
	}
	key := [2]uint64{sig, 0}
	rem := e.rem
	if e.Mode != Unbounded {
		key[1] = t.cid
	} else {
		rem = 0
	}
	if prev, ok := e.visited[key]; ok && int(prev) >= rem {
		x.Pruned = true
		return -1
	}
	if _, ok := e.visited[key]; !ok {
		e.Stats.States++
	}
	e.visited[key] = int8(rem)
	e.stack = append(e.stack, decision{n: len(list), thread: true, free: free, rem: e.rem, sig: sig})
	e.pos++
	return 0
}

func (e *Explorer) tcost(free bool, i int) int {
	switch e.Mode {
	case Preempt:
		if free || i == 0 {
			return 0
		}
		return 1
	case Delay:
		return i
	}
	return 0
}

func (e *Explorer) chooseData(x *Exec, n int, cost int) int {
	if e.fixed {
		return e.nextFixed(x, n)
	}
	e.Stats.Transitions++
	if e.Mode == Unbounded {
		cost = 0
	}
	if e.pos < len(e.stack) {
		d := &e.stack[e.pos]
		if d.n != n || d.thread {
			x.Diverged = fmt.Sprintf("replay diverged at data decision %d: n %d/%d", e.pos, d.n, n)
			return 0
		}
		e.pos++
		e.rem = d.rem
		if d.chosen > 0 {
			e.rem -= d.cost
		}
		return d.chosen
	}
	e.stack = append(e.stack, decision{n: n, rem: e.rem, cost: cost})
	e.pos++
	return 0
}

func (e *Explorer) nextFixed(x *Exec, n int) int {
	if e.pos >= len(e.replay) {
		e.pos++
		return 0
	}
	c := e.replay[e.pos]
	e.pos++
	if c < 0 || c >= n {
		x.Diverged = fmt.Sprintf("recorded choice %d out of range %d at decision %d", c, n, e.pos-1)
		return 0
	}
	return c
}

// backtrack moves to the next unexplored alternative; false when there is none.
func (e *Explorer) backtrack() bool {
	for len(e.stack) > 0 {
		d := &e.stack[len(e.stack)-1]
		if d.chosen+1 < d.n {
			next := d.chosen + 1
			var c int
			if d.thread {
				c = e.tcost(d.free, next)
			} else if next > 0 {
				c = d.cost
			}
			if c <= d.rem {
				d.chosen = next
				return true
			}
			e.cut = true
		}
		e.stack = e.stack[:len(e.stack)-1]
	}
	return false
}

var progress int64

// Progress is a counter that grows while executions advance.
func Progress() int64 { return atomic.LoadInt64(&progress) }

// run performs one execution.
func (e *Explorer) run(trace bool) *Exec {
	x := &Exec{
		ex: e, finished: make(chan struct{}), exitAck: make(chan struct{}),
		chans: map[unsafe.Pointer]*chanState{}, maps: map[unsafe.Pointer]*mapOrder{},
		cells: map[unsafe.Pointer]*cell{}, Local: map[interface{}]interface{}{},
		raceSeen: map[string]bool{}, racy: Racy, maxSteps: e.S.MaxSteps, wantTrace: trace,
	}
	atomic.AddInt64(&progress, 1)
	e.pos = 0
	e.rem = e.Bound
	if e.Mode == Unbounded {
		e.rem = 0
	}
	Reset()
	X = x
	t := x.newThread(nil, "", true)
	x.cur = t
	x.start(t, e.S.Body)
	t.wake <- struct{}{}
	<-x.finished
	if x.Crash == "" && x.Failed == "" && !x.Pruned && x.Diverged == "" && !x.Horizon && e.S.End != nil {
		// judged before teardown, as an observer outside of the execution
		x.Failed = e.S.End(x)
		if x.Failed != "" && x.wantTrace {
			for _, b := range x.Unfinished() {
				x.note(fmt.Sprintf("    unfinished: %s at %s", b.Name, b.Op))
			}
			x.note("FAIL " + x.Failed)
		}
	}
	if x.Horizon && x.wantTrace {
		for _, b := range x.Unfinished() {
			x.note(fmt.Sprintf("    unfinished: %s at %s", b.Name, b.Op))
		}
	}
	x.teardown()
	X = nil
	return x
}

func (x *Exec) verdict(allowCrash bool) (string, string) {
	switch {
	case x.Crash != "" && !allowCrash:
		return "crash", x.Crash
	case x.Failed != "":
		return "oracle", x.Failed
	case x.Horizon:
		return "livelock", fmt.Sprintf("still running after %d steps", x.maxSteps)
	}
	return "", ""
}

// CheckRaces makes data races violations.
var CheckRaces = false

func (e *Explorer) choices() []int {
	var r []int
	for _, d := range e.stack {
		r = append(r, d.chosen)
	}
	// trailing zeros are the default
	for len(r) > 0 && r[len(r)-1] == 0 {
		r = r[:len(r)-1]
	}
	return r
}

// Replay runs one recorded execution.
func Replay(s *Scenario, mode string, bound int, choices []int, trace bool) *Exec {
	e := &Explorer{S: s, Mode: mode, Bound: bound, MaxTimers: s.MaxTimers, replay: choices, fixed: true}
	return e.run(trace)
}

// Verdict classifies a finished execution; "" if nothing is wrong.
func Verdict(s *Scenario, x *Exec) (kind, msg string) {
	k, m := x.verdict(s.AllowCrash)
	if k == "" && CheckRaces && len(x.Races) > 0 {
		return "race", x.Races[0]
	}
	return k, m
}

// Explore enumerates executions up to the bound, iterating the bound from 0, within the time limit.
// accept, if not nil, filters violations (false: a listed finding, go on).
//
// If nothing is violated but data races were seen, the scenario is explored again with scheduling points at the
// accesses that raced (see Racy): what a missing lock breaks shows there only.
func Explore(s *Scenario, maxSecs float64, known func(kind, msg string) bool) (*Violation, Stats, error) {
	start := time.Now()
	Racy = nil
	seen := map[string]bool{}
	v, st, err := explore(s, maxSecs, known, seen)
	if v != nil || err != nil || len(seen) == 0 || CheckRaces {
		return v, st, err
	}
	left := maxSecs - time.Since(start).Seconds()
	if left < maxSecs/2 {
		left = maxSecs / 2
	}
	Racy = seen
	s.MaxSteps *= 4
	v, st2, err := explore(s, left, known, map[string]bool{})
	st.RacyLocations = len(seen)
	st.Executions += st2.Executions
	st.Complete += st2.Complete
	st.Transitions += st2.Transitions
	st.States += st2.States
	for o, n := range st2.Outcomes {
		st.Outcomes[o] += n
	}
	st.WallS += st2.WallS
	st.Exhaustive = st.Exhaustive && st2.Exhaustive
	if v != nil {
		for l := range seen {
			v.Racy = append(v.Racy, l)
		}
		sort.Strings(v.Racy)
	}
	return v, st, err
}

func explore(s *Scenario, maxSecs float64, known func(kind, msg string) bool, racy map[string]bool) (*Violation, Stats, error) {
	if s.MaxSteps == 0 {
		s.MaxSteps = 5000
	}
	if s.MaxTimers == 0 {
		s.MaxTimers = 20
	}
	debug := os.Getenv("MC_DEBUG") != ""
	var prev []string
	start := time.Now()
	total := Stats{Scenario: s.Name, Mode: s.Mode, Bound: -1, Outcomes: map[string]int{}}
	first, last := 0, s.Bound
	if s.Mode == Unbounded {
		first, last = 0, 0
	}
	finish := func() Stats {
		total.WallS = time.Since(start).Seconds()
		total.NOutcomes = len(total.Outcomes)
		for o := range total.Outcomes {
			if len(total.SampleOut) < 5 {
				total.SampleOut = append(total.SampleOut, o)
			}
		}
		return total
	}
	for b := first; b <= last; b++ {
		e := &Explorer{S: s, Mode: s.Mode, Bound: b, MaxTimers: s.MaxTimers, visited: map[[2]uint64]int8{}}
		e.Stats.Outcomes = map[string]int{}
		for n := 0; ; n++ {
			x := e.run(debug)
			e.Stats.Executions++
			for _, l := range x.raceSites {
				racy[l] = true
			}
			if x.Diverged != "" {
				if debug {
					os.WriteFile("diverged.1", []byte(strings.Join(prev, "\n")), 0o644)
					os.WriteFile("diverged.2", []byte(strings.Join(x.trace, "\n")), 0o644)
				}
				return nil, finish(), fmt.Errorf("scenario %s: %s", s.Name, x.Diverged)
			}
			if debug {
				prev = x.trace
			}
			if len(e.stack) > e.Stats.MaxDepth {
				e.Stats.MaxDepth = len(e.stack)
			}
			if x.steps > e.Stats.MaxSteps {
				e.Stats.MaxSteps = x.steps
			}
			if len(x.threads) > e.Stats.MaxThreads {
				e.Stats.MaxThreads = len(x.threads)
			}
			if !x.Pruned {
				e.Stats.Complete++
				o := x.Outcome.String()
				if len(o) > 300 {
					o = fmt.Sprintf("%s...#%x", o[:280], HashString(o))
				}
				if len(e.Stats.Outcomes) < 100000 {
					e.Stats.Outcomes[o]++
				}
			}
			if k, m := Verdict(s, x); k != "" && !(known != nil && known(k, m)) {
				v := &Violation{Kind: k, Message: m, Choices: e.choices(), Mode: s.Mode, Bound: b}
				e.stack = e.stack[:e.pos]
				// the failure must reproduce, with the same verdict, every time
				for i := 0; i < 5; i++ {
					r := Replay(s, s.Mode, b, v.Choices, i == 4)
					k2, m2 := Verdict(s, r)
					if k2 != k || (k != "crash" && m2 != m) {
						if os.Getenv("MC_DEBUG") != "" {
							for _, l := range r.trace {
								fmt.Fprintln(os.Stderr, l)
							}
						}
						return nil, finish(), fmt.Errorf("scenario %s: violation %q/%q did not reproduce: %q/%q (%s)", s.Name, k, m, k2, m2, r.Diverged)
					}
					if i == 4 {
						v.Trace = r.trace
					}
				}
				merge(&total, e, b, false)
				return v, finish(), nil
			}
			if x.Horizon {
				e.Stats.Horizon++
			}
			if !e.backtrack() {
				break
			}
			if n%16 == 0 && time.Since(start).Seconds() > maxSecs {
				merge(&total, e, b, false)
				return nil, finish(), nil
			}
		}
		merge(&total, e, b, true)
		if !e.cut {
			total.FullSpace = true
			break
		}
	}
	total.Exhaustive = true
	return nil, finish(), nil
}

func merge(t *Stats, e *Explorer, b int, done bool) {
	t.Executions += e.Stats.Executions
	t.Complete += e.Stats.Complete
	t.Transitions += e.Stats.Transitions
	t.Horizon += e.Stats.Horizon
	if e.Stats.States > t.States {
		t.States = e.Stats.States // bounds are nested: the largest iteration contains the smaller ones
	}
	if e.Stats.MaxDepth > t.MaxDepth {
		t.MaxDepth = e.Stats.MaxDepth
	}
	if e.Stats.MaxSteps > t.MaxSteps {
		t.MaxSteps = e.Stats.MaxSteps
	}
	if e.Stats.MaxThreads > t.MaxThreads {
		t.MaxThreads = e.Stats.MaxThreads
	}
	for o, n := range e.Stats.Outcomes {
		t.Outcomes[o] += n
	}
	if done {
		t.Bound = b
	}
}

// Trace returns the recorded trace.
func (x *Exec) Trace() []string { return x.trace }

// Threads returns the number of threads created.
func (x *Exec) Threads() int { return len(x.threads) }
