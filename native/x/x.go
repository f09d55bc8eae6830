// Package x enumerates every behaviour of a sequential program under test, exhaustively within the bounds of a space.
//
// A space is a body that asks for choices; the engine runs the body once for every possible sequence of answers
// (depth-first, by re-execution). A space is divided among child processes, each of which publishes the choices of the
// execution in progress in shared memory, so that a crash, a fatal error or an endless loop of the program under test is
// attributed to the input that caused it.
package x

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// C is one execution: the source of its choices.
type C struct {
	vec   []int // choices made
	width []int // alternatives there were
	lab   []string
	given int // choices that were given from outside
	Tier  string
	Prop  string // the property being checked

	shard, shards, depth int
	ordinal              *int
	pub                  *page

	// Precise asks for exact measurements; a violation seen without it counts only if it is seen with it.
	Precise   bool
	Imprecise bool

	undec  string
	failed string
	note   string
	Steps  int // operations of the program under test that were performed and judged
}

type page struct {
	count uint64
	n     uint32
	vec   [1021]uint32
}

type skip struct{}
type undecided string
type stop struct{}

// Thorough tells whether the larger bounds apply.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// N returns the bound for the tier.
func (c *C) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Choose returns one of 0..n-1; every one is explored.
func (c *C) Choose(n int, label string) int {
	if n <= 0 {
		panic("x: no alternative for " + label)
	}
	k := len(c.vec)
	v := 0
	if k < c.given {
		// re-execution of the prefix
		v = c.width[k] >> 32
		c.width[k] = n
		if v >= n {
			panic(fmt.Sprintf("x: the enumeration is not deterministic: choice %d of %d at %s", v, n, label))
		}
	} else {
		c.width = append(c.width, n)
	}
	c.vec = append(c.vec, v)
	c.lab = append(c.lab, label)
	if c.pub != nil && k < len(c.pub.vec) {
		c.pub.vec[k] = uint32(v)
		atomic.StoreUint32(&c.pub.n, uint32(k+1))
	}
	if c.shards > 1 && k+1 == c.depth && c.given <= c.depth {
		*c.ordinal++
		if *c.ordinal%c.shards != c.shard {
			panic(skip{})
		}
	}
	return v
}

// Bool chooses between false and true.
func (c *C) Bool(label string) bool { return c.Choose(2, label) == 1 }

// Pick chooses one of the strings.
func (c *C) Pick(label string, from ...string) string { return from[c.Choose(len(from), label)] }

// PickInt chooses one of the numbers.
func (c *C) PickInt(label string, from ...int) int { return from[c.Choose(len(from), label)] }

// Failf reports a violation.
func (c *C) Failf(format string, args ...interface{}) {
	c.failed = fmt.Sprintf(format, args...)
	panic(stop{})
}

// Undecided gives up on the execution: nothing is concluded from it.
func (c *C) Undecided(format string, args ...interface{}) {
	panic(undecided(fmt.Sprintf(format, args...)))
}

// Step counts n operations of the program under test.
func (c *C) Step(n int) { c.Steps += n }

// Note describes the execution, for samples and violations.
func (c *C) Note(format string, args ...interface{}) { c.note = fmt.Sprintf(format, args...) }

// Sampling tells whether a note is of interest.
func (c *C) Sampling() bool { return c.pub == nil || c.pub.count%4099 < 3 }

// Space is one space of executions.
type Space struct {
	Name  string
	Props []string
	What  string
	Body  func(c *C)
	Depth int // the first Depth choices divide the space among processes
	Hang  int // seconds without progress that count as an endless loop; default 20
	Par   int // processes at most; default one per CPU
	Only  string
	Setup func()
}

var spaces []*Space

// Add registers a space.
func Add(s *Space) {
	if s.Depth == 0 {
		s.Depth = 2
	}
	if s.Hang == 0 {
		s.Hang = 20
	}
	spaces = append(spaces, s)
}

// Violation is a failed execution.
type Violation struct {
	Kind    string   `json:"kind"`
	Message string   `json:"message"`
	Note    string   `json:"input,omitempty"`
	Choices []int    `json:"choices"`
	Labels  []string `json:"labels,omitempty"`
}

// Report is what the exploration of one space covered.
type Report struct {
	Scenario  string     `json:"scenario"`
	What      string     `json:"what"`
	Prop      string     `json:"property"`
	Tier      string     `json:"tier"`
	Stats     Stats      `json:"stats"`
	Violation *Violation `json:"violation,omitempty"`
	Error     string     `json:"error,omitempty"`
}

// Stats counts what was explored.
type Stats struct {
	States      int      `json:"states"`      // nodes of the choice tree
	Transitions int      `json:"transitions"` // operations of the program under test judged (at least one per execution)
	Executions  int      `json:"executions"`
	Undecided   int      `json:"undecided,omitempty"`
	Exhaustive  bool     `json:"exhaustive"`
	Wall        float64  `json:"wall_s"`
	Samples     []string `json:"sample_outcomes"`
	Mode        string   `json:"mode"`
}

// run performs one execution with the given leading choices.
func run(s *Space, c *C) (v *Violation, skipped bool) {
	c.undec = ""
	defer func() {
		switch e := recover(); e := e.(type) {
		case nil:
		case skip:
			skipped = true
		case undecided:
			c.undec = string(e)
		case stop:
			v = &Violation{Kind: "property", Message: c.failed}
		default:
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 2500 {
				st = st[:2500]
			}
			v = &Violation{Kind: "panic", Message: fmt.Sprintf("panic: %v\n%s", e, st)}
		}
		if v != nil {
			v.Note, v.Choices, v.Labels = c.note, append([]int(nil), c.vec...), append([]string(nil), c.lab...)
		}
	}()
	s.Body(c)
	return nil, false
}

func explore(s *Space, prop, tier string, shard, shards int, pub *page, deadline time.Time) *Report {
	r := &Report{Scenario: s.Name, What: s.What, Prop: prop, Tier: tier}
	start := time.Now()
	r.Stats.Mode = "every choice sequence"
	var vec, width []int
	ordinal := -1
	for first := true; first || len(vec) > 0; first = false {
		c := &C{Tier: tier, Prop: prop, shard: shard, shards: shards, depth: s.Depth, ordinal: &ordinal, pub: pub, given: len(vec)}
		c.width = width[:0]
		for i := range vec {
			c.width = append(c.width, vec[i]<<32)
		}
		c.lab = nil
		// a prefix shorter than the sharding depth is judged again when it is extended
		v, skipped := run(s, c)
		atomic.AddUint64(&pub.count, 1)
		if v == nil && !skipped && shards > 1 && len(c.vec) < s.Depth && shard != 0 {
			skipped = true // short executions belong to the first process
		}
		if !skipped {
			r.Stats.Executions++
			if c.undec != "" {
				r.Stats.Undecided++
				if r.Stats.Undecided < 3 {
					r.Stats.Samples = append(r.Stats.Samples, "undecided: "+c.undec)
				}
			}
			r.Stats.States += len(c.vec) - c.given + 1
			r.Stats.Transitions += 1
			if c.Steps > 1 {
				r.Stats.Transitions += c.Steps - 1
			}
			if c.note != "" && len(r.Stats.Samples) < 3 && r.Stats.Executions%97 == 1 {
				n := c.note
				if len(n) > 300 {
					n = n[:300] + "…"
				}
				r.Stats.Samples = append(r.Stats.Samples, n)
			}
		}
		if v != nil {
			// must happen again, to exclude that the environment caused it
			same := true
			for i := 0; i < 4 && same; i++ {
				c2 := &C{Tier: tier, Prop: prop, Precise: true, given: len(c.vec)}
				for _, x := range c.vec {
					c2.width = append(c2.width, x<<32)
				}
				v2, _ := run(s, c2)
				same = v2 != nil
			}
			if same {
				r.Violation = v
				break
			}
			if !c.Imprecise {
				r.Error = "not reproducible, not reported: " + v.Message
			}
		}
		// next sequence
		vec, width = append([]int(nil), c.vec...), c.width
		k := len(vec) - 1
		for k >= 0 && vec[k]+1 >= width[k] {
			k--
		}
		if k < 0 {
			r.Stats.Exhaustive = r.Stats.Undecided == 0
			break
		}
		vec = vec[:k+1]
		vec[k]++
		if r.Stats.Executions%64 == 0 && time.Now().After(deadline) {
			break
		}
	}
	r.Stats.Wall = time.Since(start).Seconds()
	return r
}

func mapPage(path string) *page {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	_ = f.Truncate(int64(unsafe.Sizeof(page{})))
	b, err := syscall.Mmap(int(f.Fd()), 0, int(unsafe.Sizeof(page{})), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return (*page)(unsafe.Pointer(&b[0]))
}

func find(name string) *Space {
	for _, s := range spaces {
		if s.Name == name {
			return s
		}
	}
	fmt.Fprintln(os.Stderr, "no such space:", name)
	os.Exit(2)
	return nil
}

// Main is the main function of a harness.
func Main() {
	list := flag.String("list", "", "list the spaces of the property")
	name := flag.String("run", "", "explore the space")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	secs := flag.Float64("secs", 60, "time limit")
	out := flag.String("out", "", "report")
	shard := flag.Int("shard", -1, "")
	shards := flag.Int("shards", 1, "")
	pubf := flag.String("page", "", "")
	replay := flag.String("replay", "", "show a violation again")
	flag.Parse()
	switch {
	case *list != "":
		for _, s := range spaces {
			for _, p := range s.Props {
				if p == *list && (s.Only == "" || s.Only == *tier) {
					fmt.Println(s.Name, 1)
				}
			}
		}
	case *replay != "":
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r Report
		if err := json.Unmarshal(b, &r); err != nil || r.Violation == nil {
			fmt.Fprintln(os.Stderr, "not a violation:", err)
			os.Exit(2)
		}
		s := find(r.Scenario)
		if s.Setup != nil {
			s.Setup()
		}
		c := &C{Tier: r.Tier, Prop: r.Prop, Precise: true, given: len(r.Violation.Choices)}
		for _, x := range r.Violation.Choices {
			c.width = append(c.width, x<<32)
		}
		fmt.Printf("space %s: %s\nchoices %v\n%v\n", s.Name, s.What, r.Violation.Choices, r.Violation.Labels)
		v, _ := run(s, c)
		if v == nil {
			fmt.Println("did not happen again")
			return
		}
		fmt.Printf("%s: %s\ninput: %s\n", v.Kind, v.Message, v.Note)
		os.Exit(1)
	case *shard >= 0:
		s := find(*name)
		if s.Setup != nil {
			s.Setup()
		}
		r := explore(s, *prop, *tier, *shard, *shards, mapPage(*pubf), time.Now().Add(time.Duration(*secs*1e9)))
		writeReport(*out, r)
	default:
		parent(find(*name), *prop, *tier, *secs, *out)
	}
}

func writeReport(path string, r *Report) {
	b, _ := json.Marshal(r)
	if path == "" {
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(path, b, 0600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// parent divides a space among child processes and merges their reports.
func parent(s *Space, prop, tier string, secs float64, out string) {
	n := runtime.NumCPU()
	if s.Par > 0 && s.Par < n {
		n = s.Par
	}
	dir, err := os.MkdirTemp(os.Getenv("MC_SCRATCH"), "x-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	start := time.Now()
	total := &Report{Scenario: s.Name, What: s.What, Prop: prop, Tier: tier}
	total.Stats.Exhaustive = true
	total.Stats.Mode = "every choice sequence"
	var mu sync.Mutex
	var wg sync.WaitGroup
	var cmds []*exec.Cmd
	done := false
	finish := func() { // with mu held
		done = true
		for _, c := range cmds {
			if c.Process != nil {
				_ = c.Process.Kill()
			}
		}
	}
	self, _ := os.Executable()
	for i := 0; i < n; i++ {
		i := i
		pf, rf := filepath.Join(dir, fmt.Sprint("page", i)), filepath.Join(dir, fmt.Sprint("rep", i))
		pub := mapPage(pf)
		var errb strings.Builder
		cmd := exec.Command(self, "-run", s.Name, "-prop", prop, "-tier", tier, "-secs", fmt.Sprint(secs), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n), "-page", pf, "-out", rf)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
		cmd.Stderr = &errb
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		mu.Lock()
		runtime.LockOSThread()
		err := cmd.Start()
		cmds = append(cmds, cmd)
		mu.Unlock()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			ended := make(chan error, 1)
			go func() { ended <- cmd.Wait() }()
			last, since := uint64(0), time.Now()
			hang := false
			var werr error
		wait:
			for {
				select {
				case werr = <-ended:
					break wait
				case <-time.After(200 * time.Millisecond):
					if c := atomic.LoadUint64(&pub.count); c != last {
						last, since = c, time.Now()
					} else if time.Since(since) > time.Duration(s.Hang)*time.Second && !hang {
						hang = true
						_ = cmd.Process.Kill()
					}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if done {
				return
			}
			var r Report
			b, e := os.ReadFile(rf)
			if e == nil {
				e = json.Unmarshal(b, &r)
			}
			if e != nil {
				var vec []int
				for k := 0; k < int(pub.n) && k < len(pub.vec); k++ {
					vec = append(vec, int(pub.vec[k]))
				}
				t := errb.String()
				if len(t) > 2500 {
					t = t[:2500]
				}
				switch {
				case hang:
					total.Violation = &Violation{Kind: "hang", Message: fmt.Sprintf("no end after %d s", s.Hang), Choices: vec}
				case strings.Contains(t, "fatal error:") || strings.Contains(t, "panic:") || strings.Contains(t, "goroutine "):
					total.Violation = &Violation{Kind: "crash", Message: "the process died: " + t, Choices: vec}
				default:
					total.Error = fmt.Sprintf("child %d: no report: %v %s", i, werr, t)
				}
				finish()
				return
			}
			total.Stats.States += r.Stats.States
			total.Stats.Transitions += r.Stats.Transitions
			total.Stats.Executions += r.Stats.Executions
			total.Stats.Undecided += r.Stats.Undecided
			total.Stats.Exhaustive = total.Stats.Exhaustive && r.Stats.Exhaustive
			if len(total.Stats.Samples) < 4 {
				total.Stats.Samples = append(total.Stats.Samples, r.Stats.Samples...)
			}
			if r.Error != "" {
				fmt.Fprintln(os.Stderr, r.Error)
				total.Stats.Samples = append(total.Stats.Samples, r.Error)
			}
			if r.Violation != nil {
				total.Violation = r.Violation
				finish()
			}
		}()
	}
	wg.Wait()
	total.Stats.Wall = time.Since(start).Seconds()
	writeReport(out, total)
	if total.Violation != nil {
		os.Exit(1)
	}
}
