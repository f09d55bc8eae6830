// Package h is the common part of the exploration harnesses: scenario registry, command line, reports.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"verif.local/mc/vs"
)

// Sc is a registered scenario.
type Sc struct {
	Name  string
	Props []string // properties it decides
	// What describes the closed system explored.
	What string
	Make func() *vs.Scenario
	// Bound of the quick and thorough tiers.
	Quick, Thorough int
	Mode            string
	// ThoroughOnly scenarios are not part of the quick tier.
	ThoroughOnly bool
	// Weight is the expected relative cost, for scheduling.
	Weight int
}

var all []*Sc

// Deeper holds the bounds that the quick tier uses instead of Sc.Quick.
var Deeper map[string]int

// Add registers a scenario.
func Add(s *Sc) {
	if s.Mode == "" {
		s.Mode = vs.Preempt
	}
	all = append(all, s)
}

// Result is the report of one scenario.
type Result struct {
	Scenario  string        `json:"scenario"`
	What      string        `json:"what"`
	Stats     vs.Stats      `json:"stats"`
	Violation *vs.Violation `json:"violation,omitempty"`
	Error     string        `json:"error,omitempty"`
}

// Main is the entry point of a harness binary.
func Main() {
	list := flag.String("list", "", "list the scenarios of a property (or 'all')")
	tier := flag.String("tier", "quick", "quick or thorough")
	run := flag.String("run", "", "scenario to explore")
	secs := flag.Float64("secs", 60, "time limit")
	out := flag.String("out", "", "report file")
	replay := flag.String("replay", "", "report file whose violation is to be replayed")
	bound := flag.Int("bound", -1, "override the bound")
	mode := flag.String("mode", "", "override the mode")
	races := flag.Bool("races", false, "data races are violations")
	onlyRaces := flag.Bool("onlyraces", false, "only data races are violations")
	show := flag.Bool("trace", false, "print the trace of the default execution")
	flag.Parse()
	vs.CheckRaces = *races || *onlyRaces
	sort.Slice(all, func(i, j int) bool { return all[i].Name < all[j].Name })
	if *list != "" {
		for _, s := range all {
			if s.ThoroughOnly && *tier == "quick" {
				continue
			}
			for _, p := range s.Props {
				if p == *list || *list == "all" {
					fmt.Printf("%s %d\n", s.Name, s.Weight)
					break
				}
			}
		}
		return
	}
	var rep Result
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &rep)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		*run = rep.Scenario
	}
	var sc *Sc
	for _, s := range all {
		if s.Name == *run {
			sc = s
		}
	}
	if sc == nil {
		fmt.Println("unknown scenario", *run)
		os.Exit(2)
	}
	s := sc.Make()
	s.Name = sc.Name
	s.Mode = sc.Mode
	s.Bound = sc.Quick
	if b := Deeper[sc.Name]; b > s.Bound && !*onlyRaces {
		s.Bound = b
	}
	if *tier == "thorough" && sc.Thorough > s.Bound {
		s.Bound = sc.Thorough
	}
	if *bound >= 0 {
		s.Bound = *bound
	}
	if *mode != "" {
		s.Mode = *mode
	}
	if s.MaxSteps == 0 {
		s.MaxSteps = 5000
	}
	if s.MaxTimers == 0 {
		s.MaxTimers = 20
	}
	if *replay != "" || *show {
		var ch []int
		m, b := s.Mode, s.Bound
		if rep.Violation != nil {
			ch, m, b = rep.Violation.Choices, rep.Violation.Mode, rep.Violation.Bound
			for _, l := range rep.Violation.Racy {
				if vs.Racy == nil {
					vs.Racy = map[string]bool{}
					s.MaxSteps *= 4
				}
				vs.Racy[l] = true
			}
		}
		x := vs.Replay(s, m, b, ch, true)
		fmt.Println(strings.Join(x.Trace(), "\n"))
		k, msg := vs.Verdict(s, x)
		fmt.Printf("verdict: %s %s\noutcome: %s\n", k, msg, x.Outcome.String())
		for _, r := range x.Races {
			fmt.Println(r)
		}
		if k != "" {
			os.Exit(1)
		}
		return
	}
	go watchdog(sc.Name, *out)
	filter := func(kind, msg string) bool { return *onlyRaces && kind != "race" }
	v, st, err := vs.Explore(s, *secs, filter)
	r := Result{Scenario: sc.Name, What: sc.What, Stats: st, Violation: v}
	if err != nil {
		r.Error = err.Error()
	}
	emit(r, *out)
	switch {
	case err != nil:
		os.Exit(2)
	case v != nil:
		os.Exit(1)
	}
}

func emit(r Result, out string) {
	b, _ := json.MarshalIndent(r, "", " ")
	if out == "" {
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}

// watchdog ends the process when an execution makes no progress (the program blocks or spins without using any
// modelled primitive).
func watchdog(name, out string) {
	last := vs.Progress()
	for {
		time.Sleep(60 * time.Second)
		p := vs.Progress()
		if p == last {
			emit(Result{Scenario: name, Error: "no progress for 60 s: the program blocks or spins outside of the model"}, out)
			os.Exit(3)
		}
		last = p
	}
}
