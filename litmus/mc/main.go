// Command mc explores every execution of the litmus programs under the virtual runtime.
package main

import (
	"encoding/json"
	"os"
	"sync"

	"verif.local/litmus/prog"
	"verif.local/mc/vnet"
	"verif.local/mc/vs"
)

type result struct {
	Outcomes   map[string]int
	Want       []string
	Executions int
	States     int
	Exhaustive bool
	Late       []string
	Error      string
}

func main() {
	res := map[string]*result{}
	var mu sync.Mutex
	run := func(name string, f func() string, want []string, mode string, bound int) {
		s := &vs.Scenario{Name: name, Mode: mode, Bound: bound, MaxSteps: 20000, MaxTimers: 40}
		s.Body = func() { vnet.W().Coalesce = true; vs.Log("%s", f()) }
		r := &result{Outcomes: map[string]int{}, Want: want}
		v, st, err := vs.Explore(s, 60, nil)
		for o, n := range st.Outcomes {
			r.Outcomes[o] += n
		}
		r.Executions, r.States, r.Exhaustive = st.Executions, st.States, st.Exhaustive
		if v != nil {
			r.Error = v.Kind + ": " + v.Message
		}
		if err != nil {
			r.Error = err.Error()
		}
		mu.Lock()
		res[name] = r
		mu.Unlock()
	}
	vs.CheckRaces = true
	for n, f := range prog.Determined {
		run("one: "+n, f, nil, vs.Delay, 1)
	}
	for n, l := range prog.Litmus {
		vs.CheckRaces = !l.Racy
		run(n, l.Run, l.Want, vs.Unbounded, 0)
		res[n].Late = l.Late
	}
	_ = json.NewEncoder(os.Stdout).Encode(res)
}
