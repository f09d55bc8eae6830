// Command native runs the litmus programs under the native runtime.
package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"time"

	"verif.local/litmus/prog"
)

func main() {
	secs := time.Duration(15) * time.Second
	res := map[string]map[string]int{}
	var names []string
	for n := range prog.Determined {
		names = append(names, n)
	}
	sort.Strings(names) // some leave things behind for others
	for _, n := range names {
		res["one: "+n] = map[string]int{prog.Determined[n](): 1}
	}
	prog.Jitter = func() {
		switch rand.Intn(4) {
		case 0:
			runtime.Gosched()
		case 1:
			for i := rand.Intn(3000); i > 0; i-- {
				runtime.KeepAlive(i)
			}
		case 2:
			if rand.Intn(50) == 0 {
				time.Sleep(time.Duration(rand.Intn(100)) * time.Microsecond)
			}
		}
	}
	per := secs / time.Duration(len(prog.Litmus))
	for n, l := range prog.Litmus {
		m := map[string]int{}
		start := time.Now()
		for i := 0; i < 20000 && time.Since(start) < per; i++ {
			m[l.Run()]++
		}
		res[n] = m
	}
	_ = json.NewEncoder(os.Stdout).Encode(res)
}
