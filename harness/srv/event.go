package main

import (
	"fmt"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/mc/h"
	"verif.local/mc/vs"
)

// event explores firers and observers of one Event.
//
// Ghost state: begun (some Fire call has begun), returned (some Fire call has returned).
func event(firers, observers, rounds int) func() *vs.Scenario {
	return func() *vs.Scenario {
		var wins, fired int
		return &vs.Scenario{
			Body: func() {
				wins, fired = 0, 0
				var begun, returned vs.Ghost[bool]
				e := server.NewEvent()
				if e.HasFired() {
					vs.Fail("a new event reports that it has fired")
				}
				look := func(who string) (bool, bool) {
					mustBefore := returned.Get()
					f := e.HasFired()
					if f && !begun.Get() {
						vs.Fail("%s: HasFired is true before any Fire call began", who)
					}
					if mustBefore && !f {
						vs.Fail("%s: HasFired is false although a Fire call has returned", who)
					}
					mustBefore = returned.Get()
					d := vs.Select("observe done", true, vs.RecvCase(e.Done())) == 0
					if d && !begun.Get() {
						vs.Fail("%s: the Done channel is closed before any Fire call began", who)
					}
					if mustBefore && !d {
						vs.Fail("%s: the Done channel is open although a Fire call has returned", who)
					}
					return f, d
				}
				for i := 0; i < firers; i++ {
					i := i
					vs.GoEnv("firer", func() {
						begun.Set(true)
						w := e.Fire()
						if w {
							wins++
						}
						returned.Set(true)
						fired++
						if i == 0 {
							look(fmt.Sprint("firer ", i))
						}
						if firers < 3 && e.Fire() {
							vs.Fail("a repeated Fire call was told that it caused the event")
						}
					})
				}
				for i := 0; i < observers; i++ {
					i := i
					vs.GoEnv("observer", func() {
						was, wasD := false, false
						for r := 0; r < rounds; r++ {
							f, d := look(fmt.Sprint("observer ", i))
							if was && !f || wasD && !d {
								vs.Fail("observer %d: the event went back", i)
							}
							was, wasD = f, d
							vs.Log("o%d:%v/%v", i, f, d)
						}
					})
				}
				vs.GoEnv("waiter", func() {
					vs.Recv(e.Done(), "wait done")
					if !begun.Get() {
						vs.Fail("waiter: woken before any Fire call began")
					}
				})
			},
			End: func(x *vs.Exec) string {
				if fired != firers {
					return "a Fire call did not return"
				}
				if wins != 1 {
					return fmt.Sprintf("%d Fire calls were told that they caused the event", wins)
				}
				if u := x.Unfinished(); len(u) > 0 {
					return "still blocked: " + u[0].Name + " at " + u[0].Op
				}
				return ""
			},
		}
	}
}

func init() {
	h.Add(&h.Sc{Name: "event-2f1o", Props: []string{"E01"}, What: "2 concurrent Fire callers, 1 polling observer, 1 waiter", Make: event(2, 1, 1), Mode: vs.Unbounded})
	h.Add(&h.Sc{Name: "event-3f0o", Props: []string{"E01"}, What: "3 concurrent Fire callers, 1 waiter", Make: event(3, 0, 0), Mode: vs.Unbounded})
	h.Add(&h.Sc{Name: "event-1f2o", Props: []string{"E01"}, What: "1 Fire caller, 2 polling observers, 1 waiter", Make: event(1, 2, 2), Mode: vs.Unbounded})
	h.Add(&h.Sc{Name: "event-3f2o", Props: []string{"E01"}, What: "3 concurrent Fire callers, 2 polling observers, 1 waiter", Make: event(3, 2, 1), Mode: vs.Preempt, Quick: 1, Thorough: 4})
}
