// Package vtime is package time on the virtual clock: time passes only when nothing else can run.
package vtime

import (
	"time"

	"verif.local/mc/vs"
)

// Base is the instant at which every execution begins.
var Base = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// Now is time.Now.
func Now() Time {
	if vs.X == nil {
		return time.Now()
	}
	return Base.Add(Duration(vs.Now()))
}

// Since is time.Since.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t Time) Duration { return t.Sub(Now()) }

// Nanos converts an instant of the virtual clock to nanoseconds from the start of the execution.
func Nanos(t Time) int64 { return int64(t.Sub(Base)) }

type sleepOp struct {
	fired bool
	o     vs.Obj
}

func (s *sleepOp) Ready(*vs.Thread) bool { return s.fired }
func (s *sleepOp) String() string        { return "sleep" }
func (s *sleepOp) Exec(*vs.Thread)       { s.o.Acquire(301) }

// Sleep is time.Sleep.
func Sleep(d Duration) {
	if vs.X == nil {
		time.Sleep(d)
		return
	}
	if d <= 0 {
		vs.Yield("sleep 0")
		return
	}
	s := &sleepOp{}
	vs.AddTimer(int64(d), "sleep", true, func() { s.fired = true; s.o.Release(302) })
	vs.Do(s)
}

// Timer is time.Timer.
type Timer struct {
	C   <-chan Time
	c   chan Time
	f   func()
	t   *vs.Timer
	nat *time.Timer
}

func (t *Timer) arm(d Duration) {
	if t.f != nil {
		t.t = vs.AddTimer(int64(d), "AfterFunc", false, t.f)
		return
	}
	t.t = vs.AddTimer(int64(d), "timer", true, func() { vs.Push(t.c, Base.Add(Duration(vs.Now()))) })
}

// NewTimer is time.NewTimer.
func NewTimer(d Duration) *Timer {
	if vs.X == nil {
		n := time.NewTimer(d)
		return &Timer{C: n.C, nat: n}
	}
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	t.arm(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d Duration, f func()) *Timer {
	if vs.X == nil {
		return &Timer{nat: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// Stop is Timer.Stop.
func (t *Timer) Stop() bool {
	if t.nat != nil {
		return t.nat.Stop()
	}
	if vs.Aborting() {
		return true
	}
	return t.halt()
}

// halt stops the timer; an expiry that nobody has received yet counts as not having happened (Go 1.23).
func (t *Timer) halt() bool {
	was := t.t.Stop()
	if t.c != nil && vs.Drain(t.c) {
		was = true
	}
	return was
}

// Reset is Timer.Reset.
func (t *Timer) Reset(d Duration) bool {
	if t.nat != nil {
		return t.nat.Reset(d)
	}
	was := t.halt()
	t.arm(d)
	return was
}

// After is time.After.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker is time.Ticker.
type Ticker struct {
	C   <-chan Time
	c   chan Time
	d   Duration
	t   *vs.Timer
	nat *time.Ticker
}

func (t *Ticker) arm() {
	t.t = vs.AddTimer(int64(t.d), "ticker", true, func() {
		vs.Push(t.c, Base.Add(Duration(vs.Now())))
		t.arm()
	})
}

// NewTicker is time.NewTicker.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if vs.X == nil {
		n := time.NewTicker(d)
		return &Ticker{C: n.C, nat: n}
	}
	t := &Ticker{c: make(chan Time, 1), d: d}
	t.C = t.c
	t.arm()
	return t
}

// Tick is time.Tick.
func Tick(d Duration) <-chan Time { return NewTicker(d).C }

// Stop is Ticker.Stop.
func (t *Ticker) Stop() {
	if t.nat != nil {
		t.nat.Stop()
		return
	}
	if !vs.Aborting() {
		t.t.Stop()
		vs.Drain(t.c)
	}
}

// Reset is Ticker.Reset.
func (t *Ticker) Reset(d Duration) {
	if t.nat != nil {
		t.nat.Reset(d)
		return
	}
	t.t.Stop()
	vs.Drain(t.c)
	t.d = d
	t.arm()
}
