// Package vtime stands in for time: under exploration the clock is virtual and
// moves only when the controller says so.
package vtime

import (
	"time"

	"gotor/zv/vs"
)

// Base is the wall-clock time at which every execution starts.
var Base = time.Unix(1_700_000_000, 0)

func Now() time.Time {
	if !vs.Active() {
		return time.Now()
	}
	vs.NoteClock()
	return Base.Add(time.Duration(vs.Now()))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if !vs.Active() {
		time.Sleep(d)
		return
	}
	vs.SleepNS(int64(d))
}

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	r *time.Timer
	h *vs.TimerHandle
	f func()
}

//go:norace
func (t *Timer) fire() {
	if t.f != nil {
		vs.SpawnC("afterfunc", t.f)
		return
	}
	vs.PostC(t.c, Base.Add(time.Duration(vs.Now())))
}

//go:norace
func (t *Timer) start(d time.Duration) { t.h = vs.AddTimer(int64(d), "timer", t.fire) }

func NewTimer(d time.Duration) *Timer {
	if !vs.Active() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, r: r}
	}
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if !vs.Active() {
		return &Timer{r: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

//go:norace
func (t *Timer) Stop() bool {
	if t.r != nil {
		return t.r.Stop()
	}
	if !vs.Active() {
		return false
	}
	ok := t.h.Stop()
	if t.c != nil {
		vs.DrainC(t.c)
	}
	return ok
}

//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	if t.r != nil {
		return t.r.Reset(d)
	}
	if !vs.Active() {
		return false
	}
	ok := t.Stop()
	t.start(d)
	return ok
}

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	r *time.Ticker
	h *vs.TimerHandle
	d time.Duration
}

//go:norace
func (t *Ticker) fire() {
	vs.PostC(t.c, Base.Add(time.Duration(vs.Now())))
	t.h = vs.AddTimerC(int64(t.d), "tick", t.fire)
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !vs.Active() {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, r: r}
	}
	t := &Ticker{c: make(chan time.Time, 1), d: d}
	t.C = t.c
	t.h = vs.AddTimer(int64(d), "tick", t.fire)
	return t
}

//go:norace
func (t *Ticker) Stop() {
	if t.r != nil {
		t.r.Stop()
		return
	}
	if !vs.Active() {
		return
	}
	t.h.Stop()
	vs.DrainC(t.c)
}

//go:norace
func (t *Ticker) Reset(d time.Duration) {
	if t.r != nil {
		t.r.Reset(d)
		return
	}
	if !vs.Active() {
		return
	}
	t.h.Stop()
	t.d = d
	t.h = vs.AddTimer(int64(d), "tick", t.fire)
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
