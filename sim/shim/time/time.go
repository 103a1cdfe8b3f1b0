// Package time is the simulated time.
package time

import (
	p "time"

	"verif/sim/simrt"
)

func Now() Time             { return simrt.Now() }
func Since(t Time) Duration { return simrt.Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(simrt.Now()) }
func Sleep(d Duration) {
	if simrt.Killed() {
		return
	}
	if simrt.Cur() == nil {
		p.Sleep(d)
		return
	}
	simrt.Sleep(d)
}

// Timer is the simulated time.Timer.
type Timer struct {
	C <-chan Time
	c chan Time
	h *simrt.Timer
	f func()
}

func (t *Timer) start(d Duration) {
	if simrt.Cur() == nil {
		return
	}
	t.h = simrt.AddTimer(d, func() {
		if t.f != nil {
			simrt.GoNamed("AfterFunc", t.f)
			return
		}
		simrt.TrySend(t.c, simrt.Now())
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	simrt.SyncPoint()
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.h == nil || simrt.Killed() {
		return false
	}
	was := t.h.Cancel()
	if t.c != nil {
		if len(t.c) > 0 { // since go1.23 no stale value can be received
			was = true
		}
		simrt.Drain(t.c)
	}
	return was
}

func (t *Timer) Reset(d Duration) bool {
	if simrt.Killed() {
		return false
	}
	was := t.Stop()
	t.start(d)
	return was
}

// Ticker is the simulated time.Ticker.
type Ticker struct {
	C <-chan Time
	c chan Time
	h *simrt.Timer
	d Duration
}

func (t *Ticker) arm() {
	if simrt.Cur() == nil {
		return
	}
	t.h = simrt.AddTimer(t.d, func() {
		simrt.TrySend(t.c, simrt.Now())
		t.arm()
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }

func (t *Ticker) Stop() {
	if t.h != nil && !simrt.Killed() {
		t.h.Cancel()
	}
}

func (t *Ticker) Reset(d Duration) {
	t.Stop()
	simrt.Drain(t.c)
	t.d = d
	t.arm()
}
