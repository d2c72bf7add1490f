// Package vtime stands in for package time inside the simulator.
package vtime

import (
	"time"

	"spagosim/vsim"
)

func now() time.Time { return time.Unix(1_700_000_000, vsim.Now()) }

func Now() time.Time                         { vsim.Y(); return now() }
func Since(t time.Time) time.Duration        { return now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(now()) }
func Sleep(d time.Duration)                  { vsim.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t vsim.Timer
}

func (t *Timer) start(d time.Duration) {
	if t.f != nil {
		vsim.Arm(&t.t, int64(d), func() { vsim.Spawn("tf", t.f) })
		return
	}
	vsim.Arm(&t.t, int64(d), func() { vsim.PushNB(t.c, now()) })
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}
func (t *Timer) Stop() bool { return vsim.Stop(&t.t) }
func (t *Timer) Reset(d time.Duration) bool {
	was := vsim.Stop(&t.t)
	t.start(d)
	return was
}

type Ticker struct {
	C <-chan time.Time
	t vsim.Timer
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c}
	t.t.Per = int64(d)
	vsim.Arm(&t.t, int64(d), func() { vsim.PushNB(c, now()) })
	return t
}
func (t *Ticker) Stop()                     { t.t.Per = 0; vsim.Stop(&t.t) }
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
