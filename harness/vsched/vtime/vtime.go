package vtime

import (
	"time"

	"verif/vsched"
)

// Now is the virtual time.
func Now() Time { return time.Unix(0, vsched.Now()).UTC() }

// Since is the virtual time since t.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is the virtual time until t.
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep suspends the thread.
func Sleep(d Duration) { vsched.SleepFor(int64(d)) }

// Timer stands in for time.Timer.
type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	vt *vsched.Timer
}

func (t *Timer) arm(d Duration) {
	if vsched.Active() == nil || vsched.Dead() {
		return
	}
	if d < 0 {
		d = 0
	}
	t.vt = vsched.StartTimer(int64(d), func() {
		if t.f != nil {
			vsched.GoTimer(t.f)
		} else {
			vsched.Fill(t.c, Now())
		}
	})
}

// NewTimer is time.NewTimer.
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// After is time.After.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Stop disarms the timer.
func (t *Timer) Stop() bool {
	if t.vt == nil {
		return false
	}
	vsched.Step("stop timer")
	ok := vsched.StopTimer(t.vt)
	if t.c != nil {
		vsched.Drain(t.c)
	}
	return ok
}

// Reset arms it again.
func (t *Timer) Reset(d Duration) bool {
	ok := t.Stop()
	t.arm(d)
	return ok
}

// Ticker stands in for time.Ticker.
type Ticker struct {
	C  <-chan Time
	c  chan Time
	d  Duration
	vt *vsched.Timer
}

func (t *Ticker) arm() {
	if vsched.Active() == nil || vsched.Dead() {
		return
	}
	t.vt = vsched.StartTimer(int64(t.d), func() {
		vsched.Fill(t.c, Now())
		t.arm()
	})
}

// NewTicker is time.NewTicker.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

// Tick is time.Tick.
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop ends the ticks.
func (t *Ticker) Stop() {
	if t.vt != nil {
		vsched.Step("stop ticker")
		vsched.StopTimer(t.vt)
		vsched.Drain(t.c)
	}
}

// Reset changes the interval.
func (t *Ticker) Reset(d Duration) {
	t.Stop()
	t.d = d
	t.arm()
}
