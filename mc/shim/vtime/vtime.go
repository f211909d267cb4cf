// Package vtime replaces the clock functions of package time.
package vtime

import (
	"time"

	"gevmc/shim/vchan"
	"gevmc/vs"
)

func Now() time.Time                         { return time.Unix(0, vs.NowNS()) }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { vs.Sleep(d) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *vs.Timer
}

func (t *Timer) start(d time.Duration) {
	at := vs.NowNS() + int64(d)
	t.t = vs.AddTimer(at, "timer", func() {
		if t.f != nil {
			t.f()
			return
		}
		vchan.TrySend(t.c, time.Unix(0, at))
	})
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	vs.Point("timer stop")
	return t.t.Stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	vs.Point("timer reset")
	r := t.t.Stop()
	t.start(d)
	return r
}

// Ticker is time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	t  *vs.Timer
	d  time.Duration
	on bool
}

func (t *Ticker) next(at int64) {
	t.t = vs.AddTimer(at, "ticker", func() {
		if t.on {
			vchan.TrySend(t.c, time.Unix(0, at))
			t.next(at + int64(t.d))
		}
	})
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d, on: true}
	t.next(vs.NowNS() + int64(d))
	return t
}

func (t *Ticker) Stop() {
	vs.Point("ticker stop")
	t.on = false
	t.t.Stop()
}

func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.on = true
	t.d = d
	t.next(vs.NowNS() + int64(d))
}
