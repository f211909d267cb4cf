// Package timingwheel: the interface of RussellLuo/timingwheel on virtual time.
// As in the original, expirations are truncated to the tick, each task runs in
// its own goroutine, nothing fires before Start or after Stop, and a second
// Stop panics.
package timingwheel

import (
	"errors"
	"time"
	"unsafe"

	"gevmc/vrace"
	"gevmc/vs"
)

type TimingWheel struct {
	tick    int64
	obj     vs.Obj
	started bool
	stopped bool
	armed   []*Timer
}

type Timer struct {
	tw         *TimingWheel
	expiration int64 // ms
	task       func()
	t          *vs.Timer
	cancelled  bool
	on         bool
}

type Scheduler interface {
	Next(time.Time) time.Time
}

func NewTimingWheel(tick time.Duration, wheelSize int64) *TimingWheel {
	tickMs := int64(tick / time.Millisecond)
	if tickMs <= 0 {
		panic(errors.New("tick must be greater than or equal to 1ms"))
	}
	tw := &TimingWheel{tick: tickMs}
	vs.InitObj(&tw.obj)
	return tw
}

func (tw *TimingWheel) touch(what string) {
	vs.Point(what)
	vs.Touch(&tw.obj, true)
	vs.Bump()
}

func (tw *TimingWheel) arm(t *Timer) {
	at := t.expiration - t.expiration%tw.tick
	t.on = true
	t.t = vs.AddTimer(at*1e6, "wheel", func() {
		if tw.stopped || !t.on {
			return
		}
		t.on = false
		t.task()
	})
}

func (tw *TimingWheel) add(t *Timer) {
	now := vs.NowNS() / 1e6
	if t.expiration < now-now%tw.tick+tw.tick {
		// already expired
		vs.Go("wheel-now", t.task)
		return
	}
	if tw.stopped {
		return
	}
	if !tw.started {
		t.on = true
		tw.armed = append(tw.armed, t)
		return
	}
	tw.arm(t)
}

func (tw *TimingWheel) Start() {
	tw.touch("wheel.Start")
	tw.started = true
	for _, t := range tw.armed {
		if t.on {
			tw.arm(t)
		}
	}
	tw.armed = nil
}

func (tw *TimingWheel) Stop() {
	tw.touch("wheel.Stop")
	if vs.Active() && vs.Killing() {
		return
	}
	if tw.stopped {
		panic("close of closed channel")
	}
	tw.stopped = true
}

func (tw *TimingWheel) AfterFunc(d time.Duration, f func()) *Timer {
	tw.touch("wheel.AfterFunc")
	t := &Timer{tw: tw, expiration: (vs.NowNS() + int64(d)) / 1e6, task: f}
	vrace.ReleaseMerge(unsafe.Pointer(t))
	tw.add(t)
	return t
}

func (tw *TimingWheel) ScheduleFunc(s Scheduler, f func()) *Timer {
	tw.touch("wheel.ScheduleFunc")
	e := s.Next(time.Unix(0, vs.NowNS()).UTC())
	if e.IsZero() {
		return nil
	}
	t := &Timer{tw: tw, expiration: e.UnixNano() / 1e6}
	t.task = func() {
		e := s.Next(time.Unix(0, t.expiration*1e6).UTC())
		if !e.IsZero() {
			t.expiration = e.UnixNano() / 1e6
			tw.add(t)
		}
		f()
	}
	tw.add(t)
	return t
}

// Stop prevents the timer from firing.
func (t *Timer) Stop() bool {
	vs.Point("wheel timer stop")
	if vs.Active() && vs.Killing() {
		return false
	}
	vs.Touch(&t.tw.obj, true)
	vs.Bump()
	was := t.on
	t.on = false
	if t.t != nil {
		t.t.Stop()
	}
	return was
}
