package main

import (
	"fmt"
	"time"

	"github.com/Allenxuxu/gev"

	"gevmc/vkern"
	"gevmc/vs"
)

const ms = time.Millisecond

// soon is how late an idle connection may be closed.
const soon = 100 * ms

func init() {
	// every activity pattern on a grid around the timeout
	for _, T := range []time.Duration{sec, 1500 * ms, 250 * ms, 3 * sec} {
		T := T
		add(&Scen{Props: "C13", Name: fmt.Sprintf("idle-grid-%v", T), Steps: 20000, Body: func() {
			vkern.Reset()
			var closedAt time.Duration = -1
			h := &H{onMsg: reply}
			h.onCls = func(r *CR) { closedAt = vs.Elapsed() }
			g := newRig(h, gev.IdleTime(T))
			vs.Serial(true)
			g.goStart()
			quiesce()
			c := vkern.Connect(addr, "a")
			quiesce()
			last := vs.Elapsed()
			vs.AllowTime(10 * T)
			vs.Go("cli", func() {
				// pauses before each of up to three events
				grid := []time.Duration{0, T / 3, T - ms, T - ms/2, T, T + ms/2, T + 2*ms, T + T/2}
				for i := 0; i < 3; i++ {
					k := vs.ChooseFree(len(grid)+1, "pause")
					if k == len(grid) {
						return
					}
					vs.Sleep(grid[k])
					open := !c.Gone()
					if !c.Send([]byte("x")) {
						return
					}
					if open {
						last = vs.Elapsed()
					}
				}
			})
			quiesce()
			r := g.of(c)
			chk("C13", r.closes == 1 && c.Gone(), "the idle connection was never closed (timeout %v)", T)
			chk("C13", closedAt >= last+T, "closed %v after its last event although the timeout is %v", closedAt-last, T)
			chk("C13", closedAt <= last+T+soon, "closed only %v after its last event, the timeout is %v", closedAt-last, T)
			vs.Outcome(fmt.Sprint(r.nmsg, closedAt))
			r.ourClose = true
			g.finish()
		}})
	}
	// activity exactly at the timeout, all schedules: closed and not served, or
	// served and closed one timeout later
	add(&Scen{Props: "C13 C05 C06 C08 C09", Name: "idle-race", Pre: 3, Body: func() {
		vkern.Reset()
		var closedAt, msgAt time.Duration = -1, -1
		h := &H{}
		h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
			msgAt = vs.Elapsed()
			return append([]byte(nil), b...)
		}
		h.onCls = func(r *CR) { closedAt = vs.Elapsed() }
		g := newRig(h, gev.IdleTime(sec))
		g.start()
		c := g.connect("a")
		r := g.of(c)
		r.ourClose = true
		vs.AllowTime(1500 * ms)
		vs.Go("cli", func() {
			vs.Sleep(sec)
			c.Send([]byte("x"))
			c.Recv(0)
		})
		quiesce()
		if r.closes == 1 && msgAt < 0 {
			chk("C13", closedAt >= sec, "closed after %v", closedAt)
		}
		vs.AllowTime(5 * sec)
		quiesce()
		chk("C13", r.closes == 1 && c.Gone(), "the idle connection was never closed")
		if msgAt >= 0 && r.nmsg == 1 {
			chk("C13", closedAt >= msgAt, "OnMessage after OnClose")
			chk("C13", string(c.Got) == "x" || c.GotRST || c.GotEOF, "the served request was not answered")
		}
		vs.Outcome(fmt.Sprint(r.nmsg, closedAt > 1500*ms))
		g.finish()
	}})
	// a timeout against the other ends of a connection
	for _, v := range []string{"close", "peer", "fin", "reset-blocked"} {
		v := v
		add(&Scen{Props: "C13 C05 C06 C07 C08 C09", Name: "idle-end-" + v, Pre: 2, Body: func() {
			vkern.Reset()
			if v == "reset-blocked" {
				vkern.K.TxCap = 3
			}
			g := newRig(&H{onMsg: reply}, gev.IdleTime(sec))
			g.noTimers = true
			g.start()
			c := g.connect("a")
			r := g.of(c)
			r.ourClose = true
			if v == "reset-blocked" {
				c.Send([]byte("abcdefg"))
				quiesce()
			}
			vs.AllowTime(6 * sec)
			var b *vkern.Conn
			vs.Go("x", func() {
				vs.Sleep(sec)
				switch v {
				case "close":
					_ = r.c.Close()
				case "peer":
					c.Close()
				case "reset-blocked":
					c.Reset()
				case "fin":
					c.CloseWrite()
					c.RecvAll()
				}
				b = vkern.Connect(addr, "b") // may get the descriptor number
			})
			quiesce()
			g.quietOracles()
			chk("C13 C05", r.closes == 1 && c.Gone(), "OnClose ran %d times", r.closes)
			rb := g.of(b)
			rb.ourClose = true
			chk("C13 C05 C08", rb.closes == 1 && b.Gone(), "the second connection: OnClose ran %d times", rb.closes)
			g.finish()
		}})
	}
	// the timer of a closed connection never touches its successor
	add(&Scen{Props: "C13 C08 C09", Name: "idle-successor", Steps: 20000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		var at []time.Duration
		h := &H{onMsg: reply}
		h.onCls = func(r *CR) { at = append(at, vs.Elapsed()) }
		g := newRig(h, gev.IdleTime(sec))
		g.goStart()
		quiesce()
		vs.AllowTime(10 * sec)
		a := vkern.Connect(addr, "a")
		var b *vkern.Conn
		var t1 time.Duration
		vs.Go("cli", func() {
			vs.Sleep([]time.Duration{0, 300 * ms, 900 * ms, 999 * ms}[vs.ChooseFree(4, "when")])
			if vs.ChooseFree(2, "how") == 1 {
				a.Reset()
			} else {
				a.Close()
			}
			vs.Sleep([]time.Duration{0, ms, 200 * ms}[vs.ChooseFree(3, "then")])
			b = vkern.Connect(addr, "b")
			t1 = vs.Elapsed()
			vs.Sleep(500 * ms)
			b.Send([]byte("x"))
			t1 = vs.Elapsed()
		})
		quiesce()
		chk("C13", len(at) == 2 && b.Gone(), "OnClose ran %d times", len(at))
		chk("C13", at[1] >= t1+sec && at[1] <= t1+sec+soon, "the second connection was closed %v after its last event", at[1]-t1)
		g.of(a).ourClose, g.of(b).ourClose = true, true
		vs.Outcome(fmt.Sprint(at))
		g.finish()
	}})
	// whatever ends a connection, its timer is gone at once, and others stay
	add(&Scen{Props: "C09 C13", Name: "idle-timer-gone", Steps: 40000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		T := []time.Duration{sec, time.Hour}[vs.ChooseFree(2, "timeout")]
		how := vs.ChooseFree(8, "end")
		blocked := vs.ChooseFree(2, "blocked output") == 1
		when := []time.Duration{0, 400 * ms, 1300 * ms}[vs.ChooseFree(3, "when")]
		other := vs.ChooseFree(2, "another connection") == 1
		if blocked {
			vkern.K.TxCap = 3
		}
		h := &H{}
		g := newRig(h, gev.IdleTime(T))
		g.noTimers = true
		h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
			if b[0] == 'C' {
				_ = r.c.Close()
			}
			if b[0] == 'W' {
				_ = r.c.ShutdownWrite()
			}
			return append([]byte(nil), b...)
		}
		g.goStart()
		quiesce()
		vs.AllowTime(3 * sec)
		var b *vkern.Conn
		if other {
			b = vkern.Connect(addr, "b")
		}
		a := vkern.Connect(addr, "a")
		vs.Go("cli", func() {
			if blocked {
				a.Send([]byte("0123456789"))
			}
			for w := when; w > 0; {
				d := w
				if d > 600*ms {
					d = 600 * ms
				}
				vs.Sleep(d)
				w -= d
				a.TryRecv(1)
				a.Send([]byte("x"))
				if b != nil {
					b.Send([]byte("x"))
					b.TryRecv(0)
				}
			}
			r := g.of(a)
			switch how {
			case 0:
				a.Close()
			case 1:
				a.Reset()
			case 2:
				a.CloseWrite()
				for i := 0; i < 9; i++ {
					vs.Sleep(ms)
					a.TryRecv(0)
				}
			case 3:
				r.ourClose = true
				_ = r.c.Close()
			case 4:
				a.TryRecv(0)
				vs.Sleep(ms)
				a.TryRecv(0)
				vs.Sleep(ms)
				a.TryRecv(0)
				vs.Sleep(ms)
				a.TryRecv(0)
				vs.Sleep(ms)
				r.ourClose = true
				a.Send([]byte("C"))
			case 5:
				_ = r.c.ShutdownWrite()
				a.RecvAll()
				a.Close()
			case 6:
				vkern.K.F.WriteReset = true
				_ = r.c.Send([]byte("last"))
				a.Reset()
			case 7:
				r.ourClose = true
				_ = r.c.Close()
				_ = r.c.Close()
				a.Reset()
			}
		})
		// stop half a second after the end, before any timeout of an hour
		vs.AllowTime(when + 500*ms)
		quiesce()
		chk("C09", T != time.Hour || a.Gone(), "the connection did not end")
		for _, c := range vkern.K.Conns {
			if r := g.of(c); r != nil && T == sec {
				r.ourClose = true
			}
		}
		g.quietOracles()
		vs.Outcome(fmt.Sprint(how, blocked, when, a.Gone()))
		g.finish()
	}})
	// the process does not get the processor for a while: timeouts are late, not lost
	add(&Scen{Props: "C13", Name: "idle-stall", Steps: 20000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		T := []time.Duration{sec, 250 * ms}[vs.ChooseFree(2, "timeout")]
		var closedAt time.Duration = -1
		var last time.Duration // when the server saw the last event
		h := &H{}
		h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
			last = vs.Elapsed()
			return nil
		}
		h.onCls = func(r *CR) { closedAt = vs.Elapsed() }
		g := newRig(h, gev.IdleTime(T))
		g.goStart()
		quiesce()
		vs.AllowTime(20 * sec)
		c := vkern.Connect(addr, "a")
		last = vs.Elapsed()
		var stallEnd time.Duration
		vs.Go("cli", func() {
			grid := []time.Duration{0, T / 3, T - ms, T + ms, 3 * T}
			vs.Sleep(grid[vs.ChooseFree(3, "first")])
			c.Send([]byte("x"))
			vs.Sleep(grid[vs.ChooseFree(3, "then")])
			vs.Stall(grid[vs.ChooseFree(5, "stall")])
			stallEnd = vs.Elapsed()
			if vs.ChooseFree(2, "input during the stall") == 1 && !c.Gone() {
				c.Send([]byte("y"))
			}
		})
		quiesce()
		r := g.of(c)
		chk("C13", r.closes == 1 && c.Gone(), "the idle connection was never closed (timeout %v)", T)
		lim := last + T
		if lim < stallEnd {
			lim = stallEnd
		}
		chk("C13", closedAt >= last+T, "closed at %v, last event at %v, timeout %v", closedAt, last, T)
		chk("C13", closedAt <= lim+soon, "closed at %v, last event at %v, stalled until %v, timeout %v", closedAt, last, stallEnd, T)
		vs.Outcome(fmt.Sprint(r.nmsg, closedAt))
		r.ourClose = true
		g.finish()
	}})
	// two connections with their own activity; a busy one outlives an idle one
	add(&Scen{Props: "C13", Name: "idle-two", Steps: 40000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		T := sec
		at := map[*CR]time.Duration{}
		h := &H{onMsg: reply}
		h.onCls = func(r *CR) { at[r] = vs.Elapsed() }
		g := newRig(h, gev.IdleTime(T), gev.NumLoops(vs.ChooseFree(2, "loops")+1))
		g.goStart()
		quiesce()
		vs.AllowTime(20 * sec)
		cs := []*vkern.Conn{vkern.Connect(addr, "a"), vkern.Connect(addr, "b")}
		last := []time.Duration{vs.Elapsed(), vs.Elapsed()}
		for i := range cs {
			i := i
			n := vs.ChooseFree(4, "events")
			p := []time.Duration{700 * ms, 990 * ms}[vs.ChooseFree(2, "period")]
			vs.Go("cli", func() {
				for k := 0; k < n; k++ {
					vs.Sleep(p)
					cs[i].Send([]byte("x"))
					last[i] = vs.Elapsed()
				}
			})
		}
		quiesce()
		for i, c := range cs {
			r := g.of(c)
			chk("C13", r.closes == 1, "OnClose ran %d times", r.closes)
			d := at[r] - last[i]
			chk("C13", d >= T && d <= T+soon, "connection %s closed %v after its last event, the timeout is %v", c.Name, d, T)
			r.ourClose = true
		}
		g.finish()
	}})
	// output events count as activity and a blocked connection times out as well
	add(&Scen{Props: "C13 C09 C06 C05", Name: "idle-blocked-output", Steps: 20000, Body: func() {
		vkern.Reset()
		vkern.K.TxCap = 3
		vs.Serial(true)
		var closedAt time.Duration = -1
		h := &H{onMsg: reply}
		h.onCls = func(r *CR) { closedAt = vs.Elapsed() }
		g := newRig(h, gev.IdleTime(sec))
		g.goStart()
		quiesce()
		vs.AllowTime(20 * sec)
		c := vkern.Connect(addr, "a")
		n := vs.ChooseFree(3, "reads")
		var last time.Duration
		vs.Go("cli", func() {
			c.Send([]byte("0123456789"))
			last = vs.Elapsed()
			for k := 0; k < n; k++ {
				vs.Sleep(800 * ms)
				c.TryRecv(3)
				last = vs.Elapsed()
			}
		})
		quiesce()
		chk("C13", g.of(c).closes == 1 && closedAt >= last+sec && closedAt <= last+sec+soon, "a connection with blocked output: OnClose %d times, %v after the last event", g.of(c).closes, closedAt-last)
		g.of(c).ourClose = true
		g.finish()
	}})
	// without a timeout nothing is closed
	add(&Scen{Props: "C13", Name: "idle-none", Steps: 20000, Body: func() {
		vs.Serial(true)
		g := run(&H{onMsg: reply})
		vs.Serial(true)
		c := vkern.Connect(addr, "a")
		vs.AllowTime(1000 * time.Hour)
		vs.Go("cli", func() {
			vs.Sleep(500 * time.Hour)
			c.Send([]byte("x"))
			c.RecvN(1)
		})
		g.s.RunAfter(999*time.Hour, func() {})
		quiesce()
		chk("C13", g.of(c).closes == 0 && string(c.Got) == "x", "a connection without idle timeout was closed")
		g.finish()
	}})

	// ---------- RunAfter and RunEvery ----------
	near := func(d, want time.Duration) bool { return d >= want-ms && d <= want+2*ms }
	add(&Scen{Props: "C29", Name: "run-after", Steps: 20000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		g := newRig(&H{})
		grid := []time.Duration{0, ms, 10 * ms, 1500 * ms, 61 * sec}
		stops := []time.Duration{-1, 0, 5 * ms, 2 * sec, 30 * sec}
		early := vs.ChooseFree(2, "before Start") == 1
		if !early {
			g.goStart()
			quiesce()
		}
		vs.AllowTime(200 * sec)
		type tm struct {
			d, at time.Duration
			n     int
			stop  bool
		}
		var ts []*tm
		mk := func() {
			d := grid[vs.ChooseFree(len(grid), "delay")]
			if early && d < 10*ms {
				d = 20 * ms
			}
			st := stops[vs.ChooseFree(len(stops), "stop")]
			if st == d && st >= 0 {
				st += 3 * ms
			}
			t := &tm{d: d}
			ts = append(ts, t)
			t0 := vs.Elapsed()
			h := g.s.RunAfter(d, func() {
				if vs.Killing() {
					return
				}
				t.n++
				t.at = vs.Elapsed() - t0
				chk("C29", t.n == 1, "RunAfter(%v) ran %d times", d, t.n)
				chk("C29", !t.stop, "RunAfter(%v) ran although it was stopped before", d)
			})
			if st >= 0 {
				vs.Go("stopper", func() {
					vs.Sleep(st)
					if t.n == 0 {
						t.stop = true
						h.Stop()
					}
				})
			}
		}
		mk()
		mk()
		if early {
			g.goStart()
		}
		quiesce()
		for _, t := range ts {
			if t.stop {
				chk("C29", t.n == 0, "a stopped timer ran")
				continue
			}
			chk("C29", t.n == 1, "RunAfter(%v) ran %d times", t.d, t.n)
			chk("C29", near(t.at, t.d), "RunAfter(%v) ran after %v", t.d, t.at)
			vs.Outcome(fmt.Sprint(t.d, t.at))
		}
		g.finish()
	}})
	// long delays, periods and idle timeouts
	add(&Scen{Props: "C29 C13", Name: "run-long", Steps: 20000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		ds := []time.Duration{2 * time.Minute, 10 * time.Minute, time.Hour, 24*time.Hour - ms, 24 * time.Hour, 25 * time.Hour, 30 * 24 * time.Hour, 1000 * time.Hour, 366 * 24 * time.Hour}
		d := ds[vs.ChooseFree(len(ds), "delay")]
		what := vs.ChooseFree(4, "what")
		var opts []gev.Option
		if what == 3 {
			opts = append(opts, gev.IdleTime(d))
		}
		var closedAt time.Duration
		h := &H{onMsg: reply, onCls: func(*CR) { closedAt = vs.Elapsed() }}
		g := newRig(h, opts...)
		g.goStart()
		quiesce()
		vs.AllowTime(8 * d)
		var at []time.Duration
		t0 := vs.Elapsed()
		run := func() {
			if !vs.Killing() {
				at = append(at, vs.Elapsed()-t0)
			}
		}
		switch what {
		case 0:
			g.s.RunAfter(d, run)
		case 1:
			t := g.s.RunAfter(d, run)
			vs.Go("stopper", func() { vs.Sleep(d - 5*ms); t.Stop() })
		case 2:
			t := g.s.RunEvery(d, run)
			vs.Go("stopper", func() { vs.Sleep(3*d + d/2); t.Stop() })
		case 3:
			c := vkern.Connect(addr, "a")
			vs.Go("cli", func() { vs.Sleep(d / 2); c.Send([]byte("x")); t0 = vs.Elapsed() })
			quiesce()
			chk("C13", g.of(c).closes == 1 && closedAt >= t0+d && closedAt <= t0+d+soon, "with an idle timeout of %v OnClose ran %d times, after %v", d, g.of(c).closes, closedAt-t0)
			g.of(c).ourClose = true
		}
		quiesce()
		n := []int{1, 0, 3, 0}[what]
		chk("C29", len(at) == n, "with %v, case %d, the function ran at %v", d, what, at)
		for i, a := range at {
			chk("C29", near(a, time.Duration(i+1)*d), "with %v, case %d, the function ran at %v", d, what, at)
		}
		vs.Outcome(fmt.Sprint(d, what, at))
		g.finish()
	}})
	// intervals that are no whole number of ticks, and many periods
	// several timers of one server or two, with equal and different intervals,
	// started together or apart, one stopped halfway and replaced
	add(&Scen{Props: "C29", Name: "run-every-several", Steps: 400000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		g := newRig(&H{})
		g.goStart()
		quiesce()
		ivs := []time.Duration{ms, 2*ms + ms/2, 7 * ms}
		ks := []int{vs.ChooseFree(3, "interval 1"), vs.ChooseFree(3, "interval 2"), vs.ChooseFree(3, "interval 3")}
		gap := []time.Duration{0, ms / 3, 4 * ms}[vs.ChooseFree(3, "gap")]
		stop := vs.ChooseFree(2, "stop the first") == 1
		times := 40
		vs.AllowTime(time.Duration(times)*7*ms + 100*ms)
		type timer struct {
			iv, t0, end time.Duration
			at          []time.Duration
		}
		var ts []*timer
		begin := func(iv time.Duration) (*timer, func() bool) {
			t := &timer{iv: iv, t0: vs.Elapsed()}
			ts = append(ts, t)
			h := g.s.RunEvery(iv, func() {
				if !vs.Killing() {
					t.at = append(t.at, vs.Elapsed()-t.t0)
				}
			})
			return t, h.Stop
		}
		var stops []func() bool
		for _, k := range ks {
			_, f := begin(ivs[k])
			stops = append(stops, f)
			if gap > 0 {
				vs.Sleep(gap)
			}
		}
		vs.Sleep(10*ms + ms/5)
		if stop {
			stops[0]()
			ts[0].end = vs.Elapsed()
			_, f := begin(ivs[ks[0]])
			stops[0] = f
		}
		vs.Sleep(100 * ms)
		for _, f := range stops {
			f()
		}
		now := vs.Elapsed()
		quiesce()
		for j, t := range ts {
			end := t.end
			if end == 0 {
				end = now
			}
			want := int((end - t.t0) / t.iv)
			fuzz := int(2*ms/t.iv) + 1
			chk("C29", len(t.at) >= want-fuzz && len(t.at) <= want+fuzz, "timer %d of %v ran %d times in %v", j+1, t.iv, len(t.at), end-t.t0)
			for i, d := range t.at {
				chk("C29", near(d, time.Duration(i+1)*t.iv), "timer %d of %v: run %d came after %v", j+1, t.iv, i+1, d)
			}
		}
		g.finish()
	}})
	add(&Scen{Props: "C29", Name: "run-every-many", Steps: 400000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		g := newRig(&H{})
		g.goStart()
		quiesce()
		ivs := []time.Duration{ms / 2, ms, 1500 * time.Microsecond, 2 * ms, 2700 * time.Microsecond, 3 * ms, 3700 * time.Microsecond, 5 * ms, 7 * ms, 10*ms + ms/2, 19999 * time.Microsecond, 20 * ms, 20*ms + ms/2, sec}
		iv := ivs[vs.ChooseFree(len(ivs), "interval")]
		off := []time.Duration{0, ms / 2}[vs.ChooseFree(2, "off the tick")]
		times := []int{40, tier([]int{1100}, []int{5000})[0]}[vs.ChooseFree(2, "periods")]
		vs.AllowTime(off + time.Duration(times+5)*iv + 10*ms)
		vs.Sleep(off)
		var at []time.Duration
		t0 := vs.Elapsed()
		h := g.s.RunEvery(iv, func() {
			if !vs.Killing() {
				at = append(at, vs.Elapsed()-t0)
			}
		})
		vs.Go("stopper", func() {
			vs.Sleep(time.Duration(times) * iv)
			h.Stop()
		})
		quiesce()
		// runs within the accuracy of a timer around the stop may be missing or extra
		fuzz := int(2*ms/iv) + 1
		chk("C29", len(at) >= times-fuzz && len(at) <= times+fuzz, "RunEvery(%v) stopped after %d periods ran %d times", iv, times, len(at))
		for i, d := range at {
			chk("C29", near(d, time.Duration(i+1)*iv), "RunEvery(%v): run %d came after %v", iv, i+1, d)
		}
		vs.Outcome(fmt.Sprint(len(at)))
		g.finish()
	}})
	// a connection that is active for a long time stays, and ends in time after that
	add(&Scen{Props: "C13", Name: "idle-busy-long", Steps: 400000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		T := []time.Duration{sec, 250 * ms}[vs.ChooseFree(2, "timeout")]
		rs := tier([]int{20, 130}, []int{20, 300, 1100})
		rounds := rs[vs.ChooseFree(len(rs), "rounds")]
		p := []time.Duration{T / 5, T / 2, T - 10*ms}[vs.ChooseFree(3, "period")]
		blocked := vs.ChooseFree(2, "blocked output") == 1
		if blocked {
			vkern.K.TxCap = 1
		}
		var closedAt, last time.Duration
		h := &H{onCls: func(*CR) { closedAt = vs.Elapsed() }}
		if !blocked {
			h.onMsg = reply
		}
		g := newRig(h, gev.IdleTime(T))
		g.goStart()
		quiesce()
		c := vkern.Connect(addr, "a")
		quiesce()
		r := g.of(c)
		vs.AllowTime(time.Duration(rounds)*p + 20*sec)
		last = vs.Elapsed()
		vs.Go("cli", func() {
			if blocked {
				_ = r.c.Send(make([]byte, rounds+1))
			}
			for i := 0; i < rounds; i++ {
				vs.Sleep(p)
				chk("C13", !c.Gone() && r.closes == 0, "the connection was closed after %d rounds of activity, %v after the last (timeout %v)", i, p, T)
				if !blocked {
					c.Send([]byte("x"))
				}
				last = vs.Elapsed()
				c.TryRecv(0)
			}
		})
		quiesce()
		chk("C13", r.closes == 1 && c.Gone(), "after %d rounds of activity the idle connection was never closed", rounds)
		chk("C13", closedAt >= last+T && closedAt <= last+T+soon, "closed %v after the last of %d events, timeout %v", closedAt-last, rounds, T)
		r.ourClose = true
		g.finish()
	}})
	add(&Scen{Props: "C29", Name: "run-every", Steps: 20000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		g := newRig(&H{})
		g.goStart()
		quiesce()
		ivs := []time.Duration{10 * ms, 333 * ms, 1500 * ms, 61 * sec}
		iv := ivs[vs.ChooseFree(len(ivs), "interval")]
		times := []int{1, 2, 5, 9}[vs.ChooseFree(4, "periods")]
		srvStop := vs.ChooseFree(2, "stop the server instead") == 1
		nth := vs.ChooseFree(2, "off the grid")
		vs.AllowTime(time.Duration(times+5) * iv)
		var at []time.Duration
		t0 := vs.Elapsed()
		h := g.s.RunEvery(iv, func() {
			if !vs.Killing() {
				at = append(at, vs.Elapsed()-t0)
			}
		})
		vs.Go("stopper", func() {
			vs.Sleep(time.Duration(times)*iv + 3*ms + time.Duration(nth)*iv/3)
			if srvStop {
				g.s.Stop()
				g.stopped = true
			} else {
				h.Stop()
			}
		})
		quiesce()
		chk("C29", len(at) == times, "RunEvery(%v) stopped after %d periods ran %d times: %v", iv, times, len(at), at)
		for i, d := range at {
			chk("C29", near(d, time.Duration(i+1)*iv), "RunEvery(%v): run %d came after %v", iv, i+1, d)
		}
		vs.Outcome(fmt.Sprint(at))
		g.finish()
	}})
	// two periodic timers and a delayed one, with all schedules of timers and stopper
	add(&Scen{Props: "C29", Name: "run-stop-race", Pre: 2, Body: func() {
		g := run(&H{})
		n, m := 0, 0
		stopped := false
		late := false
		t1 := g.s.RunEvery(sec, func() {
			if !vs.Killing() {
				n++
			}
		})
		t2 := g.s.RunAfter(sec, func() {
			if !vs.Killing() {
				m++
				chk("C29", m == 1, "RunAfter ran %d times", m)
				late = stopped
			}
		})
		vs.AllowTime(3500 * ms)
		vs.Go("stopper", func() {
			vs.Sleep(500 * ms)
			if vs.Elapsed() < 900*ms {
				stopped = t2.Stop()
			}
			_ = t1
		})
		quiesce()
		chk("C29", n == 3, "RunEvery(1s) ran %d times in 3.5 s", n)
		chk("C29", !late && (m == 1) == !stopped, "RunAfter stopped before it was due: %v, ran %d times", stopped, m)
		t1.Stop()
		vs.AllowTime(5 * sec)
		quiesce()
		chk("C29", n == 3, "a stopped RunEvery ran")
		g.finish()
	}})
	// a slow periodic function does not shift the schedule
	add(&Scen{Props: "C29", Name: "run-every-slow", Steps: 20000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		g := newRig(&H{})
		g.goStart()
		quiesce()
		var at []time.Duration
		vs.AllowTime(5500 * ms)
		t0 := vs.Elapsed()
		d := []time.Duration{300 * ms, 999 * ms, 2500 * ms}[vs.ChooseFree(3, "work")]
		t := g.s.RunEvery(sec, func() {
			if !vs.Killing() {
				at = append(at, vs.Elapsed()-t0)
				vs.Sleep(d)
			}
		})
		quiesce()
		chk("C29", len(at) == 5, "RunEvery(1s) ran %d times in 5.5 s: %v", len(at), at)
		for i, x := range at {
			chk("C29", near(x, time.Duration(i+1)*sec), "run %d came after %v", i+1, x)
		}
		t.Stop()
		g.finish()
	}})
	// ticks that are handled late, by up to several intervals, are made up for
	add(&Scen{Props: "C29", Name: "run-stall", Steps: 20000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		g := newRig(&H{})
		g.goStart()
		quiesce()
		iv := []time.Duration{10 * ms, 333 * ms, 1500 * ms}[vs.ChooseFree(3, "interval")]
		vs.AllowTime(40 * iv)
		t0 := vs.Elapsed()
		var every, after []time.Duration
		d2 := []time.Duration{iv / 2, iv + iv/3, 3 * iv, 9 * iv}[vs.ChooseFree(4, "delay")]
		h := g.s.RunEvery(iv, func() {
			if !vs.Killing() {
				every = append(every, vs.Elapsed()-t0)
			}
		})
		g.s.RunAfter(d2, func() {
			if !vs.Killing() {
				after = append(after, vs.Elapsed()-t0)
			}
		})
		type stall struct{ from, to time.Duration }
		var st []stall
		vs.Go("stall", func() {
			for i := 0; i < 2; i++ {
				vs.Sleep([]time.Duration{iv / 4, iv - ms, iv, 2*iv + iv/2}[vs.ChooseFree(4, "when")])
				a := vs.Elapsed() - t0
				vs.Stall([]time.Duration{0, iv / 2, iv - ms, iv, iv + ms, 2*iv + iv/3, 5 * iv}[vs.ChooseFree(7, "stall")])
				st = append(st, stall{a, vs.Elapsed() - t0})
			}
			vs.Sleep(3*iv + 5*ms)
			h.Stop()
		})
		quiesce()
		limit := func(due time.Duration) time.Duration {
			for _, x := range st {
				if due >= x.from && due <= x.to {
					return x.to + 2*ms
				}
			}
			return due + 2*ms
		}
		end := st[len(st)-1].to + 3*iv + 5*ms
		n := int(end / iv)
		chk("C29", len(every) == n || len(every) == n-1 && end%iv < 3*ms || len(every) == n+1 && iv-end%iv <= ms, "RunEvery(%v) stopped after %v ran %d times, expected %d: %v (stalls %v)", iv, end, len(every), n, every, st)
		for i, x := range every {
			due := time.Duration(i+1) * iv
			chk("C29", x >= due-ms && x <= limit(due), "RunEvery(%v): run %d came at %v (stalls %v)", iv, i+1, x, st)
		}
		if d2 <= end {
			chk("C29", len(after) == 1 && after[0] >= d2-ms && after[0] <= limit(d2), "RunAfter(%v) ran at %v (stalls %v)", d2, after, st)
		}
		vs.Outcome(fmt.Sprint(every, after))
		g.finish()
	}})
}
