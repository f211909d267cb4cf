package main

import (
	"fmt"
	"time"

	"github.com/Allenxuxu/gev"

	"gevmc/vkern"
	"gevmc/vs"
)

// stopper stops the server from a thread of its own.
func (g *Rig) goStop(returned *int) {
	vs.Go("stopper", func() {
		g.s.Stop()
		*returned++
	})
}

func init() {
	// Stop racing with one kind of activity each
	for _, v := range []struct {
		name  string
		loops int
		pre   int
		cap   int
		act   func(g *Rig, a *vkern.Conn, r *CR)
	}{
		{"idle", 1, 3, 1 << 20, nil},
		{"idle-2loops", 2, 2, 1 << 20, nil},
		{"traffic", 1, 1, 1 << 20, func(g *Rig, a *vkern.Conn, r *CR) {
			vs.Go("cli", func() {
				a.Send([]byte("abcdefghijkl"))
				a.RecvN(12)
				a.Send([]byte("m"))
				a.RecvAll()
			})
		}},
		{"pending", 1, 2, 3, func(g *Rig, a *vkern.Conn, r *CR) {
			vs.Go("cli", func() {
				a.Send([]byte("abcdefg"))
				a.Recv(2)
			})
		}},
		{"connect", 1, 1, 1 << 20, func(g *Rig, a *vkern.Conn, r *CR) {
			vs.Go("cli", func() {
				if b := vkern.Connect(addr, "b"); b != nil {
					b.Send([]byte("x"))
					b.RecvAll()
				}
			})
		}},
		{"connect-2loops", 2, 1, 1 << 20, func(g *Rig, a *vkern.Conn, r *CR) {
			vs.Go("cli", func() {
				if b := vkern.Connect(addr, "b"); b != nil {
					b.RecvAll()
				}
			})
		}},
		{"peerclose", 1, 2, 1 << 20, func(g *Rig, a *vkern.Conn, r *CR) {
			vs.Go("cli", func() { a.Close() })
		}},
		{"close", 1, 2, 1 << 20, func(g *Rig, a *vkern.Conn, r *CR) {
			vs.Go("user", func() { _ = r.c.Close() })
		}},
		{"send", 1, 2, 1 << 20, func(g *Rig, a *vkern.Conn, r *CR) {
			vs.Go("user", func() {
				_ = sendN(r, "<a>")
				_ = sendN(r, "<b>")
			})
		}},
		{"shutwrite", 1, 2, 3, func(g *Rig, a *vkern.Conn, r *CR) {
			vs.Go("user", func() {
				_ = sendN(r, "<abc>")
				_ = r.c.ShutdownWrite()
			})
		}},
	} {
		v := v
		add(&Scen{Props: "C05 C06 C08 C09 C12 C15", Name: "stop-" + v.name, Pre: v.pre, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = v.cap
			g := newRig(&H{onMsg: reply}, gev.NumLoops(v.loops))
			g.start()
			var a *vkern.Conn
			if v.act != nil || v.loops == 1 {
				a = g.connect("a")
			}
			if a != nil {
				g.of(a).ourClose = true
			}
			if v.act != nil {
				v.act(g, a, g.of(a))
			}
			ret := 0
			g.goStop(&ret)
			quiesce()
			g.stopped = true
			chk("C12", ret == 1, "Stop did not return")
			chk("C12", g.done, "Start did not return after Stop")
			chk("C12", vkern.Connect(addr, "late") == nil, "after Stop a client can connect")
			g.finish()
		}})
	}
	// two Stops, one after the other and at the same time, while a connection is open
	for _, v := range []string{"seq", "conc", "three", "conc-traffic"} {
		v := v
		pre := 2
		if v == "conc-traffic" {
			pre = 1
		}
		add(&Scen{Props: "C05 C08 C09 C12", Name: "stop-twice-" + v, Pre: pre, Body: func() {
			g := run(&H{onMsg: reply})
			a := g.connect("a")
			g.of(a).ourClose = true
			ret := 0
			f := -1
			n := 2
			switch v {
			case "seq":
				n = 1
				vs.Go("stopper", func() {
					g.s.Stop()
					f = vkern.ForeignOpen("opened after Stop")
					g.s.Stop()
					ret++
				})
			case "three":
				n = 3
				g.goStop(&ret)
				g.goStop(&ret)
				g.goStop(&ret)
			default:
				g.goStop(&ret)
				g.goStop(&ret)
			}
			if v == "conc-traffic" {
				vs.Go("cli", func() { a.Send([]byte("x")); a.RecvAll() })
			}
			quiesce()
			chk("C12", ret == n, "Stop did not return (%d of %d)", ret, n)
			g.stopped = true
			chk("C12", g.done, "Start did not return after Stop")
			g.s.Stop()
			if f >= 0 {
				vkern.ForeignClose(f)
			}
			g.finish()
		}})
	}
	// Stop racing with Start: once Start serves, the next Stop ends it
	for loops := 1; loops <= 2; loops++ {
		loops := loops
		add(&Scen{Props: "C12 C08 C09", Name: fmt.Sprintf("stop-start-%d", loops), Pre: 3 - loops, Body: func() {
			vkern.Reset()
			g := newRig(&H{onMsg: reply}, gev.NumLoops(loops))
			g.goStart()
			ret := 0
			g.goStop(&ret)
			quiesce()
			chk("C12", ret == 1, "Stop did not return")
			if !g.done {
				g.goStop(&ret)
				quiesce()
				chk("C12", ret == 2 && g.done, "Stop of a serving server: Stop returned %v, Start returned %v", ret == 2, g.done)
			}
			g.stopped = true
			g.finish()
		}})
	}
	// after Stop the address can be served again by another server
	add(&Scen{Props: "C12 C09", Name: "stop-restart", Pre: 1, Body: func() {
		g := run(&H{onMsg: reply})
		a := g.connect("a")
		g.of(a).ourClose = true
		vs.Go("cli", func() { a.Send([]byte("x")); a.RecvAll() })
		var g2 *Rig
		vs.Go("stopper", func() {
			g.s.Stop()
			g.stopped = true
			g2 = newRig(&H{onMsg: reply}) // fails if the port is still taken
		})
		quiesce()
		chk("C12", g.done && g2 != nil, "Stop did not return or the port is still taken")
		g2.start()
		b := vkern.Connect(addr, "b")
		b.Send([]byte("hi"))
		quiesce()
		b.Drain()
		chk("C12", string(b.Got) == "hi", "the second server does not serve: the client got %q", b.Got)
		vs.Serial(true)
		vs.Go("Stop", func() { g2.s.Stop() })
		quiesce()
		chk("C12", g2.done, "the second server does not stop")
		if is("C09") {
			fds := vkern.OpenFDs()
			chk("C09", len(fds) == 0, "after Stop, descriptors are still open: %v", fds)
		}
	}})
	// timers: not yet due ones never fire after Stop; idle timers too
	add(&Scen{Props: "C12 C13 C29 C05", Name: "stop-timers", Pre: 2, Body: func() {
		g := run(&H{onMsg: reply}, gev.IdleTime(2*sec))
		a := g.connect("a")
		g.of(a).ourClose = true
		fired := 0
		stopAt := time.Duration(-1)
		t0 := vs.Elapsed()
		cb := func() {
			if vs.Killing() {
				return
			}
			fired++
			chk("C12 C29", stopAt < 0 || stopAt >= sec-2*time.Millisecond, "a timer due after Stop fired")
		}
		g.s.RunAfter(time.Second, cb)
		g.s.RunEvery(time.Second, cb)
		vs.AllowTime(5 * sec)
		vs.Go("stopper", func() {
			vs.Sleep(500 * time.Millisecond)
			g.s.Stop()
			stopAt = vs.Elapsed() - t0
		})
		quiesce()
		chk("C12", stopAt >= 0 && g.done, "Stop did not return")
		chk("C12 C29", fired <= int((stopAt+2*time.Millisecond)/sec)*2, "the server stopped after %v, the timers fired %d times", stopAt, fired)
		g.stopped = true
		g.finish()
	}})
	// Stop while a timer is due
	add(&Scen{Props: "C12 C13 C05 C09", Name: "stop-idle-due", Pre: 1, Body: func() {
		g := run(&H{onMsg: reply}, gev.IdleTime(sec))
		a := g.connect("a")
		g.of(a).ourClose = true
		ret := 0
		vs.AllowTime(5 * sec)
		vs.Go("stopper", func() {
			vs.Sleep(time.Second)
			g.s.Stop()
			ret++
		})
		quiesce()
		chk("C12", ret == 1 && g.done, "Stop did not return")
		chk("C05 C12 C13", g.of(a).closes == 1 && a.Gone(), "the connection was not closed")
		g.stopped = true
		g.finish()
	}})
	// Stop from a timer callback
	add(&Scen{Props: "C12", Name: "stop-from-timer", Pre: 2, Body: func() {
		g := run(&H{onMsg: reply})
		a := g.connect("a")
		g.of(a).ourClose = true
		ret := 0
		g.s.RunAfter(time.Second, func() {
			if !vs.Killing() {
				g.s.Stop()
				ret++
			}
		})
		vs.AllowTime(3 * sec)
		quiesce()
		chk("C12", ret == 1 && g.done, "Stop from a timer did not return")
		g.stopped = true
		g.finish()
	}})
	// Stop with connections spread over loops, some gone, some with pending output
	add(&Scen{Props: "C05 C09 C12 C15", Name: "stop-many", Pre: 0, Body: func() {
		vkern.Reset()
		vkern.K.TxCap = 2
		g := newRig(&H{onMsg: reply}, gev.NumLoops(2))
		g.start()
		a, b, c := g.connect("a"), g.connect("b"), g.connect("c")
		for _, k := range []*vkern.Conn{a, b, c} {
			g.of(k).ourClose = true
		}
		a.Send([]byte("12345"))
		vs.Go("B", func() { b.Close() })
		vs.Go("C", func() { c.Send([]byte("123")); c.Recv(1) })
		ret := 0
		g.goStop(&ret)
		quiesce()
		chk("C12", ret == 1, "Stop did not return")
		g.stopped = true
		g.finish()
	}})
}
