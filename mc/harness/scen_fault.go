package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/Allenxuxu/gev"

	"gevmc/vkern"
	"gevmc/vs"
)

var soft = vkern.Faults{EpollEINTR: true, ReadEAGAIN: true, WriteShort: true, WriteEAGAIN: true, SpuriousIn: true}

func init() {
	fp := "C31 C01 C03 C04 C10"
	// calls that fail for the moment: nothing may get lost
	for _, v := range []struct {
		name     string
		pre, dev int
		thorough bool
		serial   bool
	}{{"serial", 0, 3, false, true}, {"a", 0, 1, false, false}, {"b", 1, 1, true, false}, {"deep", 0, 2, true, false}, {"deeper", 0, 4, true, true}} {
		v := v
		add(&Scen{Props: fp, Name: "fault-soft-" + v.name, Pre: v.pre, Dev: v.dev, Thorough: v.thorough, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = 5
			g := newRig(&H{onMsg: reply})
			g.start()
			a, b := g.connect("a"), g.connect("b")
			ra := g.of(a)
			vkern.K.F = soft
			vs.Serial(v.serial)
			var f *fin
			ran := 0
			vs.Go("A", func() {
				a.Send([]byte("abcdef"))
				a.RecvN(10)
			})
			vs.Go("B", func() {
				b.Send([]byte("01"))
				b.RecvN(2)
				b.Close()
			})
			f = g.sendFin(ra, "<xy>")
			g.loops[0].QueueInLoop(func() { ran++ })
			quiesce()
			chk("C31", pieces(string(a.Got), true, []string{"<xy>"}, strings.Split("abcdef", "")), "a got %q", a.Got)
			chk("C31", string(ra.all) == "abcdef", "of a OnMessage got %q", ra.all)
			chk("C31", string(b.Got) == "01" && g.of(b).closes == 1 && b.Gone(), "b got %q, OnClose %d", b.Got, g.of(b).closes)
			chk("C31", ra.closes == 0 && !a.Gone(), "a was closed")
			chk("C31 C10", ran == 1, "a queued task ran %d times", ran)
			checkFins(true, f)
			vs.Outcome(string(a.Got))
			g.finish()
		}})
	}
	// the whole life of a connection with one loop, the listener included
	for _, v := range []struct {
		name     string
		pre, dev int
		thorough bool
	}{{"a", 0, 2, false}, {"b", 1, 1, false}, {"deep", 0, 3, true}, {"deep-pre", 1, 2, true}} {
		v := v
		add(&Scen{Props: fp + " C05 C18", Name: "fault-life-" + v.name, Pre: v.pre, Dev: v.dev, Thorough: v.thorough, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = 4
			g := newRig(&H{onMsg: reply})
			g.start()
			vkern.K.F = soft
			var a *vkern.Conn
			vs.Go("A", func() {
				a = vkern.Connect(addr, "a")
				a.Send([]byte("abcdefgh"))
				a.RecvN(3)
				a.Send([]byte("ij"))
				a.CloseWrite()
				a.RecvAll()
			})
			quiesce()
			r := g.of(a)
			chk("C31", r != nil && string(r.all) == "abcdefghij", "OnMessage got %q", r.all)
			chk("C31", string(a.Got) == "abcdefghij" && a.GotEOF, "the client got %q eof=%v", a.Got, a.GotEOF)
			chk("C31", r.closes == 1 && a.Gone(), "the connection did not end")
			g.finish()
		}})
	}
	// accepting fails: others and later ones are served, the failed one is closed
	acc := vkern.Faults{AcceptErr: true, EpollAdd: true, EpollEINTR: true, SpuriousIn: true}
	for _, v := range []struct {
		name     string
		loops    int
		pre, dev int
		thorough bool
	}{{"1", 1, 0, 3, false}, {"2", 2, 0, 2, false}, {"1-pre", 1, 1, 1, false}, {"2-pre", 2, 1, 1, true}, {"1-deep", 1, 1, 2, true}, {"1-deeper", 1, 0, 4, true}} {
		v := v
		add(&Scen{Props: "C31 C05 C08 C09 C15 C18", Name: "fault-accept-" + v.name, Pre: v.pre, Dev: v.dev, Thorough: v.thorough, Body: func() {
			vkern.Reset()
			h := &H{onMsg: reply}
			g := newRig(h, gev.NumLoops(v.loops))
			g.start()
			old := g.connect("old")
			vkern.K.F = acc
			var cs [3]*vkern.Conn
			n := 3
			if v.pre > 0 {
				n = 2
			}
			vs.Go("clients", func() {
				for i := 0; i < n; i++ {
					cs[i] = vkern.Connect(addr, fmt.Sprint("c", i))
					cs[i].Send([]byte("data"))
				}
				old.Send([]byte("more"))
			})
			quiesce()
			chk("C31", string(old.Tx()) == "more" && g.of(old).closes == 0, "an established connection suffered from failing accepts: %q", old.Tx())
			alive := 0
			for _, c := range cs[:n] {
				r := g.of(c)
				// refused by the system, failed to be set up, or served
				if c.Gone() || c.Aborted() {
					chk("C31 C05", r == nil || r.connects == 1 && r.closes == 1, "the failed connection %s: OnConnect %d, OnClose %d", c.Name, nz(r, 0), nz(r, 1))
					continue
				}
				alive++
				chk("C31 C18", r != nil && r.connects == 1 && r.closes == 0, "connection %s was lost", c.Name)
				chk("C31", string(c.Tx()) == "data", "connection %s got %q", c.Name, c.Tx())
			}
			vs.Outcome(fmt.Sprint(alive))
			// and now without faults
			vs.Serial(true)
			vkern.K.F = vkern.Faults{}
			d := g.connect("late")
			vs.Serial(true)
			d.Send([]byte("x"))
			quiesce()
			chk("C31 C18", g.of(d) != nil && string(d.Tx()) == "x", "after the failures a new client is not served")
			vs.Serial(false)
			g.finish()
		}})
	}
	// momentary exhaustion of descriptors: connections are taken once it is over,
	// although nothing else happens
	add(&Scen{Props: "C31 C18", Name: "fault-emfile-burst", Dev: 4, Body: func() {
		vkern.Reset()
		g := newRig(&H{onMsg: reply})
		g.start()
		vkern.K.F.AcceptErr = true
		vs.Serial(true)
		c := vkern.Connect(addr, "a")
		c.Send([]byte("hi"))
		quiesce()
		if !c.Aborted() {
			chk("C31 C18", string(c.Tx()) == "hi", "the client was not served after descriptors were available again")
		}
		g.finish()
	}})
	// a socket fails hard: its connection ends, the others do not notice
	hard := vkern.Faults{WriteReset: true, ReadReset: true}
	for _, v := range []struct {
		name     string
		pre, dev int
		thorough bool
		f        vkern.Faults
		serial   bool
	}{{"a", 0, 1, false, hard, false}, {"pre", 1, 1, true, hard, false}, {"b", 0, 2, false, vkern.Faults{WriteReset: true, ReadReset: true, WriteEAGAIN: true, WriteShort: true}, true}, {"deep", 0, 2, true, hard, false}} {
		v := v
		add(&Scen{Props: "C31 C04 C05 C07 C08 C09 C15", Name: "fault-hard-" + v.name, Pre: v.pre, Dev: v.dev, Thorough: v.thorough, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = 5
			g := newRig(&H{onMsg: reply})
			g.start()
			a, b := g.connect("a"), g.connect("b")
			ra, rb := g.of(a), g.of(b)
			vkern.K.F = v.f
			vs.Serial(v.serial)
			var f *fin
			vs.Go("A", func() {
				a.Send([]byte("abcdefgh"))
				a.RecvN(11)
			})
			vs.Go("B", func() {
				b.Send([]byte("012345"))
				b.RecvN(6)
			})
			f = g.sendFin(ra, "<x>")
			quiesce()
			nAborted := 0
			for _, r := range []*CR{ra, rb} {
				c := r.peer
				want := 11
				if c == b {
					want = 6
				}
				if c.Aborted() {
					nAborted++
					chk("C31 C05", r.closes == 1 && c.Gone(), "connection %s failed: OnClose %d", c.Name, r.closes)
				} else {
					chk("C31", r.closes == 0 && len(c.Got) == want, "connection %s did not fail but got %q, OnClose %d", c.Name, c.Got, r.closes)
				}
			}
			if v.dev == 1 {
				chk("C31", nAborted <= 1, "a hard error on one connection ended the other, too")
			}
			checkFins(!a.Aborted(), f)
			vs.Outcome(fmt.Sprint(nAborted))
			vkern.K.F = vkern.Faults{}
			vs.Serial(true)
			d := g.connect("late")
			vs.Serial(true)
			d.Send([]byte("x"))
			quiesce()
			chk("C31", string(d.Tx()) == "x" && g.of(d).closes == 0, "after a hard error the loop does not serve")
			vs.Serial(false)
			g.finish()
		}})
	}
	// timers and queued tasks with interrupted waits and spurious wake-ups
	add(&Scen{Props: "C31 C10 C29", Name: "fault-timers", Dev: 2, Body: func() {
		vkern.Reset()
		g := newRig(&H{onMsg: reply}, gev.IdleTime(5*time.Second))
		g.start()
		a := g.connect("a")
		vkern.K.F = soft
		once, every, tasks := 0, 0, 0
		vs.AllowTime(3200 * time.Millisecond)
		g.s.RunAfter(time.Second, func() {
			once++
			g.loops[0].QueueInLoop(func() { tasks++ })
		})
		tm := g.s.RunEvery(time.Second, func() {
			every++
			_ = sendN(g.of(a), "t")
		})
		quiesce()
		chk("C31 C29", once == 1 && every == 3, "RunAfter ran %d times, RunEvery %d times", once, every)
		chk("C31 C10", tasks == 1, "the task ran %d times", tasks)
		chk("C31", string(a.Tx()) == "ttt", "the client got %q", a.Tx())
		tm.Stop()
		g.of(a).ourClose = true
		g.finish()
	}})
	// a socket that cannot be made non-blocking is not kept
	add(&Scen{Props: "C31 C09", Name: "fault-nonblock", Dev: 3, Body: func() {
		vkern.Reset()
		g := newRig(&H{onMsg: reply})
		g.start()
		vs.Serial(true)
		n := len(vkern.OpenFDs())
		vkern.K.F = vkern.Faults{SetNonblock: true}
		for i := 0; i < 4; i++ {
			c := vkern.Connect(addr, fmt.Sprint("c", i))
			c.Send([]byte("hi"))
			quiesce()
			if r := g.of(c); r == nil {
				chk("C31 C09", c.Gone() && len(vkern.OpenFDs()) == n, "a connection that was not taken is left open")
			} else {
				chk("C31", string(c.Tx()) == "hi" && r.closes == 0, "connection %s is not served", c.Name)
				c.Close()
				quiesce()
				chk("C31 C09", c.Gone() && len(vkern.OpenFDs()) == n, "a closed connection is left open")
			}
		}
		vkern.K.F = vkern.Faults{}
		c := g.connect("late")
		vs.Serial(true)
		c.Send([]byte("hi"))
		quiesce()
		chk("C31", string(c.Tx()) == "hi", "the server stopped serving")
		vs.Go("Stop", func() { g.s.Stop() })
		quiesce()
		chk("C31 C09", len(vkern.OpenFDs()) == 0, "descriptors left open")
	}})
	// Stop with failing calls
	add(&Scen{Props: "C31 C05 C09 C12", Name: "fault-stop", Pre: 1, Dev: 1, Body: func() {
		vkern.Reset()
		vkern.K.TxCap = 3
		g := newRig(&H{onMsg: reply})
		g.start()
		a := g.connect("a")
		g.of(a).ourClose = true
		vkern.K.F = vkern.Faults{EpollEINTR: true, ReadEAGAIN: true, WriteShort: true, WriteEAGAIN: true, SpuriousIn: true, WriteReset: true, ReadReset: true, AcceptErr: true}
		vs.Go("A", func() {
			a.Send([]byte("abcdef"))
			a.RecvAll()
		})
		ret := 0
		g.goStop(&ret)
		quiesce()
		g.stopped = true
		chk("C31 C12", ret == 1 && g.done, "Stop returned %d, Start %v", ret, g.done)
		g.finish()
	}})
	// protocols under faults
	for _, proto := range []string{"line", "protobuf", "websocket"} {
		proto := proto
		for _, d := range []struct {
			dev      int
			thorough bool
		}{{2, false}, {3, true}} {
			d := d
			name := "fault-" + proto
			if d.thorough {
				name += "-deep"
			}
			add(&Scen{Props: "C31", Name: name, Dev: d.dev, Thorough: d.thorough, Body: func() {
				vkern.Reset()
				v := newVictim(proto)
				vs.Serial(true)
				v.good.SetTxCap(7)
				vkern.K.F = soft
				v.serve("under faults", nil)
				vkern.K.F = vkern.Faults{}
				v.serve("after faults", nil)
				quiesce()
			}})
		}
	}
}
