package main

import (
	"fmt"
	"runtime"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"

	"gevmc/vkern"
	"gevmc/vs"
)

// enders are the ways a connection can end.
var enders = []struct {
	name string
	do   func(g *Rig, c *vkern.Conn)
}{
	{"peer close", func(g *Rig, c *vkern.Conn) { c.Close() }},
	{"reset", func(g *Rig, c *vkern.Conn) { c.Reset() }},
	{"half-close", func(g *Rig, c *vkern.Conn) { c.CloseWrite() }},
	{"Close", func(g *Rig, c *vkern.Conn) { g.of(c).ourClose = true; _ = g.of(c).c.Close() }},
	{"Close twice", func(g *Rig, c *vkern.Conn) {
		g.of(c).ourClose = true
		_ = g.of(c).c.Close()
		_ = g.of(c).c.Close()
	}},
	{"Close in OnMessage", func(g *Rig, c *vkern.Conn) { g.of(c).ourClose = true; c.Send([]byte("Q")) }},
}

// history runs every sequence of depth connects and ends on n loops and checks
// the assignment and the counts after each step.
func history(n, depth int, least, def bool) {
	vkern.Reset()
	vs.Serial(true)
	var g *Rig
	h := &H{}
	h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
		if len(b) > 0 && b[0] == 'Q' {
			_ = r.c.Close()
		}
		return nil
	}
	opts := []gev.Option{gev.NumLoops(n)}
	if def {
		opts = append(opts, gev.LoadBalance(nil))
	}
	if least {
		opts = append(opts, func(o *gev.Options) { o.Strategy = g.observe(gev.LeastConnection()) })
	}
	g = &Rig{H: h}
	s, err := gev.NewServer(h, g.options(opts)...)
	if err != nil {
		vs.Fail("NewServer: %v", err)
	}
	g.s = s
	g.goStart()
	quiesce()
	count := make([]int, n)
	loopOf := map[*vkern.Conn]int{}
	tidLoop := map[int]int{} // goroutine -> loop number by order of first use
	var open []*vkern.Conn
	total := 0
	for k := 0; k < depth; k++ {
		opt := 1
		if len(open) > 0 {
			opt += len(open) * len(enders)
			if len(open) > 2 { // the oldest and the newest are enough
				opt = 1 + 2*len(enders)
			}
		}
		a := vs.ChooseFree(opt, "connect or end")
		if a == 0 {
			c := vkern.Connect(addr, fmt.Sprint("c", total))
			quiesce()
			r := g.of(c)
			chk("C14 C15", r != nil && r.connects == 1, "connection not announced")
			l, ok := tidLoop[r.tid]
			if !ok {
				l = len(tidLoop)
				tidLoop[r.tid] = l
			}
			if least {
				// by the loop the strategy named; C06 checks that it serves it
				l = g.assigned[total]
				min := count[0]
				for _, x := range count {
					if x < min {
						min = x
					}
				}
				chk("C15", count[l] == min, "least-connection chose loop %d of open connections %v", l, count)
			} else {
				chk("C14", l == total%n, "connection number %d went to loop %d of %d", total, l, n)
			}
			total++
			loopOf[c] = l
			count[l]++
			open = append(open, c)
		} else {
			a--
			i := a / len(enders)
			if i > 0 && len(open) > 2 {
				i = len(open) - 1
			}
			c := open[i]
			vs.Tracef("== %s of %s", enders[a%len(enders)].name, c.Name)
			enders[a%len(enders)].do(g, c)
			quiesce()
			chk("C15 C05", c.Gone() && g.of(c).closes == 1, "after %s the connection is still open", enders[a%len(enders)].name)
			open = append(open[:i:i], open[i+1:]...)
			count[loopOf[c]]--
		}
		if g.loops != nil && least {
			for i, l := range g.loops {
				chk("C15", l.ConnectionCount() == int64(count[i]), "loop %d reports %d connections, %d are open", i, l.ConnectionCount(), count[i])
			}
		}
		vs.Outcome(fmt.Sprint(count))
	}
	for _, c := range open {
		g.of(c).ourClose = true
	}
	g.finish()
}

func init() {
	// the strategies by themselves
	add(&Scen{Props: "C14", Name: "roundrobin-picks", Enum: func(e *Enum) {
		for n := 1; n <= 5; n++ {
			ls := make([]*eventloop.EventLoop, n)
			for i := range ls {
				ls[i] = &eventloop.EventLoop{}
			}
			for mask := 0; mask < 1<<12; mask++ {
				// bit k says which of two strategies makes pick k
				if !e.Begin("roundrobin n=%d mask=%d", n, mask) {
					return
				}
				st := []gev.LoadBalanceStrategy{gev.RoundRobin(), gev.RoundRobin()}
				cnt := []int{0, 0}
				for k := 0; k < 12; k++ {
					w := mask >> k & 1
					l := st[w](ls)
					if l != ls[cnt[w]%n] {
						e.Bad("pick %d of strategy %d over %d loops is not loop %d", cnt[w], w, n, cnt[w]%n)
					}
					cnt[w]++
				}
				e.State(uint64(n*100+cnt[0]) + 7)
			}
		}
		if e.Begin("many picks") {
			ls := []*eventloop.EventLoop{{}, {}, {}}
			st := gev.RoundRobin()
			for k := 0; k < 300000; k++ {
				if st(ls) != ls[k%3] {
					e.Bad("pick %d is not loop %d", k, k%3)
					return
				}
			}
		}
	}})
	add(&Scen{Props: "C15", Name: "leastconn-vectors", Enum: func(e *Enum) {
		for n := 1; n <= 5; n++ {
			ls := make([]*eventloop.EventLoop, n)
			for i := range ls {
				ls[i] = &eventloop.EventLoop{}
			}
			tot := 1
			for i := 0; i < n; i++ {
				tot *= 4
			}
			for v := 0; v < tot; v++ {
				if !e.Begin("leastconn n=%d v=%d", n, v) {
					return
				}
				min := int64(9)
				for i, x := 0, v; i < n; i++ {
					c := int64(x % 4)
					x /= 4
					_ = ls[i].ConnCunt.Swap(c)
					if c < min {
						min = c
					}
				}
				st := gev.LeastConnection()
				for k := 0; k < 3; k++ {
					l := st(ls)
					if l == nil || l.ConnectionCount() != min {
						e.Bad("least-connection chose a loop with %d connections, the least is %d", l.ConnectionCount(), min)
						return
					}
					l.ConnCunt.Add(1)
					min = l.ConnectionCount()
					for i := range ls {
						if c := ls[i].ConnectionCount(); c < min {
							min = c
						}
					}
				}
				e.State(uint64(n)<<32 + uint64(v))
			}
		}
	}})
	for n := 1; n <= 3; n++ {
		n := n
		d := 4
		add(&Scen{Props: "C14 C05", Name: fmt.Sprintf("history-rr-%d", n), Steps: 40000, Body: func() { history(n, d, false, false) }})
		add(&Scen{Props: "C14", Name: fmt.Sprintf("history-default-%d", n), Steps: 40000, Body: func() { history(n, d, false, true) }})
		add(&Scen{Props: "C15", Name: fmt.Sprintf("history-least-%d", n), Steps: 40000, Body: func() { history(n, d, true, false) }})
		add(&Scen{Props: "C14 C05", Name: fmt.Sprintf("history-rr-%d-deep", n), Thorough: true, Steps: 40000, Body: func() { history(n, d+2, false, false) }})
		add(&Scen{Props: "C15", Name: fmt.Sprintf("history-least-%d-deep", n), Thorough: true, Steps: 40000, Body: func() { history(n, d+2, true, false) }})
	}
	// many connections in strict rotation
	add(&Scen{Props: "C14 C18", Name: "rotation-long", Steps: 100000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		n := 1 + vs.ChooseFree(5, "loops")
		def := vs.ChooseFree(2, "default strategy") == 1
		opts := []gev.Option{gev.NumLoops(n)}
		if def {
			opts = append(opts, gev.LoadBalance(nil))
		}
		g := newRig(&H{}, opts...)
		g.goStart()
		quiesce()
		var tids []int
		for k := 0; k < 4*n+1; k++ {
			c := vkern.Connect(addr, fmt.Sprint(k))
			quiesce()
			r := g.of(c)
			chk("C18 C14", r != nil, "connection %d was not announced", k)
			tids = append(tids, r.tid)
			if k%3 == 1 {
				c.Close()
				quiesce()
			}
		}
		for k := range tids {
			for j := 0; j < k; j++ {
				chk("C14", (tids[k] == tids[j]) == (k%n == j%n), "connections %d and %d of %d loops are served by goroutines %d and %d", j, k, n, tids[j], tids[k])
			}
		}
		g.finish()
	}})
	// as many loops as CPUs by default
	add(&Scen{Props: "C14 C27", Name: "rotation-default-loops", Steps: 200000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		g := newRig(&H{}, gev.NumLoops([]int{0, -3}[vs.ChooseFree(2, "n")]))
		g.goStart()
		quiesce()
		seen := map[int]bool{}
		first := -1
		for k := 0; k <= runtime.NumCPU(); k++ {
			c := vkern.Connect(addr, fmt.Sprint(k))
			quiesce()
			t := g.of(c).tid
			if k == 0 {
				first = t
			}
			if k == runtime.NumCPU() {
				chk("C14 C27", t == first, "with as many loops as CPUs, connection %d is not served by the first loop", k)
			} else {
				chk("C14 C27", !seen[t], "connection %d shares a loop although there are %d", k, runtime.NumCPU())
			}
			seen[t] = true
		}
		g.finish()
	}})
	// two servers with their own strategies, accepting in all interleavings
	add(&Scen{Props: "C14 C27", Name: "rotation-two-servers", Pre: 0, Body: func() {
		vkern.Reset()
		h1, h2 := &H{}, &H{}
		g1 := newRig(h1, gev.NumLoops(2))
		g2 := newRig(h2, gev.NumLoops(2), gev.Address(":1399"))
		g1.start()
		g2.start()
		vs.Go("a", func() {
			vkern.Connect(addr, "a0")
			vkern.Connect(addr, "a1")
		})
		vs.Go("b", func() {
			vkern.Connect(":1399", "b0")
		})
		quiesce()
		chk("C14", len(h1.recs) == 2 && len(h2.recs) == 1, "connections missing")
		chk("C14", fmt.Sprint(g1.assigned) == "[0 1]" && fmt.Sprint(g2.assigned) == "[0]", "servers do not rotate independently: %v %v", g1.assigned, g2.assigned)
		chk("C14", h1.recs[0].tid != h1.recs[1].tid, "two connections share a loop although there are two")
		vs.Serial(true)
		vs.Go("Stop", func() { g1.s.Stop(); g2.s.Stop() })
		quiesce()
		chk("C12", g1.done && g2.done, "Start did not return")
	}})
	// connects and ends racing: the counts come out right
	for _, v := range []struct{ n, e1, e2 int }{{1, 0, 3}, {2, 1, 4}, {1, 5, 0}, {2, 2, 3}} {
		v := v
		add(&Scen{Props: "C15 C05 C09", Name: fmt.Sprintf("count-race-%d-%d-%d", v.n, v.e1, v.e2), Pre: 1, Body: func() {
			vkern.Reset()
			var g *Rig
			h := &H{}
			h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
				if b[0] == 'Q' {
					_ = r.c.Close()
				}
				return nil
			}
			g = &Rig{H: h}
			s, err := gev.NewServer(h, g.options([]gev.Option{gev.NumLoops(v.n), gev.LoadBalance(g.observe(gev.LeastConnection()))})...)
			if err != nil {
				vs.Fail("%v", err)
			}
			g.s = s
			g.start()
			a := g.connect("a")
			g.of(a).ourClose = true
			vs.Go("x", func() { enders[v.e1].do(g, a) })
			vs.Go("y", func() { enders[v.e2].do(g, a) })
			vs.Go("z", func() { vkern.Connect(addr, "b") })
			quiesce()
			for i, l := range g.loops {
				n := int64(0)
				for _, k := range vkern.K.Conns {
					if k.Accepted() && !k.Gone() && g.assigned[k.AccSeq] == i {
						n++
					}
				}
				chk("C15", l.ConnectionCount() == n, "loop %d reports %d connections, %d are open", i, l.ConnectionCount(), n)
			}
			g.finish()
		}})
	}

	// ---------- accepting ----------
	for _, v := range []struct {
		n, loops, pre int
		v6            bool
		data          bool
	}{{2, 1, 2, false, true}, {3, 2, 0, false, true}, {4, 2, 0, false, false}, {2, 2, 1, true, true}, {4, 1, 0, true, false}} {
		v := v
		add(&Scen{Props: "C18 C05 C14", Name: fmt.Sprintf("burst-%d-%d-v6=%v", v.n, v.loops, v.v6), Pre: v.pre, Body: func() {
			vkern.Reset()
			vkern.K.V6 = v.v6
			h := &H{onMsg: reply}
			g := newRig(h, gev.NumLoops(v.loops))
			g.start()
			cs := make([]*vkern.Conn, v.n)
			vs.Go("burst", func() {
				for i := range cs {
					cs[i] = vkern.Connect(addr, fmt.Sprint("c", i))
					if v.data {
						cs[i].Send([]byte(fmt.Sprint("data", i)))
					}
				}
			})
			quiesce()
			chk("C18", len(h.recs) == v.n, "%d clients connected, OnConnect announced %d", v.n, len(h.recs))
			for i, c := range cs {
				r := g.of(c)
				chk("C18", r != nil && r.connects == 1, "client %d was not announced exactly once under its address", i)
				if v.data {
					c.Drain()
					chk("C18", string(r.all) == fmt.Sprint("data", i) && string(c.Got) == fmt.Sprint("data", i), "client %d: its connection got %q, it got %q", i, r.all, c.Got)
				}
			}
			g.finish()
		}})
	}
	// clients that come together, one of which then takes no output
	for _, loops := range []int{1, 2} {
		loops := loops
		add(&Scen{Props: "C18 C25 C31 C03", Name: fmt.Sprintf("burst-blocked-%d", loops), NoCache: true, Body: func() {
			vkern.Reset()
			sizes(8)
			vkern.K.TxCap = 4
			vs.Serial(true)
			n := 2 + vs.ChooseFree(3, "clients")
			stuck := vs.ChooseFree(n, "which takes nothing")
			h := &H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} {
				if string(b) == "!" {
					return []byte("0123456789abcdef")
				}
				return append([]byte(nil), b...)
			}}
			g := newRig(h, gev.NumLoops(loops))
			g.start()
			vs.Serial(true)
			var cs []*vkern.Conn
			for i := 0; i < n; i++ {
				cs = append(cs, vkern.Connect(addr, fmt.Sprint("c", i)))
			}
			vs.WaitQuiescent()
			cs[stuck].Send([]byte("!"))
			vs.WaitQuiescent()
			for i, c := range cs {
				if i != stuck {
					c.Send([]byte(fmt.Sprint("m", i)))
					vs.WaitQuiescent()
					c.Drain()
					chk("C18 C25 C31", string(c.Got) == fmt.Sprint("m", i), "client %d of %d got %q while client %d took no output", i, n, c.Got, stuck)
				}
			}
			for i := 0; i < 8; i++ {
				cs[stuck].Drain()
				vs.WaitQuiescent()
			}
			chk("C03 C18", string(cs[stuck].Got) == "0123456789abcdef", "the client that had taken no output got %q", cs[stuck].Got)
			g.finish()
		}})
	}
	// clients that come from several goroutines and some that leave at once
	for _, how := range []int{0, 1, 2} {
		how := how
		add(&Scen{Props: "C18 C05 C09 C15", Name: fmt.Sprintf("burst-leave-%s", enders[how].name), Pre: 1, Body: func() {
			vkern.Reset()
			g := newRig(&H{onMsg: reply})
			g.start()
			var a, b *vkern.Conn
			vs.Go("leaver", func() {
				a = vkern.Connect(addr, "a")
				enders[how].do(g, a)
			})
			vs.Go("stayer", func() {
				b = vkern.Connect(addr, "b")
				b.Send([]byte("hi"))
			})
			quiesce()
			b.Drain()
			chk("C18", a.Accepted() && g.of(a) != nil && g.of(a).connects == 1, "a client that left at once was not announced")
			chk("C18", g.of(b) != nil && string(b.Got) == "hi", "a client next to one that left was not served")
			g.finish()
		}})
	}
	// a connection beyond a transient accept failure
	add(&Scen{Props: "C18 C31", Name: "accept-failures", Dev: 3, Body: func() {
		vkern.Reset()
		g := newRig(&H{onMsg: reply})
		g.start()
		vkern.K.F.AcceptErr = true
		vs.Serial(true)
		cs := []*vkern.Conn{vkern.Connect(addr, "a"), vkern.Connect(addr, "b"), vkern.Connect(addr, "c")}
		quiesce()
		for _, c := range cs {
			if !c.Gone() {
				chk("C18 C31", c.Accepted() && g.of(c) != nil && g.of(c).connects == 1, "client %s was not accepted after a transient accept failure", c.Name)
				c.Send([]byte(c.Name))
			}
		}
		quiesce()
		for _, c := range cs {
			if !c.Gone() {
				c.Drain()
				chk("C18 C31", string(c.Got) == c.Name, "client %s was not served", c.Name)
			}
		}
		g.finish()
	}})
}
