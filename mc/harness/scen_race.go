package main

import (
	"time"
	"unsafe"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/RussellLuo/timingwheel"

	"gevmc/rapp"
	"gevmc/vkern"
	"gevmc/vrace"
	"gevmc/vs"
)

// raceRig is a running server with the application of package rapp. Nothing here
// adds synchronisation between the server's goroutines and the users beyond the
// hand-over of the connection in OnConnect.
type raceRig struct {
	s     *gev.Server
	conns [8]*gev.Connection
	n     int
	pub   [8]byte
	loops []*eventloop.EventLoop
	lpub  byte
	timer *timingwheel.Timer
	stops int
}

func (g *raceRig) conn(i int) *gev.Connection {
	vrace.Acquire(unsafe.Pointer(&g.pub[i]))
	return g.conns[i]
}

func newRaceRig(opts ...gev.Option) *raceRig {
	vkern.Reset()
	g := &raceRig{}
	h := &rapp.Handler{Reply: true, Pub: func(c *gev.Connection) {
		i := g.n
		g.n++
		g.conns[i] = c
		vrace.ReleaseMerge(unsafe.Pointer(&g.pub[i]))
	}}
	rr := gev.RoundRobin()
	o := append([]gev.Option{gev.Address(addr), gev.NumLoops(1), gev.CustomProtocol(&rapp.Proto{}),
		gev.LoadBalance(func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
			g.loops = ls
			vrace.ReleaseMerge(unsafe.Pointer(&g.lpub))
			return rr(ls)
		})}, opts...)
	s, err := gev.NewServer(h, o...)
	if err != nil {
		vs.Fail("NewServer: %v", err)
	}
	g.s = s
	vs.Serial(true)
	vs.Go("Start", s.Start)
	vs.WaitQuiescent()
	vs.Serial(false)
	return g
}

func (g *raceRig) connect(name string) *vkern.Conn {
	vs.Serial(true)
	c := vkern.Connect(addr, name)
	vs.WaitQuiescent()
	vs.Serial(false)
	return c
}

func (g *raceRig) loop() *eventloop.EventLoop {
	vrace.Acquire(unsafe.Pointer(&g.lpub))
	return g.loops[0]
}

var raceOps = []struct {
	name string
	do   func(g *raceRig)
}{
	{"Send", func(g *raceRig) { _ = g.conn(0).Send([]byte("s")) }},
	{"SendFin", func(g *raceRig) { c := g.conn(0); _ = c.Send([]byte("f"), gev.SendInLoop(rapp.Fin(c))) }},
	{"Close", func(g *raceRig) { _ = g.conn(0).Close() }},
	{"ShutdownWrite", func(g *raceRig) { _ = g.conn(0).ShutdownWrite() }},
	{"Connected", func(g *raceRig) { g.conn(0).Connected() }},
	{"PeerAddr", func(g *raceRig) { g.conn(0).PeerAddr() }},
	{"lengths", func(g *raceRig) { g.conn(0).ReadBufferLength(); g.conn(0).WriteBufferLength() }},
	{"kv", func(g *raceRig) { c := g.conn(0); c.Set("k", 1); c.Get("k"); c.Delete("k") }},
	{"kv-get", func(g *raceRig) { g.conn(0).Get("k") }},
	{"QueueInLoop", func(g *raceRig) { g.loop().QueueInLoop(func() {}) }},
	{"ConnectionCount", func(g *raceRig) { g.loop().ConnectionCount() }},
	{"RunAfter", func(g *raceRig) { g.s.RunAfter(time.Second, func() {}) }},
	{"RunEvery", func(g *raceRig) { g.s.RunEvery(time.Second, func() {}) }},
	{"timer.Stop", func(g *raceRig) { g.timer.Stop() }},
	{"Options", func(g *raceRig) { _ = g.s.Options().NumLoops }},
	{"Stop", func(g *raceRig) { g.s.Stop() }},
	{"connect", func(g *raceRig) {
		if c := vkern.Connect(addr, "new"); c != nil {
			c.Send([]byte("n"))
		}
	}},
	{"peer-close", func(g *raceRig) { vkern.K.Conns[0].Close() }},
	{"peer-reset", func(g *raceRig) { vkern.K.Conns[0].Reset() }},
	{"peer-data", func(g *raceRig) { vkern.K.Conns[0].Send([]byte("0123456789ab")) }},
}

// raceProps are the properties that a data race of the operation breaks, besides C30.
var raceProps = map[string]string{
	"Send": "C04 C03", "SendFin": "C04 C03", "Close": "C07", "ShutdownWrite": "C32", "Connected": "C07", "lengths": "C16", "kv": "C17", "kv-get": "C17",
	"QueueInLoop": "C10", "ConnectionCount": "C15", "RunAfter": "C29", "RunEvery": "C29", "timer.Stop": "C29", "Stop": "C12",
}

func init() {
	for i := range raceOps {
		for _, blocked := range []bool{false, true} {
			i, blocked := i, blocked
			name := "race-" + raceOps[i].name
			if blocked {
				name += "-blocked"
			}
			add(&Scen{Props: "C30 " + raceProps[raceOps[i].name], Name: name, Pre: 1, Race: true, Body: func() {
				j := i + vs.ChooseFree(len(raceOps)-i, "second operation")
				g := newRaceRig(gev.NumLoops(1))
				c := g.connect("a")
				if blocked {
					c.SetTxCap(2)
				}
				g.timer = g.s.RunAfter(time.Second, func() {})
				vs.Go("A", func() { raceOps[i].do(g) })
				vs.Go("B", func() { raceOps[j].do(g) })
				c.Send([]byte("xyz"))
				vs.WaitQuiescent()
				if blocked {
					vs.Serial(true)
					c.Drain()
					vs.WaitQuiescent()
				}
			}})
		}
	}
	// timers come due while the rest goes on; idle connections are closed
	for i := range raceOps {
		i := i
		add(&Scen{Props: "C30 " + raceProps[raceOps[i].name], Name: "race-time-" + raceOps[i].name, Pre: 1, Race: true, Body: func() {
			g := newRaceRig(gev.IdleTime(time.Second))
			c := g.connect("a")
			vs.AllowTime(2100 * time.Millisecond)
			g.timer = g.s.RunEvery(time.Second, func() {
				_ = g.conn(0).Send([]byte("t"))
			})
			vs.Go("A", func() {
				vs.Sleep(time.Second)
				raceOps[i].do(g)
			})
			c.Send([]byte("x"))
			vs.WaitQuiescent()
		}})
	}
	// two loops and the least-connection strategy, connections coming and going
	for i := range raceOps {
		i := i
		add(&Scen{Props: "C30 " + raceProps[raceOps[i].name], Name: "race-loops-" + raceOps[i].name, Pre: 1, Race: true, Body: func() {
			var ls []*eventloop.EventLoop
			lc := gev.LeastConnection()
			var g *raceRig
			g = newRaceRig(gev.NumLoops(2), gev.LoadBalance(func(l []*eventloop.EventLoop) *eventloop.EventLoop {
				ls = l
				if g != nil {
					g.loops = l
					vrace.ReleaseMerge(unsafe.Pointer(&g.lpub))
				}
				return lc(l)
			}))
			_ = ls
			g.connect("a")
			b := g.connect("b")
			g.timer = g.s.RunAfter(time.Second, func() {})
			vs.Go("A", func() { raceOps[i].do(g) })
			vs.Go("B", func() {
				b.Send([]byte("12"))
				b.Close()
				if d := vkern.Connect(addr, "d"); d != nil {
					d.Send([]byte("d"))
				}
			})
			vs.WaitQuiescent()
		}})
	}
}
