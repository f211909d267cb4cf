package main

import (
	"fmt"
	"reflect"
	"runtime"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/ringbuffer"

	"gevmc/vkern"
	"gevmc/vs"
)

// serves starts s, has two clients served by it and stops it.
func serves(p string, s *gev.Server, h *H, at string) {
	done := false
	vs.Go("Start", func() {
		s.Start()
		done = true
	})
	quiesce()
	n := len(h.recs)
	var cs []*vkern.Conn
	for i := 0; i < 4; i++ {
		c := vkern.Connect(at, fmt.Sprintf("probe%d", i))
		chk(p, c != nil, "the server does not listen on %s", at)
		cs = append(cs, c)
		c.Send([]byte("hello"))
	}
	quiesce()
	for _, c := range cs {
		chk(p, string(c.TryRecv(5)) == "hello", "the server does not serve")
		c.Close()
	}
	quiesce()
	chk(p, len(h.recs) == n+4, "%d connections announced", len(h.recs)-n)
	vs.Go("Stop", func() { s.Stop() })
	quiesce()
	chk(p, done, "Start did not return after Stop")
}

// construct makes a server while anything may fail.
func construct(loops int, reuse bool, f vkern.Faults) func() {
	return func() {
		vkern.Reset()
		vs.Serial(true)
		pre := vkern.ForeignOpen("file of the application")
		h := &H{onMsg: reply}
		opts := func() []gev.Option {
			return []gev.Option{gev.Address(addr), gev.NumLoops(loops), gev.ReusePort(reuse)}
		}
		var s *gev.Server
		var err error
		for try := 0; ; try++ {
			if try < 3 {
				vkern.K.F = f
			}
			s, err = gev.NewServer(h, opts()...)
			vkern.K.F = vkern.Faults{}
			quiesce()
			chk("C26", (s == nil) == (err != nil), "NewServer returned %v, %v", s != nil, err)
			vs.Outcome(fmt.Sprint(try, err))
			if err == nil {
				break
			}
			chk("C26", try < 3, "after failed calls of NewServer another one on the same address failed: %v", err)
			left := vkern.OpenFDs()
			chk("C26", len(left) == 0, "NewServer failed with %q and left descriptors open: %v", err, left)
			chk("C26", !vkern.Listening(addr), "NewServer failed with %q and still listens", err)
		}
		serves("C26", s, h, addr)
		for _, a := range vkern.Anomalies() {
			chk("C26 C08", false, "%s", a)
		}
		vkern.ForeignClose(pre)
		left := vkern.OpenFDs()
		chk("C26 C09", len(left) == 0, "descriptors left open: %v", left)
	}
}

// optCase is one option with what it must lead to.
type optCase struct {
	name string
	opt  func() gev.Option
	set  func(o *gev.Options)
}

type nopProto struct{ gev.DefaultProtocol }

func init() {
	ncpu := runtime.NumCPU()
	all := vkern.Faults{EpollAdd: true, EpollMod: true, EpollCreate: true, Eventfd: true, SetNonblock: true, Listen: true, Dup: true}
	for loops := 1; loops <= 3; loops++ {
		for _, reuse := range []bool{false, true} {
			add(&Scen{Props: "C26 C09", Name: fmt.Sprintf("construct-%d-reuse=%v", loops, reuse), Dev: 3, Body: construct(loops, reuse, all)})
		}
	}
	add(&Scen{Props: "C26 C09", Name: "construct-default-loops", Dev: 2, Body: func() {
		construct([]int{0, -1}[vs.ChooseFree(2, "loops")], false, all)()
	}})
	// refused arguments
	add(&Scen{Props: "C26", Name: "construct-refused", Body: func() {
		vkern.Reset()
		vs.Serial(true)
		h := &H{onMsg: reply}
		type bad struct {
			name string
			h    gev.Handler
			o    []gev.Option
		}
		bads := []bad{
			{"no handler", nil, nil},
			{"no handler, options", nil, []gev.Option{gev.Address(addr), gev.NumLoops(2)}},
			{"unknown network", h, []gev.Option{gev.Network("sctp")}},
			{"udp", h, []gev.Option{gev.Network("udp")}},
			{"unix", h, []gev.Option{gev.Network("unix"), gev.Address("sock")}},
			{"bad address", h, []gev.Option{gev.Address("1388")}},
			{"unknown network, reuse", h, []gev.Option{gev.Network("sctp"), gev.ReusePort(true)}},
			{"unix, reuse", h, []gev.Option{gev.Network("unix"), gev.Address("sock"), gev.ReusePort(true)}},
			{"bad address, reuse", h, []gev.Option{gev.Address("1388"), gev.ReusePort(true)}},
		}
		pre := vkern.ForeignOpen("file of the application")
		for i := vs.ChooseFree(3, "how many bad attempts"); i >= 0; i-- {
			b := bads[vs.ChooseFree(len(bads), "bad")]
			vs.Tracef("== %s", b.name)
			s, err := gev.NewServer(b.h, b.o...)
			chk("C26", s == nil && err != nil, "NewServer with %s returned %v, %v", b.name, s != nil, err)
			vs.Outcome(b.name)
		}
		left := vkern.OpenFDs()
		chk("C26", len(left) == 0, "refused NewServer left descriptors open: %v", left)
		chk("C26", !vkern.Listening(addr), "refused NewServer listens")
		chk("C26", !vkern.Listening("sock"), "refused NewServer listens on the unix socket")
		s, err := gev.NewServer(h, gev.Address(addr), gev.NumLoops(1))
		chk("C26", err == nil && s != nil, "after refused attempts NewServer failed: %v", err)
		serves("C26", s, h, addr)
		vkern.ForeignClose(pre)
		left = vkern.OpenFDs()
		chk("C26 C09", len(left) == 0, "descriptors left open: %v", left)
	}})
	// the address is taken by another server, which must not notice
	for _, reuse := range []bool{false, true} {
		reuse := reuse
		add(&Scen{Props: "C26", Name: fmt.Sprintf("construct-in-use-%v", reuse), Body: func() {
			vkern.Reset()
			vs.Serial(true)
			h := &H{onMsg: reply}
			g := newRig(h, gev.NumLoops(1+vs.ChooseFree(2, "loops")))
			started := vs.ChooseFree(2, "first is started") == 1
			if started {
				g.goStart()
				quiesce()
				c := g.connect("c")
				vs.Serial(true)
				defer func() {
					c.Send([]byte("still"))
					quiesce()
					chk("C26", string(c.TryRecv(5)) == "still", "the first server stopped serving")
					g.of(c).ourClose = true
					vs.Go("Stop", func() { g.s.Stop() })
					quiesce()
					left := vkern.OpenFDs()
					chk("C26", len(left) == 0, "descriptors left open: %v", left)
				}()
			}
			before := len(vkern.OpenFDs())
			for i := 0; i < 3; i++ {
				s, err := gev.NewServer(&H{}, gev.Address(addr), gev.NumLoops(2), gev.ReusePort(reuse))
				chk("C26", s == nil && err != nil, "NewServer on an address in use returned %v, %v", s != nil, err)
				chk("C26", len(vkern.OpenFDs()) == before, "NewServer on an address in use left descriptors open")
			}
			s, err := gev.NewServer(h, gev.Address(":1389"), gev.NumLoops(2), gev.ReusePort(reuse))
			chk("C26", err == nil && s != nil, "NewServer on a free address failed: %v", err)
			h2 := h
			serves("C26", s, h2, ":1389")
			if !started {
				serves("C26", g.s, h, addr)
				left := vkern.OpenFDs()
				chk("C26", len(left) == 0, "descriptors left open: %v", left)
			}
			for _, a := range vkern.Anomalies() {
				chk("C26", false, "%s", a)
			}
		}})
	}

	// C27: every sequence of options
	p1, p2 := &gev.DefaultProtocol{}, &nopProto{}
	var s1, s2 gev.LoadBalanceStrategy
	s1 = func(ls []*eventloop.EventLoop) *eventloop.EventLoop { return ls[0] }
	s2 = func(ls []*eventloop.EventLoop) *eventloop.EventLoop { return ls[len(ls)-1] }
	cases := []optCase{
		{"Network(tcp4)", func() gev.Option { return gev.Network("tcp4") }, func(o *gev.Options) { o.Network = "tcp4" }},
		{"Network(tcp6)", func() gev.Option { return gev.Network("tcp6") }, func(o *gev.Options) { o.Network = "tcp6" }},
		{"Network()", func() gev.Option { return gev.Network("") }, func(o *gev.Options) { o.Network = "tcp" }},
		{"Address(:7)", func() gev.Option { return gev.Address(":7") }, func(o *gev.Options) { o.Address = ":7" }},
		{"Address(127.0.0.1:8)", func() gev.Option { return gev.Address("127.0.0.1:8") }, func(o *gev.Options) { o.Address = "127.0.0.1:8" }},
		{"Address(:0)", func() gev.Option { return gev.Address(":0") }, func(o *gev.Options) { o.Address = ":0" }},
		{"Address()", func() gev.Option { return gev.Address("") }, func(o *gev.Options) { o.Address = ":1388" }},
		{"NumLoops(2)", func() gev.Option { return gev.NumLoops(2) }, func(o *gev.Options) { o.NumLoops = 2 }},
		{"NumLoops(5)", func() gev.Option { return gev.NumLoops(5) }, func(o *gev.Options) { o.NumLoops = 5 }},
		{"NumLoops(9)", func() gev.Option { return gev.NumLoops(9) }, func(o *gev.Options) { o.NumLoops = 9 }},
		{"NumLoops(0)", func() gev.Option { return gev.NumLoops(0) }, func(o *gev.Options) { o.NumLoops = ncpu }},
		{"NumLoops(-1)", func() gev.Option { return gev.NumLoops(-1) }, func(o *gev.Options) { o.NumLoops = ncpu }},
		{"ReusePort(true)", func() gev.Option { return gev.ReusePort(true) }, func(o *gev.Options) { o.ReusePort = true }},
		{"ReusePort(false)", func() gev.Option { return gev.ReusePort(false) }, func(o *gev.Options) { o.ReusePort = false }},
		{"IdleTime(1s)", func() gev.Option { return gev.IdleTime(time.Second) }, func(o *gev.Options) { o.IdleTime = time.Second }},
		{"IdleTime(3s)", func() gev.Option { return gev.IdleTime(3 * time.Second) }, func(o *gev.Options) { o.IdleTime = 3 * time.Second }},
		{"IdleTime(0)", func() gev.Option { return gev.IdleTime(0) }, func(o *gev.Options) { o.IdleTime = 0 }},
		{"Protocol(1)", func() gev.Option { return gev.CustomProtocol(p1) }, func(o *gev.Options) { o.Protocol = p1 }},
		{"Protocol(2)", func() gev.Option { return gev.CustomProtocol(p2) }, func(o *gev.Options) { o.Protocol = p2 }},
		{"Protocol(nil)", func() gev.Option { return gev.CustomProtocol(nil) }, func(o *gev.Options) { o.Protocol = nil }},
		{"LoadBalance(1)", func() gev.Option { return gev.LoadBalance(s1) }, func(o *gev.Options) { o.Strategy = s1 }},
		{"LoadBalance(2)", func() gev.Option { return gev.LoadBalance(s2) }, func(o *gev.Options) { o.Strategy = s2 }},
		{"LoadBalance(nil)", func() gev.Option { return gev.LoadBalance(nil) }, func(o *gev.Options) { o.Strategy = nil }},
	}
	fn := func(f interface{}) uintptr { return reflect.ValueOf(f).Pointer() }
	report := func(s *gev.Server, want gev.Options, what string) {
		o := s.Options()
		chk("C27", o.Network == want.Network, "%s: network %q reported, %q expected", what, o.Network, want.Network)
		chk("C27", o.Address == want.Address, "%s: address %q reported, %q expected", what, o.Address, want.Address)
		chk("C27", o.NumLoops == want.NumLoops, "%s: %d loops reported, %d expected", what, o.NumLoops, want.NumLoops)
		chk("C27", o.ReusePort == want.ReusePort, "%s: reuseport %v reported", what, o.ReusePort)
		chk("C27", o.IdleTime == want.IdleTime, "%s: idle time %v reported, %v expected", what, o.IdleTime, want.IdleTime)
		if want.Protocol == nil {
			_, ok := o.Protocol.(*gev.DefaultProtocol)
			chk("C27", ok, "%s: protocol %T is not the default", what, o.Protocol)
		} else {
			chk("C27", o.Protocol == want.Protocol, "%s: not the given protocol", what)
		}
		chk("C27", o.Strategy != nil, "%s: no strategy reported", what)
		if want.Strategy != nil {
			chk("C27", fn(o.Strategy) == fn(want.Strategy), "%s: not the given strategy", what)
		} else if o.Strategy != nil {
			ls := []*eventloop.EventLoop{{}, {}, {}}
			at := map[*eventloop.EventLoop]int{}
			for i := 0; i < 9; i++ {
				at[o.Strategy(ls)]++
			}
			chk("C27", at[ls[0]] == 3 && at[ls[1]] == 3 && at[ls[2]] == 3, "%s: the default strategy is not round-robin", what)
		}
	}
	def := gev.Options{Network: "tcp", Address: ":1388", NumLoops: ncpu}
	for first := range cases {
		first := first
		add(&Scen{Props: "C27", Name: "options-" + cases[first].name, Steps: 100000, Body: func() {
			vs.Serial(true)
			// this option, then any two further ones (or none)
			n := vs.ChooseFree(len(cases)+1, "second")
			for k := -1; k < len(cases); k++ {
				vkern.Reset()
				seq := []int{first}
				if n < len(cases) {
					seq = append(seq, n)
				}
				if k >= 0 {
					seq = append(seq, k)
				}
				want := def
				var opts []gev.Option
				what := ""
				for _, i := range seq {
					opts = append(opts, cases[i].opt())
					cases[i].set(&want)
					what += cases[i].name + " "
				}
				h := &H{onMsg: reply}
				s, err := gev.NewServer(h, opts...)
				chk("C27", err == nil, "%s: %v", what, err)
				report(s, want, what)
				// changing the copy changes nothing
				o := s.Options()
				o.Network, o.Address, o.NumLoops, o.ReusePort, o.IdleTime, o.Protocol, o.Strategy = "x", "y", 77, !o.ReusePort, 99*time.Second, p2, s2
				report(s, want, what+"after changing the copy")
				// a second server does not inherit anything
				if want.Address != ":1388" {
					s3, err := gev.NewServer(h)
					chk("C27", err == nil, "second server: %v", err)
					report(s3, def, "a server without options")
					report(s, want, what+"after another server was made")
				}
				chk("C27", vkern.Listening(want.Address), "%s: the server does not listen on %s", what, want.Address)
				as := want.Network
				if want.ReusePort {
					as += " reuse"
				}
				got := vkern.ListensAs(want.Address)
				chk("C27", len(got) == 1 && got[0] == as, "%s: listening on %s as %q, expected %q", what, want.Address, got, as)
				vs.Outcome(what)
			}
		}})
	}
	// numbers of loops and idle times of every size
	add(&Scen{Props: "C27 C14", Name: "options-loops", Steps: 2000000, Body: func() {
		vs.Serial(true)
		var ns []int
		for n := 1; n <= 70; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 99, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1024, 1025)
		n := ns[vs.ChooseFree(len(ns), "loops")]
		vkern.Reset()
		seen := -1
		st := gev.LeastConnection()
		s, err := gev.NewServer(&H{onMsg: reply}, gev.NumLoops(n), gev.LoadBalance(func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
			seen = len(ls)
			for i := range ls {
				for j := 0; j < i && n <= 70; j++ {
					chk("C27", ls[i] != ls[j], "NumLoops(%d): loops %d and %d are the same", n, i, j)
				}
			}
			return st(ls)
		}))
		chk("C27", err == nil && s != nil, "NumLoops(%d): %v", n, err)
		chk("C27", s.Options().NumLoops == n, "NumLoops(%d): %d loops reported", n, s.Options().NumLoops)
		if n <= 70 {
			vs.Go("Start", func() { s.Start() })
			vs.WaitQuiescent()
			c := vkern.Connect(":1388", "a")
			vs.WaitQuiescent()
			chk("C27", c != nil && seen == n, "NumLoops(%d): the strategy was given %d loops", n, seen)
			s.Stop()
			vs.WaitQuiescent()
		}
		vs.Outcome(fmt.Sprint(n))
	}})
	add(&Scen{Props: "C27", Name: "options-idle-times", Steps: 100000, Body: func() {
		vs.Serial(true)
		ds := []time.Duration{0, 1, time.Microsecond, time.Millisecond - 1, time.Millisecond, 10 * time.Millisecond, 999 * time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 1000 * time.Hour, 1<<63 - 1, -1, -time.Second}
		d := ds[vs.ChooseFree(len(ds), "idle")]
		vkern.Reset()
		s, err := gev.NewServer(&H{onMsg: reply}, gev.IdleTime(d))
		chk("C27", err == nil && s != nil && s.Options().IdleTime == d, "IdleTime(%v) is not reported as given", d)
		vs.Outcome(d.String())
	}})
	// addresses of every spelling are reported and listened on as given
	add(&Scen{Props: "C27", Name: "options-addresses", Steps: 100000, Body: func() {
		vs.Serial(true)
		as := []string{":", ":0", ":1", ":80", ":1387", ":1388", ":1389", ":13880", ":65535", ":http", "0.0.0.0:1388", "127.0.0.1:", "127.0.0.1:0", "127.0.0.1:1388",
			"localhost:1388", "localhost:0", "LOCALHOST:9", "[::]:1388", "[::1]:9", "[::1%lo]:9", "[fe80::1%eth0]:9", "*:9", " :9", ":9 ", "host.example:9"}
		nets := []string{"", "tcp", "tcp4", "tcp6"}
		a, n, ru := as[vs.ChooseFree(len(as), "address")], nets[vs.ChooseFree(len(nets), "network")], vs.ChooseFree(2, "reuse") == 1
		vkern.Reset()
		opts := []gev.Option{gev.Address(a), gev.ReusePort(ru), gev.NumLoops(1)}
		want := def
		want.Address, want.ReusePort, want.NumLoops = a, ru, 1
		ln := "tcp"
		if n != "" {
			opts = append(opts, gev.Network(n))
			want.Network, ln = n, n
		}
		what := fmt.Sprintf("Address(%q) Network(%q) ReusePort(%v)", a, n, ru)
		s, err := gev.NewServer(&H{onMsg: reply}, opts...)
		chk("C27", err == nil && s != nil, "%s: %v", what, err)
		report(s, want, what)
		if ru {
			ln += " reuse"
		}
		got := vkern.ListensAs(a)
		chk("C27", len(got) == 1 && got[0] == ln, "%s: listening as %q, expected %q", what, got, ln)
		vs.Outcome(what)
	}})
	// what the options do
	add(&Scen{Props: "C27", Name: "options-act", Steps: 200000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		loops := vs.ChooseFree(4, "loops")
		idle := []time.Duration{0, time.Second, 2 * time.Second}[vs.ChooseFree(3, "idle")]
		reuse := vs.ChooseFree(2, "reuse") == 1
		strat := vs.ChooseFree(3, "strategy")
		at := []string{"", ":1388", "127.0.0.1:99"}[vs.ChooseFree(3, "address")]
		h := &H{}
		marked := false
		h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
			if ctx == "marked" {
				marked = true
			}
			return append([]byte(nil), b...)
		}
		var opts []gev.Option
		if loops > 0 {
			opts = append(opts, gev.NumLoops(loops))
		} else {
			loops = ncpu
		}
		if idle > 0 {
			opts = append(opts, gev.IdleTime(idle))
		}
		if reuse {
			opts = append(opts, gev.ReusePort(true))
		}
		if at != "" {
			opts = append(opts, gev.Address(at))
		} else {
			at = ":1388"
		}
		switch strat {
		case 1:
			opts = append(opts, gev.LoadBalance(s2))
		case 2:
			opts = append(opts, gev.LoadBalance(gev.LeastConnection()))
		}
		mark := vs.ChooseFree(2, "protocol") == 1
		if mark {
			opts = append(opts, gev.CustomProtocol(markProto{}))
		}
		s, err := gev.NewServer(h, opts...)
		chk("C27", err == nil, "NewServer: %v", err)
		_, err = gev.NewServer(h, gev.Address(at), gev.ReusePort(true), gev.NumLoops(1))
		if reuse {
			chk("C27", err == nil, "with ReusePort a second server cannot listen: %v", err)
		} else {
			chk("C27", err != nil, "without ReusePort a second server can listen")
		}
		done := false
		vs.Go("Start", func() { s.Start(); done = true })
		quiesce()
		vs.AllowTime(5 * time.Second)
		t0 := vs.Elapsed()
		var cs []*vkern.Conn
		for i := 0; i < 2*loops && !reuse; i++ {
			c := vkern.Connect(at, fmt.Sprint("c", i))
			chk("C27", c != nil, "nothing listens on %s", at)
			cs = append(cs, c)
			c.Send([]byte("hi"))
			vs.Sleep(10 * time.Millisecond) // the idle time has not passed
		}
		if !reuse {
			tids := map[int]int{}
			for _, r := range h.recs {
				tids[r.tid]++
				chk("C27", r.closes == 0 && string(r.all) == "hi", "a connection was not served")
			}
			chk("C27", len(h.recs) == 2*loops, "%d connections announced", len(h.recs))
			chk("C27", marked == mark, "the protocol given is not the one used")
			if strat == 1 {
				chk("C27", len(tids) == 1, "the strategy given is not used")
			} else {
				chk("C27", len(tids) == loops, "connections are served by %d goroutines, %d loops asked for", len(tids), loops)
				for _, n := range tids {
					chk("C27", n == 2, "the connections are not spread evenly")
				}
			}
		}
		quiesce()
		for i, r := range h.recs {
			if idle == 0 {
				chk("C27", r.closes == 0, "a connection was closed for idleness without an idle time")
			} else {
				chk("C27", r.closes == 1, "connection %d was not closed for idleness after %v", i, vs.Elapsed()-t0)
			}
		}
		vs.Go("Stop", func() { s.Stop() })
		quiesce()
		chk("C27", done, "Start did not return")
	}})
}

type markProto struct{ gev.DefaultProtocol }

func (m markProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	_, d := (&m.DefaultProtocol).UnPacket(c, b)
	if len(d) == 0 {
		return nil, nil
	}
	return "marked", d
}

func (m markProto) Packet(c *gev.Connection, data interface{}) []byte {
	return (&m.DefaultProtocol).Packet(c, data)
}
