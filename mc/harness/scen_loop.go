package main

import (
	"fmt"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/gev/poller"

	"gevmc/vkern"
	"gevmc/vs"
)

// loopRig is one event loop without a server.
type loopRig struct {
	l    *eventloop.EventLoop
	tid  int
	ran  []string
	n    map[string]int
	exit bool
}

func newLoop() *loopRig {
	vkern.Reset()
	l, err := eventloop.New()
	if err != nil {
		vs.Fail("eventloop.New: %v", err)
	}
	return &loopRig{l: l, tid: -1, n: map[string]int{}}
}

func (r *loopRig) run() {
	vs.Go("loop", func() {
		r.tid = vs.TID()
		r.l.Run()
		r.exit = true
	})
}

func (r *loopRig) task(name string) func() {
	return func() {
		if vs.Killing() {
			return
		}
		chk("C10", r.tid == vs.TID(), "task %s ran on goroutine %d, the loop's is %d", name, vs.TID(), r.tid)
		r.n[name]++
		chk("C10", r.n[name] == 1, "task %s ran %d times", name, r.n[name])
		r.ran = append(r.ran, name)
	}
}

// all checks that each task ran once and each source's tasks in order.
func (r *loopRig) all(srcs ...[]string) {
	for _, s := range srcs {
		last := -1
		for _, name := range s {
			chk("C10", r.n[name] == 1, "task %s ran %d times although the loop is idle", name, r.n[name])
			for i, x := range r.ran {
				if x == name {
					chk("C10", i > last, "tasks of one goroutine ran out of order: %v", r.ran)
					last = i
				}
			}
		}
	}
	o := ""
	for _, x := range r.ran {
		o += x + " "
	}
	vs.Outcome(o)
}

func (r *loopRig) stop() {
	vs.Serial(true)
	vs.Go("stop", func() { _ = r.l.Stop() })
	quiesce()
	chk("C10 C11 C12", r.exit, "Run did not return after Stop")
	fds := vkern.OpenFDs()
	chk("C09 C11", len(fds) == 0, "after Stop descriptors are open: %v", fds)
	for _, a := range vkern.Anomalies() {
		chk("C08 C11", false, "%s", a)
	}
}

func names(t, n int) []string {
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, fmt.Sprintf("%c%d", 'A'+t, i))
	}
	return s
}

func init() {
	for _, v := range []struct {
		threads, n, pre int
		late            bool // the loop starts concurrently
		thorough        bool
	}{{1, 1, 9, true, false}, {1, 2, 6, false, false}, {2, 1, 4, false, false}, {2, 2, 2, false, false}, {2, 2, 1, true, false}, {3, 1, 2, false, false}, {3, 2, 1, false, true}} {
		v := v
		name := fmt.Sprintf("queue-%dx%d", v.threads, v.n)
		if v.late {
			name += "-start"
		}
		add(&Scen{Props: "C10", Name: name, Pre: v.pre, Thorough: v.thorough, Body: func() {
			r := newLoop()
			r.run()
			if !v.late {
				vs.Serial(true)
				quiesce()
				vs.Serial(false)
			}
			var srcs [][]string
			for t := 0; t < v.threads; t++ {
				src := names(t, v.n)
				srcs = append(srcs, src)
				vs.Go("queuer", func() {
					for _, s := range src {
						r.l.QueueInLoop(r.task(s))
					}
				})
			}
			quiesce()
			r.all(srcs...)
			// and once more from rest
			r.l.QueueInLoop(r.task("last"))
			quiesce()
			r.all([]string{"last"})
			r.stop()
		}})
	}
	// tasks that queue tasks, next to a foreign queuer
	for _, depth := range []int{1, 3} {
		depth := depth
		add(&Scen{Props: "C10", Name: fmt.Sprintf("queue-nested-%d", depth), Pre: 3 - depth/2, Body: func() {
			r := newLoop()
			r.run()
			vs.Serial(true)
			quiesce()
			vs.Serial(false)
			var nest func(p string, d int) func()
			var inner []string
			nest = func(p string, d int) func() {
				f := r.task(p)
				return func() {
					f()
					if d > 0 && !vs.Killing() {
						inner = append(inner, p+"x")
						r.l.QueueInLoop(nest(p+"x", d-1))
						inner = append(inner, p+"y")
						r.l.QueueInLoop(r.task(p + "y"))
					}
				}
			}
			vs.Go("A", func() {
				r.l.QueueInLoop(nest("a", depth))
				r.l.QueueInLoop(r.task("b"))
			})
			vs.Go("B", func() { r.l.QueueInLoop(nest("c", 1)) })
			quiesce()
			r.all([]string{"a", "b"}, []string{"c", "cx", "cy"})
			for _, s := range inner {
				r.all([]string{s})
			}
			chk("C10", len(r.ran) == 3+len(inner), "%d tasks ran: %v", len(r.ran), r.ran)
			r.stop()
		}})
	}
	// many tasks at once: the queue grows; a long task does not hold up the queuer
	add(&Scen{Props: "C10", Name: "queue-many", Pre: 2, Body: func() {
		r := newLoop()
		r.run()
		vs.Serial(true)
		quiesce()
		vs.Serial(false)
		src := names(0, 9)
		done := false
		vs.Go("A", func() {
			for _, s := range src[:2] {
				r.l.QueueInLoop(r.task(s))
			}
			vs.Serial(true)
			for _, s := range src[2:] {
				r.l.QueueInLoop(r.task(s))
			}
			vs.Serial(false)
			done = true
		})
		quiesce()
		chk("C10", done, "QueueInLoop blocked")
		r.all(src)
		r.stop()
	}})
	// the queuer does not wait for a task that runs
	add(&Scen{Props: "C10", Name: "queue-nonblocking", Pre: 2, Body: func() {
		r := newLoop()
		r.run()
		vs.Serial(true)
		quiesce()
		vs.Serial(false)
		gate, queued := false, false
		r.l.QueueInLoop(func() {
			if vs.Killing() {
				return
			}
			vs.Block("long task", func() bool { return gate })
			r.task("long")()
		})
		vs.Go("A", func() {
			r.l.QueueInLoop(r.task("a"))
			r.l.QueueInLoop(r.task("b"))
			queued = true
		})
		quiesce()
		chk("C10", queued, "QueueInLoop blocked while a task was running")
		gate = true
		vs.Bump()
		quiesce()
		r.all([]string{"long"}, []string{"a", "b"})
		r.stop()
	}})
	// tasks queued on a loop that serves traffic, from callbacks and from outside
	add(&Scen{Props: "C10 C06", Name: "queue-busy-loop", Pre: 1, Body: func() {
		vkern.Reset()
		r := &loopRig{tid: -1, n: map[string]int{}}
		h := &H{onMsg: reply}
		var g *Rig
		h.onMsg = func(c *CR, ctx interface{}, b []byte) interface{} {
			r.tid = vs.TID()
			for i := range b {
				g.loops[0].QueueInLoop(r.task("m" + string(b[i:i+1])))
			}
			return b
		}
		g = newRig(h)
		g.start()
		c := g.connect("a")
		vs.Go("probe", func() {
			g.loops[0].QueueInLoop(func() {
				if !vs.Killing() {
					r.tid = vs.TID()
					r.ran = append(r.ran, "probe")
					r.n["probe"]++
				}
			})
		})
		vs.Go("cli", func() {
			c.Send([]byte("12"))
			c.Send([]byte("34"))
			c.RecvN(4)
		})
		quiesce()
		r.all([]string{"m1", "m2", "m3", "m4"}, []string{"probe"})
		g.finish()
	}})
	// a socket whose Close queues a task during Stop (as connections do), and tasks
	// queued before Stop
	add(&Scen{Props: "C10 C12", Name: "queue-stop", Pre: 3, Body: func() {
		r := newLoop()
		r.run()
		vs.Serial(true)
		quiesce()
		vs.Serial(false)
		vs.Go("A", func() {
			r.l.QueueInLoop(r.task("a"))
			r.l.QueueInLoop(r.task("b"))
			_ = r.l.Stop()
		})
		vs.Go("B", func() { r.l.QueueInLoop(func() {}) })
		quiesce()
		r.all([]string{"a", "b"})
		chk("C12 C10", r.exit, "Run did not return after Stop")
		for _, a := range vkern.Anomalies() {
			chk("C08 C12", false, "%s", a)
		}
	}})

	// ---------- the poller by itself ----------

	type pr struct {
		p      *poller.Poller
		exit   bool
		wakes  int
		seen   int
		wakeCB int
	}
	mk := func() *pr {
		vkern.Reset()
		p, err := poller.Create()
		if err != nil {
			vs.Fail("poller.Create: %v", err)
		}
		return &pr{p: p}
	}
	poll := func(r *pr) {
		vs.Go("poll", func() {
			r.p.Poll(func(fd int, ev poller.Event) {
				if vs.Killing() {
					return
				}
				chk("C11", !r.exit, "the handler was called after Poll returned")
				chk("C11", fd == -1, "the handler was called for fd %d, nothing is registered", fd)
				r.wakeCB++
				r.seen = r.wakes
			})
			r.exit = true
		})
	}
	after := func(r *pr) {
		chk("C11", r.exit, "Poll did not return after Close")
		fds := vkern.OpenFDs()
		chk("C11 C09", len(fds) == 0, "after Close descriptors are open: %v", fds)
		for _, a := range vkern.Anomalies() {
			chk("C11 C08", false, "%s", a)
		}
	}
	for n := 1; n <= 3; n++ {
		n := n
		add(&Scen{Props: "C11", Name: fmt.Sprintf("poller-wake-%d", n), Pre: 5 - n, Body: func() {
			r := mk()
			poll(r)
			for i := 0; i < n; i++ {
				vs.Go("waker", func() {
					r.wakes++
					chk("C11", r.p.Wake() == nil, "Wake failed")
				})
			}
			quiesce()
			chk("C11", r.seen == r.wakes, "of %d Wakes only %d were followed by a call of the wake handler", r.wakes, r.seen)
			vs.Outcome(fmt.Sprint(r.wakeCB))
			vs.Serial(true)
			var e error
			vs.Go("closer", func() { e = r.p.Close() })
			quiesce()
			chk("C11", e == nil, "Close returned %v", e)
			after(r)
		}})
	}
	for _, v := range []struct {
		name    string
		closers int
		wakers  int
		pre     int
		quiet   bool // Poll is running already
	}{{"close", 1, 1, 4, true}, {"close-start", 1, 1, 4, false}, {"close-2", 2, 0, 4, true}, {"close-2-wake", 2, 1, 2, true}, {"close-2-start", 2, 0, 3, false}} {
		v := v
		add(&Scen{Props: "C11 C08", Name: "poller-" + v.name, Pre: v.pre, Body: func() {
			r := mk()
			poll(r)
			if v.quiet {
				vs.Serial(true)
				quiesce()
				vs.Serial(false)
			}
			var errs []error
			f := -1
			for i := 0; i < v.wakers; i++ {
				vs.Go("waker", func() {
					_ = r.p.Wake()
					_ = r.p.Wake()
				})
			}
			for i := 0; i < v.closers; i++ {
				vs.Go("closer", func() {
					e := r.p.Close()
					errs = append(errs, e)
					if e == nil && f < 0 {
						f = vkern.ForeignOpen("opened after Close")
					}
				})
			}
			quiesce()
			nils := 0
			for _, e := range errs {
				if e == nil {
					nils++
				} else {
					chk("C11", e == poller.ErrClosed, "Close returned %v", e)
				}
			}
			chk("C11", len(errs) == v.closers, "a Close did not return")
			if v.quiet {
				chk("C11", nils == 1, "%d of %d Close calls on a running poller succeeded", nils, v.closers)
			} else {
				chk("C11", nils <= 1, "%d Close calls succeeded", nils)
			}
			chk("C11", r.p.Close() == poller.ErrClosed, "Close of a closed poller does not report it")
			vs.Outcome(fmt.Sprint(nils))
			if f >= 0 {
				vkern.ForeignClose(f)
			}
			after(r)
		}})
	}
	// readiness: every sequence of registrations and socket events
	add(&Scen{Props: "C11", Name: "poller-readiness-1", Steps: 20000, Body: func() { readiness(1, 5) }})
	add(&Scen{Props: "C11", Name: "poller-readiness-2", Steps: 20000, Body: func() { readiness(2, 4) }})
	add(&Scen{Props: "C11", Name: "poller-readiness-1-deep", Steps: 20000, Thorough: true, Body: func() { readiness(1, 6) }})
	add(&Scen{Props: "C11", Name: "poller-readiness-2-deep", Steps: 20000, Thorough: true, Body: func() { readiness(2, 5) }})
	// more ready descriptors than the event batch holds
	for _, n := range []int{2, 3, 5, 9} {
		n := n
		add(&Scen{Props: "C11", Name: fmt.Sprintf("poller-batch-%d", n), Steps: 200000, Body: func() { batch(n) }})
	}
	add(&Scen{Props: "C11", Name: "poller-batch-2100", Steps: 200000, Body: func() { batch(2100) }})
	_ = gev.ErrConnectionClosed
}

// pair makes a connected socket: its server side descriptor and client side.
func pair(lfd int, i int) (int, *vkern.Conn) {
	c := vkern.Connect("p", fmt.Sprintf("s%d", i))
	fd, _, e := vkern.Accept(lfd, true)
	if e != 0 {
		vs.Fail("accept: %v", e)
	}
	return fd, c
}

const (
	mRead  = vkern.EPOLLIN | vkern.EPOLLPRI
	mWrite = vkern.EPOLLOUT
)

// readiness explores every sequence of depth operations over n sockets; after
// each, the handler must have been told exactly what the sockets are ready for.
func readiness(n, depth int) {
	vkern.Reset()
	vkern.K.TxCap = 2
	vs.Serial(true)
	p, err := poller.Create()
	if err != nil {
		vs.Fail("poller.Create: %v", err)
	}
	lfd, _ := vkern.Listen("tcp", "p", false)
	fds := make([]int, n)
	cs := make([]*vkern.Conn, n)
	reg := make([]uint32, n) // registered mask
	on := make([]bool, n)
	for i := range fds {
		fds[i], cs[i] = pair(lfd, i)
	}
	got := map[int]poller.Event{}
	calls := map[int]int{}
	exact := true
	vs.Go("poll", func() {
		p.Poll(func(fd int, ev poller.Event) {
			if vs.Killing() || fd == -1 {
				return
			}
			if calls[fd] > 0 && got[fd] != ev {
				exact = false
			}
			got[fd] = ev
			calls[fd]++
		})
	})
	quiesce()
	type op struct {
		name string
		do   func(i int)
		ok   func(i int) bool
	}
	regop := func(name string, f func(int) error, mask uint32, isAdd bool) op {
		return op{name, func(i int) {
			chk("C11", f(fds[i]) == nil, "%s failed", name)
			reg[i], on[i] = mask, true
		}, func(i int) bool { return on[i] != isAdd }}
	}
	alive := func(i int) bool { return cs[i].Alive() }
	ops := []op{
		regop("AddRead", p.AddRead, mRead, true),
		regop("AddWrite", p.AddWrite, mWrite, true),
		regop("EnableRead", p.EnableRead, mRead, false),
		regop("EnableWrite", p.EnableWrite, mWrite, false),
		regop("EnableReadWrite", p.EnableReadWrite, mRead|mWrite, false),
		{"Del", func(i int) {
			chk("C11", p.Del(fds[i]) == nil, "Del failed")
			on[i] = false
		}, func(i int) bool { return on[i] }},
		{"send", func(i int) { cs[i].Send([]byte("x")) }, alive},
		{"closewrite", func(i int) { cs[i].CloseWrite() }, alive},
		{"reset", func(i int) { cs[i].Reset() }, alive},
		{"fill", func(i int) { _, _ = vkern.Write(fds[i], []byte("abcd")) }, alive},
		{"drain", func(i int) { cs[i].TryRecv(0) }, func(i int) bool { return cs[i].TxPending() > 0 }},
		{"read", func(i int) { _, _ = vkern.Read(fds[i], 8) }, func(i int) bool { return true }},
		{"shutdown", func(i int) { vkern.Shutdown(fds[i], 1) }, func(i int) bool { return cs[i].Alive() && !cs[i].Aborted() }},
	}
	for k := 0; k < depth; k++ {
		type act struct{ o, i int }
		var acts []act
		for i := range fds {
			for o := range ops {
				if ops[o].ok(i) {
					acts = append(acts, act{o, i})
				}
			}
		}
		a := acts[vs.ChooseFree(len(acts), "operation")]
		vs.Tracef("== %s on socket %d", ops[a.o].name, a.i)
		for i := range got {
			delete(got, i)
		}
		for i := range calls {
			delete(calls, i)
		}
		exact = true
		ops[a.o].do(a.i)
		quiesce()
		for i := range fds {
			m := cs[i].Ready()
			var want poller.Event
			e := m & (reg[i] | vkern.EPOLLERR | vkern.EPOLLHUP)
			if !on[i] {
				e = 0
			}
			if e&vkern.EPOLLHUP != 0 && e&vkern.EPOLLIN == 0 {
				want |= poller.EventErr
			}
			if e&(vkern.EPOLLERR|vkern.EPOLLOUT) != 0 {
				want |= poller.EventWrite
			}
			if e&(vkern.EPOLLIN|vkern.EPOLLPRI) != 0 {
				want |= poller.EventRead
			}
			if !on[i] {
				chk("C11", calls[fds[i]] == 0, "socket %d is not registered but the handler was called for it", i)
				continue
			}
			// what was ready already may be told again only if anything changed
			if calls[fds[i]] > 0 {
				chk("C11", e != 0, "socket %d is not ready but the handler was called with %#x", i, got[fds[i]])
				chk("C11", exact && got[fds[i]] == want, "socket %d is ready for %s, registered for %s: the handler was called with %#x, not %#x", i, vkern.MaskString(m), vkern.MaskString(reg[i]), got[fds[i]], want)
			} else {
				chk("C11", e == 0, "socket %d is ready for %s, registered for %s, but the handler was not called", i, vkern.MaskString(m), vkern.MaskString(reg[i]))
			}
			vs.Outcome(vkern.MaskString(e))
		}
	}
	for _, a := range vkern.Anomalies() {
		chk("C11", false, "%s", a)
	}
}

// batch makes n sockets ready at once.
func batch(n int) {
	vkern.Reset()
	vs.Serial(true)
	p, err := poller.Create()
	if err != nil {
		vs.Fail("poller.Create: %v", err)
	}
	lfd, _ := vkern.Listen("tcp", "p", false)
	vkern.BigBacklog(lfd)
	total := map[int]int{}
	wake := 0
	fds := map[int]*vkern.Conn{}
	exit := false
	for i := 0; i < n; i++ {
		fd, c := pair(lfd, i)
		fds[fd] = c
		chk("C11", p.AddRead(fd) == nil, "AddRead failed")
		c.Send([]byte("xy"))
	}
	bad := ""
	vs.Go("poll", func() {
		p.Poll(func(fd int, ev poller.Event) {
			if vs.Killing() {
				return
			}
			if fd == -1 {
				wake++
				return
			}
			if fds[fd] == nil || ev != poller.EventRead || len(fds[fd].Tx()) != 0 {
				bad = fmt.Sprintf("handler called for fd %d with %#x", fd, ev)
			}
			b, _ := vkern.Read(fd, 1)
			total[fd] += len(b)
		})
		exit = true
	})
	vs.Go("waker", func() { chk("C11", p.Wake() == nil, "Wake failed") })
	quiesce()
	chk("C11", bad == "", "%s", bad)
	for fd := range fds {
		chk("C11", total[fd] == 2, "of %d ready sockets one was told %d times of 2", n, total[fd])
	}
	chk("C11", wake >= 1, "Wake next to %d ready sockets was not handled", n)
	for _, c := range fds {
		c.Send([]byte("z"))
	}
	quiesce()
	for fd := range fds {
		chk("C11", total[fd] == 3, "of %d ready sockets one was told %d times of 3", n, total[fd])
	}
	vs.Go("closer", func() { _ = p.Close() })
	quiesce()
	chk("C11", exit, "Poll did not return")
	vs.Outcome(fmt.Sprint(wake))
}
