package main

import (
	"fmt"
	"strings"

	"github.com/Allenxuxu/gev"

	"gevmc/vkern"
	"gevmc/vs"
)

// fin records the completion callbacks of one Send.
type fin struct {
	data string
	err  error
	n    int
}

func (g *Rig) sendFin(r *CR, s string) *fin {
	f := &fin{data: s}
	f.err = r.c.Send([]byte(s), gev.SendInLoop(func(d interface{}) {
		if vs.Killing() {
			return
		}
		f.n++
		chk("C04", f.n == 1, "the completion callback of Send(%q) ran twice", s)
		b, ok := d.([]byte)
		chk("C04", ok && string(b) == s, "the completion callback of Send(%q) got %v", s, d)
		chk("C04 C06", r.tid == vs.TID(), "the completion callback ran on goroutine %d, callbacks of the connection on %d", vs.TID(), r.tid)
		if !g.noRec {
			chk("C05", r.closes == 0 || r.dead || r.peer == nil || r.peer.Aborted(), "the completion callback of Send(%q) ran after OnClose although the connection was not dead when it was written", s)
		}
		chk("C06", !r.busy, "the completion callback ran while a callback of the connection was running")
	}))
	return f
}

// checkFins judges the Sends of a connection that was never closed (open) or
// perhaps closed.
func checkFins(open bool, fs ...*fin) {
	for _, f := range fs {
		if f.err != nil {
			chk("C04 C07", f.err == gev.ErrConnectionClosed, "Send failed with %v", f.err)
			chk("C04", !open, "Send on an open connection failed: %v", f.err)
			chk("C04", f.n == 0, "the completion callback of a failed Send ran")
		} else if open {
			chk("C04", f.n == 1, "the completion callback of Send(%q) ran %d times", f.data, f.n)
		}
	}
}

const conc = "C03 C04 C05 C06 C07 C08 C09 C15 C16"

func init() {
	// Sends of nothing, or that the protocol makes nothing of, are Sends as well
	for _, depth := range []int{3, 5} {
		depth := depth
		add(&Scen{Props: "C03 C04 C16", Name: fmt.Sprintf("send-nothing-%d", depth), Thorough: depth > 3, Steps: 20000, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = []int{2, 64}[vs.ChooseFree(2, "socket buffer")]
			g := newRig(&H{})
			g.start()
			c := g.connect("a")
			vs.Serial(true)
			r := g.of(c)
			want := ""
			var fs []*fin
			for i := 0; i < depth; i++ {
				s := []string{"", "a", "bcdef"}[vs.ChooseFree(3, "data")]
				want += s
				fs = append(fs, g.sendFin(r, s))
				switch vs.ChooseFree(3, "then") {
				case 1:
					vs.WaitQuiescent()
				case 2:
					vs.WaitQuiescent()
					c.TryRecv(0)
					vs.WaitQuiescent()
				}
			}
			vs.WaitQuiescent()
			checkFins(true, fs...)
			drain(c)
			chk("C03 C04", string(c.Got) == want, "the client got %q, sent was %q", c.Got, want)
			g.finish()
		}})
	}
	// several goroutines send at once, with completion callbacks
	for _, v := range []struct {
		name        string
		threads, n  int
		cap         int
		pre, dev    int
		echo, extra bool
	}{
		{"send-2x2", 2, 2, 1 << 20, 1, 0, false, false},
		{"send-3x1", 3, 1, 1 << 20, 1, 0, false, false},
		{"send-2x2-blocked", 2, 2, 4, 0, 0, false, false},
		{"send-2x1-short", 2, 1, 5, 1, 2, false, false},
		{"send-echo", 1, 2, 6, 1, 0, true, false},
	} {
		v := v
		add(&Scen{Props: conc, Name: v.name, Pre: v.pre, Dev: v.dev, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = v.cap
			g := newRig(&H{onMsg: reply})
			g.start()
			c := g.connect("a")
			r := g.of(c)
			if v.dev > 0 {
				vkern.K.F.WriteShort, vkern.K.F.WriteEAGAIN = true, true
			}
			var srcs [][]string
			var fins []*fin
			total := 0
			for t := 0; t < v.threads; t++ {
				t := t
				var src []string
				for i := 0; i < v.n; i++ {
					s := fmt.Sprintf("<%c%d>", 'A'+t, i)
					src = append(src, s)
					total += len(s)
				}
				srcs = append(srcs, src)
				vs.Go("sender", func() {
					for _, s := range src {
						fins = append(fins, g.sendFin(r, s))
					}
				})
			}
			if v.echo {
				srcs = append(srcs, []string{"[e]"})
				total += 3
			}
			vs.Go("cli", func() {
				if v.echo {
					c.Send([]byte("[e]"))
				}
				c.RecvN(total)
			})
			quiesce()
			chk("C03 C04", pieces(string(c.Got), true, srcs...), "the client got %q from the pieces %v", c.Got, srcs)
			checkFins(true, fins...)
			vs.Outcome(string(c.Got))
			g.finish()
		}})
	}
	// Send from inside the callbacks and from a completion callback
	add(&Scen{Props: conc, Name: "send-in-callbacks", Pre: 1, Body: func() {
		var f1, f2, f3 *fin
		var g *Rig
		late := error(nil)
		h := &H{}
		h.onCon = func(r *CR) { f1 = g.sendFin(r, "<c>") }
		h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
			f2 = g.sendFin(r, "<s>")
			_ = r.c.Send([]byte("<f>"), gev.SendInLoop(func(interface{}) {
				f3 = g.sendFin(r, "<g>")
			}))
			return []byte("<m>")
		}
		h.onCls = func(r *CR) { late = sendN(r, "late") }
		vkern.Reset()
		g = newRig(h)
		g.start()
		c := vkern.Connect(addr, "a")
		vs.Go("cli", func() {
			c.Send([]byte("x"))
			c.RecvN(15)
			c.CloseWrite()
			c.RecvAll()
		})
		quiesce()
		chk("C03 C04", pieces(string(c.Got), true, []string{"<c>", "<s>", "<f>", "<g>"}, []string{"<m>"}), "the client got %q", c.Got)
		checkFins(true, f1, f2, f3)
		chk("C07 C04", late == gev.ErrConnectionClosed, "Send in OnClose returned %v", late)
		vs.Outcome(string(c.Got))
		g.finish()
	}})
	// Send against Close: what was queued before is written, afterwards the error
	add(&Scen{Props: conc, Name: "send-then-close", Pre: 2, Body: func() {
		g := run(&H{onMsg: reply})
		c := g.connect("a")
		r := g.of(c)
		r.ourClose = true
		var f1, f2, f3 *fin
		var e1, e2 error
		vs.Go("user", func() {
			f1 = g.sendFin(r, "<a>")
			f2 = g.sendFin(r, "<b>")
			e1 = r.c.Close()
			f3 = g.sendFin(r, "<late>")
			e2 = r.c.Close()
		})
		vs.Go("cli", func() {
			c.Send([]byte("e"))
			c.RecvAll()
		})
		quiesce()
		chk("C07", e1 == nil, "the first Close returned %v", e1)
		chk("C07", c.Gone() && r.closes == 1, "Close did not close the connection")
		chk("C07", c.GotEOF || c.GotRST, "the client does not see the end of the stream")
		chk("C07", e2 == nil || e2 == gev.ErrConnectionClosed, "Close returned %v", e2)
		if !c.GotRST { // unread input turns the close into a reset
			chk("C03 C04 C07", pieces(string(c.Got), true, []string{"<a>", "<b>"}) || pieces(string(c.Got), true, []string{"<a>", "<b>"}, []string{"e"}),
				"Sends queued before Close: the client got %q", c.Got)
			checkFins(true, f1, f2)
		}
		chk("C04", f3.err == nil || f3.err == gev.ErrConnectionClosed, "Send after Close returned %v", f3.err)
		chk("C07", sendN(r, "x") == gev.ErrConnectionClosed && r.c.Close() == gev.ErrConnectionClosed && r.c.ShutdownWrite() == gev.ErrConnectionClosed, "an operation on the closed connection does not report it")
		vs.Outcome(string(c.Got) + fmt.Sprint(c.GotRST, f3.err == nil, e2 == nil))
		g.finish()
	}})
	// concurrent Close from several goroutines, from callbacks, and by the peer
	for _, v := range []string{"2", "msg", "con", "peer", "fin"} {
		v := v
		add(&Scen{Props: conc + " C32", Name: "close-" + v, Pre: 2, Body: func() {
			var g *Rig
			errs := []error{}
			h := &H{onMsg: reply}
			cl := func(r *CR) error {
				r.ourClose = true
				e := r.c.Close()
				errs = append(errs, e)
				chk("C07", e == nil || e == gev.ErrConnectionClosed, "Close returned %v", e)
				return e
			}
			switch v {
			case "msg":
				h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} { cl(r); return []byte("bye") }
			case "con":
				h.onCon = func(r *CR) { cl(r) }
			}
			h.onCls = func(r *CR) {
				chk("C07", r.c.Close() == gev.ErrConnectionClosed, "Close in OnClose does not report the closed connection")
			}
			vkern.Reset()
			g = newRig(h)
			g.start()
			if v == "con" {
				c := vkern.Connect(addr, "a")
				vs.Go("cli", func() {
					c.Send([]byte("abc"))
					c.RecvAll()
				})
				quiesce()
				chk("C07", c.Gone() && (c.GotEOF || c.GotRST), "Close in OnConnect did not close the connection")
				vs.Outcome(fmt.Sprint(string(c.Got), c.GotRST))
				g.finish()
				return
			}
			c := g.connect("a")
			r := g.of(c)
			user := func() { cl(r) }
			switch v {
			case "2":
				vs.Go("user1", user)
				vs.Go("user2", func() { user(); user() })
			case "peer":
				vs.Go("user1", user)
			case "fin":
				vs.Go("user1", func() {
					_ = r.c.Send([]byte("<a>"), gev.SendInLoop(func(interface{}) { user() }))
				})
			}
			vs.Go("cli", func() {
				c.Send([]byte("abc"))
				if v == "peer" {
					c.Close()
					return
				}
				c.RecvAll()
			})
			quiesce()
			chk("C07 C05", r.closes == 1 && c.Gone(), "after Close, OnClose ran %d times", r.closes)
			chk("C07", !r.c.Connected(), "Connected() after Close")
			if v != "peer" {
				chk("C07", c.GotEOF || c.GotRST, "the client does not see the end of the stream")
				ok := false
				for _, e := range errs {
					ok = ok || e == nil
				}
				chk("C07", ok, "no Close succeeded: %v", errs)
			}
			if v == "msg" && !c.GotRST {
				chk("C07 C03", string(c.Got) == "bye", "the reply before the close: the client got %q", c.Got)
			}
			vs.Outcome(fmt.Sprint(string(c.Got), c.GotRST, errs))
			g.finish()
		}})
	}
	// operations on a connection whose descriptor number is reused at once
	for _, v := range []string{"newconn", "foreign"} {
		v := v
		add(&Scen{Props: "C03 C05 C07 C08 C09 C15 C32", Name: "late-ops-" + v, Pre: 1, Body: func() {
			g := run(&H{onMsg: reply}, gev.NumLoops(2))
			a := g.connect("a")
			r := g.of(a)
			r.ourClose = true
			var b *vkern.Conn
			f := -1
			vs.Go("user", func() {
				e1 := sendN(r, "<a>")
				e2 := r.c.ShutdownWrite()
				e3 := r.c.Close()
				for _, e := range []error{e1, e2, e3} {
					chk("C07 C32", e == nil || e == gev.ErrConnectionClosed, "operation on a closing connection returned %v", e)
				}
			})
			vs.Go("other", func() {
				a.Close()
				if v == "foreign" {
					f = vkern.ForeignOpen("a file of the application")
					return
				}
				b = vkern.Connect(addr, "b")
				b.Send([]byte("hello"))
				b.RecvN(5)
			})
			quiesce()
			if v == "foreign" {
				vkern.ForeignClose(f)
			} else {
				chk("C08 C03 C07", string(b.Got) == "hello" && !b.Gone() && !b.SrvFin(), "what was done to one connection hit another: it got %q, closed %v", b.Got, b.Gone())
			}
			chk("C05 C07", r.closes == 1, "OnClose ran %d times", r.closes)
			g.finish()
		}})
	}
	// ShutdownWrite against Send, with and without blocked output
	for _, cap := range []int{1 << 20, 4} {
		cap := cap
		name := "shutwrite"
		if cap == 4 {
			name = "shutwrite-blocked"
		}
		add(&Scen{Props: "C03 C04 C05 C06 C08 C09 C16 C32", Name: name, Pre: 1, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = cap
			h := &H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} { return nil }}
			g := newRig(h)
			g.start()
			c := g.connect("a")
			r := g.of(c)
			var e1, e2, e3 error
			vs.Go("user", func() {
				e1 = sendN(r, "<abc>")
				e2 = sendN(r, "<defgh>")
				e3 = r.c.ShutdownWrite()
			})
			vs.Go("cli", func() {
				c.Send([]byte("one"))
				c.RecvAll()
				c.Send([]byte("two, after the end of the server's stream"))
				c.CloseWrite()
			})
			quiesce()
			chk("C32", e1 == nil && e2 == nil && e3 == nil, "Send, Send, ShutdownWrite returned %v %v %v", e1, e2, e3)
			chk("C32 C03", string(c.Got) == "<abc><defgh>", "output before ShutdownWrite: the client got %q", c.Got)
			chk("C32", c.GotEOF && !c.GotRST, "the client does not see the end of the stream (eof %v, reset %v)", c.GotEOF, c.GotRST)
			chk("C32", string(r.all) == string(c.Sent), "after ShutdownWrite OnMessage got %q of %q", r.all, c.Sent)
			chk("C32 C05", r.closes == 1, "both directions have ended but OnClose ran %d times", r.closes)
			chk("C32", r.c.ShutdownWrite() == gev.ErrConnectionClosed, "ShutdownWrite on a closed connection does not report it")
			vs.Outcome(strings.Join(r.msgs, "|"))
			g.finish()
		}})
	}
	// ShutdownWrite from OnMessage together with a reply
	for _, cap := range []int{1 << 20, 3} {
		cap := cap
		name := "shutwrite-reply"
		if cap == 3 {
			name = "shutwrite-reply-blocked"
		}
		add(&Scen{Props: "C03 C05 C06 C08 C16 C32", Name: name, Pre: 2, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = cap
			h := &H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} {
				if r.nmsg == 1 {
					chk("C32", r.c.ShutdownWrite() == nil, "ShutdownWrite failed on an open connection")
					return []byte("last words")
				}
				return nil
			}}
			g := newRig(h)
			g.start()
			c := g.connect("a")
			r := g.of(c)
			vs.Go("cli", func() {
				c.Send([]byte("q"))
				c.RecvAll()
				c.Send([]byte("tail"))
				c.CloseWrite()
			})
			quiesce()
			chk("C32", string(c.Got) == "last words" && c.GotEOF, "the client got %q, eof %v", c.Got, c.GotEOF)
			chk("C32", string(r.all) == "qtail", "OnMessage got %q", r.all)
			chk("C32 C05", r.closes == 1, "OnClose ran %d times", r.closes)
			vs.Outcome(strings.Join(r.msgs, "|"))
			g.finish()
		}})
	}
	// ShutdownWrite racing with Close, peer close and Send
	add(&Scen{Props: "C05 C07 C08 C09 C32", Name: "shutwrite-close-race", Pre: 2, Body: func() {
		g := run(&H{onMsg: reply})
		c := g.connect("a")
		r := g.of(c)
		r.ourClose = true
		vs.Go("user1", func() {
			e := r.c.ShutdownWrite()
			chk("C32", e == nil || e == gev.ErrConnectionClosed, "ShutdownWrite returned %v", e)
		})
		vs.Go("user2", func() { _ = r.c.Close() })
		vs.Go("cli", func() { c.Close() })
		quiesce()
		chk("C05 C07", r.closes == 1 && c.Gone(), "OnClose ran %d times", r.closes)
		g.finish()
	}})
	// data of several frames in one read with a Close in between
	add(&Scen{Props: "C02 C05 C06 C07", Name: "close-mid-batch", Pre: 1, Body: func() {
		h := &H{}
		h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
			if string(b) == "q" {
				r.ourClose = true
				_ = r.c.Close()
			}
			return append([]byte("r"), b...)
		}
		vkern.Reset()
		g := newRig(h, withProto(&lineProto{}))
		g.start()
		c := g.connect("a")
		vs.Go("cli", func() {
			c.Send([]byte("a\nq\nz\n"))
			c.RecvAll()
		})
		quiesce()
		r := g.of(c)
		chk("C07 C05", r.closes == 1 && c.Gone(), "Close in OnMessage did not close the connection")
		vs.Outcome(strings.Join(r.msgs, "|") + string(c.Got))
		g.finish()
	}})
}
