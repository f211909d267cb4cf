package main

import (
	"strings"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"

	"gevmc/vkern"
	"gevmc/vs"
)

const general = "C01 C03 C05 C06 C07 C08 C09 C15 C16 C32"

func sendN(r *CR, s string) error { return r.c.Send([]byte(s)) }

// script is an input stream cut into segments at chosen places.
func sendCut(c *vkern.Conn, s string, maxCuts int, places ...int) {
	last := 0
	for _, p := range places {
		if p > last && p < len(s) && maxCuts > 0 && vs.ChooseFree(2, "cut here") == 1 {
			c.Send([]byte(s[last:p]))
			last = p
			maxCuts--
		}
	}
	c.Send([]byte(s[last:]))
}

// pieces reports whether got is an interleaving of the sources' pieces, each
// whole, in order and at most once; if all, every one of them. A truncated last
// piece is allowed if not all.
func pieces(got string, all bool, srcs ...[]string) bool {
	idx := make([]int, len(srcs))
	for len(got) > 0 {
		hit := false
		for i, s := range srcs {
			if idx[i] < len(s) {
				p := s[idx[i]]
				if strings.HasPrefix(got, p) {
					got = got[len(p):]
					idx[i]++
					hit = true
					break
				}
				if !all && strings.HasPrefix(p, got) {
					return true
				}
			}
		}
		if !hit {
			return false
		}
	}
	if all {
		for i, s := range srcs {
			if idx[i] < len(s) {
				return false
			}
		}
	}
	return true
}

func init() {
	// the stream is cut at every combination of places, read while it arrives
	add(&Scen{Props: general, Name: "echo-cuts", Pre: 1, Body: func() {
		g := run(&H{onMsg: reply})
		c := vkern.Connect(addr, "a")
		vs.Go("cli", func() {
			sendCut(c, "abcdefghijklmnopqrstu", 2, 1, 7, 8, 9, 16)
			c.RecvN(21)
			c.CloseWrite()
			c.RecvAll()
		})
		quiesce()
		vs.Outcome(string(c.Got))
		g.finish()
	}})
	// request and reply in lock step, closed by the client
	add(&Scen{Props: general, Name: "echo-lockstep", Pre: 2, Body: func() {
		g := run(&H{onMsg: reply})
		c := vkern.Connect(addr, "a")
		vs.Go("cli", func() {
			c.Send([]byte("ab"))
			c.Send([]byte("cdefghijkl"))
			c.RecvN(12)
			c.Send([]byte("mn"))
			c.RecvN(14)
			c.Close()
		})
		quiesce()
		r := g.of(c)
		chk("C01", r != nil && string(r.all) == "abcdefghijklmn", "OnMessage got %q", r.all)
		chk("C03", string(c.Got) == "abcdefghijklmn", "the client got %q", c.Got)
		vs.Outcome(strings.Join(r.msgs, "|"))
		g.finish()
	}})
	// the socket takes little: output is buffered, the ring buffer wraps and grows
	for _, v := range []struct {
		name string
		cap  int
		read int
		dev  int
	}{{"a", 4, 3, 0}, {"b", 3, 1, 0}, {"c", 7, 4, 1}, {"d", 9, 9, 2}} {
		v := v
		add(&Scen{Props: general, Name: "backpressure-" + v.name, Pre: 1, Dev: v.dev, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = v.cap
			if v.dev > 0 {
				vkern.K.F.WriteShort, vkern.K.F.WriteEAGAIN = true, true
			}
			g := newRig(&H{onMsg: reply})
			g.start()
			c := vkern.Connect(addr, "a")
			want := "abcdefghij0123456"[:17]
			if v.dev > 0 {
				want = want[:14]
			}
			vs.Go("cli", func() {
				c.Send([]byte(want[:10]))
				c.Recv(v.read)
				c.Send([]byte(want[10:]))
				for len(c.Got) < len(want) && c.Recv(v.read) != nil {
				}
			})
			quiesce()
			chk("C03", string(c.Got) == want, "the client read until %q, expected %q", c.Got, want)
			vs.Outcome(string(c.Got))
			c.CloseWrite()
			quiesce()
			g.finish()
		}})
	}
	// one connection's output is blocked for good, the other is served; then Close
	add(&Scen{Props: general, Name: "blocked-and-free", Pre: 1, Body: func() {
		vkern.Reset()
		g := newRig(&H{onMsg: reply})
		g.start()
		a := g.connect("a")
		a.SetTxCap(3)
		b := vkern.Connect(addr, "b")
		vs.Go("A", func() {
			a.Send([]byte("0123456789"))
			a.Send([]byte("more"))
		})
		vs.Go("B", func() {
			b.Send([]byte("xyz"))
			b.RecvN(3)
			b.Send([]byte("uvw"))
			b.RecvN(6)
			b.CloseWrite()
			b.RecvAll()
		})
		quiesce()
		chk("C03", string(b.Got) == "xyzuvw", "b got %q", b.Got)
		ra := g.of(a)
		ra.ourClose = true
		_ = ra.c.Close()
		quiesce()
		chk("C07", a.Gone() && ra.closes == 1, "Close did not close the connection with pending output")
		a.Drain()
		vs.Outcome(string(a.Got))
		g.finish()
	}})
	// two connections on one loop and on two loops, interleaved
	for _, n := range []int{1, 2} {
		n := n
		add(&Scen{Props: general + " C18 C14", Name: "two-conns-" + string(rune('0'+n)), Pre: 1, Body: func() {
			g := run(&H{onMsg: reply}, gev.NumLoops(n))
			var cs [2]*vkern.Conn
			for i, s := range []string{"abcdefghijkl", "0123456789"} {
				i, s := i, s
				vs.Go("cli"+s[:1], func() {
					c := vkern.Connect(addr, s[:1])
					cs[i] = c
					c.Send([]byte(s))
					c.RecvN(len(s))
					if i == 0 {
						c.Close()
					}
				})
			}
			quiesce()
			for _, c := range cs {
				r := g.of(c)
				chk("C01 C18", r != nil && string(r.all) == string(c.Sent), "connection %s: OnMessage got wrong data", c.Name)
				chk("C03", string(c.Got) == string(c.Sent), "connection %s got %q", c.Name, c.Got)
				chk("C14", r.tid == g.recs[0].tid == (n == 1 || g.recs[0] == r), "connections share or spread over loops wrongly")
				vs.Outcome(strings.Join(r.msgs, "|"))
			}
			g.finish()
		}})
	}
	// peer half-closes with data still to come and output pending
	add(&Scen{Props: general, Name: "half-close-pending", Pre: 2, Body: func() {
		vkern.Reset()
		vkern.K.TxCap = 5
		g := newRig(&H{onMsg: reply})
		g.start()
		c := vkern.Connect(addr, "a")
		vs.Go("cli", func() {
			c.Send([]byte("abcdefghij"))
			c.Send([]byte("klm"))
			c.CloseWrite()
			c.RecvAll()
		})
		quiesce()
		r := g.of(c)
		chk("C32 C01", string(r.all) == "abcdefghijklm", "the data before the half-close: OnMessage got %q", r.all)
		chk("C32", string(c.Got) == "abcdefghijklm" && c.GotEOF, "the client got %q eof=%v", c.Got, c.GotEOF)
		vs.Outcome(strings.Join(r.msgs, "|"))
		g.finish()
	}})
	// the client disappears: reset or close at any moment
	for i, how := range []string{"reset", "close", "close-unread"} {
		i, how := i, how
		add(&Scen{Props: general, Name: "client-" + how, Pre: 2, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = 6
			g := newRig(&H{onMsg: reply})
			g.start()
			c := vkern.Connect(addr, "a")
			vs.Go("cli", func() {
				c.Send([]byte("abcdefghij"))
				switch i {
				case 0:
					c.Reset()
				case 1:
					c.RecvN(4)
					c.Close()
				default:
					c.Send([]byte("k"))
					c.Close()
				}
			})
			quiesce()
			r := g.of(c)
			chk("C05", r.closes == 1 && c.Gone(), "the client is gone (%s) but OnClose did not run", how)
			vs.Outcome(strings.Join(r.msgs, "|"))
			g.finish()
		}})
	}
	// the handler replies with its own input slice and keeps nothing: buffers must
	// not be shared between connections
	add(&Scen{Props: "C01 C03 C09", Name: "echo-alias", Pre: 0, Body: func() {
		vkern.Reset()
		vkern.K.TxCap = 4
		g := newRig(&H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} { return b }}, gev.NumLoops(1))
		g.start()
		a, b := g.connect("a"), g.connect("b")
		vs.Go("A", func() {
			a.Send([]byte("abcdefg"))
			a.RecvN(7)
			a.Close()
		})
		vs.Go("B", func() {
			b.Send([]byte("0123456789"))
			b.RecvN(10)
		})
		quiesce()
		chk("C01 C03", string(a.Got) == "abcdefg" && string(b.Got) == "0123456789", "clients got %q and %q", a.Got, b.Got)
		vs.Outcome(string(a.Got) + string(b.Got))
		g.finish()
	}})
	// connections one after another reuse descriptors and pooled buffers
	add(&Scen{Props: general, Name: "reuse", Pre: 1, Body: func() {
		vkern.Reset()
		vkern.K.TxCap = 3
		g := newRig(&H{onMsg: reply})
		g.start()
		a := g.connect("a")
		var b *vkern.Conn
		vs.Go("cli", func() {
			a.Send([]byte("secret!"))
			a.Recv(2)
			a.Reset()
			b = vkern.Connect(addr, "b")
			b.Send([]byte("hithere"))
			b.RecvN(7)
			b.CloseWrite()
			b.RecvAll()
		})
		quiesce()
		chk("C03 C09", string(b.Got) == "hithere", "the second client got %q", b.Got)
		chk("C01 C09", string(g.of(b).all) == "hithere", "of the second client OnMessage got %q", g.of(b).all)
		vs.Outcome(strings.Join(g.of(b).msgs, "|"))
		g.finish()
	}})
	_ = eventloop.DefaultBufferSize
}
