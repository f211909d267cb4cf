package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/gev/plugins/protobuf"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"

	"gevmc/vkern"
	"gevmc/vs"
)

// Sizes and numbers beyond those of the interleaving scenarios: every listed
// size is run, in one schedule. What a server does with few must not change with
// many.

const (
	kb = 1 << 10
	mb = 1 << 20
)

// tier gives the quick tier fewer of the values.
func tier(quick, thorough []int) []int {
	if curTier == "thorough" {
		return thorough
	}
	return quick
}

// feed sends b in segments as the server takes them.
func feed(c *vkern.Conn, b []byte, seg int) {
	for len(b) > 0 {
		n := min0(seg, len(b))
		c.Send(b[:n])
		b = b[n:]
		vs.WaitQuiescent()
	}
}

// drain takes what the server sends until it is quiet.
func drain(c *vkern.Conn) {
	for n := 0; ; {
		vs.WaitQuiescent()
		for c.TryRecv(0) != nil {
		}
		if len(c.Got) == n {
			return
		}
		n = len(c.Got)
	}
}

func init() {
	huge := []int{mb - 1, mb, mb + 1, 5*mb + 3, 16 * mb, 17*mb + 1}

	// many tasks while the loop is busy
	add(&Scen{Props: "C10", Name: "scale-tasks", NoCache: true, Steps: 8000000, Body: func() {
		ns := []int{1000, 1023, 1024, 1025, 2049, 4096, 4097, 10000, 32768, 65535, 65536, 65537, 100000, 131073}
		n := ns[vs.ChooseFree(len(ns), "tasks")]
		two := vs.ChooseFree(2, "goroutines") == 1
		inside := vs.ChooseFree(2, "queued by a task of the loop") == 1
		more := vs.ChooseFree(4, "each queues another, or the later ones two, or one many")
		vkern.Reset()
		sizes(64)
		vs.Serial(true)
		r := newLoop()
		r.run()
		vs.WaitQuiescent()
		next, got, bad := 0, 0, ""
		var task func(i int) func()
		task = func(i int) func() {
			return func() {
				if vs.Killing() {
					return
				}
				got++
				if i >= 0 {
					if i != next && bad == "" {
						bad = fmt.Sprintf("task %d of %d ran when task %d was due", i, n, next)
					}
					next++
				}
				if more == 1 && i >= 0 && i < n {
					r.l.QueueInLoop(task(n + i))
				}
				if more == 2 && i >= n/2 && i < n {
					r.l.QueueInLoop(task(n + 2*(i-n/2)))
					r.l.QueueInLoop(task(n + 2*(i-n/2) + 1))
				}
				if more == 3 && i == n/2 {
					for k := 0; k < n; k++ {
						r.l.QueueInLoop(task(n + k))
					}
				}
			}
		}
		want := n
		switch more {
		case 1, 3:
			want += n
		case 2:
			want += 2 * (n - n/2)
		}
		fill := func() {
			for i := 0; i < n; i++ {
				r.l.QueueInLoop(task(i))
			}
		}
		if two {
			want += n
			vs.Go("second", func() {
				for i := 0; i < n; i++ {
					r.l.QueueInLoop(task(-1))
				}
			})
		}
		if inside {
			r.l.QueueInLoop(fill)
		} else {
			fill()
		}
		vs.WaitQuiescent()
		chk("C10", bad == "", "%s", bad)
		chk("C10", got == want, "%d tasks were queued, %d ran", want, got)
		vs.Outcome(fmt.Sprint(n, two, inside))
		r.stop()
	}})

	// as many tasks when the loop is stopped
	add(&Scen{Props: "C10 C12", Name: "scale-tasks-stop", NoCache: true, Steps: 8000000, Body: func() {
		ns := []int{100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 3073, 4096, 4097, 10000, 32769, 65537, 131073}
		n := ns[vs.ChooseFree(len(ns), "tasks")]
		inside := vs.ChooseFree(2, "queued by a task of the loop") == 1
		vkern.Reset()
		sizes(64)
		vs.Serial(true)
		r := newLoop()
		r.run()
		vs.WaitQuiescent()
		next, bad := 0, ""
		fill := func() {
			for i := 0; i < n; i++ {
				i := i
				r.l.QueueInLoop(func() {
					if i != next && bad == "" {
						bad = fmt.Sprintf("task %d of %d ran when task %d was due", i, n, next)
					}
					next++
				})
			}
		}
		if inside {
			r.l.QueueInLoop(fill)
		} else {
			fill()
		}
		_ = r.l.Stop() // at once, before the loop gets to them
		r.stop()
		chk("C10 C12", bad == "", "%s", bad)
		chk("C10 C12", next == n, "%d tasks were queued before Stop, %d ran", n, next)
		vs.Outcome(fmt.Sprint(n, inside))
	}})
	add(&Scen{Props: "C12 C05 C09", Name: "scale-stop", NoCache: true, Steps: 8000000, Body: func() {
		ns := []int{100, 129, 257, 1025, 3073, 4097, 10000, 32769}
		n := ns[vs.ChooseFree(len(ns), "Sends")]
		conns := []int{1, 3, 50}[vs.ChooseFree(3, "connections")]
		vkern.Reset()
		sizes(64)
		vkern.K.TxCap = []int{10, 1 << 20}[vs.ChooseFree(2, "socket buffer")]
		h := &H{}
		g := newRig(h, gev.NumLoops(2))
		g.start()
		vs.Serial(true)
		var cs []*vkern.Conn
		for i := 0; i < conns; i++ {
			cs = append(cs, g.connect(fmt.Sprint(i)))
			vs.Serial(true)
		}
		for i := 0; i < n; i++ {
			_ = g.of(cs[i%conns]).c.Send([]byte("0123456789"))
		}
		g.stopped = true
		g.s.Stop() // at once, before the loops get to them
		vs.WaitQuiescent()
		for _, c := range cs {
			chk("C12 C05 C09", g.of(c).closes == 1 && c.Gone(), "a connection has not ended after Stop with %d Sends queued", n)
		}
		vs.Outcome(fmt.Sprint(n, conns))
		g.finish()
	}})

	// many Sends before the loop gets to them
	add(&Scen{Props: "C04 C03 C16", Name: "scale-sends", NoCache: true, Steps: 8000000, Body: func() {
		ns := tier([]int{1025, 4097, 65537, 70001}, []int{1000, 1024, 1025, 4097, 20000, 65535, 65536, 65537, 80000, 131073, 300000})
		n := ns[vs.ChooseFree(len(ns), "sends")]
		small := vs.ChooseFree(2, "small socket buffer") == 1
		vkern.Reset()
		sizes(4096)
		vkern.K.TxCap = 1 << 30
		if small {
			vkern.K.TxCap = 3000
		}
		vs.Serial(true)
		g := newRig(&H{})
		g.start()
		vs.Serial(true)
		c := g.connect("a")
		vs.Serial(true)
		r := g.of(c)
		fin, bad := 0, ""
		var want []byte
		for i := 0; i < n; i++ {
			i := i
			p := []byte(fmt.Sprintf("%x.", i))
			want = append(want, p...)
			err := r.c.Send(p, gev.SendInLoop(func(interface{}) {
				if i != fin && bad == "" {
					bad = fmt.Sprintf("the completion callback of Send %d came when that of %d was due", i, fin)
				}
				fin++
			}))
			chk("C04", err == nil, "Send %d of %d: %v", i, n, err)
		}
		drain(c)
		chk("C04 C03", bytes.Equal(c.Got, want), "%d Sends were made, the peer got %d of %d bytes or others", n, len(c.Got), len(want))
		chk("C04", bad == "" && fin == n, "%d Sends were made, %d completion callbacks came; %s", n, fin, bad)
		chk("C16", r.c.WriteBufferLength() == 0, "%d bytes are reported as unsent", r.c.WriteBufferLength())
		vs.Outcome(fmt.Sprint(n, small))
		g.finish()
	}})

	// Sends of all sizes while earlier output is pending, and the socket has room
	add(&Scen{Props: "C03 C04 C16", Name: "scale-pending", NoCache: true, Dev: 1, Steps: 8000000, Body: func() {
		vkern.Reset()
		sizes(4096)
		vkern.K.TxCap = mb
		vs.Serial(true)
		h := &H{}
		g := newRig(h)
		g.start()
		vs.Serial(true)
		c := g.connect("a")
		vs.Serial(true)
		r := g.of(c)
		ns := tier([]int{1, 1025, 4097, 65536, 65537, 200 * kb}, []int{1, 3, 512, 1023, 1024, 1025, 4095, 4096, 4097, 16385, 32769, 65535, 65536, 65537, 131073, 200 * kb, 300 * kb})
		var want []byte
		at := 0
		some := func(n int) []byte {
			b := pattern(at+1, n)
			at += n
			want = append(want, b...)
			return b
		}
		ss := []int{ns[vs.ChooseFree(len(ns), "first")], ns[vs.ChooseFree(len(ns), "second")], 10}
		reply := vs.ChooseFree(2, "in a callback") == 1
		vkern.K.F.WriteShort, vkern.K.F.WriteEAGAIN = true, true
		fins := 0
		send := func() {
			for _, n := range ss {
				chk("C04", r.c.Send(some(n), gev.SendInLoop(func(interface{}) { fins++ })) == nil, "Send failed")
			}
		}
		if reply {
			h.onMsg = func(r *CR, ctx interface{}, _ []byte) interface{} {
				d := some(ss[0])
				send()
				return d
			}
			c.Send([]byte("go"))
		} else {
			send()
		}
		drain(c)
		chk("C03 C04", bytes.Equal(c.Got, want), "Sends of %v bytes, in a callback %v: the peer got %d of %d bytes, or others", ss, reply, len(c.Got), len(want))
		chk("C04", fins == len(ss), "%d of %d completion callbacks came", fins, len(ss))
		chk("C16", r.c.WriteBufferLength() == 0, "%d bytes are reported as unsent", r.c.WriteBufferLength())
		g.finish()
	}})

	// many connections, ready all at once
	add(&Scen{Props: "C01 C03 C05 C09 C11 C14 C15 C18 C31", Name: "scale-conns", NoCache: true, Steps: 8000000, Body: func() {
		ns := tier([]int{65, 257, 1025, 2050}, []int{33, 65, 129, 130, 257, 513, 600, 1023, 1024, 1025, 2047, 2048, 2049, 3100, 5000})
		n := ns[vs.ChooseFree(len(ns), "connections")]
		loops := 1 + vs.ChooseFree(3, "loops")
		least := vs.ChooseFree(2, "least connection") == 1
		vkern.Reset()
		sizes(64)
		vkern.K.TxCap = 1 << 20
		vs.Serial(true)
		opts := []gev.Option{gev.NumLoops(loops)}
		g := &Rig{H: &H{onMsg: reply}}
		if least {
			st := gev.LeastConnection()
			opts = append(opts, gev.LoadBalance(g.observe(func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
				l := st(ls)
				for _, o := range ls {
					chk("C15", l.ConnectionCount() <= o.ConnectionCount(), "a loop with %d connections was chosen, another has %d", l.ConnectionCount(), o.ConnectionCount())
				}
				return l
			})))
		}
		s, err := gev.NewServer(g.H, g.options(opts)...)
		if err != nil {
			vs.Fail("NewServer: %v", err)
		}
		g.s = s
		g.start()
		vs.Serial(true)
		var cs []*vkern.Conn
		for len(cs) < n {
			for i := 0; i < 100 && len(cs) < n; i++ {
				c := vkern.Connect(addr, fmt.Sprint("c", len(cs)))
				chk("C18", c != nil, "connection %d of %d was refused", len(cs), n)
				cs = append(cs, c)
			}
			vs.WaitQuiescent()
		}
		chk("C18 C05", len(g.recs) == n, "%d clients came, %d were announced", n, len(g.recs))
		for i, l := range g.assigned {
			if !least {
				chk("C14", l == i%loops, "connection %d of %d over %d loops is served by loop %d", i, n, loops, l)
			}
		}
		for i, l := range g.loops {
			k := 0
			for _, a := range g.assigned {
				if a == i {
					k++
				}
			}
			chk("C15", l.ConnectionCount() == int64(k), "loop %d of %d reports %d of %d connections", i, loops, l.ConnectionCount(), n)
		}
		for round := 0; round < 2; round++ {
			// all of them send before the loops look
			round := round
			g.loops[0].QueueInLoop(func() {
				for i, c := range cs {
					c.Send([]byte(fmt.Sprint(round, "m", i, ".")))
				}
			})
			vs.WaitQuiescent()
			for i, c := range cs {
				c.Drain()
				want := fmt.Sprint(0, "m", i, ".")
				if round == 1 {
					want += fmt.Sprint(1, "m", i, ".")
				}
				chk("C01 C03 C11 C18 C31", string(c.Got) == want, "of %d connections ready at once number %d got %q, expected %q", n, i, c.Got, want)
			}
		}
		// every second one leaves at once
		g.loops[0].QueueInLoop(func() {
			for i, c := range cs {
				if i&1 == 0 {
					c.Close()
				}
			}
		})
		vs.WaitQuiescent()
		gone := 0
		for i, c := range cs {
			if c.Gone() {
				gone++
			}
			chk("C05 C09 C11", c.Gone() == (i&1 == 0), "every second of %d connections ended at once, number %d is closed: %v", n, i, c.Gone())
		}
		vs.Outcome(fmt.Sprint(n, loops, least, gone))
		g.finish()
	}})

	// one connection after the other, for long
	add(&Scen{Props: "C05 C08 C09 C14 C15 C18", Name: "scale-history", NoCache: true, Steps: 8000000, Body: func() {
		loops := 1 + vs.ChooseFree(3, "loops")
		end := vs.ChooseFree(3, "end")
		vkern.Reset()
		sizes(64)
		vs.Serial(true)
		g := newRig(&H{onMsg: reply}, gev.NumLoops(loops))
		g.start()
		vs.Serial(true)
		keepOpen := g.connect("stays")
		vs.Serial(true)
		for i := 1; i < tier([]int{1100}, []int{6000})[0]; i++ {
			c := vkern.Connect(addr, fmt.Sprint("c", i))
			if i&1 == 0 {
				c.Send([]byte("hi"))
			}
			vs.WaitQuiescent()
			r := g.of(c)
			chk("C18 C05", r != nil && r.connects == 1, "connection %d was not announced", i)
			chk("C14", g.assigned[i] == i%loops, "connection %d over %d loops is served by loop %d", i, loops, g.assigned[i])
			switch end {
			case 0:
				c.Close()
			case 1:
				c.Reset()
			case 2:
				_ = r.c.Close()
			}
			vs.WaitQuiescent()
			chk("C05 C09", c.Gone() && r.closes == 1, "connection %d ended, closed: %v, close callbacks: %d", i, c.Gone(), r.closes)
			sum := int64(0)
			for _, l := range g.loops {
				sum += l.ConnectionCount()
			}
			chk("C15", sum == 1, "after connection %d the loops report %d connections, one is open", i, sum)
		}
		chk("C05 C08", !keepOpen.Gone(), "a connection that did not end was closed")
		g.finish()
	}})

	// much output for a client that takes none for a while
	add(&Scen{Props: "C03 C05 C16 C25", Name: "scale-out", NoCache: true, Steps: 8000000, Body: func() {
		ns := tier([]int{mb + 1, 5*mb + 3, 17*mb + 1}, huge)
		n := ns[vs.ChooseFree(len(ns), "bytes")]
		piece := []int{1 << 30, 65536, 4096}[vs.ChooseFree(3, "piece")]
		if piece == 4096 && n > 6*mb {
			piece = 8192
		}
		send := vs.ChooseFree(2, "by Send") == 1
		vkern.Reset()
		sizes(4096)
		vkern.K.TxCap = 200 * kb
		vs.Serial(true)
		want := pattern(n, n)
		h := &H{}
		g := newRig(h)
		g.start()
		vs.Serial(true)
		c, o := g.connect("a"), g.connect("other")
		vs.Serial(true)
		r := g.of(c)
		if send {
			for b := want; len(b) > 0; {
				k := min0(piece, len(b))
				chk("C03", r.c.Send(b[:k:k]) == nil, "Send failed")
				b = b[k:]
			}
		} else {
			b := want
			h.onMsg = func(r *CR, ctx interface{}, _ []byte) interface{} {
				if len(b) == 0 {
					return nil
				}
				k := min0(piece, len(b))
				d := b[:k:k]
				b = b[k:]
				for len(b) > 0 { // the first as a reply, the others by Send
					k := min0(piece, len(b))
					_ = r.c.Send(b[:k:k])
					b = b[k:]
				}
				return d
			}
			c.Send([]byte("go"))
		}
		vs.WaitQuiescent()
		chk("C05 C25", r.closes == 0 && !c.Gone(), "a client that took no output for a while was closed with %d bytes to be sent", n)
		chk("C16", r.c.WriteBufferLength() == int64(n-c.TxPending()), "%d of %d bytes are not taken, %d reported", n-c.TxPending(), n, r.c.WriteBufferLength())
		chk("C05", g.of(o).closes == 0, "another connection was closed")
		drain(c)
		chk("C03", bytes.Equal(c.Got, want), "%d bytes were to be sent, the peer got %d or others", n, len(c.Got))
		chk("C16", r.c.WriteBufferLength() == 0, "%d bytes are reported as unsent", r.c.WriteBufferLength())
		vs.Outcome(fmt.Sprint(n, piece, send))
		g.finish()
	}})

	// much raw input
	add(&Scen{Props: "C01 C16 C32", Name: "scale-raw", NoCache: true, Steps: 8000000, Body: func() {
		ns := tier([]int{mb + 1, 17*mb + 1}, huge)
		n := ns[vs.ChooseFree(len(ns), "bytes")]
		seg := []int{65536, 100 * kb, mb}[vs.ChooseFree(3, "segment")]
		take := vs.ChooseFree(3, "client takes the echo")
		vkern.Reset()
		sizes(65536)
		vkern.K.TxCap = 200 * kb
		vs.Serial(true)
		g := newRig(&H{onMsg: reply})
		g.start()
		vs.Serial(true)
		c := g.connect("a")
		vs.Serial(true)
		r := g.of(c)
		want := pattern(n, n)
		for b := want; len(b) > 0; {
			k := min0(seg, len(b))
			c.Send(b[:k])
			b = b[k:]
			vs.WaitQuiescent()
			if take == 0 || take == 1 && n-len(b) < 3*mb {
				c.Drain()
			}
		}
		chk("C32", r.closes == 0, "the connection was closed")
		drain(c) // (input is not read while output is pending)
		chk("C01", bytes.Equal(r.all, want), "%d bytes were sent, OnMessage got %d or others", n, len(r.all))
		chk("C01 C32", bytes.Equal(c.Got, want), "%d bytes were sent, the echo has %d or others", n, len(c.Got))
		chk("C16", r.c.WriteBufferLength() == 0 && r.c.ReadBufferLength() == 0, "%d bytes are reported as unsent, %d as unread", r.c.WriteBufferLength(), r.c.ReadBufferLength())
		vs.Outcome(fmt.Sprint(n, seg, take))
		g.finish()
	}})

	// one frame larger than all buffers, then a small one
	add(&Scen{Props: "C02 C05 C16 C25", Name: "scale-in", NoCache: true, Steps: 8000000, Body: func() {
		n := huge[vs.ChooseFree(len(huge), "bytes")]
		seg := []int{65536, 50000}[vs.ChooseFree(2, "segment")]
		vkern.Reset()
		sizes(65536)
		vs.Serial(true)
		var got [][]byte
		h := &H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} {
			got = append(got, append([]byte(nil), b...))
			return nil
		}}
		p := &bigProto{}
		g := newRig(h, withProto(p))
		g.start()
		vs.Serial(true)
		c := g.connect("a")
		vs.Serial(true)
		r := g.of(c)
		want := pattern(n, n)
		b := append(p.Packet(nil, want), p.Packet(nil, []byte("end"))...)
		k := n / 2
		feed(c, b[:k], seg)
		chk("C16", r.c.ReadBufferLength() == int64(k), "%d bytes of a frame have come, %d reported", k, r.c.ReadBufferLength())
		feed(c, b[k:], seg)
		chk("C05 C25", r.closes == 0, "the connection was closed")
		chk("C02", len(got) == 2 && bytes.Equal(got[0], want) && string(got[1]) == "end", "after a frame of %d bytes and one of 3, %d frames were delivered or other ones", n, len(got))
		chk("C16", r.c.ReadBufferLength() == 0, "%d bytes are reported as unread", r.c.ReadBufferLength())
		r.msgs, r.all = nil, r.all[:0]
		p.n = 0
		vs.Outcome(fmt.Sprint(n, seg))
		g.finish()
	}})

	// websocket messages of any length
	add(&Scen{Props: "C19 C25", Name: "scale-ws", NoCache: true, Steps: 8000000, Body: func() {
		ls := append([]int{131071, 131072, 200000, 524288}, huge...)
		n := ls[vs.ChooseFree(len(ls), "bytes")]
		masked := vs.ChooseFree(2, "masked") == 1
		vkern.Reset()
		sizes(65536)
		vkern.K.TxCap = 1 << 30
		h := &wsH{echo: func(n int, msg string) (ws.MessageType, []byte) { return ws.MessageBinary, []byte(msg) }}
		g := newWS(h, &ws.Upgrader{})
		g.start()
		c := upgrade(g, "a")
		vs.Serial(true)
		want := pattern(n, n)
		feed(c, append(rawFrame(0x82, masked, 0, want), mtext("end")...), 65536)
		r := h.of(c)
		chk("C25", r.cls == 0, "the connection was closed")
		chk("C19", len(r.msgs) == 2 && r.msgs[0] == string(want) && r.msgs[1] == "end", "after messages of %d and 3 bytes, %d were delivered or others", n, len(r.msgs))
		drain(c)
		fs, rest, bad := parseSrv(c.Got)
		chk("C19", bad == "" && len(rest) == 0 && len(fs) == 2 && fs[0].payload == string(want) && fs[1].payload == "end", "the echo of a message of %d bytes is wrong: %s", n, bad)
		r.msgs, r.echoed, c.Got = nil, nil, nil
		vs.Outcome(fmt.Sprint(n, masked))
		g.finish()
	}})
	add(&Scen{Props: "C24 C25", Name: "scale-pb", NoCache: true, Steps: 8000000, Body: func() {
		ls := append([]int{65535, 65536, 131072, 524288}, huge...)
		n := ls[vs.ChooseFree(len(ls), "bytes")]
		tl := []int{0, 5, 65535}[vs.ChooseFree(3, "type length")]
		vkern.Reset()
		sizes(65536)
		vkern.K.TxCap = 1 << 30
		g, got := pbServer()
		g.start()
		vs.Serial(true)
		c := g.connect("a")
		vs.Serial(true)
		typ, data := string(pattern(3, tl)), pattern(n, n)
		feed(c, append(refPB(typ, data), refPB("end", []byte("x"))...), 65536)
		chk("C25", g.of(c).closes == 0, "the connection was closed")
		chk("C24", len(*got) == 2 && (*got)[0] == typ+"/"+string(data) && (*got)[1] == "end/x", "after messages of %d and 1 bytes, %d were delivered or others", n, len(*got))
		drain(c)
		chk("C24", bytes.Equal(c.Got, append(refPB(typ, append([]byte("="), data...)), refPB("end", []byte("=x"))...)), "the reply to a message of %d bytes is wrong", n)
		*got, c.Got = nil, nil
		vs.Outcome(fmt.Sprint(n, tl))
		g.finish()
	}})
	// many websocket and protobuf messages in one segment
	many := []int{100, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4096, 4097, 9999, 10000, 10001, 10900}
	add(&Scen{Props: "C19", Name: "scale-ws-frames", NoCache: true, Steps: 8000000, Body: func() {
		n := many[vs.ChooseFree(len(many), "messages")]
		vkern.Reset()
		sizes(65536)
		vkern.K.TxCap = 1 << 30
		h := &wsH{echo: func(n int, msg string) (ws.MessageType, []byte) { return ws.MessageText, []byte(msg) }}
		g := newWS(h, &ws.Upgrader{})
		g.start()
		c := upgrade(g, "a")
		vs.Serial(true)
		masked := vs.ChooseFree(2, "masked") == 1
		var in []byte
		for i := 0; i < n; i++ {
			in = append(in, rawFrame(0x81, masked, 0, []byte{'a' + byte(i%26)})...)
		}
		feed(c, in, 65536)
		r := h.of(c)
		bad := ""
		for i, m := range r.msgs {
			if m != string([]byte{'a' + byte(i%26)}) && bad == "" {
				bad = fmt.Sprintf("message %d is %q", i, m)
			}
		}
		chk("C19", len(r.msgs) == n && bad == "", "%d messages came in one segment, %d were delivered; %s", n, len(r.msgs), bad)
		drain(c)
		chk("C19", len(c.Got) == 3*n, "the echo of %d messages has %d bytes", n, len(c.Got))
		vs.Outcome(fmt.Sprint(n, masked))
		r.msgs, r.echoed, c.Got = nil, nil, nil
		g.finish()
	}})
	add(&Scen{Props: "C24", Name: "scale-pb-frames", NoCache: true, Steps: 8000000, Body: func() {
		n := many[vs.ChooseFree(len(many), "messages")]
		empty := vs.ChooseFree(2, "empty") == 1
		vkern.Reset()
		sizes(65536)
		vkern.K.TxCap = 1 << 30
		got, bad := 0, ""
		vs.Serial(true)
		msg := func(i int) (string, []byte) {
			if empty {
				return "", nil
			}
			return "", []byte(fmt.Sprintf("%x", i))
		}
		h := &H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} {
			t, d := msg(got)
			if (fmt.Sprint(ctx) != t || string(b) != string(d)) && bad == "" {
				bad = fmt.Sprintf("message %d has type %v and data %q", got, ctx, b)
			}
			got++
			return nil
		}}
		g := newRig(h, withProto(protobuf.New()))
		g.start()
		vs.Serial(true)
		c := g.connect("a")
		vs.Serial(true)
		var in []byte
		for i := 0; i < n; i++ {
			t, d := msg(i)
			in = append(in, protobuf.PackMessage(t, d)...)
		}
		feed(c, in, 65536)
		chk("C24", got == n && bad == "", "%d messages came in one segment, %d were delivered; %s", n, got, bad)
		vs.Outcome(fmt.Sprint(n, empty))
		g.finish()
	}})

	// requests with many or long header lines
	add(&Scen{Props: "C20", Name: "scale-handshake", Enum: func(e *Enum) {
		place := []string{"first", "middle", "last"}
		for p := range place {
			head := goodHead
			put := func(extra ...string) []string {
				k := []int{0, 3, len(head)}[p]
				return append(append(append([]string{}, head[:k]...), extra...), head[k:]...)
			}
			one := func(what string, hs []string, line string, faults []int, heads int) bool {
				if !e.Begin("%s %s", what, place[p]) {
					return false
				}
				seen := 0
				u := &ws.Upgrader{OnHeader: func(*gev.Connection, []byte, []byte) error { seen++; return nil }}
				req := buildReq(line, hs)
				out, _, err, left := upgradeAt(u, 8, 0, req+"\x81\x00")
				m := judgeUpgrade(string(out), faults, wsKey)
				if m == "" && (err == nil) != (faults == nil) {
					m = fmt.Sprintf("Upgrade returned error %v", err)
				}
				if m == "" && faults == nil && seen != heads {
					m = fmt.Sprintf("OnHeader was called %d times for %d extra headers", seen, heads)
				}
				if m == "" && string(left) != "\x81\x00" {
					m = fmt.Sprintf("%d bytes stay in the buffer", len(left))
				}
				if m != "" {
					e.Bad("a request of %d bytes and %d header lines (%s, %s) is answered with %q: %s", len(req), len(hs), what, place[p], out, m)
				}
				e.State(hashStr(what + place[p]))
				return true
			}
			for _, n := range []int{10, 31, 32, 33, 59, 60, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 5000} {
				var xs []string
				for i := 0; i < n; i++ {
					xs = append(xs, fmt.Sprintf("X-%d: %d", i, i))
				}
				one(fmt.Sprint(n, " headers"), put(xs...), "GET / HTTP/1.1", nil, n)
				head = goodHead[:len(goodHead)-1]
				one(fmt.Sprint(n, " headers, one missing"), put(xs...), "GET / HTTP/1.1", []int{400}, n)
				head = goodHead
			}
			for _, n := range []int{100, 255, 256, 1000, 1023, 1024, 1025, 2047, 2048, 4000, 4095, 4096, 4097, 8000, 8191, 8192, 8193, 16384, 20000, 65535, 65536, 65537, 200000, mb + 5} {
				one(fmt.Sprint("value of ", n), put("Cookie: "+strings.Repeat("c", n)), "GET / HTTP/1.1", nil, 1)
				one(fmt.Sprint("name of ", n), put(strings.Repeat("N", n)+": v"), "GET / HTTP/1.1", nil, 1)
				one(fmt.Sprint("uri of ", n), put(), "GET /"+strings.Repeat("u", n)+" HTTP/1.1", nil, 0)
				one(fmt.Sprint("method of ", n), put(), strings.Repeat("M", n)+" / HTTP/1.1", []int{405}, 0)
				one(fmt.Sprint("bad line of ", n), put(strings.Repeat("x", n)), "GET / HTTP/1.1", []int{400}, 0)
			}
		}
	}})
	add(&Scen{Props: "C20 C19", Name: "scale-handshake-served", NoCache: true, Steps: 8000000, Body: func() {
		ns := []int{1000, 4096, 8192, 9000, 16384, 65536, 70000, 200000, mb}
		n := ns[vs.ChooseFree(len(ns), "bytes")]
		seg := []int{1460, 65536}[vs.ChooseFree(2, "segment")]
		good := vs.ChooseFree(2, "good") == 1
		vkern.Reset()
		sizes(65536)
		vkern.K.TxCap = 1 << 20
		h := &wsH{echo: altEcho}
		u := &ws.Upgrader{OnHeader: func(_ *gev.Connection, k, v []byte) error {
			if string(k) == "X-Why" {
				return errors.New("no")
			}
			return nil
		}}
		g := newWS(h, u)
		g.start()
		vs.Serial(true)
		hs := append([]string{"Cookie: " + strings.Repeat("0123456789", n/10)}, goodHead...)
		var faults []int
		if !good {
			hs = append(hs, "X-Why: not")
			faults = []int{500}
		}
		c := vkern.Connect(addr, "a")
		req := buildReq("GET / HTTP/1.1", hs)
		feed(c, []byte(req[:len(req)-2]), seg)
		drain(c)
		chk("C20", len(c.Got) == 0 && !c.GotEOF, "an incomplete request of %d bytes was answered with %q", len(req)-2, c.Got)
		c.Send([]byte(req[len(req)-2:]))
		drain(c)
		m := judgeUpgrade(string(c.Got), faults, wsKey)
		chk("C20", m == "", "a request of %d bytes was answered with %q: %s", len(req), c.Got, m)
		c.Got = nil
		c.Send(mtext("after"))
		drain(c)
		if good {
			chk("C19 C20", len(h.of(c).msgs) == 1 && len(c.Got) > 0, "a message after a request of %d bytes was not delivered", len(req))
		}
		vs.Outcome(fmt.Sprint(n, seg, good))
		g.finish()
	}})

	// a failure in making many loops
	for _, n := range []int{12, 20, 40} {
		n := n
		add(&Scen{Props: "C26 C09", Name: fmt.Sprintf("construct-many-%d", n), Dev: 1, Body: construct(n, n == 20, vkern.Faults{EpollAdd: true, EpollMod: true, EpollCreate: true, Eventfd: true, SetNonblock: true, Listen: true, Dup: true})})
	}

	// Sends that need no event do not keep a connection from being idle
	add(&Scen{Props: "C13", Name: "idle-sends", Steps: 40000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		T := []time.Duration{250 * ms, sec, 3 * sec}[vs.ChooseFree(3, "timeout")]
		every := []time.Duration{T / 4, T / 2, T - 2*ms}[vs.ChooseFree(3, "every")]
		what := vs.ChooseFree(3, "what")
		var closedAt time.Duration = -1
		h := &H{onMsg: reply}
		h.onCls = func(r *CR) { closedAt = vs.Elapsed() }
		g := newRig(h, gev.IdleTime(T))
		g.goStart()
		quiesce()
		c := vkern.Connect(addr, "a")
		quiesce()
		t0 := vs.Elapsed()
		r := g.of(c)
		vs.AllowTime(20 * T)
		vs.Go("app", func() {
			for i := 0; i < 12 && closedAt < 0; i++ {
				vs.Sleep(every)
				switch what {
				case 0:
					_ = r.c.Send([]byte("x"))
				case 1:
					r.c.Set("k", i)
					_, _ = r.c.Get("k")
				case 2:
					_ = r.c.PeerAddr()
					_ = r.c.ReadBufferLength()
					_ = r.c.Connected()
				}
			}
		})
		quiesce()
		chk("C13", r.closes == 1, "a connection without any event was never closed (timeout %v)", T)
		chk("C13", closedAt >= t0+T && closedAt <= t0+T+soon, "a connection without any event was closed after %v, the timeout is %v", closedAt-t0, T)
		vs.Outcome(fmt.Sprint(T, every, what))
		r.ourClose = true
		g.finish()
	}})

	// a task that queues itself again and again does not hold up anything else
	for _, what := range []string{"message", "connect", "stop", "send", "close", "queue"} {
		what := what
		props := map[string]string{"message": "C01 C10 C11", "connect": "C18 C10", "stop": "C12 C10", "send": "C03 C10 C11", "close": "C05 C10 C11", "queue": "C10"}[what]
		add(&Scen{Props: props, Name: "endless-tasks-" + what, NoCache: true, Steps: 400000, Body: func() {
			const limit = 3000
			tasks := 1 + vs.ChooseFree(2, "tasks")
			at := 1 + vs.ChooseFree(3, "run")
			vkern.Reset()
			sizes(64)
			vkern.K.TxCap = 4
			h := &H{onMsg: reply}
			g := newRig(h)
			g.start()
			vs.Serial(true)
			c := g.connect("a")
			vs.Serial(true)
			r := g.of(c)
			if what == "send" {
				_ = r.c.Send([]byte("0123456789"))
				vs.WaitQuiescent()
			}
			runs, queued, stopped := 0, false, false
			done := func() bool {
				switch what {
				case "message":
					return r.nmsg > 0
				case "connect":
					return len(g.recs) > 1
				case "send":
					c.Drain()
					return len(c.Got) == 10
				case "stop":
					return stopped
				case "close":
					return r.closes > 0
				}
				return queued
			}
			var f func()
			f = func() {
				if vs.Killing() || done() || runs > limit {
					return
				}
				runs++
				if runs == at {
					switch what {
					case "message":
						c.Send([]byte("hey"))
					case "connect":
						vkern.Connect(addr, "b")
						n := len(g.assigned)
						vs.Block("the loop is chosen", func() bool { return len(g.assigned) > n })
					case "stop":
						g.stopped = true
						vs.Go("stopper", func() { g.s.Stop(); stopped = true })
						vs.AllowTime(sec)
						vs.Sleep(ms) // time for Stop to get to this loop
					case "send":
						c.Drain()
					case "close":
						_ = r.c.Close()
					case "queue":
						vs.Go("other", func() { g.loops[0].QueueInLoop(func() { queued = true }) })
						vs.AllowTime(sec)
						vs.Sleep(ms)
					}
				}
				g.loops[0].QueueInLoop(f)
			}
			for i := 0; i < tasks; i++ {
				g.loops[0].QueueInLoop(f)
			}
			vs.WaitQuiescent()
			chk("C01 C03 C05 C10 C11 C12 C18", done() && runs <= limit, "while tasks queue themselves again, the %s was not seen to for %d runs", what, limit)
			vs.Outcome(fmt.Sprint(tasks, at))
			g.finish()
		}})
	}

	// the peer goes while its messages are being handled and answered
	add(&Scen{Props: "C05 C09 C07 C08 C25", Name: "burst-dead", NoCache: true, Steps: 2000000, Body: func() {
		vkern.Reset()
		sizes(65536)
		eventloop.DefaultBufferSize = 4096
		vkern.K.TxCap = []int{1 << 30, 10, 70000}[vs.ChooseFree(3, "socket buffer")]
		vs.Serial(true)
		n := 8
		size := []int{1, 100, 600, 2000, 5000, 9000, 20000, 70000, 200000}[vs.ChooseFree(9, "reply")]
		at := vs.ChooseFree(n+1, "when")
		how := vs.ChooseFree(3, "how")
		var c *vkern.Conn
		seen := 0
		h := &H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} {
			if r.peer != c {
				return append([]byte(nil), b...)
			}
			if seen == at {
				switch how {
				case 0:
					c.Reset()
				case 1:
					c.Close()
				case 2:
					_ = r.c.Close()
				}
			}
			seen++
			return bytes.Repeat([]byte{'r'}, size)
		}}
		p := &bigProto{}
		g := newRig(h, withProto(p))
		g.start()
		vs.Serial(true)
		c = g.connect("a")
		o := g.connect("other")
		vs.Serial(true)
		r := g.of(c)
		var in []byte
		for i := 0; i < n; i++ {
			in = append(in, p.Packet(nil, []byte(fmt.Sprint("f", i)))...)
		}
		c.Send(in)
		vs.WaitQuiescent()
		if at == n { // after all
			c.Reset()
		}
		vs.WaitQuiescent()
		drain(c)
		if how == 1 || how == 0 || at == n {
			c.Close()
			vs.WaitQuiescent()
		}
		chk("C05 C09 C07", r.closes == 1 && c.Gone(), "the connection ended while its messages were handled: %d close callbacks, descriptor closed: %v", r.closes, c.Gone())
		o.Send(p.Packet(nil, []byte("still")))
		vs.WaitQuiescent()
		o.Drain()
		chk("C25 C08", bytes.Equal(o.Got, p.Packet(nil, []byte("still"))), "another connection got %q", o.Got)
		p.n = 0
		c.Got = nil
		vs.Outcome(fmt.Sprint(size, at, how))
		g.finish()
	}})
}
