package main

import (
	"fmt"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"

	"gevmc/vkern"
	"gevmc/vs"

	"github.com/Allenxuxu/ringbuffer"
)

// letters yields n bytes of a stream in which neighbours differ.
func letters(at *int, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[*at%62]
		*at++
	}
	return b
}

func init() {
	// every sequence of output and reading operations: the pending output grows,
	// shrinks, wraps around in its ring buffer and reallocates
	for _, v := range []struct {
		name             string
		ring, cap, depth int
		dev              int
		deep             bool
		line             bool // messages are lines, which may be incomplete
	}{{"ring8", 8, 4, 6, 0, false, false}, {"ring8-short", 8, 4, 5, 1, false, false}, {"ring16", 16, 5, 6, 0, false, false}, {"ring0", 0, 3, 6, 0, false, false},
		{"lines", 8, 4, 5, 0, false, true}, {"lines-0", 0, 3, 5, 0, false, true}, {"lines-deep", 16, 4, 7, 0, true, true},
		{"ring8-deep", 8, 4, 8, 0, true, false}, {"ring8-short-deep", 8, 4, 7, 2, true, false}, {"ring16-deep", 16, 5, 8, 1, true, false}} {
		v := v
		add(&Scen{Props: "C03 C16 C04 C32", Name: "out-ops-" + v.name, Dev: v.dev, Thorough: v.deep, Body: func() {
			vkern.Reset()
			if v.ring > 0 {
				ringbuffer.Seed(v.ring, v.ring)
			}
			vkern.K.TxCap = v.cap
			fins := 0
			var opts []gev.Option
			n := 5
			if v.line {
				opts = append(opts, withProto(&lineProto{}))
				n = 7
			}
			g := newRig(&H{onMsg: reply}, opts...)
			if v.line {
				g.raw = false
			}
			g.start()
			c := g.connect("a")
			vs.Serial(true)
			r := g.of(c)
			if v.dev > 0 {
				vkern.K.F.WriteShort = true
			}
			at := 0
			var hist []byte
			for i := 0; i < v.depth; i++ {
				op := vs.ChooseFree(n, "operation")
				hist = append(hist, "sSMrRLP"[op])
				switch op {
				case 0:
					_ = r.c.Send(letters(&at, 2), gev.SendInLoop(func(interface{}) { fins++ }))
				case 1:
					_ = r.c.Send(letters(&at, 7), gev.SendInLoop(func(interface{}) { fins++ }))
				case 2:
					c.Send(letters(&at, 3))
				case 3:
					c.TryRecv(1)
				case 4:
					c.TryRecv(3)
				case 5: // the rest of a line and a part of the next one
					c.Send(append(append(letters(&at, 2), '\n'), letters(&at, 2)...))
				case 6:
					c.Send(append(letters(&at, 6), '\n'))
				}
				vs.WaitQuiescent()
				g.quietOracles()
			}
			shut := vs.ChooseFree(2, "ShutdownWrite") == 1
			before := string(r.out)
			if shut {
				_ = r.c.ShutdownWrite()
				vs.WaitQuiescent()
			}
			for c.TryRecv(1) != nil {
				vs.WaitQuiescent()
				if !shut {
					g.quietOracles()
				}
			}
			if shut {
				chk("C32 C03", string(c.Got) == before && (c.SrvFin() || c.Gone()), "%s: after ShutdownWrite the client got %q end=%v, handed over was %q", hist, c.Got, c.SrvFin(), before)
				return
			} else {
				chk("C03", string(c.Got) == string(r.out), "%s: the client got %q, handed over was %q", hist, c.Got, r.out)
			}
			n = 0
			for _, o := range hist {
				if o == 's' || o == 'S' {
					n++
				}
			}
			chk("C04", fins == n, "%s: %d completion callbacks for %d Sends", hist, fins, n)
			g.finish()
		}})
	}
	// the pending output wraps around while the client reads in between
	for _, ring := range []int{8, 16} {
		ring := ring
		for _, pre := range []int{1, 2} {
			pre := pre
			add(&Scen{Props: "C03 C16 C04 C32", Name: fmt.Sprintf("out-wrap-race-%d-%d", ring, pre), Pre: pre, Thorough: pre > 1, Body: func() {
				vkern.Reset()
				ringbuffer.Seed(ring, ring)
				vkern.K.TxCap = 4
				g := newRig(&H{onMsg: reply})
				g.start()
				c := g.connect("a")
				r := g.of(c)
				vs.Serial(true)
				at := 0
				_ = r.c.Send(letters(&at, 4+ring-2))
				vs.WaitQuiescent()
				c.TryRecv(3)
				vs.WaitQuiescent()
				_ = r.c.Send(letters(&at, 4))
				vs.WaitQuiescent()
				g.quietOracles()
				vs.Serial(false)
				vs.Go("cli", func() {
					for i := 0; i < 5; i++ {
						c.Recv(1)
					}
					c.RecvN(4 + ring - 2 + 4 + 2)
				})
				vs.Go("snd", func() {
					receive()
					_ = r.c.Send(letters(&at, 2))
				})
				quiesce()
				chk("C03", string(c.Got) == string(r.out), "the client got %q, handed over was %q", c.Got, r.out)
				g.finish()
			}})
		}
	}
	// the default protocol takes everything, wherever it lies in the ring buffer
	add(&Scen{Props: "C01 C25", Name: "default-unpack", NoCache: true, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		sizes(64)
		user := []int{0, 1, 4, 7, 16, 4096}[vs.ChooseFree(6, "user buffer")]
		eventloop.DefaultBufferSize = user
		g := newRig(&H{onMsg: reply})
		g.start()
		vs.Serial(true)
		c := g.of(g.connect("a")).c
		vs.Serial(true)
		size := []int{1, 2, 3, 5, 8, 16, 33, 5000}[vs.ChooseFree(8, "ring")]
		p := &gev.DefaultProtocol{}
		step := 1 + size/40
		for off := 0; off < size; off += step {
			for n := 0; n <= size; n += step {
				b := ringbuffer.New(size)
				_, _ = b.Write(make([]byte, off))
				b.Retrieve(off)
				// a second user's data must not shine through
				data := pattern(off+n, n)
				_, _ = b.Write(data)
				ctx, out := p.UnPacket(c, b)
				chk("C01 C25", string(out) == string(data) && b.IsEmpty(), "%d bytes at %d in a ring of %d with a user buffer of %d came out as %d bytes, differing; left over %d", n, off, size, user, len(out), b.Length())
				chk("C01", ctx == nil, "a context %v", ctx)
				_, out = p.UnPacket(c, b)
				chk("C01 C25", len(out) == 0, "an empty buffer gave %q", out)
				chk("C01", string(p.Packet(c, data)) == string(data), "Packet changed the data")
			}
		}
		vs.Outcome(fmt.Sprint(user, size))
		g.finish()
	}})
	// every length of input around the sizes of the buffers, with the end of the
	// stream right behind it or not
	for _, v := range []struct {
		name   string
		packet int
		lens   []int
		segs   []int
	}{
		{"small", 8, upTo(34), []int{0, 1, 3, 7, 8, 9, 16}},
		{"tiny", 1, upTo(9), []int{0, 1, 2, 3}},
		{"real", 65536, []int{1, 4095, 4096, 4097, 65535, 65536, 65537, 65540, 131071, 131072, 131073, 196608, 262144, 300000}, []int{0, 1448, 4096, 65535, 65536, 65537, 131072}},
	} {
		v := v
		add(&Scen{Props: "C01 C05 C32 C16", Name: "in-lengths-" + v.name, NoCache: true, Steps: 2000000, Body: func() {
			vkern.Reset()
			sizes(v.packet)
			vkern.K.TxCap = 1 << 30
			vs.Serial(true)
			n := v.lens[vs.ChooseFree(len(v.lens), "length")]
			seg := v.segs[vs.ChooseFree(len(v.segs), "segment")]
			lock := vs.ChooseFree(2, "each segment read before the next") == 1
			end := vs.ChooseFree(4, "end")
			echo := vs.ChooseFree(2, "echo") == 1
			sum, ok := 0, true
			data := pattern(n, n)
			h := &H{}
			h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
				ok = ok && sum+len(b) <= n && string(b) == string(data[sum:sum+len(b)])
				sum += len(b)
				if echo {
					return append([]byte(nil), b...)
				}
				return nil
			}
			g := newRig(h)
			g.raw = false // judged here
			g.start()
			vs.Serial(true)
			c := g.connect("a")
			vs.Serial(true)
			for at := 0; at < n; {
				e := n
				if seg > 0 && at+seg < n {
					e = at + seg
				}
				c.Send(data[at:e])
				at = e
				if lock {
					vs.WaitQuiescent()
				}
			}
			switch end {
			case 1:
				c.CloseWrite()
			case 2:
				if !echo {
					c.Close()
				}
			case 3:
				vs.WaitQuiescent()
				c.Drain()
				c.CloseWrite()
			}
			vs.WaitQuiescent()
			c.Drain()
			chk("C01 C32", ok && sum == n, "%d bytes in segments of %d (end %d) arrived as %d bytes, content ok: %v", n, seg, end, sum, ok)
			if echo {
				chk("C01 C32", string(c.Got) == string(data), "of %d bytes in segments of %d (end %d), %d came back", n, seg, end, len(c.Got))
			}
			chk("C05", g.of(c).closes == b2i(end == 1 || end == 3 || end == 2 && !echo), "OnClose ran %d times", g.of(c).closes)
			vs.Outcome(fmt.Sprint(n, seg, end))
			g.finish()
		}})
	}
}

func upTo(n int) (l []int) {
	for i := 0; i <= n; i++ {
		l = append(l, i)
	}
	return
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
