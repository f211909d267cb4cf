package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/protobuf"
	"github.com/Allenxuxu/ringbuffer"

	"gevmc/vkern"
	"gevmc/vs"
)

// lenProto frames by a one-byte length and a type byte; the context is the type.
type lenProto struct{}

func (p *lenProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	if b.Length() < 2 {
		return nil, nil
	}
	a, e := b.Peek(2)
	h := append(append([]byte{}, a...), e...)
	n := int(h[0])
	if b.Length() < 2+n {
		return nil, nil
	}
	b.Retrieve(2)
	d := make([]byte, n)
	_, _ = b.Read(d)
	return int(h[1]), d
}

func (p *lenProto) Packet(c *gev.Connection, data interface{}) []byte {
	d := data.([]byte)
	return append([]byte{byte(len(d)), '#'}, d...)
}

func lenFrame(typ byte, s string) string { return string([]byte{byte(len(s)), typ}) + s }

// frameCase is a stream and what a protocol makes of it.
type frameCase struct {
	name   string
	proto  gev.Protocol
	stream string
	want   []string // ctx:data
	reply  func(string) string
}

func frameCases() []frameCase {
	line := func(s string) string { return s + "\n" }
	lf := func(s string) string { return lenFrame('#', s) }
	return []frameCase{
		{"line-short", &lineProto{}, "a\n\nbcd\nef", []string{"1:a", "0:", "3:bcd"}, line},
		{"line-long", &lineProto{}, "\nabcdefghijk\nlm\n", []string{"0:", "11:abcdefghijk", "2:lm"}, line},
		{"len-short", &lenProto{}, lenFrame('A', "xy") + lenFrame('B', "") + lenFrame('C', "z") + "\x05", []string{"65:xy", "66:", "67:z"}, lf},
		{"len-long", &lenProto{}, lenFrame('A', "0123456789") + lenFrame('B', "q"), []string{"65:0123456789", "66:q"}, lf},
	}
}

// serveFrames runs one stream cut by cut() through a server and compares.
func serveFrames(fc frameCase, props string, g *Rig, c *vkern.Conn, got *[]string) {
	r := g.of(c)
	var want []string
	if r != nil {
		want = *got
	}
	chk(props, strings.Join(want, "|") == strings.Join(fc.want, "|"), "%s: OnMessage got %q, the stream %q contains %q", fc.name, want, fc.stream, fc.want)
	exp := ""
	for _, w := range fc.want {
		exp += fc.reply("r" + w[strings.IndexByte(w, ':')+1:])
	}
	chk(props, string(c.Got) == exp, "%s: the client got %q, expected the replies %q", fc.name, c.Got, exp)
}

func init() {
	for _, fc := range frameCases() {
		fc := fc
		h := func(got *[]string) *H {
			return &H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} {
				*got = append(*got, fmt.Sprint(ctx)+":"+string(b))
				return append([]byte("r"), b...)
			}}
		}
		// every cut, each segment read before the next is sent
		add(&Scen{Props: "C02 C16", Name: "frames-all-cuts-" + fc.name, Thorough: false, Body: func() {
			vkern.Reset()
			var got []string
			g := newRig(h(&got), withProto(fc.proto))
			g.start()
			vs.Serial(true)
			c := vkern.Connect(addr, "a")
			last := 0
			for i := 1; i <= len(fc.stream); i++ {
				if i == len(fc.stream) || vs.ChooseFree(2, "cut here") == 1 {
					c.Send([]byte(fc.stream[last:i]))
					last = i
					vs.WaitQuiescent()
					c.TryRecv(0)
					g.quietOracles()
				}
			}
			vs.WaitQuiescent()
			for c.TryRecv(0) != nil {
			}
			serveFrames(fc, "C02", g, c, &got)
			g.finish()
		}})
		// cut at up to two places, with all schedules
		add(&Scen{Props: "C02 C03 C05 C06 C16 C09", Name: "frames-sched-" + fc.name, Pre: 1, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = 6
			var got []string
			g := newRig(h(&got), withProto(fc.proto))
			g.start()
			c := g.connect("a")
			n := 0
			for _, w := range fc.want {
				n += len(fc.reply("r" + w[strings.IndexByte(w, ':')+1:]))
			}
			vs.Go("cli", func() {
				sendCut(c, fc.stream, 2, 1, 3, 7, 8, 9, len(fc.stream)-1)
				c.RecvN(n)
			})
			quiesce()
			serveFrames(fc, "C02", g, c, &got)
			g.finish()
		}})
	}
	// two connections with the same protocol on one loop: the left-overs of one
	// never meet the data of the other
	add(&Scen{Props: "C02 C01 C16", Name: "frames-two-conns", Pre: 1, Body: func() {
		vkern.Reset()
		g := newRig(&H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} { return b }}, withProto(&lineProto{}))
		g.start()
		a, b := g.connect("a"), g.connect("b")
		vs.Go("A", func() {
			a.Send([]byte("on"))
			a.Send([]byte("e\ntwo\nth"))
			a.RecvN(8)
			a.Send([]byte("ree\n"))
		})
		vs.Go("B", func() {
			b.Send([]byte("1\n2"))
			b.Send([]byte("2\n"))
		})
		quiesce()
		chk("C02 C01", strings.Join(g.of(a).msgs, "|") == "one|two|three", "connection a: OnMessage got %q", g.of(a).msgs)
		chk("C02 C01", strings.Join(g.of(b).msgs, "|") == "1|22", "connection b: OnMessage got %q", g.of(b).msgs)
		a.Drain()
		b.Drain()
		chk("C02", string(a.Got) == "one\ntwo\nthree\n" && string(b.Got) == "1\n22\n", "the clients got %q and %q", a.Got, b.Got)
		g.finish()
	}})
	// no reply, a reply to some, a big reply: what is packed and in which order
	add(&Scen{Props: "C02 C03 C16", Name: "frames-replies", Pre: 1, Body: func() {
		vkern.Reset()
		vkern.K.TxCap = 4
		h := &H{}
		h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
			switch {
			case len(b) == 0:
				return nil
			case b[0] == 'x':
				_ = r.c.Send([]byte("S" + string(b)))
				return nil
			}
			return bytes.Repeat(b, 3)
		}
		g := newRig(h, withProto(&lineProto{}))
		g.start()
		c := g.connect("a")
		vs.Go("cli", func() {
			c.Send([]byte("abc\n\nx1\nd\nx"))
			c.Recv(3)
			c.Send([]byte("2\ne\n"))
			c.RecvN(26)
		})
		quiesce()
		chk("C02 C03", pieces(string(c.Got), true, []string{"abcabcabc\n", "ddd\n", "eee\n"}, []string{"Sx1\n", "Sx2\n"}), "the client got %q", c.Got)
		chk("C02", strings.Join(g.of(c).msgs, "|") == "abc||x1|d|x2|e", "OnMessage got %q", g.of(c).msgs)
		g.finish()
	}})
	// what is left over when the connection ends is not delivered, and does not
	// show up in the next connection
	add(&Scen{Props: "C02 C09 C16", Name: "frames-leftover-end", Pre: 1, Body: func() {
		vkern.Reset()
		g := newRig(&H{onMsg: reply}, withProto(&lineProto{}))
		g.start()
		a := g.connect("a")
		var b *vkern.Conn
		vs.Go("cli", func() {
			a.Send([]byte("x\nsecretsecret"))
			if vs.ChooseFree(2, "reset") == 1 {
				a.Reset()
			} else {
				a.CloseWrite()
				a.RecvAll()
			}
			b = vkern.Connect(addr, "b")
			b.Send([]byte("pub\n"))
			b.RecvN(4)
		})
		quiesce()
		if rb := g.of(b); rb == nil {
			chk("C02 C09 C18", false, "the second connection was not served")
		} else {
			chk("C02 C09", string(b.Got) == "pub\n" && strings.Join(rb.msgs, "|") == "pub", "the second connection got %q / %q", b.Got, rb.msgs)
		}
		g.finish()
	}})
	// a connection ends, for each reason, whatever is unread, unparsed or unsent
	for _, v := range []struct {
		name       string
		proto      func() gev.Protocol
		full, part string
	}{
		{"line", func() gev.Protocol { return &lineProto{} }, "abc\n", "defghijk"},
		{"protobuf", func() gev.Protocol { return protobuf.New() }, string(refPB("t", []byte("data"))), string(refPB("u", []byte("more data"))[:9])},
		{"default", func() gev.Protocol { return &gev.DefaultProtocol{} }, "abcd", "efghijklm"},
	} {
		v := v
		add(&Scen{Props: "C02 C05 C07 C09 C13 C15 C16 C24 C32", Name: "end-partial-" + v.name, Steps: 20000, Body: func() {
			vkern.Reset()
			sizes([]int{4, 64}[vs.ChooseFree(2, "packet size")])
			blocked := vs.ChooseFree(2, "blocked") == 1
			if blocked {
				vkern.K.TxCap = 2
			}
			h := &H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} {
				if v.name == "protobuf" {
					return protobuf.PackMessage("t", b)
				}
				return append([]byte(nil), b...)
			}}
			end := vs.ChooseFree(8, "end")
			opts := []gev.Option{withProto(v.proto())}
			if end == 4 {
				opts = append(opts, gev.IdleTime(time.Second))
			}
			g := newRig(h, opts...)
			g.start()
			vs.Serial(true)
			o := g.connect("other")
			c := g.connect("a")
			vs.Serial(true)
			r := g.of(c)
			in := []string{"", v.part[:1], v.part, v.full, v.full + v.part, v.full + v.full + v.part[:2]}[vs.ChooseFree(6, "input")]
			c.Send([]byte(in))
			vs.WaitQuiescent()
			switch end {
			case 0:
				c.Close()
			case 1:
				c.Reset()
			case 2:
				c.CloseWrite()
			case 3:
				r.c.Close()
			case 4:
				vs.AllowTime(10 * time.Second)
			case 5:
				r.c.ShutdownWrite()
				vs.WaitQuiescent()
				c.CloseWrite()
			case 6:
				c.CloseWrite()
				vs.WaitQuiescent()
				r.c.Close()
			case 7:
				c.Send([]byte(v.part[:1])) // one more read just before
				c.CloseWrite()
			}
			vs.WaitQuiescent()
			for n := 0; n < 200 && !c.GotRST && !c.GotEOF && end != 0 && end != 1; n++ {
				c.Drain()
				vs.WaitQuiescent()
			}
			what := []string{"the peer closed", "the peer reset it", "the peer shut down its side", "it was closed", "it was idle", "both sides were shut down", "it was closed after the peer shut down its side", "the peer sent one more byte and shut down"}[end]
			for _, t := range []struct{ tag, ends string }{{"C07", "36"}, {"C13", "4"}, {"C32", "2567"}} {
				if strings.Contains(t.ends, fmt.Sprint(end)) {
					chk(t.tag, r.closes == 1 && c.Gone(), "%s with %q received: %d close callbacks, descriptor closed: %v", what, in, r.closes, c.Gone())
				}
			}
			chk("C05 C09", r.closes == 1, "%s with %q received: %d close callbacks", what, in, r.closes)
			chk("C05 C09", c.Gone(), "%s with %q received: its descriptor is still open", what, in)
			if end != 4 {
				chk("C05", g.of(o).closes == 0, "another connection ended")
			}
			g.finish()
		}})
	}
}
