package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/protobuf"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"

	"gevmc/vkern"
	"gevmc/vs"
)

// refPB is the framing: length of the rest, length of the type, type, data.
func refPB(typ string, data []byte) []byte {
	out := binary.BigEndian.AppendUint32(nil, uint32(2+len(typ)+len(data)))
	out = binary.BigEndian.AppendUint16(out, uint16(len(typ)))
	return append(append(out, typ...), data...)
}

type pbMsg struct{ typ, data string }

// pbServer echoes messages, recording them as type/data.
func pbServer(opts ...gev.Option) (*Rig, *[]string) {
	got := &[]string{}
	h := &H{}
	h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
		t, ok := ctx.(string)
		if !ok {
			t = fmt.Sprintf("<%T>", ctx)
		}
		*got = append(*got, t+"/"+string(b))
		return protobuf.PackMessage(t, append([]byte("="), b...))
	}
	g := newRig(h, append([]gev.Option{withProto(protobuf.New())}, opts...)...)
	return g, got
}

func pbExpect(ms []pbMsg) (stream []byte, want []string, replies []byte) {
	for _, m := range ms {
		stream = append(stream, refPB(m.typ, []byte(m.data))...)
		want = append(want, m.typ+"/"+m.data)
		replies = append(replies, refPB(m.typ, []byte("="+m.data))...)
	}
	return
}

// pbFeed sends the stream cut as told over a new connection and judges it.
func pbFeed(g *Rig, got *[]string, stream []byte, want []string, replies []byte, dead bool, cut func(i int) bool) {
	*got = nil
	g.recs = nil
	vs.Serial(true)
	c := vkern.Connect(addr, "p")
	vs.WaitQuiescent()
	last := 0
	for i := 1; i <= len(stream); i++ {
		if i == len(stream) || cut(i) {
			c.Send(stream[last:i])
			last = i
			vs.WaitQuiescent()
			due, b := 0, stream[:i]
			for len(b) >= 4 && due < len(want) {
				l := int(binary.BigEndian.Uint32(b))
				if l > len(b)-4 {
					break
				}
				b = b[4+l:]
				due++
			}
			chk("C24", len(*got) == due, "of the %d messages complete in the first %d bytes of %x %d were delivered", due, i, stream, len(*got))
		}
	}
	chk("C24", fmt.Sprintf("%q", *got) == fmt.Sprintf("%q", want), "the stream %x gave the messages %q, it contains %q", stream, *got, want)
	c.Drain()
	if dead {
		chk("C24 C25", c.Gone() && g.of(c).closes == 1, "after a malformed length the connection is neither usable nor closed")
		return
	}
	chk("C24", !c.Gone(), "the connection was closed")
	chk("C24", bytes.Equal(c.Got, replies), "the client got %x, expected %x", c.Got, replies)
	c.Close()
	vs.WaitQuiescent()
	chk("C24 C25", c.Gone(), "the connection is still open")
}

func init() {
	add(&Scen{Props: "C24", Name: "pb-pack", Enum: func(e *Enum) {
		all := bytes.Repeat([]byte("0123456789abcdefg"), 5000)
		var ls []int
		for i := 0; i <= 130; i++ {
			ls = append(ls, i)
		}
		ls = append(ls, 255, 256, 257, 300, 65535)
		for _, t := range ls {
			for _, d := range append(ls, 65536, 70000) {
				if !e.Begin("pack type=%d data=%d", t, d) {
					return
				}
				data := append([]byte(nil), all[:d]...)
				out := protobuf.PackMessage(string(all[:t]), data)
				if !bytes.Equal(out, refPB(string(all[:t]), all[:d])) {
					e.Bad("PackMessage of a type of %d and data of %d bytes is wrong: %x…", t, d, out[:min0(12, len(out))])
					return
				}
				if !bytes.Equal(data, all[:d]) {
					e.Bad("PackMessage changed the data")
				}
				e.State(uint64(t)<<32 | uint64(d))
			}
		}
	}})
	// types longer than the length field for them can say: whatever is packed must
	// not be read as another message
	add(&Scen{Props: "C24", Name: "pb-pack-long-type", Enum: func(e *Enum) {
		all := bytes.Repeat([]byte("0123456789abcdefg"), 20000)
		for _, t := range []int{65536, 65537, 65538, 65536 + 255, 65536 + 256, 70000, 131071, 131072, 131073, 262144} {
			for _, d := range []int{0, 1, 2, 100, 65535, 65536, 70000} {
				if !e.Begin("pack type=%d data=%d", t, d) {
					return
				}
				out := protobuf.PackMessage(string(all[:t]), all[:d])
				e.State(uint64(t)<<32 | uint64(d))
				if len(out) == 0 {
					continue // refused
				}
				n := t + d + 2
				wrong := append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), byte(t >> 8), byte(t)}, all[:t]...)
				if wrong = append(wrong, all[:d]...); !bytes.Equal(out, wrong) {
					e.Bad("PackMessage of a type of %d and data of %d bytes gives %x…", t, d, out[:min0(12, len(out))])
					return
				}
				e.Finding("long-type", "PackMessage of a type of %d bytes and %d bytes of data gives a frame that is read as a message with a type of %d and data of %d bytes", t, d, t&0xffff, n-2-t&0xffff)
			}
		}
	}})
	streams := []struct {
		name string
		ms   []pbMsg
		tail []byte
		dead bool
	}{
		{"one", []pbMsg{{"ab", "xyz"}}, nil, false},
		{"empty-both", []pbMsg{{"", ""}, {"", ""}}, nil, false},
		{"empty-type", []pbMsg{{"", "d"}, {"t", ""}}, nil, false},
		{"two", []pbMsg{{"t", "d"}, {"u", "e"}}, nil, false},
		{"truncated", []pbMsg{{"t", "d"}}, []byte{0, 0, 0, 5, 0, 1, 'x'}, false},
		{"truncated-huge", []pbMsg{{"t", "d"}}, []byte{0x7f, 0xff, 0xff, 0xff, 0, 1, 'x'}, false},
		{"short-length-0", []pbMsg{{"t", "d"}}, []byte{0, 0, 0, 0, 0, 1, 'x'}, true},
		{"short-length-2", []pbMsg{{"", "d"}}, []byte{0, 0, 0, 2, 0, 1, 'x', 'y'}, true},
		{"short-length-4", nil, []byte{0, 0, 0, 4, 0, 3, 'x', 'y', 'z', 0, 0, 0}, true},
		{"short-length-type", nil, []byte{0, 0, 0, 3, 0xff, 0xff, 'x', 'y', 'z', 0, 0, 0}, true},
	}
	for _, st := range streams {
		st := st
		stream, want, replies := pbExpect(st.ms)
		stream = append(stream, st.tail...)
		low := min0(7, len(stream)-1)
		hi := len(stream) - 1 - low
		for _, ps := range []int{64, 4} {
			ps := ps
			add(&Scen{Props: "C24 C25", Name: fmt.Sprintf("pb-all-cuts-%s-%d", st.name, ps), Steps: 1000000, Thorough: hi > 8, Body: func() {
				vkern.Reset()
				sizes(ps)
				g, got := pbServer()
				g.start()
				m := vs.ChooseFree(1<<hi, "cuts")
				for k := 0; k < 1<<low; k++ {
					pbFeed(g, got, stream, want, replies, st.dead, func(i int) bool { return (m<<low|k)>>(i-1)&1 == 1 })
				}
				g.finish()
			}})
		}
	}
	// all sequences of three messages of small and border sizes, cut regularly
	// and at each single place
	add(&Scen{Props: "C24", Name: "pb-sequences", Steps: 2000000, Body: func() {
		vkern.Reset()
		sizes([]int{8, 13, 64, 600}[vs.ChooseFree(4, "packet size")])
		g, got := pbServer()
		g.start()
		ms := []pbMsg{{"", ""}, {"t", ""}, {"", "d"}, {"type", "data"}, {strings.Repeat("T", 130), "x"}, {"y", strings.Repeat("D", 260)}}
		var seq []pbMsg
		for i := 0; i < 3; i++ {
			seq = append(seq, ms[vs.ChooseFree(len(ms), "message")])
		}
		stream, want, replies := pbExpect(seq)
		for _, every := range []int{1 << 30, 1, 2, 3, 5, 7, 11, 64} {
			pbFeed(g, got, stream, want, replies, false, func(i int) bool { return i%every == 0 })
		}
		for k := 1; k < len(stream); k++ {
			if k > 40 && k%7 != 0 {
				continue
			}
			pbFeed(g, got, stream, want, replies, false, func(i int) bool { return i == k })
		}
		g.finish()
	}})
	// long messages at the borders of the pool's sizes and of the length fields
	add(&Scen{Props: "C24", Name: "pb-long", Steps: 2000000, Body: func() {
		vkern.Reset()
		sizes([]int{4096, 65536}[vs.ChooseFree(2, "packet size")])
		g, got := pbServer()
		g.start()
		ls := []int{0, 1, 127, 128, 129, 255, 256, 257, 4096, 65535}
		t, d := ls[vs.ChooseFree(len(ls), "type")], ls[vs.ChooseFree(len(ls), "data")]
		ms := []pbMsg{{strings.Repeat("abc", t/3+1)[:t], strings.Repeat("0123456789a", d/11+1)[:d]}, {"end", "."}}
		stream, want, replies := pbExpect(ms)
		for _, k := range []int{0, 1, 3, 4, 5, 6, 7, 6 + t, 5 + t, 6 + t + d, 7 + t + d} {
			pbFeed(g, got, stream, want, replies, false, func(i int) bool { return i == k })
		}
		g.finish()
	}})
	// every short length and type length
	add(&Scen{Props: "C24 C25", Name: "pb-lengths", Steps: 2000000, Body: func() {
		vkern.Reset()
		sizes(64)
		g, got := pbServer()
		g.start()
		l := vs.ChooseFree(24, "length")
		for tl := 0; tl < 24; tl++ {
			for _, n := range []int{0, 1, l, l + 1, l + 5} {
				for _, k := range []int{0, 4, 6} {
					rest := bytes.Repeat([]byte{'z'}, n)
					stream := append([]byte{0, 0, 0, byte(l), 0, byte(tl)}, rest...)
					var want []string
					var replies []byte
					dead := false
					if 2+n >= l { // complete as far as the length says
						if l < 2+tl {
							dead = true
						} else {
							data := string(rest[tl : l-2])
							typ := string(rest[:tl])
							want = []string{typ + "/" + data}
							replies = refPB(typ, []byte("="+data))
							left := len(rest) - (l - 2)
							if left >= 6 {
								continue // a second message, of other lengths
							}
						}
					} else if l < 2+tl {
						continue // may be judged now or later
					}
					pbFeed(g, got, stream, want, replies, dead, func(i int) bool { return i == k })
				}
			}
		}
		g.finish()
	}})
	// lengths about the powers of two: nothing is complete, nothing is delivered
	add(&Scen{Props: "C24 C25", Name: "pb-lengths-large", Steps: 2000000, Body: func() {
		vkern.Reset()
		sizes(64)
		g, got := pbServer()
		g.start()
		sh := 8 + vs.ChooseFree(25, "magnitude")
		for d := int64(-9); d <= 9; d++ {
			for _, n := range []int{2, 3, 4, 5, 9, 20} {
				l := uint64(int64(1)<<uint(sh) + d)
				if l > 1<<32-1 || l < uint64(n)+2 {
					continue
				}
				for _, k := range []int{0, 4, 6} {
					stream := append(binary.BigEndian.AppendUint32(nil, uint32(l)), 0, 1)
					stream = append(stream, bytes.Repeat([]byte{0}, n-2)...)
					pbFeed(g, got, stream, nil, nil, false, func(i int) bool { return i == k })
				}
			}
		}
		g.finish()
	}})
	add(&Scen{Props: "C24", Name: "pb-sched", Pre: 2, Body: func() {
		vkern.Reset()
		sizes(64)
		vkern.K.TxCap = 9
		g, got := pbServer()
		g.start()
		c := g.connect("p")
		stream, want, replies := pbExpect([]pbMsg{{"a", "b"}, {"", ""}, {"cd", "e"}})
		k := 1 + vs.ChooseFree(len(stream)-1, "cut")
		vs.Go("client", func() {
			c.Send(stream[:k])
			c.Send(stream[k:])
			c.RecvN(len(replies))
		})
		quiesce()
		chk("C24", fmt.Sprintf("%q", *got) == fmt.Sprintf("%q", want), "the application got %q, expected %q", *got, want)
		chk("C24", bytes.Equal(c.Got, replies), "the client got %x, expected %x", c.Got, replies)
		g.finish()
	}})
	add(&Scen{Props: "C24", Name: "pb-two-conns", Steps: 60000, Body: func() {
		vkern.Reset()
		sizes(64)
		g, got := pbServer()
		g.start()
		vs.Serial(true)
		a, b := g.connect("a"), g.connect("b")
		vs.Serial(true)
		sa, _, ra := pbExpect([]pbMsg{{"aa", "11"}, {"A", ""}})
		sb, _, rb := pbExpect([]pbMsg{{"b", "222"}, {"", "B"}})
		i, j, n := 0, 0, 2+vs.ChooseFree(3, "piece")
		for i < len(sa) || j < len(sb) {
			k := 0
			if i < len(sa) && j < len(sb) {
				k = vs.ChooseFree(2, "who")
			}
			if (k == 0 || j == len(sb)) && i < len(sa) {
				e := min0(i+n, len(sa))
				a.Send(sa[i:e])
				i = e
			} else {
				e := min0(j+n, len(sb))
				b.Send(sb[j:e])
				j = e
			}
			vs.WaitQuiescent()
		}
		a.Drain()
		b.Drain()
		chk("C24", bytes.Equal(a.Got, ra) && bytes.Equal(b.Got, rb) && len(*got) == 4, "the clients got %x and %x, expected %x and %x", a.Got, b.Got, ra, rb)
		g.finish()
	}})
	hostile()
}

// ---------- hostile input ----------

// victim is a server of one of the protocols with an innocent connection on the
// same loop.
type victim struct {
	g     *Rig
	good  *vkern.Conn
	proto string
	h     *wsH
	n     int
}

var protoNames = []string{"default", "line", "websocket", "protobuf"}

func newVictim(proto string) *victim {
	v := &victim{proto: proto}
	switch proto {
	case "websocket":
		v.h = &wsH{echo: altEcho}
		v.g = newWS(v.h, &ws.Upgrader{})
		v.g.start()
		v.good = upgrade(v.g, "good")
	case "protobuf":
		v.g, _ = pbServer()
		v.g.start()
		v.good = v.g.connect("good")
	case "line":
		v.g = newRig(&H{onMsg: reply}, withProto(&lineProto{}))
		v.g.start()
		v.good = v.g.connect("good")
	default:
		v.g = newRig(&H{onMsg: reply})
		v.g.start()
		v.good = v.g.connect("good")
	}
	vs.Serial(true)
	return v
}

// serve checks that the innocent connection is served.
func (v *victim) serve(what string, in []byte) {
	v.n++
	s := fmt.Sprint("m", v.n%10)
	var req []byte
	var want string
	switch v.proto {
	case "websocket":
		req = mtext(s)
		b0 := byte(0x81)
		if n := len(v.h.of(v.good).msgs); n&1 == 1 {
			b0 = 0x82
		}
		want = string(rawFrame(b0, false, 0, []byte("="+s)))
	case "protobuf":
		req = refPB("T", []byte(s))
		want = string(refPB("T", []byte("="+s)))
	case "line":
		req = []byte(s + "\n")
		want = s + "\n"
	default:
		req = []byte(s)
		want = s
	}
	v.good.Got = nil
	v.good.Send(req)
	vs.WaitQuiescent()
	v.good.Drain()
	for v.good.TxFull() || len(v.good.Got) < len(want) {
		n := len(v.good.Got)
		vs.WaitQuiescent()
		if v.good.Drain(); len(v.good.Got) == n {
			break
		}
	}
	chk("C25 C31", string(v.good.Got) == want, "%s: after the input %q another connection of the loop got %q, expected %q", what, clip(in), v.good.Got, want)
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// attack sends input in segments over a connection of its own, ends it, and
// checks that it can be closed and that the others are served.
func (v *victim) attack(pre []byte, in []byte, cut int, end int) {
	v.g.recs = keep(v.g.recs, v.good)
	if v.h != nil {
		v.h.recs = v.h.recs[:1]
	}
	c := vkern.Connect(addr, "evil")
	if len(pre) > 0 {
		c.Send(pre)
		vs.WaitQuiescent()
	}
	switch {
	case cut <= 0 || cut >= len(in):
		c.Send(in)
	default:
		c.Send(in[:cut])
		vs.WaitQuiescent()
		c.Send(in[cut:])
	}
	if end < 3 {
		vs.WaitQuiescent()
		v.serve("while it is open", in)
	}
	switch end % 3 {
	case 0:
		c.Close()
	case 1:
		c.Reset()
	case 2:
		c.CloseWrite()
	}
	vs.WaitQuiescent()
	if end%3 == 2 {
		c.Drain()
		vs.WaitQuiescent()
	}
	chk("C25", c.Gone(), "after the input %q and the client's end the connection is still open", clip(in))
	v.serve("after its end", in)
}

func keep(rs []*CR, p *vkern.Conn) []*CR {
	for _, r := range rs {
		if r.peer == p {
			return []*CR{r}
		}
	}
	return nil
}

func hostile() {
	// every string over a small alphabet of significant bytes
	alpha := map[string]string{
		"default":   "a\x00\n",
		"line":      "a\n\r",
		"websocket": "G \r\n:",
		"protobuf":  "\x00\x01\x02\xff",
	}
	for _, p := range protoNames {
		p := p
		for _, n := range []int{4, 6} {
			n := n
			add(&Scen{Props: "C25", Name: fmt.Sprintf("hostile-strings-%s-%d", p, n), Thorough: n > 4, Steps: 8000000, Body: func() {
				vkern.Reset()
				v := newVictim(p)
				al := alpha[p]
				l := 1 + vs.ChooseFree(n, "length")
				in := make([]byte, l)
				in[0] = al[vs.ChooseFree(len(al), "first")]
				end := vs.ChooseFree(6, "end")
				tot := 1
				for i := 1; i < l; i++ {
					tot *= len(al)
				}
				for x := 0; x < tot; x++ {
					y := x
					for i := 1; i < l; i++ {
						in[i] = al[y%len(al)]
						y /= len(al)
					}
					v.attack(nil, in, x%(l+1), end)
				}
				v.g.finish()
			}})
		}
	}
	// every header of a frame, behind the handshake, with too little, enough and
	// more data behind it
	add(&Scen{Props: "C25", Name: "hostile-frames", Steps: 8000000, Body: func() {
		vkern.Reset()
		sizes(256)
		v := newVictim("websocket")
		b0 := vs.ChooseFree(256, "first byte")
		for b1 := 0; b1 < 256; b1++ {
			if b0&0x70 != 0 && b1&0x7f > 3 && b1&0x7f < 125 {
				continue
			}
			for _, tail := range []string{"", "\x00\x00\x00\x00", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x00\x00\x00\x00\x00\x00\x00\x03abcdefghijklmnop"} {
				in := append([]byte{byte(b0), byte(b1)}, tail...)
				v.attack([]byte(wsReq), in, b1%4, (b0+b1)%6)
			}
		}
		v.g.finish()
	}})
	// 16- and 64-bit lengths of all magnitudes
	add(&Scen{Props: "C25", Name: "hostile-lengths", Steps: 8000000, Body: func() {
		vkern.Reset()
		sizes(256)
		v := newVictim([]string{"websocket", "protobuf"}[vs.ChooseFree(2, "protocol")])
		before := alloced()
		sent := 0
		for sh := 0; sh < 64; sh++ {
			for _, d := range []int64{-1, 0, 1} {
				l := int64(1)<<uint(sh) + d
				var in, pre []byte
				if v.proto == "protobuf" {
					in = append(binary.BigEndian.AppendUint32(nil, uint32(l)), 0, byte(sh), 'x', 'y')
				} else {
					pre = []byte(wsReq)
					in = binary.BigEndian.AppendUint64([]byte{0x82, 0x7f | byte(sh&1)<<7}, uint64(l))
					in = append(in, 1, 2, 3, 4, 5, 6)
				}
				sent += len(in) + len(pre)
				for end := 0; end < 6; end++ {
					v.attack(pre, in, int(l&7), end)
				}
			}
		}
		if a := alloced() - before; a > 200<<20 {
			chk("C25", false, "the server claimed %d MB for %d bytes of input", a>>20, sent)
		}
		v.g.finish()
	}})
	// control frames longer than allowed, complete
	add(&Scen{Props: "C25", Name: "hostile-control-sizes", Steps: 8000000, Body: func() {
		vkern.Reset()
		sizes(4096)
		v := newVictim("websocket")
		op := byte(8 + vs.ChooseFree(8, "opcode"))
		fin := byte(vs.ChooseFree(2, "final") << 7)
		for _, n := range []int{0, 1, 2, 3, 124, 125, 126, 127, 128, 254, 256, 1000, 4090, 65535, 65536, 70000} {
			for _, b := range []byte{0, 3, 0xff} {
				in := rawFrame(fin|op, b != 3, 0, bytes.Repeat([]byte{b}, n))
				v.attack([]byte(wsReq), in, n/2, n%6)
			}
			if n >= 2 && op == 8 { // a valid code and a valid but long reason
				for _, code := range []int{1000, 1001, 3000, 4999, 1005, 0} {
					v.attack([]byte(wsReq), rawFrame(fin|op, true, 0, closeBody(code, strings.Repeat("r", n-2))), n/2, n%6)
				}
			}
		}
		v.g.finish()
	}})
	// a good stream with one byte replaced, dropped or doubled, at each place, or
	// ending at each place
	good := map[string][]byte{
		"default":   []byte("hello\nworld\n"),
		"line":      []byte("hello\n\nworld\n"),
		"websocket": cat([]byte(wsReq), mtext("abc"), rawFrame(0x89, true, 0, []byte("p")), rawFrame(0x82, true, 16, []byte("de")), rawFrame(0x88, true, 0, closeBody(1000, "x"))),
		"protobuf":  cat(refPB("ab", []byte("cde")), refPB("", nil), refPB("x", []byte("y"))),
	}
	for _, p := range protoNames {
		p := p
		add(&Scen{Props: "C25", Name: "hostile-mutations-" + p, Steps: 8000000, Body: func() {
			vkern.Reset()
			sizes([]int{8, 64}[vs.ChooseFree(2, "packet size")])
			v := newVictim(p)
			s := good[p]
			end := vs.ChooseFree(6, "end")
			for i := 0; i <= len(s); i++ {
				v.attack(nil, s[:i], i/2, end)
				if i == len(s) {
					break
				}
				var muts [][]byte
				for _, b := range []byte{0, 1, ' ', '\r', '\n', ':', ',', '"', 0x7f, 0x80, 0xfe, 0xff, s[i] ^ 1, s[i] ^ 0x20, s[i] ^ 0x80} {
					m := append([]byte(nil), s...)
					m[i] = b
					muts = append(muts, m)
				}
				muts = append(muts, append(append([]byte(nil), s[:i]...), s[i+1:]...), append(append(append([]byte(nil), s[:i]...), s[i]), s[i:]...))
				for k, m := range muts {
					v.attack(nil, m, []int{0, i, i + 1, len(m) / 2}[k&3], end)
				}
			}
			v.g.finish()
		}})
	}
	// much data that never completes a message
	add(&Scen{Props: "C25", Name: "hostile-endless", Steps: 8000000, Body: func() {
		vkern.Reset()
		sizes(4096)
		p := protoNames[1+vs.ChooseFree(3, "protocol")]
		v := newVictim(p)
		c := vkern.Connect(addr, "evil")
		vs.WaitQuiescent()
		in := map[string][]byte{"line": nil, "websocket": []byte("GET / HTTP/1.1\r\n"), "protobuf": {0x7f, 0xff, 0xff, 0xff}}[p]
		c.Send(in)
		before := alloced()
		fill := bytes.Repeat([]byte("Host: aaaaaaa\r\n"), 300)
		if p == "line" {
			fill = bytes.Repeat([]byte("a"), 4500)
		}
		for i := 0; i < 40; i++ {
			c.Send(fill)
			vs.WaitQuiescent()
		}
		_ = before
		v.serve("while it is open", in)
		c.Drain()
		chk("C25", !c.Gone(), "the connection was closed")
		c.Reset()
		vs.WaitQuiescent()
		chk("C25", c.Gone(), "the connection is still open")
		v.serve("after its end", in)
		v.g.finish()
	}})
	// hostile and innocent traffic in all schedules
	for _, p := range protoNames {
		p := p
		add(&Scen{Props: "C25", Name: "hostile-sched-" + p, Pre: 2, Steps: 20000, Body: func() {
			vkern.Reset()
			sizes(64)
			v := newVictim(p)
			vs.Serial(true)
			c := vkern.Connect(addr, "evil")
			var in []byte
			switch p {
			case "websocket":
				c.Send([]byte(wsReq))
				in = []byte{0x82, 0x7f, 0x80, 0, 0, 0, 0, 0, 0, 1, 0x81, 1}
			case "protobuf":
				in = []byte{0, 0, 0, 1, 0, 5, 0, 0, 0, 0, 0, 0}
			default:
				in = []byte("\x00\xff\n")
			}
			vs.WaitQuiescent()
			vs.Serial(false)
			end := vs.ChooseFree(3, "end")
			vs.Go("evil", func() {
				c.Send(in[:len(in)-2])
				c.Send(in[len(in)-2:])
				switch end {
				case 0:
					c.Close()
				case 1:
					c.Reset()
				case 2:
					c.CloseWrite()
				}
			})
			vs.Go("good", func() {
				s := "m"
				switch p {
				case "websocket":
					v.good.Send(mtext(s))
					v.good.RecvN(4)
				case "protobuf":
					v.good.Send(refPB("T", []byte(s)))
					v.good.RecvN(9)
				case "line":
					v.good.Send([]byte(s + "\n"))
					v.good.RecvN(2)
				default:
					v.good.Send([]byte(s))
					v.good.RecvN(1)
				}
			})
			quiesce()
			vs.Serial(true)
			c.Drain()
			vs.WaitQuiescent()
			chk("C25", c.Gone(), "the hostile connection is still open")
			v.serve("after all", in)
			v.g.finish()
		}})
	}
}

func alloced() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}
