package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/protobuf"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/gev/plugins/websocket/ws/util"
	"github.com/Allenxuxu/ringbuffer"

	"gevmc/vkern"
	"gevmc/vs"
)

// refHeader is RFC 6455 5.2.
func refHeader(h ws.Header) []byte {
	b0 := byte(h.OpCode) | h.Rsv<<4
	if h.Fin {
		b0 |= 0x80
	}
	var m byte
	if h.Masked {
		m = 0x80
	}
	out := []byte{b0}
	switch {
	case h.Length < 126:
		out = append(out, m|byte(h.Length))
	case h.Length < 1<<16:
		out = append(out, m|126, byte(h.Length>>8), byte(h.Length))
	default:
		out = append(out, m|127)
		for i := 56; i >= 0; i -= 8 {
			out = append(out, byte(uint64(h.Length)>>uint(i)))
		}
	}
	if h.Masked {
		out = append(out, h.Mask[:]...)
	}
	return out
}

// headerAt decodes enc from a ring buffer whose read position is at off.
func headerAt(enc []byte, off int) (h ws.Header, err error, left int) {
	rb := ringbuffer.New(32)
	_, _ = rb.Write(make([]byte, off))
	rb.Retrieve(off)
	if rb.Length() != 0 {
		panic("ringbuffer")
	}
	_, _ = rb.Write([]byte{0x55})
	if off > 0 { // an emptied buffer starts over; keep the position
		rb = ringbuffer.New(32)
		_, _ = rb.Write(make([]byte, off+1))
		rb.Retrieve(off)
		_, _ = rb.Write(enc)
		rb.Retrieve(1)
	} else {
		rb = ringbuffer.New(32)
		_, _ = rb.Write(enc)
	}
	h, err = ws.VirtualReadHeader(make([]byte, 0, ws.MaxHeaderSize-2), rb)
	if err == nil {
		rb.VirtualFlush()
	} else {
		rb.VirtualRevert()
	}
	return h, err, rb.Length()
}

func wsCodec() {
	masks := [][4]byte{{}, {0, 0, 0, 0}, {1, 2, 3, 4}, {0xff, 0, 0x80, 0x7f}}
	add(&Scen{Props: "C22", Name: "ws-header-roundtrip", Enum: func(e *Enum) {
		var lens []int64
		for i := int64(0); i <= 300; i++ {
			lens = append(lens, i)
		}
		for p := uint(9); p < 63; p++ {
			for _, d := range []int64{-2, -1, 0, 1, 2} {
				lens = append(lens, 1<<p+d)
			}
		}
		lens = append(lens, 1<<63-1, 1<<63-2)
		for _, l := range lens {
			for b0 := 0; b0 < 256; b0++ {
				for mi, m := range masks {
					if !e.Begin("header len=%d b0=%02x mask=%d", l, b0, mi) {
						return
					}
					h := ws.Header{Fin: b0&0x80 != 0, Rsv: byte(b0>>4) & 7, OpCode: ws.OpCode(b0 & 15), Masked: mi > 0, Mask: m, Length: l}
					keep := h
					enc, err := ws.WriteHeader(&h)
					want := refHeader(keep)
					if err != nil || !bytes.Equal(enc, want) {
						e.Bad("WriteHeader(%+v) = %x, %v, expected %x", keep, enc, err, want)
						return
					}
					if h != keep {
						e.Bad("WriteHeader changed its argument")
						return
					}
					if b0&0x3f != 1 && l > 3 && l != 125 && l != 126 && l != 65535 && l != 65536 {
						continue
					}
					for off := 0; off < 31; off += 1 + b0&1 {
						data := append(want[:len(want):len(want)], 'p')
						got, err, left := headerAt(data, off)
						if err != nil || got != keep || left != 1 {
							e.Bad("decoding %x at offset %d of the buffer gives %+v, %v with %d bytes left, expected %+v and 1", data, off, got, err, left, keep)
							return
						}
						if l == 0 {
							got, err, left := headerAt(want, off)
							if err != nil || got != keep || left != 0 {
								e.Bad("decoding %x at offset %d of the buffer gives %+v, %v with %d bytes left, expected %+v and 0", want, off, got, err, left, keep)
								return
							}
						}
						// a truncated header is not ready and stays
						for k := 0; k < len(want); k++ {
							_, err, left := headerAt(want[:k], off)
							if err == nil || left != k && k > 0 {
								e.Bad("decoding the truncated header %x gives %v, %d bytes left of %d", want[:k], err, left, k)
								return
							}
						}
						e.State(uint64(l)<<20 ^ uint64(b0)<<10 ^ uint64(mi)<<8 ^ uint64(off))
					}
				}
			}
		}
	}})
	// an encoding stays what it is when others follow, and is the caller's to change
	add(&Scen{Props: "C22 C23 C24", Name: "codec-kept", Enum: func(e *Enum) {
		type enc struct {
			tag, name string
			f         func() []byte
		}
		var es []enc
		put := func(tag, name string, f func() []byte) { es = append(es, enc{tag, name, f}) }
		fb := func(f *ws.Frame) []byte { b, _ := ws.FrameToBytes(f); return b }
		for _, l := range []int{0, 1, 5, 125, 126, 300, 65536} {
			l := l
			pay := func() []byte { return bytes.Repeat([]byte{byte(l), 'k'}, l/2+1)[:l] }
			put("C22", fmt.Sprint("a text frame of ", l), func() []byte { return fb(ws.NewTextFrame(pay())) })
			put("C22", fmt.Sprint("a binary frame of ", l), func() []byte { return fb(ws.NewBinaryFrame(pay())) })
			put("C22", fmt.Sprint("a masked frame of ", l), func() []byte {
				f := ws.NewTextFrame(pay())
				f.Header.Masked, f.Header.Mask = true, [4]byte{1, 2, 3, byte(l)}
				return fb(f)
			})
			put("C22", fmt.Sprint("a header for ", l), func() []byte {
				h := ws.Header{Fin: true, OpCode: ws.OpBinary, Length: int64(l)}
				b, _ := ws.WriteHeader(&h)
				return b
			})
			put("C24", fmt.Sprint("a message of ", l), func() []byte { return protobuf.PackMessage(fmt.Sprint("t", l), pay()) })
			if l <= 125 {
				put("C22", fmt.Sprint("a ping of ", l), func() []byte { return fb(ws.NewPingFrame(pay())) })
				put("C22", fmt.Sprint("a pong of ", l), func() []byte { return fb(ws.NewPongFrame(pay())) })
			}
		}
		for _, code := range []ws.StatusCode{1000, 1002, 3000} {
			code := code
			put("C22 C23", fmt.Sprint("a close body of ", code), func() []byte { return ws.NewCloseFrameBody(code, "why") })
			put("C22 C23", fmt.Sprint("a close frame of ", code), func() []byte { return fb(ws.NewCloseFrame(ws.NewCloseFrameBody(code, ""))) })
		}
		put("C22 C23", "an empty close frame", func() []byte { return fb(ws.NewCloseFrame(nil)) })
		for i, a := range es {
			for j, b := range es {
				for m := 0; m < 2; m++ {
					if !e.Begin("%s, then %s, change=%d", a.name, b.name, m) {
						return
					}
					x := a.f()
					keep := append([]byte(nil), x...)
					y := b.f()
					ykeep := append([]byte(nil), y...)
					chk(a.tag, bytes.Equal(x, keep), "%s changed when %s was encoded", a.name, b.name)
					if m == 1 { // the first is overwritten by its owner
						for k := range x {
							x[k] = ^x[k]
						}
						chk(a.tag, bytes.Equal(y, ykeep), "%s changed when the bytes of %s were changed", b.name, a.name)
						chk(a.tag, bytes.Equal(a.f(), keep), "%s is encoded differently after its first encoding was changed", a.name)
					}
					e.State(uint64(i)<<16 | uint64(j)<<1 | uint64(m))
				}
			}
		}
	}})
	add(&Scen{Props: "C22", Name: "ws-header-too-long", Enum: func(e *Enum) {
		// the most significant bit of a 64-bit length must be 0
		for b1 := 0; b1 < 2; b1++ {
			for top := 0x80; top < 256; top++ {
				if !e.Begin("top=%02x masked=%d", top, b1) {
					return
				}
				enc := append([]byte{0x82, 0x7f | byte(b1<<7), byte(top), 0, 0, 0, 0, 0, 0, 1}, 1, 2, 3, 4, 'p')
				_, err, _ := headerAt(enc, top%16)
				if err == nil || err == ws.ErrHeaderNotReady {
					e.Bad("the header %x with the top length bit set is not rejected: %v", enc, err)
				}
				e.State(uint64(b1*256 + top))
			}
		}
	}})
	add(&Scen{Props: "C22", Name: "ws-cipher", Enum: func(e *Enum) {
		mk := [][4]byte{{1, 2, 4, 8}, {0xff, 0x80, 0x01, 0x00}, {0, 0, 0, 0}, {0x5a, 0xa5, 0x3c, 0xc3}}
		buf := make([]byte, 300)
		for n := 0; n <= 150; n++ {
			for off := 0; off <= 20; off++ {
				for al := 0; al < 8; al++ {
					for mi, m := range mk {
						if !e.Begin("cipher n=%d offset=%d alignment=%d mask=%d", n, off, al, mi) {
							return
						}
						o := off
						if off > 16 {
							o = []int{1<<31 - 2, 1<<31 + 1, 1<<40 + 3, 1000003}[off-17]
						}
						for i := range buf {
							buf[i] = byte(i*7 + 3)
						}
						p := buf[16+al : 16+al+n]
						ws.Cipher(p, m, o)
						for i := range buf {
							w := byte(i*7 + 3)
							if k := i - 16 - al; k >= 0 && k < n {
								w ^= m[(o+k)%4]
							}
							if buf[i] != w {
								e.Bad("Cipher of %d bytes at offset %d with mask %x: byte %d of the payload is %02x, expected %02x", n, o, m, i-16-al, buf[i], w)
								return
							}
						}
						ws.Cipher(p, m, o)
						for i := range buf {
							if buf[i] != byte(i*7+3) {
								e.Bad("Cipher applied twice does not give the payload back (%d bytes, offset %d, mask %x)", n, o, m)
								return
							}
						}
						e.State(uint64(n)<<16 | uint64(off)<<8 | uint64(al)<<4 | uint64(mi))
					}
				}
			}
		}
		for _, n := range []int{255, 256, 257, 1023, 4096, 4099, 65535, 65536, 65543} {
			for off := 0; off < 4; off++ {
				if !e.Begin("cipher long n=%d offset=%d", n, off) {
					return
				}
				p := make([]byte, n+16)
				ws.Cipher(p[8:8+n], mk[0], off)
				for i := range p {
					w := byte(0)
					if i >= 8 && i < 8+n {
						w = mk[0][(i-8+off)%4]
					}
					if p[i] != w {
						e.Bad("Cipher of %d bytes at offset %d: byte %d is %02x, expected %02x", n, off, i-8, p[i], w)
						return
					}
				}
				e.State(uint64(n)<<32 | uint64(off))
			}
		}
	}})
	add(&Scen{Props: "C22 C21 C23", Name: "ws-frame-bytes", Enum: func(e *Enum) {
		mk := []struct {
			name string
			b0   byte
			f    func([]byte) ([]byte, error)
		}{
			{"text", 0x81, func(p []byte) ([]byte, error) { return ws.FrameToBytes(ws.NewTextFrame(p)) }},
			{"binary", 0x82, func(p []byte) ([]byte, error) { return ws.FrameToBytes(ws.NewBinaryFrame(p)) }},
			{"ping", 0x89, func(p []byte) ([]byte, error) { return ws.FrameToBytes(ws.NewPingFrame(p)) }},
			{"pong", 0x8a, func(p []byte) ([]byte, error) { return ws.FrameToBytes(ws.NewPongFrame(p)) }},
			{"close", 0x88, func(p []byte) ([]byte, error) { return ws.FrameToBytes(ws.NewCloseFrame(p)) }},
			{"packed text", 0x81, func(p []byte) ([]byte, error) { return util.PackData(ws.MessageText, p) }},
			{"packed binary", 0x82, func(p []byte) ([]byte, error) { return util.PackData(ws.MessageBinary, p) }},
			{"pong to ping", 0x8a, func(p []byte) ([]byte, error) { return util.HandlePing(p) }},
			{"fragment", 0x01, func(p []byte) ([]byte, error) { return ws.FrameToBytes(ws.NewFrame(ws.OpText, false, p)) }},
			{"continuation", 0x80, func(p []byte) ([]byte, error) { return ws.FrameToBytes(ws.NewFrame(ws.OpContinuation, true, p)) }},
		}
		all := bytes.Repeat([]byte("0123456789abcdef-"), 5000)
		var lens []int
		for n := 0; n <= 400; n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 65534, 65535, 65536, 65537, 70001)
		for _, m := range mk {
			for _, n := range lens {
				if m.b0&8 != 0 && n > 125 {
					break
				}
				if !e.Begin("%s frame of %d bytes", m.name, n) {
					return
				}
				p := append([]byte(nil), all[:n]...)
				got, err := m.f(p)
				want := rawFrame(m.b0, false, 0, all[:n])
				if err != nil || !bytes.Equal(got, want) {
					e.Bad("%s frame of %d bytes begins with %x (%d bytes, %v), expected %x (%d bytes)", m.name, n, got[:min0(16, len(got))], len(got), err, want[:min0(16, len(want))], len(want))
					return
				}
				if !bytes.Equal(p, all[:n]) {
					e.Bad("encoding changed the payload")
				}
				e.State(uint64(m.b0)<<32 | uint64(n))
			}
		}
		// every opcode, final or not
		for op := 0; op < 16; op++ {
			for fin := 0; fin < 2; fin++ {
				for _, n := range []int{0, 1, 125, 126, 65536} {
					if !e.Begin("NewFrame op=%d fin=%d of %d bytes", op, fin, n) {
						return
					}
					p := append([]byte(nil), all[:n]...)
					got, err := ws.FrameToBytes(ws.NewFrame(ws.OpCode(op), fin == 1, p))
					if want := rawFrame(byte(fin<<7|op), false, 0, p); err != nil || !bytes.Equal(got, want) {
						e.Bad("NewFrame(%d, %v) of %d bytes begins with %x, expected %x", op, fin == 1, n, got[:min0(4, len(got))], want[:min0(4, len(want))])
						return
					}
				}
			}
		}
		// masked frames as a client would make them
		for _, n := range lens {
			if !e.Begin("masked frame of %d bytes", n) {
				return
			}
			p := append([]byte(nil), all[:n]...)
			ws.Cipher(p, wsMask, 0)
			got, err := ws.FrameToBytes(&ws.Frame{Header: ws.Header{Fin: true, OpCode: ws.OpText, Masked: true, Mask: wsMask, Length: int64(n)}, Payload: p})
			if err != nil || !bytes.Equal(got, rawFrame(0x81, true, 0, all[:n])) {
				e.Bad("masked frame of %d bytes is wrong", n)
			}
		}
		for _, code := range []int{0, 1000, 1001, 3000, 4999, 65535} {
			for n := 0; n <= 200; n++ {
				if !e.Begin("close body code=%d reason=%d", code, n) {
					return
				}
				b := ws.NewCloseFrameBody(ws.StatusCode(code), string(all[:n]))
				want := append(closeBody(code, ""), all[:min0(n, 123)]...)
				if !bytes.Equal(b, want) {
					e.Bad("NewCloseFrameBody(%d, %d bytes) = %x, expected %x", code, n, b, want)
				}
				if n <= 123 {
					c, r := ws.ParseCloseFrameData(b)
					if int(c) != code || r != string(all[:n]) {
						e.Bad("ParseCloseFrameData gives %d %q, the body has %d %q", c, r, code, all[:n])
					}
					if p, err := util.PackCloseData(string(all[:n])); err != nil || !bytes.Equal(p, rawFrame(0x88, false, 0, closeBody(1000, string(all[:n])))) {
						e.Bad("PackCloseData(%q) = %x, %v", all[:n], p, err)
					}
				}
			}
		}
	}})

	// every close code with reasons of all kinds
	reasons := []string{"", "x", "bye", "h\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", strings.Repeat("a", 123), strings.Repeat("\xc3\xa9", 61),
		"\xff", "a\xc3", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "ok\x80", strings.Repeat("a", 122) + "\xc3", "\xf0\x9f\x98", "\xe2\x82x"}
	// what the code says about status codes and opcodes
	add(&Scen{Props: "C23", Name: "ws-code-classes", Enum: func(e *Enum) {
		for c := 0; c < 65536; c++ {
			if !e.Begin("code %d", c) {
				return
			}
			s := ws.StatusCode(c)
			reserved := c == 1005 || c == 1006 || c == 1015
			for _, t := range []struct {
				name      string
				got, want bool
			}{
				{"Empty", s.Empty(), c == 0},
				{"IsNotUsed", s.IsNotUsed(), c <= 999},
				{"IsProtocolSpec", s.IsProtocolSpec(), 1000 <= c && c <= 2999},
				{"IsApplicationSpec", s.IsApplicationSpec(), 3000 <= c && c <= 3999},
				{"IsPrivateSpec", s.IsPrivateSpec(), 4000 <= c && c <= 4999},
				{"IsProtocolReserved", s.IsProtocolReserved(), reserved},
				{"IsProtocolDefined", s.IsProtocolDefined(), reserved || 1000 <= c && c <= 1003 || 1007 <= c && c <= 1011},
			} {
				if t.got != t.want {
					e.Bad("%s of close code %d is %v", t.name, c, t.got)
					return
				}
			}
			e.State(uint64(c))
		}
	}})
	add(&Scen{Props: "C22 C21", Name: "ws-opcode-classes", Enum: func(e *Enum) {
		for c := 0; c < 16; c++ {
			if !e.Begin("opcode %d", c) {
				return
			}
			o := ws.OpCode(c)
			if o.IsControl() != (c >= 8) || o.IsData() != (c < 8) || o.IsReserved() != (c > 2 && c < 8 || c > 10) {
				e.Bad("opcode %d: control %v, data %v, reserved %v", c, o.IsControl(), o.IsData(), o.IsReserved())
				return
			}
			for r := 0; r < 8; r++ {
				h := ws.Header{Rsv: byte(r)}
				if h.Rsv1() != (r&4 != 0) || h.Rsv2() != (r&2 != 0) || h.Rsv3() != (r&1 != 0) {
					e.Bad("reserved bits %d: %v %v %v", r, h.Rsv1(), h.Rsv2(), h.Rsv3())
					return
				}
			}
			e.State(uint64(c))
		}
	}})
	add(&Scen{Props: "C23", Name: "ws-close-codes", Enum: func(e *Enum) {
		for code := 0; code < 65536; code++ {
			for ri, reason := range reasons {
				if code > 5100 && code < 65500 && ri > 9 {
					break
				}
				if !e.Begin("close code=%d reason=%d", code, ri) {
					return
				}
				body := closeBody(code, reason)
				keep := string(body)
				h := &ws.Header{Fin: true, OpCode: ws.OpClose, Masked: ri&1 == 0, Length: int64(len(body))}
				out, err := util.HandleClose(h, body)
				if err != nil {
					e.Bad("HandleClose(%d, %q): %v", code, reason, err)
					return
				}
				if string(body) != keep {
					e.Bad("HandleClose changed the payload")
				}
				if m := judgeClose(code, reason, out); m != "" {
					e.Bad("the reply to close %d %q is %x: %s", code, reason, out, m)
					return
				}
				e.State(uint64(code)<<8 | uint64(ri))
			}
		}
		// close frames longer than a control frame may be
		for _, code := range []int{0, 1000, 1005, 2000, 3000, 4999, 5000, 65535} {
			for _, n := range []int{121, 122, 123, 124, 125, 126, 127, 128, 200, 255, 256, 300, 65535, 65536, 70000} {
				for _, unit := range []string{"a", "\xc3\xa9", "\xff", "a|\xff", "a|\xc3", "\xe2\x82\xac"} {
					if !e.Begin("close code=%d with %d bytes of %q", code, n, unit) {
						return
					}
					var reason string
					if u, end, ok := strings.Cut(unit, "|"); ok {
						reason = strings.Repeat(u, n-1) + end
					} else {
						reason = strings.Repeat(unit, n)[:n]
					}
					body := closeBody(code, reason)
					out, err := util.HandleClose(&ws.Header{Fin: true, OpCode: ws.OpClose, Length: int64(len(body))}, body)
					fs, rest, bad := parseSrv(out)
					if err != nil || bad != "" || len(rest) > 0 || len(fs) != 1 || fs[0].b0 != 0x88 || len(fs[0].payload) < 2 || len(fs[0].payload) > 125 {
						e.Bad("the reply to a close of code %d with %d bytes of %q is %x, %v", code, n, unit, out, err)
						return
					}
					got := int(binary.BigEndian.Uint16([]byte(fs[0].payload)))
					if got != 1002 && (got != code || codeAllowed(code) == 0 || !utf8.ValidString(reason)) {
						e.Bad("the reply to a close of code %d with %d bytes of %q has code %d", code, n, unit, got)
						return
					}
				}
			}
		}
		for n := 0; n < 2; n++ {
			if !e.Begin("close body of %d bytes", n) {
				return
			}
			out, err := util.HandleClose(&ws.Header{Fin: true, OpCode: ws.OpClose, Length: int64(n)}, []byte("\x03")[:n])
			fs, rest, bad := parseSrv(out)
			want := []srvFrame{{0x88, ""}}
			if n == 1 {
				want[0].payload = "!1002"
			}
			if err != nil || bad != "" || len(rest) > 0 || !sameFrames(fs, want) {
				e.Bad("the reply to a close with a body of %d bytes is %x, %v", n, out, err)
			}
		}
	}})
	// and over a connection: every code class, reason and cut
	add(&Scen{Props: "C23", Name: "ws-close-served", Steps: 4000000, Body: func() {
		vkern.Reset()
		sizes(256)
		h := &wsH{}
		g := newWS(h, &ws.Upgrader{})
		g.start()
		codes := []int{0, 1, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1014, 1015, 1016, 1100, 2000, 2999, 3000, 3999, 4000, 4999}
		code := codes[vs.ChooseFree(len(codes), "code")]
		masked := vs.ChooseFree(2, "masked") == 0
		for _, reason := range reasons {
			b := rawFrame(0x88, masked, 0, closeBody(code, reason))
			for _, k := range []int{len(b), 1, 2, 5, 6, 7, 8, len(b) - 1} {
				if k > len(b) || k < 1 {
					continue
				}
				c := upgrade(g, "w")
				vs.Serial(true)
				c.Send(b[:k])
				vs.WaitQuiescent()
				if k < len(b) {
					c.Drain()
					chk("C23", len(c.Got) == 0 && !c.Gone(), "a partial close frame was answered with %x", c.Got)
					c.Send(b[k:])
					vs.WaitQuiescent()
				}
				c.Drain()
				m := judgeClose(code, reason, c.Got)
				chk("C23", m == "", "the reply to close %d %q is %x: %s", code, reason, c.Got, m)
				chk("C23", c.GotEOF, "no end of stream after the close reply")
				chk("C23", len(h.of(c).msgs) == 0, "a close frame was delivered to the application")
				c.Close()
				vs.WaitQuiescent()
			}
		}
		g.finish()
	}})
}

// codeAllowed says whether RFC 6455 lets an endpoint send the code: 1 yes, 0 no,
// -1 unsaid.
func codeAllowed(code int) int {
	switch {
	case code < 1000 || code == 1004 || code == 1005 || code == 1006 || code == 1015:
		return 0
	case code <= 1011:
		return 1
	case code < 3000:
		return 0 // not defined by the RFC
	case code < 5000:
		return 1
	}
	return -1
}

func judgeClose(code int, reason string, out []byte) string {
	fs, rest, bad := parseSrv(out)
	if bad != "" || len(rest) > 0 || len(fs) != 1 {
		return fmt.Sprintf("not one frame: %v %q %s", fs, rest, bad)
	}
	f := fs[0]
	if f.b0 != 0x88 {
		return "not a final close frame"
	}
	if len(f.payload) > 125 {
		return "longer than 125 bytes"
	}
	if len(f.payload) < 2 {
		return "no code"
	}
	got := int(binary.BigEndian.Uint16([]byte(f.payload)))
	echo := f.payload == string(closeBody(code, reason))
	al := codeAllowed(code)
	if !utf8.ValidString(reason) {
		al = 0
	}
	if al == 1 && !echo {
		return "code and reason are not echoed"
	}
	if al == 0 && got != 1002 {
		return "expected code 1002"
	}
	if al == -1 && !echo && got != 1002 {
		return "neither echoed nor 1002"
	}
	if got == 1002 && !echo && !utf8.ValidString(f.payload[2:]) {
		return "the reason is not UTF-8"
	}
	return ""
}

func min0(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var _ = gev.Address
