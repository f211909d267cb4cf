package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/gev/plugins/websocket/ws/util"

	"gevmc/vkern"
	"gevmc/vs"
)

// ---------- reference encoding ----------

const wsKey = "dGhlIHNhbXBsZSBub25jZQ=="
const wsAccept = "s3pPLMBiTxaQ9kYGzzhZRbK+xOo="

const wsReq = "GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " + wsKey + "\r\n\r\n"

var wsMask = [4]byte{0x11, 0xa2, 0x00, 0x7f}

// rawFrame encodes a frame; form is the width of the length field: 7, 16, 64
// bits, or 0 for the shortest.
func rawFrame(b0 byte, masked bool, form int, payload []byte) []byte {
	n := len(payload)
	if form == 0 {
		form = 7
		if n > 125 {
			form = 16
		}
		if n > 65535 {
			form = 64
		}
	}
	var m byte
	if masked {
		m = 0x80
	}
	out := []byte{b0}
	switch form {
	case 7:
		out = append(out, m|byte(n))
	case 16:
		out = append(out, m|126, byte(n>>8), byte(n))
	default:
		out = append(out, m|127)
		out = binary.BigEndian.AppendUint64(out, uint64(n))
	}
	if masked {
		out = append(out, wsMask[:]...)
		for i, c := range payload {
			out = append(out, c^wsMask[i&3])
		}
		return out
	}
	return append(out, payload...)
}

func mtext(s string) []byte { return rawFrame(0x81, true, 0, []byte(s)) }

type srvFrame struct {
	b0      byte
	payload string
}

func (f srvFrame) String() string {
	p := f.payload
	if len(p) > 40 {
		p = fmt.Sprintf("%s…(%d)", p[:20], len(p))
	}
	return fmt.Sprintf("%02x:%q", f.b0, p)
}

// parseSrv decodes what a server sends: unmasked frames in shortest form.
func parseSrv(b []byte) (fs []srvFrame, rest []byte, bad string) {
	for len(b) >= 2 {
		n, h := int(b[1]&0x7f), 2
		if b[1]&0x80 != 0 {
			return fs, b, "a masked frame"
		}
		if n == 126 {
			if len(b) < 4 {
				break
			}
			n, h = int(binary.BigEndian.Uint16(b[2:])), 4
			if n < 126 {
				return fs, b, "a length that is not in the shortest form"
			}
		} else if n == 127 {
			if len(b) < 10 {
				break
			}
			n, h = int(binary.BigEndian.Uint64(b[2:])), 10
			if n < 65536 {
				return fs, b, "a length that is not in the shortest form"
			}
		}
		if len(b) < h+n {
			break
		}
		fs = append(fs, srvFrame{b[0], string(b[h : h+n])})
		b = b[h+n:]
	}
	return fs, b, ""
}

// ---------- server ----------

type wsRec struct {
	c      *gev.Connection
	peer   *vkern.Conn
	con    int
	cls    int
	msgs   []string
	echoed []srvFrame
}

type wsH struct {
	recs []*wsRec
	// echo chooses the reply to message number n
	echo func(n int, msg string) (ws.MessageType, []byte)
}

func (h *wsH) rec(c *gev.Connection) *wsRec {
	for _, r := range h.recs {
		if r.c == c {
			return r
		}
	}
	r := &wsRec{c: c, peer: peerOf(c)}
	h.recs = append(h.recs, r)
	return r
}

func (h *wsH) of(p *vkern.Conn) *wsRec {
	for _, r := range h.recs {
		if r.peer == p {
			return r
		}
	}
	return &wsRec{}
}

func (h *wsH) OnConnect(c *gev.Connection) {
	if !vs.Killing() {
		h.rec(c).con++
	}
}

func (h *wsH) OnClose(c *gev.Connection) {
	if !vs.Killing() {
		h.rec(c).cls++
	}
}

func (h *wsH) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	if vs.Killing() {
		return ws.MessageText, nil
	}
	r := h.rec(c)
	r.msgs = append(r.msgs, string(msg))
	if h.echo != nil {
		t, out := h.echo(len(r.msgs)-1, string(msg))
		if len(out) > 0 {
			b0 := byte(0x81)
			if t == ws.MessageBinary {
				b0 = 0x82
			}
			r.echoed = append(r.echoed, srvFrame{b0, string(out)})
		}
		return t, out
	}
	return ws.MessageText, nil
}

// altEcho echoes, alternating between text and binary.
func altEcho(n int, msg string) (ws.MessageType, []byte) {
	t := ws.MessageText
	if n&1 == 1 {
		t = ws.MessageBinary
	}
	return t, []byte("=" + msg)
}

// newWS makes a websocket server on a fresh kernel.
func newWS(h *wsH, u *ws.Upgrader, opts ...gev.Option) *Rig {
	g := &Rig{H: &H{}, noRec: true}
	o := []gev.Option{gev.Address(addr), gev.NumLoops(1), gev.CustomProtocol(websocket.New(u))}
	s, err := gev.NewServer(websocket.NewHandlerWrap(u, h), append(o, opts...)...)
	if err != nil {
		vs.Fail("NewServer: %v", err)
	}
	g.s = s
	return g
}

// upgrade connects and shakes hands (serially).
func upgrade(g *Rig, name string) *vkern.Conn {
	vs.Serial(true)
	c := vkern.Connect(addr, name)
	c.Send([]byte(wsReq))
	vs.WaitQuiescent()
	c.Drain()
	if !strings.HasPrefix(string(c.Got), "HTTP/1.1 101 ") {
		vs.Fail("a good upgrade request was answered with %q", c.Got)
	}
	c.Got = nil
	vs.Serial(false)
	return c
}

// wsStream is a byte stream after the handshake and the messages in it.
type wsStream struct {
	name    string
	b       []byte
	want    []string
	invalid bool // ends in an invalid header: the connection cannot go on
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

func wsStreams() []wsStream {
	t := func(s string, masked bool, form int) []byte { return rawFrame(0x81, masked, form, []byte(s)) }
	bin := func(s string, masked bool, form int) []byte { return rawFrame(0x82, masked, form, []byte(s)) }
	msb := []byte{0x82, 0x7f, 0x80, 0, 0, 0, 0, 0, 0, 1}
	msbm := append([]byte{0x82, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 1}, wsMask[:]...)
	return []wsStream{
		{"two", cat(t("ab", true, 7), bin("c", false, 7)), []string{"ab", "c"}, false},
		{"len16", cat(bin("abc", true, 16), t("d", false, 16)), []string{"abc", "d"}, false},
		{"len64", cat(t("ab", true, 64)), []string{"ab"}, false},
		{"empty", cat(t("", true, 7), t("", false, 7), t("x", true, 7)), []string{"", "", "x"}, false},
		{"empty-wide", cat(t("", true, 16), bin("", false, 16), t("z", false, 7)), []string{"", "", "z"}, false},
		{"empty-64", cat(t("", false, 64), t("z", false, 7)), []string{"", "z"}, false},
		{"empty-64-masked", bin("", true, 64), []string{""}, false},
		{"part", cat(t("wxyz", false, 7), t("abcd", true, 7)[:9]), []string{"wxyz"}, false},
		{"fragments", cat(rawFrame(0x01, true, 7, []byte("a")), rawFrame(0x80, true, 7, []byte("b"))), []string{"a", "b"}, false},
		{"fragments-empty", cat(rawFrame(0x02, true, 7, nil), rawFrame(0x00, false, 7, nil), rawFrame(0x80, true, 7, nil)), []string{"", "", ""}, false},
		{"fragments-4", cat(rawFrame(0x02, true, 7, nil), rawFrame(0x00, true, 7, []byte("m")), rawFrame(0x80, false, 7, nil)), []string{"", "m", ""}, false},
		{"invalid", cat(t("a", false, 7), msb, t("b", false, 7)), []string{"a"}, true},
		{"invalid-masked", cat(msbm, t("b", false, 7)), nil, true},
	}
}

// wsDue is the number of complete data frames in b, up to an invalid header.
func wsDue(b []byte) (n int) {
	for len(b) >= 2 {
		op, h, l := b[0]&15, 2, int(b[1]&127)
		switch l {
		case 126:
			if len(b) < 4 {
				return
			}
			h, l = 4, int(b[2])<<8|int(b[3])
		case 127:
			if len(b) < 10 || b[2]&0x80 != 0 {
				return
			}
			h, l = 10, int(binary.BigEndian.Uint64(b[2:]))
		}
		if b[1]&128 != 0 {
			h += 4
		}
		if l > len(b)-h {
			return
		}
		if b = b[h+l:]; op < 8 {
			n++
		}
	}
	return
}

// wsFeed sends s cut as mask says, quiescing after each piece, and checks the
// result.
func wsFeed(g *Rig, h *wsH, st wsStream, cut func(i int) bool) {
	c := upgrade(g, "w")
	vs.Serial(true)
	last := 0
	for i := 1; i <= len(st.b); i++ {
		if i == len(st.b) || cut(i) {
			c.Send(st.b[last:i])
			last = i
			vs.WaitQuiescent()
			r := h.of(c)
			if len(r.msgs) > len(st.want) {
				break
			}
			// what is complete is delivered, not kept for the next piece
			chk("C19", len(r.msgs) == wsDue(st.b[:i]), "%s: of the %d messages complete in the first %d bytes %d were delivered", st.name, wsDue(st.b[:i]), i, len(r.msgs))
		}
	}
	r := h.of(c)
	chk("C19", strings.Join(r.msgs, "|") == strings.Join(st.want, "|") && len(r.msgs) == len(st.want), "%s: the application got %q, the stream contains %q", st.name, r.msgs, st.want)
	if st.invalid {
		chk("C19 C25", c.Gone() && r.cls == 1, "%s: after an invalid header the connection is neither usable nor closed", st.name)
	} else {
		chk("C19 C25", !c.Gone(), "%s: the connection was closed", st.name)
		c.Drain()
		fs, rest, bad := parseSrv(c.Got)
		chk("C19 C21", bad == "" && len(rest) == 0 && fmt.Sprint(fs) == fmt.Sprint(r.echoed), "%s: the client got %v rest %q %s, expected %v", st.name, fs, rest, bad, r.echoed)
		c.Close()
		vs.WaitQuiescent()
	}
}

func init() {
	for _, st := range wsStreams() {
		st := st
		low := len(st.b) - 1
		hi := 0
		if low > 7 {
			hi, low = low-7, 7
		}
		for _, ps := range []int{64, 5} {
			ps := ps
			thor := ps == 5 && len(st.b) > 12
			add(&Scen{Props: "C19 C25", Name: fmt.Sprintf("ws-all-cuts-%s-%d", st.name, ps), Steps: 1000000, Thorough: thor, Body: func() {
				vkern.Reset()
				sizes(ps)
				h := &wsH{echo: altEcho}
				g := newWS(h, &ws.Upgrader{})
				g.start()
				m := vs.ChooseFree(1<<hi, "cuts")
				for k := 0; k < 1<<low; k++ {
					h.recs = nil
					wsFeed(g, h, st, func(i int) bool { return (m<<low|k)>>(i-1)&1 == 1 })
				}
				g.finish()
			}})
		}
	}
	// lengths at the borders of the length forms, cut at up to two places
	for _, l := range []int{124, 125, 126, 127, 200} {
		l := l
		pay := make([]byte, l)
		for i := range pay {
			pay[i] = byte('a' + i%23)
		}
		st := wsStream{fmt.Sprint("long-", l), cat(mtext("x"), rawFrame(0x82, true, 0, pay), rawFrame(0x81, false, 0, pay), mtext("y")), []string{"x", string(pay), string(pay), "y"}, false}
		add(&Scen{Props: "C19", Name: fmt.Sprintf("ws-cuts-%d", l), Steps: 1000000, Body: func() {
			vkern.Reset()
			sizes([]int{64, 37}[vs.ChooseFree(2, "packet size")])
			h := &wsH{echo: altEcho}
			g := newWS(h, &ws.Upgrader{})
			g.start()
			d := 4 << uint(vs.ChooseFree(3, "distance"))
			for i := 1; i < len(st.b); i++ {
				h.recs = nil
				wsFeed(g, h, st, func(k int) bool { return k == i || k == i+d })
			}
			g.finish()
		}})
	}
	for _, l := range []int{65535, 65536, 70000} {
		l := l
		add(&Scen{Props: "C19", Name: fmt.Sprintf("ws-long-%d", l), Steps: 1000000, Body: func() {
			pay := bytes.Repeat([]byte("0123456789abcdefg"), l/17+1)[:l]
			st := wsStream{fmt.Sprint("long-", l), cat(mtext("x"), rawFrame(0x82, true, 0, pay), rawFrame(0x81, false, 0, pay), mtext("y")), []string{"x", string(pay), string(pay), "y"}, false}
			vkern.Reset()
			sizes([]int{65536, 4096, 70010}[vs.ChooseFree(3, "packet size")])
			h := &wsH{echo: altEcho}
			g := newWS(h, &ws.Upgrader{})
			g.start()
			places := []int{1, 7, 8, 9, 10, 12, 16, 17, 18, 20, 21, 22, 7 + 65536, l + 10, l + 15, l + 21, l + 22, l + 30}
			p := places[vs.ChooseFree(len(places), "cut")]
			d := []int{1 << 30, 1, l + 14}[vs.ChooseFree(3, "second")]
			wsFeed(g, h, st, func(k int) bool { return k == p || k == p+d })
			g.finish()
		}})
	}
	// frames directly behind the handshake, cut anywhere near its end
	add(&Scen{Props: "C19 C20", Name: "ws-behind-handshake", Steps: 1000000, Body: func() {
		vkern.Reset()
		ps := []int{8, 64, 512}[vs.ChooseFree(3, "packet size")]
		sizes(ps)
		h := &wsH{echo: altEcho}
		g := newWS(h, &ws.Upgrader{})
		g.start()
		vs.Serial(true)
		st := wsStreams()[vs.ChooseFree(7, "stream")]
		all := append([]byte(wsReq), st.b...)
		for i := len(wsReq) - 6; i < len(all); i++ {
			for _, d := range []int{1, 2, 3, 5, 1000} {
				h.recs = nil
				c := vkern.Connect(addr, "w")
				last := 0
				for _, e := range []int{i, i + d, len(all)} {
					if e > last && e <= len(all) {
						c.Send(all[last:e])
						last = e
						vs.WaitQuiescent()
					}
				}
				r := h.of(c)
				chk("C19 C20", fmt.Sprintf("%q", r.msgs) == fmt.Sprintf("%q", st.want), "%s behind the handshake: the application got %q, the stream contains %q", st.name, r.msgs, st.want)
				c.Drain()
				i := bytes.Index(c.Got, []byte("\r\n\r\n"))
				chk("C19 C20", i > 0 && strings.HasPrefix(string(c.Got), "HTTP/1.1 101 "), "the handshake was answered with %q", c.Got)
				if i > 0 {
					fs, rest, bad := parseSrv(c.Got[i+4:])
					chk("C19 C20", bad == "" && len(rest) == 0 && fmt.Sprint(fs) == fmt.Sprint(r.echoed), "%s: the client got %v rest %q %s, expected %v", st.name, fs, rest, bad, r.echoed)
				}
				c.Close()
				vs.WaitQuiescent()
			}
		}
		g.finish()
	}})
	// messages with replies and backpressure in all schedules
	add(&Scen{Props: "C19 C21", Name: "ws-sched", Pre: 2, Steps: 20000, Body: func() {
		vkern.Reset()
		sizes(64)
		vkern.K.TxCap = 160
		h := &wsH{echo: altEcho}
		g := newWS(h, &ws.Upgrader{})
		g.start()
		c := upgrade(g, "w")
		c.SetTxCap(7)
		st := cat(mtext("ab"), rawFrame(0x89, true, 7, []byte("p")), rawFrame(0x82, true, 16, []byte("cde")), mtext("f"))
		k := 1 + vs.ChooseFree(len(st)-1, "cut")
		vs.Go("sender", func() {
			c.Send(st[:k])
			c.Send(st[k:])
		})
		vs.Go("reader", func() { c.RecvN(5 + 3 + 6 + 4) })
		quiesce()
		fs, rest, bad := parseSrv(c.Got)
		want := []srvFrame{{0x81, "=ab"}, {0x8a, "p"}, {0x82, "=cde"}, {0x81, "=f"}}
		chk("C19 C21", bad == "" && len(rest) == 0 && fmt.Sprint(fs) == fmt.Sprint(want), "the client got %v rest %q %s, expected %v", fs, rest, bad, want)
		chk("C19", fmt.Sprint(h.of(c).msgs) == "[ab cde f]", "the application got %q", h.of(c).msgs)
		g.finish()
	}})
	// two connections with interleaved segments do not disturb each other
	add(&Scen{Props: "C19", Name: "ws-two-conns", Steps: 40000, Body: func() {
		vkern.Reset()
		sizes(64)
		h := &wsH{echo: altEcho}
		g := newWS(h, &ws.Upgrader{})
		g.start()
		a, b := upgrade(g, "a"), upgrade(g, "b")
		vs.Serial(true)
		// a closed one has given its header buffer back
		x := upgrade(g, "x")
		x.Send([]byte{0x81})
		vs.WaitQuiescent()
		x.Close()
		vs.WaitQuiescent()
		vs.Serial(true)
		sa, sb := cat(mtext("ab"), rawFrame(0x82, true, 16, []byte("q"))), cat(rawFrame(0x82, true, 16, []byte("xyz")), mtext("w"))
		i, j, n := 0, 0, 2+vs.ChooseFree(3, "piece")
		for i < len(sa) || j < len(sb) {
			k := 0
			if i < len(sa) && j < len(sb) {
				k = vs.ChooseFree(2, "who")
			}
			if (k == 0 || j == len(sb)) && i < len(sa) {
				e := i + n
				if e > len(sa) {
					e = len(sa)
				}
				a.Send(sa[i:e])
				i = e
			} else {
				e := j + n
				if e > len(sb) {
					e = len(sb)
				}
				b.Send(sb[j:e])
				j = e
			}
			vs.WaitQuiescent()
		}
		chk("C19", fmt.Sprint(h.of(a).msgs) == "[ab q]" && fmt.Sprint(h.of(b).msgs) == "[xyz w]", "the application got %q and %q", h.of(a).msgs, h.of(b).msgs)
		g.finish()
	}})

	wsControl()
	wsCodec()
}

// ---------- control frames ----------

// wsItem is a client frame and what it makes the server send.
type wsItem struct {
	name  string
	b     []byte
	msg   string // delivered to the application
	isMsg bool
	reply []srvFrame
	close bool
}

func closeBody(code int, reason string) []byte {
	return append([]byte{byte(code >> 8), byte(code)}, reason...)
}

func wsItems() []wsItem {
	p125 := strings.Repeat("0123456789", 12) + "01234"
	r := func(b0 byte, s string) []srvFrame { return []srvFrame{{b0, s}} }
	return []wsItem{
		{name: "text", b: mtext("ab"), msg: "ab", isMsg: true},
		{name: "binary", b: rawFrame(0x82, false, 0, []byte("c")), msg: "c", isMsg: true},
		{name: "first fragment", b: rawFrame(0x01, true, 0, []byte("f1")), msg: "f1", isMsg: true},
		{name: "last fragment", b: rawFrame(0x80, true, 0, []byte("f2")), msg: "f2", isMsg: true},
		{name: "silent", b: mtext("-"), msg: "-", isMsg: true},
		{name: "ping", b: rawFrame(0x89, true, 0, []byte("hi")), reply: r(0x8a, "hi")},
		{name: "empty ping", b: rawFrame(0x89, true, 0, nil), reply: r(0x8a, "")},
		{name: "unmasked ping", b: rawFrame(0x89, false, 0, []byte("u")), reply: r(0x8a, "u")},
		{name: "long ping", b: rawFrame(0x89, true, 0, []byte(p125)), reply: r(0x8a, p125)},
		{name: "close", b: rawFrame(0x88, true, 0, closeBody(1000, "bye")), reply: r(0x88, string(closeBody(1000, "bye"))), close: true},
		{name: "empty close", b: rawFrame(0x88, true, 0, nil), reply: r(0x88, ""), close: true},
		{name: "close app", b: rawFrame(0x88, true, 0, closeBody(4999, "")), reply: r(0x88, string(closeBody(4999, ""))), close: true},
		{name: "close bad", b: rawFrame(0x88, true, 0, closeBody(1005, "x")), reply: []srvFrame{{0x88, "!1002"}}, close: true},
		{name: "close long", b: rawFrame(0x88, true, 0, closeBody(1001, p125[:123])), reply: r(0x88, string(closeBody(1001, p125[:123]))), close: true},
	}
}

func ctlEcho(n int, msg string) (ws.MessageType, []byte) {
	if msg == "-" {
		return ws.MessageText, nil
	}
	return altEcho(n, msg)
}

// sameFrames compares; an expected close of "!1002" stands for code 1002 with any reason.
func sameFrames(got, want []srvFrame) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if want[i].payload == "!1002" {
			p := got[i].payload
			if got[i].b0 != 0x88 || len(p) < 2 || len(p) > 125 || p[:2] != "\x03\xea" {
				return false
			}
		} else if got[i] != want[i] {
			return false
		}
	}
	return true
}

// expectItems builds the stream, the messages and the reply frames of items.
func expectItems(its []wsItem) (b []byte, msgs []string, fs []srvFrame) {
	for _, it := range its {
		b = append(b, it.b...)
		if it.isMsg {
			if t, out := ctlEcho(len(msgs), it.msg); out != nil {
				b0 := byte(0x81)
				if t == ws.MessageBinary {
					b0 = 0x82
				}
				fs = append(fs, srvFrame{b0, string(out)})
			}
			msgs = append(msgs, it.msg)
		}
		fs = append(fs, it.reply...)
	}
	return
}

func wsControl() {
	items := wsItems()
	var noClose, closers []wsItem
	for _, it := range items {
		if it.close {
			closers = append(closers, it)
		} else {
			noClose = append(noClose, it)
		}
	}
	// every sequence of up to three items and a close, in one segment, frame by
	// frame and byte by byte
	for depth := 0; depth <= 3; depth++ {
		depth := depth
		add(&Scen{Props: "C21 C19", Name: fmt.Sprintf("ws-control-seq-%d", depth), Steps: 1000000, Body: func() {
			vkern.Reset()
			ps := []int{64, 512}[vs.ChooseFree(2, "packet size")]
			sizes(ps)
			h := &wsH{echo: ctlEcho}
			g := newWS(h, &ws.Upgrader{})
			g.start()
			var its []wsItem
			for i := 0; i < depth; i++ {
				its = append(its, noClose[vs.ChooseFree(len(noClose), "frame")])
			}
			for _, cl := range closers {
				for how := 0; how < 3; how++ {
					if how == 2 && depth > 1 {
						continue
					}
					h.recs = nil
					c := upgrade(g, "w")
					vs.Serial(true)
					seq := append(its[:len(its):len(its)], cl)
					b, msgs, fs := expectItems(seq)
					switch how {
					case 0:
						c.Send(b)
					case 1:
						for _, it := range seq {
							c.Send(it.b)
							vs.WaitQuiescent()
						}
					case 2:
						for i := range b {
							c.Send(b[i : i+1])
							vs.WaitQuiescent()
						}
					}
					vs.WaitQuiescent()
					c.Drain()
					got, rest, bad := parseSrv(c.Got)
					names := ""
					for _, it := range seq {
						names += it.name + ", "
					}
					chk("C21 C19", fmt.Sprintf("%q", h.of(c).msgs) == fmt.Sprintf("%q", msgs), "after %sthe application got %q, expected %q", names, h.of(c).msgs, msgs)
					chk("C21", bad == "" && len(rest) == 0 && sameFrames(got, fs), "after %sthe client got %v rest %q %s, expected %v", names, got, rest, bad, fs)
					chk("C21", c.SrvFin() && c.GotEOF && !c.GotRST, "after %sthe client did not get end of stream behind the close reply", names)
					c.Close()
					vs.WaitQuiescent()
					chk("C21", c.Gone(), "after %sand the client's end the connection is still open", names)
				}
			}
			g.finish()
		}})
	}
	// control frames with reserved opcodes are kept from the application: they are
	// passed over, or the connection is failed
	for op := 0xb; op <= 0xf; op++ {
		op := op
		add(&Scen{Props: "C21", Name: fmt.Sprintf("ws-reserved-control-%x", op), Steps: 1000000, Body: func() {
			vkern.Reset()
			sizes([]int{64, 512}[vs.ChooseFree(2, "packet size")])
			h := &wsH{echo: ctlEcho}
			g := newWS(h, &ws.Upgrader{})
			g.start()
			vs.Serial(true)
			masked := vs.ChooseFree(2, "masked") == 1
			fin := byte(vs.ChooseFree(2, "fin")) << 7
			body := []string{"", "R", "reserved"}[vs.ChooseFree(3, "body")]
			pre := vs.ChooseFree(2, "message before") == 1
			for how := 0; how < 3; how++ {
				h.recs = nil
				c := upgrade(g, "w")
				vs.Serial(true)
				var want []string
				var parts [][]byte
				if pre {
					parts = append(parts, mtext("ab"))
					want = append(want, "ab")
				}
				must := len(want)
				parts = append(parts, rawFrame(fin|byte(op), masked, 0, []byte(body)), mtext("cd"), rawFrame(0x89, true, 0, []byte("p")))
				want = append(want, "cd")
				switch how {
				case 0:
					c.Send(cat(parts...))
				case 1:
					for _, p := range parts {
						c.Send(p)
						vs.WaitQuiescent()
					}
				case 2:
					for _, x := range cat(parts...) {
						c.Send([]byte{x})
						vs.WaitQuiescent()
					}
				}
				vs.WaitQuiescent()
				got := h.of(c).msgs
				all := fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want)
				fewer := fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want[:must]) && (c.Gone() || c.SrvFin())
				chk("C21", all || fewer, "with a control frame of opcode %x the application got %q, the messages are %q", op, got, want)
				c.Drain()
				fs, _, _ := parseSrv(c.Got)
				data := 0
				for _, f := range fs {
					if f.b0&8 == 0 {
						data++
					}
				}
				chk("C21", data == len(got), "the client got %v for %q", fs, got)
				c.Close()
				vs.WaitQuiescent()
			}
			g.finish()
		}})
	}
	// the close reply and end of stream with a slow reader, in all schedules
	for _, name := range []string{"close", "empty close", "close bad"} {
		name := name
		add(&Scen{Props: "C21", Name: "ws-close-sched-" + strings.ReplaceAll(name, " ", "-"), Pre: 1, Dev: 1, Steps: 20000, Body: func() {
			vkern.Reset()
			sizes(64)
			vkern.K.TxCap = 160
			h := &wsH{echo: ctlEcho}
			g := newWS(h, &ws.Upgrader{})
			g.start()
			c := upgrade(g, "w")
			if name == "close bad" {
				c.SetTxCap(25)
			} else {
				c.SetTxCap(4 + 6*vs.ChooseFree(2, "room"))
			}
			vkern.K.F.WriteShort, vkern.K.F.WriteEAGAIN = true, true
			var its []wsItem
			for _, it := range items {
				if it.name == "text" || it.name == "ping" || it.name == name {
					its = append(its, it)
				}
			}
			b, _, fs := expectItems(its)
			k := vs.ChooseFree(3, "cut")
			vs.Go("client", func() {
				n := []int{len(b), len(b) - len(its[2].b), len(b) - 1}[k]
				c.Send(b[:n])
				if n < len(b) {
					c.Send(b[n:])
				}
				c.RecvAll()
				c.Close()
			})
			quiesce()
			got, rest, bad := parseSrv(c.Got)
			chk("C21", bad == "" && len(rest) == 0 && sameFrames(got, fs), "the client got %v rest %q %s, expected %v", got, rest, bad, fs)
			chk("C21", c.GotEOF && !c.GotRST, "the client did not get end of stream behind the close reply")
			chk("C21", c.Gone(), "the connection is still open")
			g.finish()
		}})
	}
	// the application sends from another goroutine while frames arrive
	add(&Scen{Props: "C21", Name: "ws-send-sched", Pre: 2, Steps: 20000, Body: func() {
		vkern.Reset()
		sizes(64)
		vkern.K.TxCap = 160
		h := &wsH{echo: ctlEcho}
		g := newWS(h, &ws.Upgrader{})
		g.start()
		c := upgrade(g, "w")
		c.SetTxCap(5)
		sent := 0
		vs.Go("app", func() {
			for _, s := range []string{"one", "two"} {
				d, err := util.PackData(ws.MessageBinary, []byte(s))
				if err != nil {
					vs.Fail("PackData: %v", err)
				}
				if h.of(c).c.Send(d) == nil {
					sent++
				}
			}
		})
		vs.Go("client", func() {
			c.Send(cat(rawFrame(0x89, true, 0, []byte("hi")), mtext("ab")))
			c.RecvN(4 + 5 + 5 + 5)
		})
		quiesce()
		got, rest, bad := parseSrv(c.Got)
		s := fmt.Sprint(got)
		ok := bad == "" && len(rest) == 0 && len(got) == 4 && sent == 2
		for _, o := range [][2]string{{`82:"one"`, `82:"two"`}, {`8a:"hi"`, `81:"=ab"`}} {
			a, b := strings.Index(s, o[0]), strings.Index(s, o[1])
			ok = ok && a >= 0 && b > a
		}
		chk("C21", ok, "the client got %v rest %q %s", got, rest, bad)
		g.finish()
	}})
}
