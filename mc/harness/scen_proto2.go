package main

import (
	"encoding/binary"
	"fmt"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/ringbuffer"

	"gevmc/vkern"
	"gevmc/vs"
)

// bigProto frames by a four-byte length; the context counts frames.
type bigProto struct{ n int }

func (p *bigProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	if b.Length() < 4 {
		return nil, nil
	}
	a, e := b.Peek(4)
	h := append(append([]byte{}, a...), e...)
	n := int(binary.BigEndian.Uint32(h))
	if b.Length() < 4+n {
		return nil, nil
	}
	b.Retrieve(4)
	d := make([]byte, n)
	if n > 0 {
		_, _ = b.Read(d)
	}
	p.n++
	return p.n, d
}

func (p *bigProto) Packet(c *gev.Connection, data interface{}) []byte {
	d := data.([]byte)
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(d))), d...)
}

// pattern is a string of n bytes in which no two places look alike.
func pattern(seed, n int) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func init() {
	// many frames in one read
	counts := []int{62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 16384}
	var small []int
	for i := 1; i <= 40; i++ {
		small = append(small, i)
	}
	counts = append(small, counts...)
	many := func(name string, props string, proto func() gev.Protocol, frame func(i int) []byte) {
		add(&Scen{Props: props, Name: "frames-many-" + name, NoCache: true, Body: func() {
			vkern.Reset()
			sizes(65536)
			vkern.K.TxCap = 1 << 30
			vs.Serial(true)
			n := counts[vs.ChooseFree(len(counts), "frames")]
			got, bad := 0, ""
			h := &H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} {
				if want := frame(got); string(b) != string(want) && bad == "" {
					bad = fmt.Sprintf("frame %d of %d in one segment is %q, was sent as %q", got, n, b, want)
				}
				got++
				return append([]byte(nil), b...)
			}}
			p := proto()
			g := newRig(h, withProto(p))
			g.start()
			vs.Serial(true)
			c := g.connect("a")
			vs.Serial(true)
			var s []byte
			for i := 0; i < n; i++ {
				s = append(s, p.Packet(nil, frame(i))...)
			}
			c.Send(s)
			vs.WaitQuiescent()
			chk("C02", bad == "", "%s", bad)
			chk("C02", got == n, "%d frames came in one segment, OnMessage got %d", n, got)
			for c.TryRecv(0) != nil {
			}
			vs.WaitQuiescent()
			for c.TryRecv(0) != nil {
			}
			chk("C02 C03", string(c.Got) == string(s), "the replies to %d frames in one segment differ from what OnMessage returned", n)
			if bp, ok := p.(*bigProto); ok {
				bp.n = 0
			}
			g.finish()
		}})
	}
	many("line", "C02 C16", func() gev.Protocol { return &lineProto{} }, func(i int) []byte { return []byte(fmt.Sprintf("%x", i%251)) })
	many("len", "C02 C16", func() gev.Protocol { return &bigProto{} }, func(i int) []byte { return []byte(fmt.Sprintf("%x", i%251))[:1] })
	many("empty", "C02 C16", func() gev.Protocol { return &bigProto{} }, func(i int) []byte { return nil })

	// frames as long as the buffers of a real server
	lens := []int{0, 1, 4091, 4092, 4093, 65531, 65532, 65533, 65536, 131068, 131072, 200000}
	chunks := []int{0, 65536, 65535, 65537, 1460, 16384}
	add(&Scen{Props: "C02 C16 C03", Name: "frames-big", NoCache: true, Body: func() {
		vkern.Reset()
		sizes(65536)
		eventloop.DefaultBufferSize = 4096
		vkern.K.TxCap = 1 << 30
		vs.Serial(true)
		l1 := lens[vs.ChooseFree(len(lens), "length 1")]
		l2 := lens[vs.ChooseFree(len(lens), "length 2")]
		ch := chunks[vs.ChooseFree(len(chunks), "segment")]
		if vs.ChooseFree(2, "small socket buffer") == 1 {
			vkern.K.TxCap = 50000
		}
		var got [][]byte
		h := &H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} {
			got = append(got, append([]byte(nil), b...))
			return append([]byte(nil), b...)
		}}
		g := newRig(h, withProto(&bigProto{}))
		g.start()
		vs.Serial(true)
		c := g.connect("a")
		vs.Serial(true)
		f1, f2 := pattern(1, l1), pattern(2, l2)
		pk := &bigProto{}
		s := append(pk.Packet(nil, f1), pk.Packet(nil, f2)...)
		for at := 0; at < len(s); {
			n := len(s) - at
			if ch > 0 && n > ch {
				n = ch
			}
			c.Send(s[at : at+n])
			at += n
			vs.WaitQuiescent()
			for c.TryRecv(0) != nil {
				vs.WaitQuiescent()
			}
		}
		chk("C02", len(got) == 2 && string(got[0]) == string(f1) && string(got[1]) == string(f2),
			"frames of %d and %d bytes in segments of %d bytes: OnMessage got %d frames of %v bytes", l1, l2, ch, len(got), frameLens(got))
		chk("C02 C03", string(c.Got) == string(s), "the replies of %d and %d bytes arrived as %d bytes, differing", l1, l2, len(c.Got))
		g.finish()
	}})
}

func frameLens(b [][]byte) (l []int) {
	for _, x := range b {
		l = append(l, len(x))
	}
	return
}
