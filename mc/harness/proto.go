package main

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/ringbuffer"
)

// lineProto frames by newline; it takes a frame only when it is complete.
type lineProto struct{}

func (p *lineProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	a, e := b.PeekAll()
	all := append(append([]byte{}, a...), e...)
	for i, ch := range all {
		if ch == '\n' {
			b.Retrieve(i + 1)
			return i, all[:i]
		}
	}
	return nil, nil
}

func (p *lineProto) Packet(c *gev.Connection, data interface{}) []byte {
	return append(append([]byte{}, data.([]byte)...), '\n')
}
