// Package rapp is an application as its author would write it, without locks:
// each handler touches only the state of its own connection and of its loop.
// Unlike the harness it is compiled with race instrumentation.
package rapp

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/ringbuffer"
)

// State belongs to one connection.
type State struct {
	n, sum   int
	last     []byte
	unpacked int
	packed   int
	closed   bool
}

// Handler is the application. Pub hands a connection to other goroutines.
type Handler struct {
	Pub   func(c *gev.Connection)
	Reply bool
}

func loopState(c *gev.Connection) {
	if b := c.UserBuffer(); len(*b) > 0 {
		(*b)[0]++
	}
}

func (h *Handler) OnConnect(c *gev.Connection) {
	s := &State{}
	c.SetContext(s)
	s.n = 1
	loopState(c)
	h.Pub(c)
}

func (h *Handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	s := c.Context().(*State)
	s.n++
	for _, b := range data {
		s.sum += int(b)
	}
	s.last = append(s.last[:0], data...)
	loopState(c)
	if !h.Reply {
		return nil
	}
	return append([]byte(nil), data...)
}

func (h *Handler) OnClose(c *gev.Connection) {
	s := c.Context().(*State)
	s.closed = true
	s.n = -s.n
	s.last = nil
	loopState(c)
}

// Proto is a protocol that keeps state with the connection.
type Proto struct{ gev.DefaultProtocol }

func (p *Proto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	if s, ok := c.Context().(*State); ok {
		s.unpacked++
	}
	return p.DefaultProtocol.UnPacket(c, b)
}

func (p *Proto) Packet(c *gev.Connection, data interface{}) []byte {
	if s, ok := c.Context().(*State); ok {
		s.packed++
	}
	return p.DefaultProtocol.Packet(c, data)
}

// Fin is a completion callback that touches the connection's state.
func Fin(c *gev.Connection) func(interface{}) {
	return func(d interface{}) {
		if s, ok := c.Context().(*State); ok {
			s.n++
		}
		_ = d
	}
}
