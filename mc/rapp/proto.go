package rapp

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/log"
	"github.com/Allenxuxu/gev/plugins/protobuf"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/gev/plugins/websocket/ws/util"
)

// WS is a websocket application that answers every message with two.
type WS struct{}

func (WS) OnConnect(c *gev.Connection) { c.SetContext(&State{}) }

func (WS) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	s := c.Context().(*State)
	s.n++
	s.last = append(s.last[:0], msg...)
	if b, err := ws.FrameToBytes(ws.NewBinaryFrame(append([]byte(nil), msg...))); err == nil {
		_ = c.Send(b)
	}
	if s.n&1 == 0 {
		return ws.MessageBinary, append([]byte("b"), msg...)
	}
	return ws.MessageText, append([]byte("t"), msg...)
}

func (WS) OnClose(c *gev.Connection) {
	s := c.Context().(*State)
	s.closed = true
}

// Upgrader has all the callbacks, which touch only the state of the connection.
func Upgrader() *ws.Upgrader {
	touch := func(c *gev.Connection, b []byte) {
		if s, ok := c.Context().(*State); ok {
			s.sum += len(b)
			s.last = append(s.last[:0], b...)
		}
	}
	return &ws.Upgrader{
		Protocol: func(b []byte) bool { return len(b) == 1 },
		OnRequest: func(c *gev.Connection, uri []byte) error {
			touch(c, uri)
			return nil
		},
		OnHeader: func(c *gev.Connection, k, v []byte) error {
			touch(c, k)
			touch(c, v)
			return nil
		},
		OnBeforeUpgrade: func(c *gev.Connection) (ws.HandshakeHeader, error) {
			touch(c, nil)
			return ws.HandshakeHeaderString("X-Own: 1\r\n"), nil
		},
	}
}

// PB is a protobuf application that answers every message with itself and keeps
// the last one.
type PB struct{}

type pbState struct {
	typ   string
	data  []byte
	frame []byte
}

func (PB) OnConnect(c *gev.Connection) { c.SetContext(&pbState{}) }

func (PB) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	s := c.Context().(*pbState)
	s.typ = ctx.(string)
	s.data = data
	s.frame = protobuf.PackMessage(s.typ+"!", data)
	return s.frame
}

func (PB) OnClose(c *gev.Connection) {
	s := c.Context().(*pbState)
	touch(s.data)
}

// Codecs are the functions that any goroutine may call on its own data.
var Codecs = []struct {
	Name string
	Do   func()
}{
	{"frames", func() {
		for _, f := range []*ws.Frame{ws.NewTextFrame(own(5)), ws.NewBinaryFrame(own(200)), ws.NewPingFrame(own(3)), ws.NewCloseFrame(ws.NewCloseFrameBody(1000, "bye"))} {
			b, _ := ws.FrameToBytes(f)
			touch(b)
			b2, _ := ws.WriteHeader(&f.Header)
			touch(b2)
			touch(b)
		}
	}},
	{"cipher", func() {
		b := own(40)
		ws.Cipher(b, [4]byte{1, 2, 3, 4}, 3)
		touch(b)
	}},
	{"control", func() {
		b, _ := util.HandlePing(own(4))
		b2, _ := util.HandlePong(own(4))
		for _, code := range []ws.StatusCode{1000, 1005, 2999, 3000} {
			body := ws.NewCloseFrameBody(code, "r\xc3\xa9")
			b3, _ := util.HandleClose(&ws.Header{Fin: true, OpCode: ws.OpClose, Length: int64(len(body))}, body)
			touch(b3)
		}
		b4, _ := util.HandleClose(&ws.Header{Fin: true, OpCode: ws.OpClose}, nil)
		touch(b)
		touch(b2)
		touch(b4)
	}},
	{"pack", func() {
		b := protobuf.PackMessage("type", own(9))
		b2 := protobuf.PackMessage("", nil)
		touch(b)
		touch(b2)
	}},
	{"log", func() {
		log.Info("i", 1)
		log.Errorf("%d", 2)
		log.Debug("d")
		log.Log("l")
		log.Logf("f")
	}},
}

func own(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

func touch(b []byte) {
	for i := range b {
		b[i]++
	}
}
