package main

import (
	"fmt"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/protobuf"
	"github.com/Allenxuxu/gev/plugins/websocket"

	"gevmc/rapp"
	"gevmc/vkern"
	"gevmc/vs"
)

// Races between connections: what two loops do at the same time for two
// connections with nothing in common must not meet anywhere.

var raceCodecProps = map[string]string{"frames": "C22", "cipher": "C22", "control": "C23 C21", "pack": "C24", "log": "C28"}

func init() {
	start := func(h gev.Handler, opts ...gev.Option) *gev.Server {
		s, err := gev.NewServer(h, append([]gev.Option{gev.Address(addr), gev.NumLoops(2)}, opts...)...)
		if err != nil {
			vs.Fail("NewServer: %v", err)
		}
		vs.Serial(true)
		vs.Go("Start", s.Start)
		vs.WaitQuiescent()
		vs.Serial(false)
		return s
	}
	// pair lets two clients on two loops do one step each at the same time, after
	// a prologue.
	pair := func(pro, a, b []byte) {
		vs.Serial(true)
		x, y := vkern.Connect(addr, "a"), vkern.Connect(addr, "b")
		vs.WaitQuiescent()
		if pro != nil {
			x.Send(pro)
			vs.WaitQuiescent()
			y.Send(pro)
			vs.WaitQuiescent()
		}
		vs.Serial(false)
		x.Send(a)
		y.Send(b)
		vs.WaitQuiescent()
		vs.Serial(true)
		x.Send(a)
		y.Close()
		vs.WaitQuiescent()
	}

	f := func(op byte, s string) []byte { return rawFrame(0x80|op, true, 7, []byte(s)) }
	good := []byte(buildReq("GET /x HTTP/1.1", append([]string{"Sec-WebSocket-Protocol: x, y", "Sec-WebSocket-Extensions: e; p=1", "X-H: v"}, goodHead...)))
	reqs := [][]byte{good, []byte(wsReq), []byte(buildReq("GET / HTTP/1.1", goodHead[1:])), []byte(buildReq("PUT / HTTP/1.1", goodHead)), good[:30]}
	add(&Scen{Props: "C30 C20", Name: "race-ws-handshakes", Pre: 1, Race: true, Body: func() {
		vkern.Reset()
		a := vs.ChooseFree(len(reqs), "first request")
		b := a + vs.ChooseFree(len(reqs)-a, "second request")
		u := rapp.Upgrader()
		start(websocket.NewHandlerWrap(u, rapp.WS{}), gev.CustomProtocol(websocket.New(u)))
		pair(nil, reqs[a], reqs[b])
	}})
	frames := [][]byte{f(1, "text"), append(f(2, "one"), f(1, "two")...), f(9, "ping"), f(10, "pong"), f(8, "\x03\xe8bye"), f(8, ""), f(1, "split")[:4], {0x82, 0x7f, 0x80, 0, 0, 0, 0, 0, 0, 1}, append(f(9, "p"), f(1, "t")...)}
	for i := range frames {
		i := i
		add(&Scen{Props: "C30 C19 C21", Name: fmt.Sprintf("race-ws-frames-%d", i), Pre: 1, Race: true, Body: func() {
			vkern.Reset()
			b := i + vs.ChooseFree(len(frames)-i, "second frames")
			u := rapp.Upgrader()
			start(websocket.NewHandlerWrap(u, rapp.WS{}), gev.CustomProtocol(websocket.New(u)))
			pair([]byte(wsReq), frames[i], frames[b])
		}})
	}
	msg := func(t, d string) []byte { return refPB(t, []byte(d)) } // not PackMessage: this runs at the start of every check
	msgs := [][]byte{msg("type", "data"), append(msg("", "a"), msg("b", "")...), msg("t", "cut")[:7], {0, 0, 0, 3, 0, 9, 9}, msg("", "")}
	add(&Scen{Props: "C30 C24", Name: "race-pb", Pre: 1, Race: true, Body: func() {
		vkern.Reset()
		a := vs.ChooseFree(len(msgs), "first")
		b := a + vs.ChooseFree(len(msgs)-a, "second")
		start(rapp.PB{}, gev.CustomProtocol(protobuf.New()))
		pair(msg("first", "x"), msgs[a], msgs[b])
	}})
	add(&Scen{Props: "C30 C01", Name: "race-default", Pre: 1, Race: true, Body: func() {
		vkern.Reset()
		if vs.ChooseFree(2, "blocked") == 1 {
			vkern.K.TxCap = 3
		}
		h := &rapp.Handler{Reply: true, Pub: func(*gev.Connection) {}}
		start(h)
		pair(nil, []byte("0123456789"), []byte("abcdefghij"))
	}})
	// two servers in one process
	add(&Scen{Props: "C30 C14 C27", Name: "race-two-servers", Pre: 1, Race: true, Body: func() {
		vkern.Reset()
		how := vs.ChooseFree(2, "strategy")
		mk := func(a string) {
			o := []gev.Option{gev.Address(a), gev.NumLoops(2)}
			switch how {
			case 1:
				o = append(o, gev.LoadBalance(gev.LeastConnection()))
			}
			h := &rapp.Handler{Reply: true, Pub: func(*gev.Connection) {}}
			s, err := gev.NewServer(h, o...)
			if err != nil {
				vs.Fail("NewServer: %v", err)
			}
			vs.Go("Start", s.Start)
		}
		vs.Serial(true)
		for i, a := range []string{addr, "127.0.0.1:7009"} {
			a := a
			vs.Go(fmt.Sprint("server", i), func() { mk(a) })
		}
		vs.WaitQuiescent()
		vs.Serial(false)
		x, y := vkern.Connect(addr, "a"), vkern.Connect("127.0.0.1:7009", "b")
		x.Send([]byte("x"))
		y.Send([]byte("y"))
		vs.WaitQuiescent()
	}})
	add(&Scen{Props: "C30 C26 C27", Name: "race-construct", Pre: 1, Race: true, Body: func() {
		vkern.Reset()
		for i, a := range []string{addr, "127.0.0.1:7009"} {
			a := a
			vs.Go(fmt.Sprint("server", i), func() {
				h := &rapp.Handler{Reply: true, Pub: func(*gev.Connection) {}}
				s, err := gev.NewServer(h, gev.Address(a))
				if err != nil {
					vs.Fail("NewServer: %v", err)
				}
				_ = s.Options()
			})
		}
		vs.WaitQuiescent()
	}})
	// the codecs from two goroutines
	for i := range rapp.Codecs {
		i := i
		add(&Scen{Props: "C30 " + raceCodecProps[rapp.Codecs[i].Name], Name: "race-codec-" + rapp.Codecs[i].Name, Pre: 1, Race: true, Body: func() {
			vkern.Reset()
			vs.Go("A", rapp.Codecs[i].Do)
			vs.Go("B", rapp.Codecs[i].Do)
			vs.WaitQuiescent()
		}})
	}
}
