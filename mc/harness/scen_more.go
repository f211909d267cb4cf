package main

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/gev/log"
	"github.com/Allenxuxu/ringbuffer"
	"github.com/RussellLuo/timingwheel"
	"golang.org/x/sys/unix"

	"gevmc/vkern"
	"gevmc/vs"
)

// levelAtStart is the log level the program came up with.
var levelAtStart = log.GetLevel()

func init() {
	if len(os.Args) == 2 && os.Args[1] == "-loglevel-at-start" {
		fmt.Println(int(levelAtStart))
		os.Exit(0)
	}
}

// holdProto keeps, takes one byte or leaves it to the default protocol, as chosen.
type holdProto struct {
	gev.DefaultProtocol
	choose func() int
}

func (p *holdProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	if b.IsEmpty() {
		return nil, nil
	}
	switch p.choose() {
	case 0:
		return nil, nil
	case 1:
		d := make([]byte, 1)
		_, _ = b.Read(d)
		return nil, d
	}
	return p.DefaultProtocol.UnPacket(c, b)
}

// handCB records the callbacks of one connection.
type handCB struct {
	got      []byte
	closes   int
	closedAt time.Duration
}

func (h *handCB) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	h.got = append(h.got, data...)
	return append([]byte(nil), data...)
}

func (h *handCB) OnClose(c *gev.Connection) {
	h.closes++
	h.closedAt = vs.Elapsed()
}

func init() {
	// a protocol that holds data back and then leaves it to DefaultProtocol
	for _, v := range []struct {
		name     string
		segs     []int
		thorough bool
	}{{"a", []int{3, 3, 3}, false}, {"b", []int{4, 1, 4, 2}, false}, {"c", []int{9, 2, 7}, false}, {"deep", []int{3, 4, 1, 9, 3}, true}} {
		v := v
		add(&Scen{Props: "C01 C02 C16", Name: "hold-default-" + v.name, Thorough: v.thorough, Steps: 30000, Body: func() {
			vkern.Reset()
			vs.Serial(true)
			forced := -1
			var got []byte
			h := &H{onMsg: func(r *CR, ctx interface{}, b []byte) interface{} {
				got = append(got, b...)
				if len(b) > 3 {
					return []byte("y")
				}
				return nil
			}}
			p := &holdProto{choose: func() int {
				if forced >= 0 {
					return forced
				}
				return vs.ChooseFree(3, "unpack")
			}}
			g := newRig(h, withProto(p))
			g.start()
			vs.Serial(true)
			c := g.connect("a")
			vs.Serial(true)
			const s = "abcdefghijklmnopqrstuvwxyz"
			at := 0
			for _, n := range v.segs {
				c.Send([]byte(s[at : at+n]))
				at += n
				vs.WaitQuiescent()
				c.TryRecv(0)
				chk("C01 C02", strings.HasPrefix(s[:at], string(got)), "%q was sent, OnMessage saw %q", s[:at], got)
			}
			forced = 2
			c.Send([]byte(s[at : at+1]))
			at++
			vs.WaitQuiescent()
			chk("C01 C02", string(got) == s[:at], "%q was sent, OnMessage saw %q", s[:at], got)
			chk("C16", g.of(c).c.ReadBufferLength() == 0, "all input was taken but ReadBufferLength is %d", g.of(c).c.ReadBufferLength())
			vs.Outcome(string(got))
			c.TryRecv(0)
			g.finish()
		}})
	}
	// output kept in a buffer that wraps round, with a failure at any write
	for _, v := range []struct {
		name     string
		steps    int
		dev      int
		sizes    []int
		drains   []int
		thorough bool
	}{{"a", 3, 1, []int{3, 7, 1, 4}, []int{0, 3, 6}, false}, {"b", 3, 2, []int{3, 6}, []int{0, 3}, false}, {"deep", 4, 2, []int{3, 7, 4}, []int{0, 3, 6}, true}} {
		v := v
		add(&Scen{Props: "C31 C03 C04 C05 C08 C09 C15 C16", Name: "fault-wrapped-" + v.name, Dev: v.dev, Thorough: v.thorough, Steps: 30000, Body: func() {
			vkern.Reset()
			vs.Serial(true)
			vkern.K.TxCap = 4
			g := newRig(&H{onMsg: reply})
			g.start()
			vs.Serial(true)
			c := g.connect("a")
			b := g.connect("b")
			vs.Serial(true)
			r := g.of(c)
			vkern.K.F = vkern.Faults{WriteReset: true, WriteShort: true, WriteEAGAIN: true}
			var fs []*fin
			sent := ""
			for i := 0; i < v.steps; i++ {
				n := v.sizes[vs.ChooseFree(len(v.sizes), "send")]
				d := strings.Repeat(strconv.Itoa(i), n)
				d = d[:n-1] + string(rune('a'+i))
				f := g.sendFin(r, d)
				vs.WaitQuiescent()
				if f.err == nil {
					sent += d
				}
				fs = append(fs, f)
				if k := v.drains[vs.ChooseFree(len(v.drains), "drain")]; k > 0 {
					for j := 0; j < k; j++ {
						if c.TryRecv(1) == nil {
							break
						}
						if j == 2 {
							vs.WaitQuiescent()
						}
					}
					vs.WaitQuiescent()
				}
				if c.Aborted() {
					break
				}
			}
			vkern.K.F = vkern.Faults{}
			for c.TryRecv(0) != nil {
				vs.WaitQuiescent()
			}
			vs.WaitQuiescent()
			checkFins(!c.Aborted(), fs...)
			if c.Aborted() {
				chk("C31 C05", r.closes == 1 && c.Gone(), "the connection failed: OnClose %d", r.closes)
			} else {
				chk("C31 C05", r.closes == 0, "the connection did not fail, OnClose %d", r.closes)
				chk("C31 C03", string(c.Got) == sent, "%q was sent, the client got %q", sent, c.Got)
			}
			b.Send([]byte("x"))
			vs.WaitQuiescent()
			chk("C31", string(b.Tx()) == "x", "the other connection is not served")
			vs.Outcome(fmt.Sprint(c.Aborted(), len(c.Got)))
			g.finish()
		}})
	}
	// the one value of a connection
	add(&Scen{Props: "C17", Name: "context-value", Body: func() {
		vkern.Reset()
		vs.Serial(true)
		want := map[*CR]interface{}{}
		h := &H{}
		look := func(r *CR, when string) {
			chk("C17", r.c.Context() == want[r], "%s, Context() of connection %d = %v, expected %v", when, r.id, r.c.Context(), want[r])
		}
		h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
			look(r, "in OnMessage")
			v := string(b)
			r.c.SetContext(v)
			want[r] = v
			look(r, "after SetContext in OnMessage")
			return append([]byte(nil), b...)
		}
		h.onCls = func(r *CR) { look(r, "in OnClose") }
		g := newRig(h, gev.NumLoops(2))
		g.start()
		vs.Serial(true)
		a, b := g.connect("a"), g.connect("b")
		vs.Serial(true)
		rs := []*CR{g.of(a), g.of(b)}
		values := []interface{}{nil, 1, "", h}
		for _, r := range rs {
			look(r, "at first")
		}
		for k := 0; k < 3; k++ {
			i := vs.ChooseFree(2, "connection")
			r := rs[i]
			switch o := vs.ChooseFree(len(values)+2, "operation"); {
			case o < len(values):
				r.c.SetContext(values[o])
				want[r] = values[o]
			case o == len(values):
				r.peer.Send([]byte{byte('p' + k)})
				vs.WaitQuiescent()
			default:
				r.c.Set("", k)
				r.c.Delete("")
			}
			for _, r := range rs {
				look(r, "after an operation")
			}
		}
		a.Close()
		vs.WaitQuiescent()
		c := g.connect("c")
		vs.Serial(true)
		look(g.of(c), "of a new connection")
		for _, r := range rs {
			look(r, "after the end of a connection")
		}
		vs.Outcome(fmt.Sprint(len(want)))
		g.finish()
	}})
	// a connection made by hand on a loop of the user's own
	add(&Scen{Props: "C13 C01 C03 C05 C18", Name: "connection-by-hand", Steps: 40000, Body: func() {
		vkern.Reset()
		vs.Serial(true)
		T := []time.Duration{0, 700 * ms, sec}[vs.ChooseFree(3, "idle time")]
		loop, err := eventloop.New()
		if err != nil {
			vs.Fail("eventloop.New: %v", err)
		}
		tw := timingwheel.NewTimingWheel(ms, 1000)
		tw.Start()
		ran := false
		vs.Go("loop", func() { loop.Run(); ran = true })
		lfd, _ := vkern.Listen("tcp", "p", false)
		fd, c := pair(lfd, 0)
		cb := &handCB{closedAt: -1}
		conn := gev.NewConnection(fd, loop, &unix.SockaddrInet4{Port: 77, Addr: [4]byte{10, 2, 3, 4}}, &gev.DefaultProtocol{}, tw, T, cb)
		chk("C18", conn.PeerAddr() == "10.2.3.4:77", "PeerAddr() = %s", conn.PeerAddr())
		chk("C05", conn.Connected(), "a new connection is not connected")
		loop.QueueInLoop(func() { _ = loop.AddSocketAndEnableRead(fd, conn) })
		quiesce()
		vs.AllowTime(10 * sec)
		n := vs.ChooseFree(3, "messages")
		var last time.Duration
		vs.Go("cli", func() {
			for i := 0; i < n; i++ {
				vs.Sleep(500 * ms)
				c.Send([]byte{byte('a' + i)})
				last = vs.Elapsed()
				c.RecvN(i + 1)
			}
		})
		last = vs.Elapsed()
		quiesce()
		chk("C01", string(cb.got) == "abc"[:n], "%q was sent, OnMessage saw %q", "abc"[:n], cb.got)
		chk("C03", string(c.Got) == "abc"[:n], "the client got %q, expected %q", c.Got, "abc"[:n])
		if T == 0 {
			chk("C13", cb.closes == 0, "a connection without idle time was closed")
			vs.Go("Close", func() { _ = conn.Close() })
			quiesce()
		} else {
			chk("C13", cb.closes == 1 && cb.closedAt >= last+T && cb.closedAt <= last+T+soon, "closed %d times, at %v, idle since %v, the timeout is %v", cb.closes, cb.closedAt, last, T)
		}
		chk("C05", cb.closes == 1 && !conn.Connected(), "OnClose ran %d times after the end", cb.closes)
		tw.Stop()
		vs.Go("Stop", func() { _ = loop.Stop() })
		quiesce()
		chk("C05", ran, "the loop does not end")
		vs.Outcome(fmt.Sprint(T, n))
	}})
	// a connection that ends before its accept is finished leaves no timer
	for _, how := range []string{"in-connect", "goroutine", "reset", "both"} {
		how := how
		add(&Scen{Props: "C09 C13 C05", Name: "idle-timer-early-" + how, Pre: 2, Body: func() {
			vkern.Reset()
			h := &H{onMsg: reply}
			h.onCon = func(r *CR) {
				switch how {
				case "in-connect", "both":
					r.ourClose = true
					_ = r.c.Close()
				case "goroutine":
					r.ourClose = true
					vs.Go("closer", func() { _ = r.c.Close() })
				}
			}
			g := newRig(h, gev.IdleTime(time.Hour))
			g.noTimers = true
			g.start()
			c := vkern.Connect(addr, "a")
			if how == "reset" || how == "both" {
				vs.Go("cli", func() { c.Reset() })
			}
			quiesce()
			if r := g.of(c); r != nil {
				chk("C05", r.closes == 1, "OnClose ran %d times", r.closes)
			}
			vs.Outcome(fmt.Sprint(c.Gone()))
			g.quietOracles()
			g.finish()
		}})
	}
	// nor does one that ends while its timer is set anew
	for _, how := range []string{"reset", "close", "message"} {
		how := how
		add(&Scen{Props: "C09 C13 C05", Name: "idle-timer-rearm-" + how, Pre: 2, Body: func() {
			vkern.Reset()
			h := &H{}
			h.onMsg = func(r *CR, ctx interface{}, b []byte) interface{} {
				if b[0] == 'C' {
					r.ourClose = true
					_ = r.c.Close()
				}
				return append([]byte(nil), b...)
			}
			g := newRig(h, gev.IdleTime(10*sec))
			g.noTimers = true
			g.start()
			vs.Serial(true)
			c := g.connect("a")
			vs.Serial(true)
			r := g.of(c)
			vs.AllowTime(11 * sec)
			vs.Go("cli", func() {
				vs.Sleep(5 * sec)
				c.Send([]byte("x"))
				c.RecvN(1)
				vs.Sleep(5*sec - 3*ms)
				vs.Serial(false)
				vs.Sleep(3 * ms)
				switch how {
				case "reset":
					c.Reset()
				case "close":
					r.ourClose = true
					_ = r.c.Close()
				case "message":
					c.Send([]byte("C"))
				}
			})
			quiesce()
			chk("C05", r.closes == 1, "OnClose ran %d times", r.closes)
			vs.Outcome(fmt.Sprint(vs.Elapsed()))
			g.quietOracles()
			g.finish()
		}})
	}
	// the level the environment asks for
	add(&Scen{Props: "C28", Name: "log-environment", Enum: func(e *Enum) {
		exe, err := os.Executable()
		if err != nil {
			panic(err)
		}
		var env []string
		for _, x := range os.Environ() {
			if !strings.HasPrefix(x, "GEV_LOG_LEVEL=") {
				env = append(env, x)
			}
		}
		for _, c := range []struct {
			name string
			want log.Level
		}{{"debug", log.LevelDebug}, {"info", log.LevelInfo}, {"error", log.LevelError}, {"fatal", log.LevelFatal}, {"", log.LevelInfo}, {"-", log.LevelInfo}} {
			if !e.Begin("GEV_LOG_LEVEL=%s", c.name) {
				continue
			}
			cmd := exec.Command(exe, "-loglevel-at-start")
			cmd.Env = env
			if c.name != "-" {
				cmd.Env = append(env[:len(env):len(env)], "GEV_LOG_LEVEL="+c.name)
			}
			out, err := cmd.Output()
			if err != nil {
				panic(err)
			}
			if strings.TrimSpace(string(out)) != strconv.Itoa(int(c.want)) {
				e.Bad("GEV_LOG_LEVEL=%s (- for none): the level is %s, expected %d", c.name, strings.TrimSpace(string(out)), c.want)
				return
			}
			e.State(hashStr(c.name))
		}
	}})
}
