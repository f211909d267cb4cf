package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/gev/log"
	"github.com/Allenxuxu/ringbuffer"

	"gevmc/vkern"
	"gevmc/vrace"
	"gevmc/vs"
)

type nullLog struct{}

func (nullLog) Log(v ...interface{})            {}
func (nullLog) Logf(f string, v ...interface{}) {}

type traceLog struct{}

func (traceLog) Log(v ...interface{})            { vs.Tracef("log: %s", fmt.Sprint(v...)) }
func (traceLog) Logf(f string, v ...interface{}) { vs.Tracef("log: "+f, v...) }

func setup() {
	log.SetLogger(nullLog{})
	log.SetLevel(log.LevelFatal)
	vkern.OnReset = func() { sizes(8) }
	sizes(8)
}

// sizes makes the buffers small, so that their bounds are met by short data.
func sizes(packet int) {
	eventloop.DefaultPacketSize = packet
	eventloop.DefaultBufferSize = 4
	eventloop.DefaultTaskQueueSize = 2
	ringbuffer.Seed()
}

const addr = ":1388"

// CR records what the handler saw of one connection.
type CR struct {
	id       int
	c        *gev.Connection
	peer     *vkern.Conn
	tid      int
	connects int
	closes   int
	nmsg     int
	all      []byte
	msgs     []string
	busy     bool
	data     interface{}
	out      []byte // packed for sending, in order
	consumed int    // taken from the buffer by the protocol
	dead     bool   // at the last Packet nothing could be sent any more
	ourClose bool   // the application (or an idle timeout) may have closed it
}

// H is the recording handler.
type H struct {
	recs  []*CR
	onCon func(r *CR)
	onMsg func(r *CR, ctx interface{}, b []byte) interface{}
	onCls func(r *CR)
	raw   bool // default protocol: messages are the byte stream
	ended bool // Start has returned
	rp    *recProto
}

func (h *H) rec(c *gev.Connection) *CR {
	for _, r := range h.recs {
		if r.c == c {
			return r
		}
	}
	r := &CR{id: len(h.recs), c: c, tid: -1}
	h.recs = append(h.recs, r)
	r.peer = peerOf(c)
	return r
}

func peerOf(c *gev.Connection) *vkern.Conn {
	pa := c.PeerAddr()
	for _, k := range vkern.K.Conns {
		if pa == peerString(k) {
			return k
		}
	}
	return nil
}

func peerString(k *vkern.Conn) string {
	if vkern.K.V6 {
		return "[::1]:" + strconv.Itoa(k.Port)
	}
	return fmt.Sprintf("127.%d.%d.%d:%d", k.ID>>15, k.ID>>7&255, 1+k.ID&127, k.Port)
}

func (h *H) enter(r *CR, what string) {
	if r.tid == -1 {
		r.tid = vs.TID()
	}
	if vs.Tracing() {
		vs.Tracef("callback %s conn#%d", what, r.id)
	}
	chk("C12", !h.ended, "%s ran after Start had returned", what)
	chk("C06", r.tid == vs.TID(), "%s of a connection ran on goroutine %d, earlier callbacks of it on %d", what, vs.TID(), r.tid)
	for _, o := range h.recs {
		if o.tid == vs.TID() {
			chk("C06", !o.busy, "%s entered while another callback of the same loop is running", what)
		}
	}
	chk("C06", !r.busy, "%s entered while another callback of the connection is running", what)
	r.busy = true
	if strings.Contains("C05 C06 C12", curProp) {
		vs.Point("in callback") // a callback takes time
	}
}

func (h *H) leave(r *CR) { r.busy = false }

var handedOver byte

// receive is what a goroutine does before it uses a connection it was handed.
func receive() { vrace.Acquire(unsafe.Pointer(&handedOver)) }

func (h *H) OnConnect(c *gev.Connection) {
	if vs.Killing() {
		return
	}
	r := h.rec(c)
	h.enter(r, "OnConnect")
	chk("C05", r.connects == 0, "OnConnect called twice for one connection")
	chk("C05", r.closes == 0, "OnConnect called after OnClose")
	chk("C05", r.nmsg == 0, "OnConnect called after OnMessage")
	chk("C18", r.peer != nil, "PeerAddr() = %q is not the address of any client", c.PeerAddr())
	r.connects++
	if h.onCon != nil {
		h.onCon(r)
	}
	h.leave(r)
	// an application that hands the connection on synchronises with OnConnect
	vrace.ReleaseMerge(unsafe.Pointer(&handedOver))
}

func (h *H) OnMessage(c *gev.Connection, ctx interface{}, b []byte) interface{} {
	if vs.Killing() {
		return nil
	}
	r := h.rec(c)
	h.enter(r, "OnMessage")
	chk("C05", r.connects == 1, "OnMessage before OnConnect")
	chk("C05", r.closes == 0, "OnMessage after OnClose")
	r.nmsg++
	r.all = append(r.all, b...)
	r.msgs = append(r.msgs, string(b))
	if h.raw && r.peer != nil {
		chk("C01", strings.HasPrefix(string(r.peer.Sent), string(r.all)), "OnMessage data is not a prefix of what the client sent: got %q, client sent %q", r.all, r.peer.Sent)
	}
	var out interface{}
	if h.onMsg != nil {
		keep := string(b)
		out = h.onMsg(r, ctx, b)
		if is("C01", "C09") {
			chk("C01 C09", keep == string(b), "the data given to OnMessage changed during the callback")
		}
	}
	h.leave(r)
	return out
}

func (h *H) OnClose(c *gev.Connection) {
	if vs.Killing() {
		return
	}
	r := h.rec(c)
	h.enter(r, "OnClose")
	chk("C05", r.connects == 1, "OnClose before OnConnect")
	chk("C05", r.closes == 0, "OnClose called twice")
	chk("C07", !c.Connected(), "Connected() is true in OnClose")
	r.closes++
	if h.onCls != nil {
		h.onCls(r)
	}
	h.leave(r)
}

// recProto wraps a protocol, recording what passes.
type recProto struct {
	h     *H
	inner gev.Protocol
}

func (p *recProto) in(c *gev.Connection, what string) *CR {
	r := p.h.rec(c)
	if r.tid != -1 {
		chk("C06", r.tid == vs.TID(), "%s of a connection ran on goroutine %d, callbacks of it on %d", what, vs.TID(), r.tid)
	} else {
		r.tid = vs.TID()
	}
	chk("C06", !r.busy, "%s entered while a callback of the connection is running", what)
	return r
}

func (p *recProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	if vs.Killing() {
		return nil, nil
	}
	r := p.in(c, "UnPacket")
	chk("C05", r.closes == 0, "UnPacket called after OnClose")
	n := b.Length()
	ctx, out := p.inner.UnPacket(c, b)
	r.consumed += n - b.Length()
	return ctx, out
}

func (p *recProto) Packet(c *gev.Connection, data interface{}) []byte {
	if vs.Killing() {
		return nil
	}
	r := p.in(c, "Packet")
	chk("C05", r.closes == 0, "Packet called after OnClose")
	r.dead = r.peer == nil || r.peer.Aborted() || r.peer.SrvFin()
	out := p.inner.Packet(c, data)
	r.out = append(r.out, out...)
	return out
}

// of finds the record of a client's connection (nil if the handler never saw it).
func (h *H) of(c *vkern.Conn) *CR {
	for _, r := range h.recs {
		if r.peer == c {
			return r
		}
	}
	return nil
}

// Rig is a running server.
type Rig struct {
	*H
	s        *gev.Server
	started  bool
	done     bool
	stopped  bool
	loops    []*eventloop.EventLoop
	assigned []int // loop index by order of acceptance
	plain    bool  // the default strategy, not observed
	noRec    bool
	noTimers bool // no RunAfter or RunEvery: every pending timer is an idle timer
}

// observe wraps a strategy.
func (g *Rig) observe(st gev.LoadBalanceStrategy) gev.LoadBalanceStrategy {
	return func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
		g.loops = ls
		l := st(ls)
		for i := range ls {
			if ls[i] == l {
				g.assigned = append(g.assigned, i)
			}
		}
		return l
	}
}

// mkRig prepares the options of a recording server with the default protocol.
func (g *Rig) options(opts []gev.Option) []gev.Option {
	o := []gev.Option{gev.Address(addr), gev.NumLoops(1), gev.LoadBalance(g.observe(gev.RoundRobin()))}
	if !g.noRec {
		g.rp = &recProto{h: g.H, inner: &gev.DefaultProtocol{}}
		g.raw = true
		o = append(o, gev.CustomProtocol(g.rp))
	}
	return append(o, opts...)
}

// withProto makes the recorder wrap another protocol.
func withProto(p gev.Protocol) gev.Option {
	return func(o *gev.Options) {
		if rp, ok := o.Protocol.(*recProto); ok {
			rp.inner = p
			rp.h.raw = false
		}
	}
}

// newRig makes a server (not started) on the current kernel.
func newRig(h *H, opts ...gev.Option) *Rig {
	if vs.Tracing() {
		log.SetLogger(traceLog{})
		log.SetLevel(log.LevelDebug)
	}
	g := &Rig{H: h}
	s, err := gev.NewServer(h, g.options(opts)...)
	if err != nil {
		vs.Fail("NewServer: %v", err)
	}
	g.s = s
	return g
}

// start runs Start in a thread and waits until the loops sleep, without
// exploring interleavings of the start itself.
func (g *Rig) start() {
	vs.Serial(true)
	g.goStart()
	vs.WaitQuiescent()
	vs.Serial(false)
}

func (g *Rig) goStart() {
	vs.Go("Start", func() {
		g.started = true
		g.s.Start()
		g.done = true
		g.ended = true
	})
}

// run makes, starts.
func run(h *H, opts ...gev.Option) *Rig {
	vkern.Reset()
	g := newRig(h, opts...)
	g.start()
	return g
}

// connect opens a client connection and lets the server take it, without
// exploring interleavings.
func (g *Rig) connect(name string) *vkern.Conn {
	vs.Serial(true)
	c := vkern.Connect(addr, name)
	if c == nil {
		vs.Fail("connection refused")
	}
	vs.WaitQuiescent()
	vs.Serial(false)
	return c
}

// quiesce waits until nothing more happens.
func quiesce() { vs.WaitQuiescent() }

// finish stops the server without exploring and applies the final oracles.
func (g *Rig) finish() {
	vs.Serial(true)
	vkern.K.F = vkern.Faults{}
	vs.WaitQuiescent()
	g.outcome()
	g.quietOracles()
	if !g.stopped {
		g.loopOracles()
		g.stopped = true
		vs.Go("Stop", func() { g.s.Stop() })
		vs.WaitQuiescent()
	}
	g.finalOracles()
}

// outcome notes what the handler and the clients have seen.
func (g *Rig) outcome() {
	var b []byte
	for _, r := range g.recs {
		b = strconv.AppendInt(append(b, '#'), int64(r.closes), 10)
		for _, m := range r.msgs {
			b = append(append(b, '|'), m...)
		}
	}
	for _, c := range vkern.K.Conns {
		b = append(append(b, '>'), c.Got...)
		if c.GotRST {
			b = append(b, '!')
		}
		if c.GotEOF {
			b = append(b, '.')
		}
	}
	vs.Outcome(string(b))
}

// loopOracles checks at quiescence which loop serves what.
func (g *Rig) loopOracles() {
	if g.loops == nil || g.done {
		return
	}
	tids := make([]int, len(g.loops))
	for i := range tids {
		i := i
		tids[i] = -1
		g.loops[i].QueueInLoop(func() { tids[i] = vs.TID() })
	}
	vs.WaitQuiescent()
	open := make([]int, len(g.loops))
	for i := range tids {
		chk("C10", tids[i] >= 0, "a task queued on an idle loop was not run")
	}
	for _, k := range vkern.K.Conns {
		r := g.of(k)
		if !k.Accepted() || r == nil || k.AccSeq >= len(g.assigned) {
			continue
		}
		a := g.assigned[k.AccSeq]
		chk("C06", r.tid == tids[a], "callbacks of connection %s ran on goroutine %d, its loop is goroutine %d", k.Name, r.tid, tids[a])
		if !k.Gone() {
			open[a]++
		}
	}
	for i, l := range g.loops {
		chk("C15", l.ConnectionCount() == int64(open[i]), "loop %d reports %d connections, %d are open", i, l.ConnectionCount(), open[i])
	}
}

// quietOracles are what must hold whenever nothing more happens.
func (g *Rig) quietOracles() {
	for _, a := range vkern.Anomalies() {
		chk("C08", false, "%s", a)
	}
	for _, k := range vkern.K.Conns {
		if !k.Accepted() {
			continue
		}
		r := g.of(k)
		if is("C05", "C18") {
			chk("C05", r != nil && r.connects == 1, "connection %s was accepted but never announced by OnConnect", k.Name)
			chk("C18", r != nil && r.connects == 1, "connection %s was accepted but never announced by OnConnect", k.Name)
		}
		if k.Gone() {
			chk("C05", r != nil && r.closes == 1, "connection %s was closed without OnClose", k.Name)
		}
		if r == nil {
			continue
		}
		if r.closes == 1 {
			chk("C09", k.Gone(), "OnClose of %s ran but its descriptor is still open", k.Name)
			chk("C05", k.Gone(), "OnClose of %s ran but the connection is still open", k.Name)
			chk("C07", !r.c.Connected(), "Connected() of a closed connection is true")
		}
		if r.c.Connected() {
			chk("C05", !k.Gone(), "Connected() holds but the descriptor of %s is closed", k.Name)
		} else {
			chk("C05", r.closes == 1, "connection %s is not connected but OnClose did not run", k.Name)
		}
		wl := r.c.WriteBufferLength()
		if !k.Gone() {
			chk("C05", !k.ClientClosed() || g.stopped, "client %s closed the connection but OnClose did not run", k.Name)
			chk("C05", !k.HalfClosed() || wl > 0, "client %s ended its stream but OnClose did not run", k.Name)
		}
		g.streamOracles(k, r)
	}
	if is("C09") && g.noTimers && !g.stopped {
		open := 0
		for _, k := range vkern.K.Conns {
			if k.Accepted() && !k.Gone() {
				open++
			}
		}
		n := vs.PendingTimers("wheel")
		chk("C09", n <= open, "%d idle timers are pending, %d connections are open", n, open)
	}
}

func (g *Rig) streamOracles(k *vkern.Conn, r *CR) {
	rl, wl := r.c.ReadBufferLength(), r.c.WriteBufferLength()
	chk("C16", rl >= 0 && wl >= 0, "buffer lengths are negative: read %d write %d", rl, wl)
	if g.rp != nil && !k.Gone() && !k.Aborted() {
		chk("C16", int(rl) == k.TotalRead-r.consumed, "ReadBufferLength() = %d, received %d and consumed %d bytes", rl, k.TotalRead, r.consumed)
		chk("C16", int(wl) == len(r.out)-k.TotalTx, "WriteBufferLength() = %d, handed over %d and sent %d bytes", wl, len(r.out), k.TotalTx)
	}
	if g.raw && !k.Aborted() {
		if !k.Gone() && k.TxPending() == 0 || k.Gone() && k.HalfClosed() && !r.ourClose {
			chk("C01", string(r.all) == string(k.Sent), "OnMessage got %q, client sent %q", r.all, k.Sent)
			chk("C32", string(r.all) == string(k.Sent), "OnMessage got %q, client sent %q", r.all, k.Sent)
		}
	}
	if g.rp != nil && !k.ClientClosed() {
		got := string(k.Got) + string(k.Tx())
		chk("C03", strings.HasPrefix(string(r.out), got), "the client was sent %q, the application handed over %q", got, r.out)
		if !k.Gone() && !k.Aborted() && !k.TxFull() {
			chk("C03", got == string(r.out), "the client was sent only %q of %q although it reads", got, r.out)
		}
	}
}

func (g *Rig) finalOracles() {
	chk("C12", g.done, "Start did not return after Stop")
	for _, a := range vkern.Anomalies() {
		chk("C08", false, "%s", a)
	}
	for _, k := range vkern.K.Conns {
		if !k.Accepted() {
			continue
		}
		r := g.of(k)
		if is("C05", "C12") {
			chk("C05", r != nil && r.connects == 1 && r.closes == 1, "after Stop, connection %s: OnConnect %d times, OnClose %d times", k.Name, nz(r, 0), nz(r, 1))
			chk("C12", r != nil && r.closes == 1 && k.Gone(), "after Stop, connection %s was not closed", k.Name)
		}
	}
	if is("C09") {
		fds := vkern.OpenFDs()
		chk("C09", len(fds) == 0, "after Stop, descriptors are still open: %s", strings.Join(fds, "; "))
		chk("C09", ringbuffer.LiveCount() == 0, "after Stop, %d connection buffers were not returned to the pool", ringbuffer.LiveCount())
	}
	chk("C12", !vkern.Listening(addr), "after Stop the port is still taken")
	for _, l := range g.loops {
		chk("C15", l.ConnectionCount() == 0, "after Stop a loop reports %d connections", l.ConnectionCount())
	}
}

func nz(r *CR, i int) int {
	if r == nil {
		return 0
	}
	if i == 0 {
		return r.connects
	}
	return r.closes
}

const sec = time.Second

func reply(r *CR, ctx interface{}, b []byte) interface{} {
	return append([]byte(nil), b...)
}
