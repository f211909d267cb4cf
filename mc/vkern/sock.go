package vkern

import (
	"fmt"
	"syscall"

	"gevmc/vs"
)

// Conn is one TCP connection: the server end is a descriptor of the program
// under test, the client end is driven by the harness.
type Conn struct {
	ID      int
	Name    string
	Port    int
	LPort   int
	srv     *File
	obj     vs.Obj
	acc     bool
	rx      []byte // client -> server, not yet read by the server
	rxFin   bool   // the client sent FIN
	rdShut  bool
	soErr   Errno
	rst     bool   // the server end got RST (state CLOSE)
	tx      []byte // server -> client, not yet read by the client
	txCap   int
	nospace bool // the server was refused space: tell it when there is some
	wrShut  bool // the server sent FIN
	srvCl   bool // the server end is closed
	linger0 bool // closing aborts
	cliRst  bool // the client end got RST
	cliCl   bool // the client closed completely
	cliWr   bool // the client shut its writing side
	// statistics for oracles
	TotalTx   int // bytes the server handed to the kernel
	TotalRead int // bytes the server read
	Got       []byte
	Sent      []byte // what the client sent
	AccSeq    int    // order of acceptance
	GotEOF    bool
	GotRST    bool
	Opts      [][3]int
}

func (c *Conn) String() string { return c.Name }

// Listen makes a listening socket of a network (tcp, tcp4, tcp6, ...) bound to addr.
func Listen(network, addr string, reuse bool) (int, Errno) {
	if dead() {
		return -1, syscall.EBADF
	}
	vs.Point("listen " + addr)
	k := K
	if k.F.Listen && vs.Choose(2, "listen fails") == 1 {
		return -1, syscall.EMFILE
	}
	vs.Touch(&k.alloc, true)
	for _, l := range k.lis {
		if l.addr == addr && !(l.reuse && reuse) && (l.network == network || l.network+network != "tcp4tcp6" && l.network+network != "tcp6tcp4") {
			return -1, syscall.EADDRINUSE
		}
	}
	f := newFile(KListen, addr)
	f.network, f.addr, f.reuse, f.blMax = network, addr, reuse, 128
	f.nonblock = true
	k.lis = append(k.lis, f)
	return k.install(f), 0
}

// Listening reports whether connections to addr would be taken.
func Listening(addr string) bool {
	vs.Touch(&K.alloc, false)
	for _, l := range K.lis {
		if l.addr == addr {
			return true
		}
	}
	return false
}

// ListensAs lists the listeners on addr: network and whether it shares its port.
func ListensAs(addr string) (s []string) {
	vs.Touch(&K.alloc, false)
	for _, l := range K.lis {
		if l.addr == addr {
			n := l.network
			if l.reuse {
				n += " reuse"
			}
			s = append(s, n)
		}
	}
	return
}

// Accept takes a connection.
func Accept(fd int, nonblock bool) (int, *Conn, Errno) {
	if dead() {
		return -1, nil, syscall.EAGAIN
	}
	vs.Point(fmtFD("accept", fd))
	f := K.get(fd, "accept")
	if f == nil {
		return -1, nil, syscall.EBADF
	}
	if f.Kind != KListen {
		K.anomaly("accept on %s fd %d", f.Kind, fd)
		return -1, nil, syscall.EINVAL
	}
	for len(f.backlog) == 0 {
		vs.Touch(&f.obj, false)
		if f.nonblock {
			return -1, nil, syscall.EAGAIN
		}
		vs.Block(fmtFD("accept(blocked)", fd), func() bool { return len(f.backlog) > 0 })
	}
	if K.F.AcceptErr {
		switch vs.Choose(4, "accept fails") {
		case 1:
			return -1, nil, syscall.EMFILE
		case 2:
			f.backlog[0].resetByServer()
			f.backlog = f.backlog[1:]
			f.changed(0)
			return -1, nil, syscall.ECONNABORTED
		case 3:
			return -1, nil, syscall.EINTR
		}
	}
	c := f.backlog[0]
	f.backlog = f.backlog[1:]
	f.changed(EPOLLOUT)
	s := newFile(KSock, c.Name)
	s.c = c
	s.nonblock = nonblock
	c.srv = s
	c.acc = true
	c.AccSeq = K.nAcc
	K.nAcc++
	vs.Touch(&s.obj, true)
	nfd := K.install(s)
	vs.Tracef("accepted %s as fd %d", c.Name, nfd)
	return nfd, c, 0
}

func (c *Conn) poll() uint32 {
	var m uint32
	if c.soErr != 0 {
		m |= EPOLLERR
	}
	rs := c.rxFin || c.rdShut || c.rst
	if c.rst || (rs && c.wrShut) {
		m |= EPOLLHUP
	}
	if rs {
		m |= EPOLLIN | EPOLLRDHUP
	}
	if len(c.rx) > 0 {
		m |= EPOLLIN
	}
	if c.wrShut || c.rst || len(c.tx) < c.txCap {
		m |= EPOLLOUT
	} else {
		c.nospace = true
	}
	return m
}

// change notes a change of the connection's state.
func (c *Conn) change(key uint32) {
	vs.Touch(&c.obj, true)
	vs.Bump()
	if c.srv != nil && !c.srvCl {
		c.srv.changed(key)
	}
}

func (c *Conn) serverRead(f *File, fd, n int) ([]byte, Errno) {
	vs.Touch(&c.obj, true)
	for {
		if len(c.rx) > 0 && n > 0 {
			if K.F.ReadEAGAIN && vs.Choose(2, "spurious read EAGAIN") == 1 {
				return nil, syscall.EAGAIN
			}
			if K.F.ReadReset && vs.Choose(2, "reset before read") == 1 {
				c.rx = nil
				c.rst = true
				c.change(0)
				return nil, syscall.ECONNRESET
			}
			if n > len(c.rx) {
				n = len(c.rx)
			}
			b := append([]byte(nil), c.rx[:n]...)
			c.rx = c.rx[n:]
			c.TotalRead += n
			vs.Bump()
			vs.Touch(&f.obj, true)
			if vs.Tracing() {
				vs.Tracef("read(%d) %s -> %q", fd, c.Name, b)
			}
			return b, 0
		}
		if c.soErr != 0 && !c.rxFin { // after a FIN the error stays for the next write
			e := c.soErr
			c.soErr = 0
			vs.Bump()
			vs.Touch(&f.obj, true)
			vs.Tracef("read(%d) %s -> %v", fd, c.Name, e)
			return nil, e
		}
		if c.rxFin || c.rst || c.rdShut || n == 0 {
			vs.Tracef("read(%d) %s -> 0", fd, c.Name)
			return []byte{}, 0
		}
		if f.nonblock {
			return nil, syscall.EAGAIN
		}
		vs.Block(fmtFD("read(blocked)", fd), func() bool { return len(c.rx) > 0 || c.soErr != 0 || c.rxFin || c.rst })
		vs.Touch(&c.obj, true)
	}
}

func (c *Conn) serverWrite(f *File, fd int, b []byte) (int, Errno) {
	vs.Touch(&c.obj, true)
	total := 0
	for {
		if c.soErr != 0 && (c.rst || c.wrShut) {
			e := c.soErr
			c.soErr = 0
			vs.Bump()
			vs.Touch(&f.obj, true)
			vs.Tracef("write(%d) %s -> %v", fd, c.Name, e)
			return -1, e
		}
		if c.wrShut || c.rst {
			vs.Tracef("write(%d) %s -> EPIPE", fd, c.Name)
			return -1, syscall.EPIPE
		}
		if len(b) == 0 {
			return total, 0
		}
		n := c.txCap - len(c.tx)
		if n >= len(b) {
			n = len(b)
		} else {
			c.nospace = true
		}
		injected := false
		if n > 0 && f.nonblock {
			was := n
			if K.F.WriteEAGAIN && vs.Choose(2, "write EAGAIN") == 1 {
				n = 0
			} else if K.F.WriteReset && vs.Choose(2, "write fails: reset") == 1 {
				c.rst = true
				c.cliRst = true
				c.change(0)
				return -1, syscall.ECONNRESET
			} else if K.F.WriteShort && n > 1 {
				// every proper prefix length up to 3, and half
				k := vs.Choose(3, "short write")
				switch k {
				case 1:
					n = 1
				case 2:
					n = n - 1
				}
			}
			injected = n < was
		}
		if n > 0 {
			if c.cliCl {
				// data to a closed peer: accepted, answered by RST
				c.TotalTx += n
				c.rst = true
				if c.rxFin {
					c.soErr = syscall.EPIPE
				} else {
					c.soErr = syscall.ECONNRESET
				}
				c.change(0)
				vs.Tracef("write(%d) %s -> %d (peer gone, RST)", fd, c.Name, n)
				return n + total, 0
			}
			c.tx = append(c.tx, b[:n]...)
			c.TotalTx += n
			if injected { // the space is there again at once
				c.change(EPOLLOUT)
			} else {
				c.change(1 << 27)
			}
			if vs.Tracing() {
				vs.Tracef("write(%d) %s %q -> %d", fd, c.Name, b, n)
			}
			total += n
			if f.nonblock || n == len(b) {
				return total, 0
			}
			b = b[n:]
			continue
		}
		if f.nonblock {
			if injected {
				c.change(EPOLLOUT)
			}
			vs.Tracef("write(%d) %s -> EAGAIN", fd, c.Name)
			return -1, syscall.EAGAIN
		}
		vs.Block(fmtFD("write(blocked)", fd), func() bool { return len(c.tx) < c.txCap || c.rst || c.wrShut })
		vs.Touch(&c.obj, true)
	}
}

// Shutdown is shutdown(2).
func Shutdown(fd, how int) Errno {
	if dead() {
		return 0
	}
	vs.Point(fmtFD("shutdown", fd))
	f := K.get(fd, "shutdown")
	if f == nil {
		return syscall.EBADF
	}
	if f.Kind == KForeign {
		return 0
	}
	if f.Kind != KSock {
		K.anomaly("shutdown on %s fd %d", f.Kind, fd)
		return syscall.ENOTSOCK
	}
	c := f.c
	vs.Touch(&c.obj, true)
	if c.rst || (c.rxFin && c.wrShut) {
		c.change(0)
		return syscall.ENOTCONN
	}
	if how == syscall.SHUT_WR || how == syscall.SHUT_RDWR {
		c.wrShut = true
	}
	if how == syscall.SHUT_RD || how == syscall.SHUT_RDWR {
		c.rdShut = true
	}
	c.change(0)
	return 0
}

func (c *Conn) serverClosed() {
	vs.Touch(&c.obj, true)
	vs.Bump()
	c.srvCl = true
	if c.linger0 && !c.rst {
		c.cliRst = true
		c.tx = nil
		return
	}
	if len(c.rx) > 0 && !c.rst {
		c.cliRst = true
		return
	}
	c.wrShut = true
	if c.rst {
		c.cliRst = true
	}
}

func (c *Conn) resetByServer() {
	vs.Touch(&c.obj, true)
	vs.Bump()
	c.srvCl = true
	c.cliRst = true
}

// SockOf is the connection behind fd.
func SockOf(fd int, op string) (*Conn, Errno) {
	if dead() {
		return nil, syscall.EBADF
	}
	vs.Point(fmtFD(op, fd))
	f := K.get(fd, op)
	if f == nil {
		return nil, syscall.EBADF
	}
	if f.Kind != KSock {
		return nil, syscall.ENOTSOCK
	}
	vs.Touch(&f.obj, false)
	return f.c, 0
}

// SocketError returns and clears SO_ERROR.
func SocketError(fd int) (int, Errno) {
	c, e := SockOf(fd, "getsockopt")
	if e != 0 {
		return 0, e
	}
	r := c.soErr
	c.soErr = 0
	c.change(1 << 27)
	return int(r), 0
}

// SetOpt records a socket option.
func SetOpt(fd, level, opt, v int) Errno {
	if dead() {
		return 0
	}
	vs.Point(fmtFD("setsockopt", fd))
	f := K.get(fd, "setsockopt")
	if f == nil {
		return syscall.EBADF
	}
	if f.c != nil {
		f.c.Opts = append(f.c.Opts, [3]int{level, opt, v})
	}
	return 0
}

// SetLinger is SO_LINGER; only a zero time-out has an effect here: closing
// aborts the connection.
func SetLinger(fd int, abort bool) Errno {
	if dead() {
		return 0
	}
	vs.Point(fmtFD("setsockopt", fd))
	f := K.get(fd, "setsockopt")
	if f == nil {
		return syscall.EBADF
	}
	if f.Kind == KSock {
		vs.Touch(&f.c.obj, true)
		f.c.linger0 = abort
		f.c.change(1 << 26)
	}
	return 0
}

// ---------- the client side ----------

// Connect opens a connection to addr; nil if refused.
func Connect(addr, name string) *Conn {
	if dead() {
		return nil
	}
	if vs.Active() {
		vs.Point("client connect " + name)
	}
	k := K
	vs.Touch(&k.alloc, true)
	var l *File
	var cands []*File
	for _, f := range k.lis {
		if f.addr == addr {
			cands = append(cands, f)
		}
	}
	if len(cands) > 0 {
		l = cands[vs.ChooseFree(len(cands), "which listener")]
	}
	if l == nil || len(l.backlog) >= l.blMax {
		vs.Tracef("connect %s refused", name)
		return nil
	}
	c := &Conn{ID: len(k.Conns), Name: name, txCap: k.TxCap}
	k.port++
	c.Port = k.port
	vs.InitObj(&c.obj)
	k.Conns = append(k.Conns, c)
	l.backlog = append(l.backlog, c)
	l.changed(EPOLLIN)
	return c
}

func cpoint(what string, c *Conn) {
	if vs.Tracing() {
		what = fmt.Sprintf("%s %s", what, c.Name)
	}
	vs.Point(what)
}

// Send delivers b to the server; false if the connection is gone.
func (c *Conn) Send(b []byte) bool {
	if dead() {
		return false
	}
	cpoint("client send", c)
	vs.Touch(&c.obj, true)
	if c.cliRst {
		c.GotRST = true // the error is reported once
	}
	if c.cliRst || c.cliCl || c.cliWr {
		return false
	}
	if c.srvCl {
		c.cliRst = true
		vs.Bump()
		return true
	}
	if len(b) == 0 {
		return true
	}
	c.rx = append(c.rx, b...)
	c.Sent = append(c.Sent, b...)
	vs.Tracef("  %q", b)
	c.change(EPOLLIN)
	return true
}

// CloseWrite sends FIN.
func (c *Conn) CloseWrite() {
	if dead() {
		return
	}
	cpoint("client shutdown(WR)", c)
	vs.Touch(&c.obj, true)
	if c.cliRst || c.cliCl || c.cliWr {
		return
	}
	c.cliWr = true
	c.rxFin = true
	c.change(0)
}

// Close closes the client end.
func (c *Conn) Close() {
	if dead() {
		return
	}
	cpoint("client close", c)
	vs.Touch(&c.obj, true)
	if c.cliCl {
		return
	}
	c.cliCl = true
	vs.Bump()
	if c.cliRst {
		return
	}
	if len(c.tx) > 0 {
		c.rstToServer()
		return
	}
	if !c.rxFin { // otherwise the FIN was sent before
		c.rxFin = true
		c.change(0)
	}
}

func (c *Conn) rstToServer() {
	if c.srvCl || (c.rxFin && c.wrShut) {
		return
	}
	c.rst = true
	if c.rxFin && !c.wrShut {
		c.soErr = syscall.EPIPE
	} else {
		c.soErr = syscall.ECONNRESET
	}
	c.tx = nil
	c.change(0)
}

// Reset aborts the connection (RST).
func (c *Conn) Reset() {
	if dead() {
		return
	}
	cpoint("client reset", c)
	vs.Touch(&c.obj, true)
	if c.cliCl || c.cliRst {
		return
	}
	c.cliCl = true
	c.rstToServer()
}

func (c *Conn) canRecv() bool {
	return len(c.tx) > 0 || c.cliRst || c.wrShut || c.cliCl
}

// take moves up to n bytes to Got and returns them.
func (c *Conn) take(n int) []byte {
	vs.Touch(&c.obj, true)
	if len(c.tx) > 0 {
		if n <= 0 || n > len(c.tx) {
			n = len(c.tx)
		}
		b := append([]byte(nil), c.tx[:n]...)
		c.tx = c.tx[n:]
		c.Got = append(c.Got, b...)
		if c.nospace && len(c.tx) < c.txCap {
			c.nospace = false
			c.change(EPOLLOUT)
		} else {
			c.change(1 << 27) // nobody polls for this
		}
		vs.Tracef("  client %s got %q", c.Name, b)
		return b
	}
	if c.cliRst && !c.wrShut { // after a FIN, the end of the stream is what is read
		if !c.GotRST {
			vs.Tracef("  client %s got RST", c.Name)
			vs.Bump()
		}
		c.GotRST = true
	} else if c.wrShut || c.cliRst {
		if !c.GotEOF {
			vs.Tracef("  client %s got EOF", c.Name)
			vs.Bump()
		}
		c.GotEOF = true
	}
	return nil
}

// Recv blocks until something arrives: up to n bytes (n<=0: all there is), or
// nil on EOF or reset.
func (c *Conn) Recv(n int) []byte {
	if dead() {
		return nil
	}
	vs.Block("client recv "+c.Name, c.canRecv)
	return c.take(n)
}

// RecvAll reads until EOF or reset.
func (c *Conn) RecvAll() {
	for c.Recv(0) != nil {
	}
}

// RecvN blocks until n bytes were received in total, or EOF/reset.
func (c *Conn) RecvN(n int) {
	for len(c.Got) < n && !c.GotEOF && !c.GotRST {
		c.Recv(0)
	}
}

// TryRecv takes what is there without blocking.
func (c *Conn) TryRecv(n int) []byte {
	if dead() {
		return nil
	}
	cpoint("client tryrecv", c)
	return c.take(n)
}

// Drain collects everything deliverable without a scheduling point (for use at
// quiescence).
func (c *Conn) Drain() {
	for c.canRecv() && !c.GotEOF && !c.GotRST && !c.cliCl {
		c.take(0)
	}
}

// Gone reports whether the server's end of the connection has been closed.
func (c *Conn) Gone() bool { return c.srvCl }

// Accepted reports whether the server took the connection.
func (c *Conn) Accepted() bool { return c.acc }

// Pending is the number of bytes the server has not read yet.
func (c *Conn) Pending() int { return len(c.rx) }

// TxPending is the number of bytes the client has not read yet.
func (c *Conn) TxPending() int { return len(c.tx) }

// SetTxCap changes the send capacity (socket buffer size).
func (c *Conn) SetTxCap(n int) { c.txCap = n }

// Alive reports whether the client end still has an open connection as far as
// it can tell.
func (c *Conn) Alive() bool { return !c.cliRst && !c.cliCl && !c.wrShut }

// Tx is what the client has not read yet.
func (c *Conn) Tx() []byte { return c.tx }

// TxFull reports whether the socket takes no more.
func (c *Conn) TxFull() bool { return len(c.tx) >= c.txCap }

// Aborted reports whether the connection was reset by either side.
func (c *Conn) Aborted() bool { return c.rst || c.cliRst }

// HalfClosed reports whether the client ended its sending side (only).
func (c *Conn) HalfClosed() bool { return c.cliWr && !c.cliCl }

// ClientClosed reports whether the client closed its end.
func (c *Conn) ClientClosed() bool { return c.cliCl }

// SrvFin reports whether the server ended its sending side.
func (c *Conn) SrvFin() bool { return c.wrShut }

// Ready is the readiness of the server's end as epoll would report it.
func (c *Conn) Ready() uint32 { return c.poll() }

// BigBacklog lifts the backlog limit of a listener.
func BigBacklog(fd int) { K.fds[fd-fdBase].blMax = 1 << 20 }
