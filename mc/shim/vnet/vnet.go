// Package vnet replaces net.Listen and friends.
package vnet

import (
	"context"
	"errors"
	"net"
	"syscall"

	"gevmc/shim/vos"
	"gevmc/vkern"
)

// TCPListener is a listening TCP socket of the kernel model.
type TCPListener struct {
	fd     int
	addr   string
	closed bool
}

// UnixListener is any listener that is not TCP.
type UnixListener struct{ TCPListener }

func listen(network, address string, reuse bool) (net.Listener, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	case "unix", "unixpacket":
		fd, e := vkern.Listen(network, address, reuse)
		if e != 0 {
			return nil, &net.OpError{Op: "listen", Net: network, Err: e}
		}
		return &UnixListener{TCPListener{fd: fd, addr: address}}, nil
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	if _, _, err := net.SplitHostPort(address); err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	fd, e := vkern.Listen(network, address, reuse)
	if e != 0 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: e}
	}
	return &TCPListener{fd: fd, addr: address}, nil
}

func Listen(network, address string) (net.Listener, error) { return listen(network, address, false) }

// ListenReuse is reuseport.Listen.
func ListenReuse(network, address string) (net.Listener, error) {
	return listen(network, address, true)
}

func ListenTCP(network string, laddr *net.TCPAddr) (*TCPListener, error) {
	l, err := listen(network, laddr.String(), false)
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

// ListenConfig with a Control function is taken to set SO_REUSEPORT.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive int64
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return listen(network, address, lc.Control != nil)
}

var errUse = errors.New("use of closed network connection")

func (l *TCPListener) Accept() (net.Conn, error) { return nil, errors.New("vnet: Accept not modelled") }

func (l *TCPListener) Addr() net.Addr {
	a, err := net.ResolveTCPAddr("tcp", l.addr)
	if err != nil {
		return &net.TCPAddr{}
	}
	return a
}

func (l *TCPListener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: errUse}
	}
	l.closed = true
	if e := vkern.Close(l.fd); e != 0 {
		return e
	}
	return nil
}

func (l *TCPListener) File() (*vos.File, error) {
	if l.closed {
		return nil, errUse
	}
	n, e := vkern.Dup(l.fd)
	if e != 0 {
		return nil, e
	}
	return vos.NewFile(uintptr(n), "listener"), nil
}

type rawConn struct{ l *TCPListener }

func (l *TCPListener) SyscallConn() (syscall.RawConn, error) { return rawConn{l}, nil }
func (r rawConn) Control(f func(fd uintptr)) error           { f(uintptr(r.l.fd)); return nil }
func (r rawConn) Read(f func(fd uintptr) bool) error         { f(uintptr(r.l.fd)); return nil }
func (r rawConn) Write(f func(fd uintptr) bool) error        { f(uintptr(r.l.fd)); return nil }
