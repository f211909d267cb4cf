// Package vunix replaces the calls of golang.org/x/sys/unix that gev may make
// by the kernel model. It is compiled with race instrumentation in race builds:
// like the real package it reads and writes the caller's buffers and links
// write to read through ioSync.
package vunix

import (
	"syscall"
	"unsafe"

	"gevmc/vkern"
	"gevmc/vrace"

	"golang.org/x/sys/unix"
)

var ioSync int64

func e(n syscall.Errno) error {
	if n == 0 {
		return nil
	}
	return n
}

func Read(fd int, p []byte) (n int, err error) {
	b, en := vkern.Read(fd, len(p))
	if en != 0 {
		return -1, en
	}
	n = copy(p, b)
	vrace.Acquire(unsafe.Pointer(&ioSync))
	return n, nil
}

func Write(fd int, p []byte) (n int, err error) {
	vrace.ReleaseMerge(unsafe.Pointer(&ioSync))
	b := append([]byte(nil), p...)
	n, en := vkern.Write(fd, b)
	if en != 0 {
		return -1, en
	}
	return n, nil
}

func Readv(fd int, iovs [][]byte) (n int, err error) {
	t := 0
	for _, v := range iovs {
		t += len(v)
	}
	b, en := vkern.Read(fd, t)
	if en != 0 {
		return -1, en
	}
	for _, v := range iovs {
		k := copy(v, b)
		b = b[k:]
		n += k
	}
	vrace.Acquire(unsafe.Pointer(&ioSync))
	return n, nil
}

func Writev(fd int, iovs [][]byte) (n int, err error) {
	vrace.ReleaseMerge(unsafe.Pointer(&ioSync))
	var b []byte
	for _, v := range iovs {
		b = append(b, v...)
	}
	n, en := vkern.Write(fd, b)
	if en != 0 {
		return -1, en
	}
	return n, nil
}

func Recvfrom(fd int, p []byte, flags int) (n int, from unix.Sockaddr, err error) {
	n, err = Read(fd, p)
	return n, nil, err
}

func Sendto(fd int, p []byte, flags int, to unix.Sockaddr) error {
	_, err := Write(fd, p)
	return err
}

func SendmsgN(fd int, p, oob []byte, to unix.Sockaddr, flags int) (int, error) { return Write(fd, p) }

func Close(fd int) error { return e(vkern.Close(fd)) }

func sa(c *vkern.Conn) unix.Sockaddr {
	if vkern.K != nil && vkern.K.V6 {
		s := &unix.SockaddrInet6{Port: c.Port}
		s.Addr[15] = 1
		return s
	}
	return &unix.SockaddrInet4{Port: c.Port, Addr: [4]byte{127, byte(c.ID >> 15), byte(c.ID >> 7 & 255), byte(1 + c.ID&127)}}
}

func Accept(fd int) (int, unix.Sockaddr, error) {
	n, c, en := vkern.Accept(fd, false)
	if en != 0 {
		return -1, nil, en
	}
	return n, sa(c), nil
}

func Accept4(fd, flags int) (int, unix.Sockaddr, error) {
	n, c, en := vkern.Accept(fd, flags&unix.SOCK_NONBLOCK != 0)
	if en != 0 {
		return -1, nil, en
	}
	return n, sa(c), nil
}

func SetNonblock(fd int, nonblocking bool) error { return e(vkern.SetNonblock(fd, nonblocking)) }
func Shutdown(fd, how int) error                 { return e(vkern.Shutdown(fd, how)) }
func Dup(fd int) (int, error) {
	n, en := vkern.Dup(fd)
	return n, e(en)
}
func CloseOnExec(fd int) {}

func EpollCreate1(flag int) (int, error) {
	n, en := vkern.EpollCreate()
	return n, e(en)
}
func EpollCreate(size int) (int, error) { return EpollCreate1(0) }

func EpollCtl(epfd, op, fd int, event *unix.EpollEvent) error {
	var ev *vkern.Event
	if event != nil {
		ev = &vkern.Event{Events: event.Events, Data: [2]int32{event.Fd, event.Pad}}
	} else if op != unix.EPOLL_CTL_DEL {
		return unix.EFAULT
	}
	return e(vkern.EpollCtl(epfd, op, fd, ev))
}

func EpollWait(epfd int, events []unix.EpollEvent, msec int) (int, error) {
	l, en := vkern.EpollWait(epfd, len(events), msec)
	if en != 0 {
		return -1, en
	}
	for i, v := range l {
		events[i] = unix.EpollEvent{Events: v.Events, Fd: v.Data[0], Pad: v.Data[1]}
	}
	return len(l), nil
}

func Eventfd(initval uint, flags int) (int, error) {
	n, en := vkern.Eventfd(initval, flags&unix.EFD_NONBLOCK != 0, flags&unix.EFD_SEMAPHORE != 0)
	return n, e(en)
}

func Getpeername(fd int) (unix.Sockaddr, error) {
	c, en := vkern.SockOf(fd, "getpeername")
	if en != 0 {
		return nil, en
	}
	return sa(c), nil
}

func Getsockname(fd int) (unix.Sockaddr, error) {
	_, en := vkern.SockOf(fd, "getsockname")
	if en != 0 {
		return nil, en
	}
	return &unix.SockaddrInet4{Port: 1388, Addr: [4]byte{127, 0, 0, 1}}, nil
}

func SetsockoptInt(fd, level, opt, value int) error { return e(vkern.SetOpt(fd, level, opt, value)) }

func SetsockoptLinger(fd, level, opt int, l *unix.Linger) error {
	return e(vkern.SetLinger(fd, l.Onoff != 0 && l.Linger == 0))
}

func GetsockoptInt(fd, level, opt int) (int, error) {
	if level == unix.SOL_SOCKET && opt == unix.SO_ERROR {
		v, en := vkern.SocketError(fd)
		return v, e(en)
	}
	return 0, nil
}

func FcntlInt(fd uintptr, cmd, arg int) (int, error) {
	nb, en := vkern.Nonblock(int(fd))
	if en != 0 {
		return -1, en
	}
	switch cmd {
	case unix.F_GETFL:
		if nb {
			return unix.O_RDWR | unix.O_NONBLOCK, nil
		}
		return unix.O_RDWR, nil
	case unix.F_SETFL:
		return 0, e(vkern.SetNonblock(int(fd), arg&unix.O_NONBLOCK != 0))
	case unix.F_DUPFD, unix.F_DUPFD_CLOEXEC:
		return Dup(int(fd))
	}
	return 0, nil
}

func sys(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	switch trap {
	case unix.SYS_EVENTFD2:
		n, en := vkern.Eventfd(uint(a1), a2&unix.EFD_NONBLOCK != 0, a2&unix.EFD_SEMAPHORE != 0)
		if en != 0 {
			return ^uintptr(0), 0, en
		}
		return uintptr(n), 0, 0
	case unix.SYS_EVENTFD:
		n, en := vkern.Eventfd(uint(a1), false, false)
		if en != 0 {
			return ^uintptr(0), 0, en
		}
		return uintptr(n), 0, 0
	case unix.SYS_EPOLL_CREATE1, unix.SYS_EPOLL_CREATE:
		n, en := vkern.EpollCreate()
		if en != 0 {
			return ^uintptr(0), 0, en
		}
		return uintptr(n), 0, 0
	case unix.SYS_CLOSE:
		return 0, 0, vkern.Close(int(a1))
	case unix.SYS_SHUTDOWN:
		return 0, 0, vkern.Shutdown(int(a1), int(a2))
	case unix.SYS_READ:
		p := unsafe.Slice((*byte)(unsafe.Pointer(a2)), int(a3))
		n, er := Read(int(a1), p)
		if er != nil {
			return ^uintptr(0), 0, er.(syscall.Errno)
		}
		return uintptr(n), 0, 0
	case unix.SYS_WRITE:
		p := unsafe.Slice((*byte)(unsafe.Pointer(a2)), int(a3))
		n, er := Write(int(a1), p)
		if er != nil {
			return ^uintptr(0), 0, er.(syscall.Errno)
		}
		return uintptr(n), 0, 0
	}
	panic("vunix: system call not modelled")
}

func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return sys(trap, a1, a2, a3)
}
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return sys(trap, a1, a2, a3)
}
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	switch trap {
	case unix.SYS_EPOLL_WAIT, unix.SYS_EPOLL_PWAIT:
		ev := unsafe.Slice((*unix.EpollEvent)(unsafe.Pointer(a2)), int(a3))
		n, er := EpollWait(int(a1), ev, int(int32(a4)))
		if er != nil {
			return ^uintptr(0), 0, er.(syscall.Errno)
		}
		return uintptr(n), 0, 0
	case unix.SYS_EPOLL_CTL:
		var p *unix.EpollEvent
		if a4 != 0 {
			p = (*unix.EpollEvent)(unsafe.Pointer(a4))
		}
		if er := EpollCtl(int(a1), int(a2), int(a3), p); er != nil {
			return ^uintptr(0), 0, er.(syscall.Errno)
		}
		return 0, 0, 0
	}
	return sys(trap, a1, a2, a3)
}
func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return Syscall6(trap, a1, a2, a3, a4, a5, a6)
}
