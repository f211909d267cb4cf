// Package vkern is a deterministic model of the Linux facilities gev uses: file
// descriptors, epoll, eventfd, listening and connected TCP sockets. Every call
// is a scheduling point of package vs. The conformance check (cmd conform) runs
// the same operation sequences against the real kernel and compares.
package vkern

import (
	"fmt"
	"strings"
	"syscall"

	"gevmc/vs"
)

type Errno = syscall.Errno

const (
	EPOLLIN      = 0x1
	EPOLLPRI     = 0x2
	EPOLLOUT     = 0x4
	EPOLLERR     = 0x8
	EPOLLHUP     = 0x10
	EPOLLRDHUP   = 0x2000
	EPOLLONESHOT = 1 << 30
	EPOLLET      = 1 << 31
	epPrivate    = EPOLLONESHOT | EPOLLET | 1<<29 | 1<<28
)

type Kind uint8

const (
	KEpoll Kind = iota + 1
	KEvent
	KListen
	KSock
	KForeign
)

func (k Kind) String() string {
	return [...]string{"?", "epoll", "eventfd", "listener", "socket", "foreign"}[k]
}

// File is an open file description.
type File struct {
	Kind     Kind
	Name     string
	refs     int
	nonblock bool
	obj      vs.Obj
	watch    []*epitem
	// epoll
	items []*epitem
	ready []*epitem
	// eventfd
	cnt uint64
	sem bool
	// listener
	addr    string
	reuse   bool
	network string
	backlog []*Conn
	blMax   int
	// socket
	c *Conn
	// foreign
	ops int
}

type epitem struct {
	ep      *File
	f       *File
	fd      int
	events  uint32
	data    [2]int32
	inReady bool
}

// Event is an epoll_event.
type Event struct {
	Events uint32
	Data   [2]int32
}

// Faults enables environment deviations (bounded by the explorer).
type Faults struct {
	EpollEINTR, ReadEAGAIN, WriteShort, WriteEAGAIN, WriteReset, ReadReset bool
	AcceptErr, EpollAdd, EpollMod, EpollCreate, Eventfd, SetNonblock       bool
	Listen, Dup, SpuriousIn                                                bool
	// AfterInit: faults of resource creation apply only when true
}

// Kern is the state of one execution.
type Kern struct {
	fds    []*File
	fdObj  []*vs.Obj
	alloc  vs.Obj
	lis    []*File
	F      Faults
	anoms  []string
	Conns  []*Conn
	port   int
	TxCap  int
	nAcc   int
	V6     bool
	closes []string
	lisSeq int
}

// K is the kernel of the execution in progress.
var K *Kern

const fdBase = 3

// Reset installs a fresh kernel.
func Reset() *Kern {
	if OnReset != nil {
		OnReset()
	}
	K = &Kern{TxCap: 1 << 20, port: 40000}
	vs.InitObj(&K.alloc)
	return K
}

// OnReset runs at every Reset.
var OnReset func()

func (k *Kern) anomaly(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	k.anoms = append(k.anoms, s)
	vs.Tracef("ANOMALY %s", s)
}

// ctlENOENT notes a change of a registration that does not exist; with failing
// registrations it is what the caller has to expect.
func (k *Kern) ctlENOENT(op string, fd int) {
	if !k.F.EpollAdd {
		k.anomaly("epoll_ctl-%s of fd %d: ENOENT", op, fd)
	}
}

// Anomalies lists descriptor misuse observed so far.
func Anomalies() []string { return K.anoms }

func dead() bool { return vs.Active() && vs.Killing() }

func (k *Kern) install(f *File) int {
	vs.Touch(&k.alloc, true)
	i := 0
	for i < len(k.fds) && k.fds[i] != nil {
		i++
	}
	if i == len(k.fds) {
		k.fds = append(k.fds, nil)
		k.fdObj = append(k.fdObj, vs.NewObj())
	}
	k.fds[i] = f
	f.refs++
	vs.Touch(k.fdObj[i], true)
	vs.Bump()
	return i + fdBase
}

func newFile(kind Kind, name string) *File {
	f := &File{Kind: kind, Name: name}
	vs.InitObj(&f.obj)
	return f
}

func (k *Kern) get(fd int, op string) *File {
	i := fd - fdBase
	if i < 0 || i >= len(k.fds) {
		k.anomaly("%s on fd %d: EBADF", op, fd)
		return nil
	}
	vs.Touch(k.fdObj[i], false)
	f := k.fds[i]
	if f == nil {
		k.anomaly("%s on fd %d: EBADF", op, fd)
		return nil
	}
	if f.Kind == KForeign {
		f.ops++
		k.anomaly("%s on fd %d, which belongs to someone else (%s)", op, fd, f.Name)
	}
	return f
}

// OpenFDs describes the open descriptors.
func OpenFDs() []string {
	var out []string
	for i, f := range K.fds {
		if f != nil && f.Kind != KForeign {
			out = append(out, fmt.Sprintf("fd %d: %s %s", i+fdBase, f.Kind, f.Name))
		}
	}
	return out
}

// ---------- readiness ----------

func (f *File) poll() uint32 {
	switch f.Kind {
	case KEvent:
		m := uint32(EPOLLOUT)
		if f.cnt > 0 {
			m |= EPOLLIN
		}
		return m
	case KListen:
		if len(f.backlog) > 0 {
			return EPOLLIN
		}
		return 0
	case KSock:
		return f.c.poll()
	}
	return 0
}

// changed notes a state change of f, waking watchers whose mask meets key.
func (f *File) changed(key uint32) {
	vs.Touch(&f.obj, true)
	vs.Bump()
	for _, it := range f.watch {
		vs.Touch(&it.ep.obj, true)
		if key != 0 && key&it.events == 0 {
			continue
		}
		if it.events&^epPrivate == 0 {
			continue
		}
		it.enqueue()
	}
}

func (it *epitem) enqueue() {
	if !it.inReady {
		it.inReady = true
		it.ep.ready = append(it.ep.ready, it)
	}
}

// ---------- generic descriptor calls ----------

// Close closes fd.
func Close(fd int) Errno {
	if dead() {
		return 0
	}
	vs.Point(fmtFD("close", fd))
	k := K
	f := k.get(fd, "close")
	if f == nil {
		return syscall.EBADF
	}
	k.closeFD(fd)
	return 0
}

func (k *Kern) closeFD(fd int) {
	i := fd - fdBase
	f := k.fds[i]
	vs.Touch(&k.alloc, true)
	vs.Touch(k.fdObj[i], true)
	vs.Bump()
	k.fds[i] = nil
	f.refs--
	vs.Touch(&f.obj, true)
	if f.refs > 0 {
		return
	}
	for _, it := range f.watch {
		vs.Touch(&it.ep.obj, true)
		it.ep.remove(it)
	}
	f.watch = nil
	switch f.Kind {
	case KEpoll:
		for _, it := range f.items {
			it.f.unwatch(it)
		}
		f.items, f.ready = nil, nil
	case KListen:
		for _, c := range f.backlog {
			c.resetByServer()
		}
		f.backlog = nil
		for j, l := range k.lis {
			if l == f {
				k.lis = append(k.lis[:j:j], k.lis[j+1:]...)
				break
			}
		}
		vs.Touch(&k.alloc, true)
	case KSock:
		f.c.serverClosed()
	}
}

func (f *File) unwatch(it *epitem) {
	for j, w := range f.watch {
		if w == it {
			f.watch = append(f.watch[:j:j], f.watch[j+1:]...)
			return
		}
	}
}

func (ep *File) remove(it *epitem) {
	for j, w := range ep.items {
		if w == it {
			ep.items = append(ep.items[:j:j], ep.items[j+1:]...)
			break
		}
	}
	for j, w := range ep.ready {
		if w == it {
			ep.ready = append(ep.ready[:j:j], ep.ready[j+1:]...)
			break
		}
	}
	it.inReady = false
}

// Dup duplicates fd.
func Dup(fd int) (int, Errno) {
	if dead() {
		return -1, syscall.EBADF
	}
	vs.Point(fmtFD("dup", fd))
	f := K.get(fd, "dup")
	if f == nil {
		return -1, syscall.EBADF
	}
	if K.F.Dup && vs.Choose(2, "dup fails") == 1 {
		return -1, syscall.EMFILE
	}
	vs.Touch(&f.obj, false)
	return K.install(f), 0
}

// SetNonblock sets or clears O_NONBLOCK.
func SetNonblock(fd int, on bool) Errno {
	if dead() {
		return 0
	}
	vs.Point(fmtFD("setnonblock", fd))
	f := K.get(fd, "setnonblock")
	if f == nil {
		return syscall.EBADF
	}
	if K.F.SetNonblock && vs.Choose(2, "setnonblock fails") == 1 {
		return syscall.EIO
	}
	vs.Touch(&f.obj, true)
	if f.nonblock != on {
		vs.Bump()
	}
	f.nonblock = on
	return 0
}

// Nonblock reports the flag.
func Nonblock(fd int) (bool, Errno) {
	if dead() {
		return false, 0
	}
	vs.Point(fmtFD("fcntl", fd))
	f := K.get(fd, "fcntl")
	if f == nil {
		return false, syscall.EBADF
	}
	vs.Touch(&f.obj, false)
	return f.nonblock, 0
}

// Read reads at most n bytes.
func Read(fd, n int) ([]byte, Errno) {
	if dead() {
		return nil, syscall.EBADF
	}
	vs.Point(fmtFD("read", fd))
	f := K.get(fd, "read")
	if f == nil {
		return nil, syscall.EBADF
	}
	switch f.Kind {
	case KEvent:
		if n < 8 {
			return nil, syscall.EINVAL
		}
		for f.cnt == 0 {
			vs.Touch(&f.obj, false)
			if f.nonblock {
				return nil, syscall.EAGAIN
			}
			vs.Block(fmtFD("read(blocked)", fd), func() bool { return f.cnt > 0 })
		}
		v := f.cnt
		if f.sem {
			v = 1
		}
		f.cnt -= v
		f.changed(EPOLLOUT)
		var b [8]byte
		for i := 0; i < 8; i++ {
			b[i] = byte(v >> (8 * uint(i)))
		}
		return b[:], 0
	case KSock:
		return f.c.serverRead(f, fd, n)
	case KListen:
		k := K
		k.anomaly("read on listener fd %d", fd)
		return nil, syscall.ENOTCONN
	case KForeign:
		return nil, syscall.EAGAIN
	}
	K.anomaly("read on %s fd %d", f.Kind, fd)
	return nil, syscall.EINVAL
}

// Write writes b.
func Write(fd int, b []byte) (int, Errno) {
	if dead() {
		return -1, syscall.EBADF
	}
	vs.Point(fmtFD("write", fd))
	f := K.get(fd, "write")
	if f == nil {
		return -1, syscall.EBADF
	}
	switch f.Kind {
	case KEvent:
		if len(b) < 8 {
			return -1, syscall.EINVAL
		}
		var v uint64
		for i := 7; i >= 0; i-- {
			v = v<<8 | uint64(b[i])
		}
		if v == ^uint64(0) {
			return -1, syscall.EINVAL
		}
		for f.cnt > ^uint64(0)-1-v {
			if f.nonblock {
				return -1, syscall.EAGAIN
			}
			vs.Block(fmtFD("write(blocked)", fd), func() bool { return f.cnt <= ^uint64(0)-1-v })
		}
		f.cnt += v
		f.changed(EPOLLIN)
		return 8, 0
	case KSock:
		return f.c.serverWrite(f, fd, b)
	case KForeign:
		return len(b), 0
	}
	K.anomaly("write on %s fd %d", f.Kind, fd)
	return -1, syscall.EINVAL
}

// ---------- eventfd / epoll ----------

// Eventfd makes an eventfd.
func Eventfd(init uint, nonblock, sem bool) (int, Errno) {
	if dead() {
		return -1, syscall.EBADF
	}
	vs.Point("eventfd")
	if K.F.Eventfd && vs.Choose(2, "eventfd fails") == 1 {
		return -1, syscall.EMFILE
	}
	f := newFile(KEvent, "")
	f.cnt = uint64(init)
	f.nonblock = nonblock
	f.sem = sem
	return K.install(f), 0
}

// EpollCreate makes an epoll instance.
func EpollCreate() (int, Errno) {
	if dead() {
		return -1, syscall.EBADF
	}
	vs.Point("epoll_create")
	if K.F.EpollCreate && vs.Choose(2, "epoll_create fails") == 1 {
		return -1, syscall.EMFILE
	}
	return K.install(newFile(KEpoll, "")), 0
}

func (ep *File) find(f *File, fd int) *epitem {
	for _, it := range ep.items {
		if it.f == f && it.fd == fd {
			return it
		}
	}
	return nil
}

// EpollCtl changes a registration.
func EpollCtl(epfd, op, fd int, ev *Event) Errno {
	if dead() {
		return 0
	}
	name := [...]string{"?", "add", "del", "mod"}[op&3]
	if vs.Tracing() {
		m := uint32(0)
		if ev != nil {
			m = ev.Events
		}
		vs.Point(fmt.Sprintf("epoll_ctl(%d,%s,%d,%s)", epfd, name, fd, MaskString(m)))
	} else {
		vs.Point("epoll_ctl")
	}
	ep := K.get(epfd, "epoll_ctl")
	if ep == nil {
		return syscall.EBADF
	}
	f := K.get(fd, "epoll_ctl-"+name)
	if f == nil {
		return syscall.EBADF
	}
	if ep.Kind != KEpoll {
		K.anomaly("epoll_ctl on %s fd %d", ep.Kind, epfd)
		return syscall.EINVAL
	}
	if f.Kind == KForeign {
		return 0
	}
	vs.Touch(&ep.obj, true)
	vs.Touch(&f.obj, false)
	it := ep.find(f, fd)
	switch op {
	case syscall.EPOLL_CTL_ADD:
		if it != nil {
			K.anomaly("epoll_ctl-add of fd %d: EEXIST", fd)
			return syscall.EEXIST
		}
		if K.F.EpollAdd && vs.Choose(2, "epoll_ctl add fails") == 1 {
			return syscall.ENOMEM
		}
		it = &epitem{ep: ep, f: f, fd: fd, events: ev.Events | EPOLLERR | EPOLLHUP, data: ev.Data}
		ep.items = append(ep.items, it)
		f.watch = append(f.watch, it)
	case syscall.EPOLL_CTL_MOD:
		if it == nil {
			K.ctlENOENT("mod", fd)
			return syscall.ENOENT
		}
		if K.F.EpollMod && vs.Choose(2, "epoll_ctl mod fails") == 1 {
			return syscall.ENOMEM
		}
		if it.events != ev.Events|EPOLLERR|EPOLLHUP {
			vs.Bump()
		}
		it.events = ev.Events | EPOLLERR | EPOLLHUP
		it.data = ev.Data
	case syscall.EPOLL_CTL_DEL:
		if it == nil {
			K.ctlENOENT("del", fd)
			return syscall.ENOENT
		}
		ep.remove(it)
		f.unwatch(it)
		vs.Bump()
		return 0
	default:
		return syscall.EINVAL
	}
	if op == syscall.EPOLL_CTL_ADD {
		vs.Bump()
	}
	if f.poll()&it.events != 0 {
		it.enqueue()
	}
	return 0
}

func (ep *File) anyReady() bool {
	for _, it := range ep.ready {
		if it.f.poll()&it.events != 0 {
			return true
		}
	}
	return false
}

// purge drops list entries that have turned out not to be ready.
func (ep *File) purge() {
	for _, it := range ep.ready {
		it.inReady = false
	}
	ep.ready = nil
}

// EpollWait waits for events.
func EpollWait(epfd, max, msec int) ([]Event, Errno) {
	if dead() {
		return nil, syscall.EBADF
	}
	if vs.Tracing() {
		vs.Point(fmt.Sprintf("epoll_wait(%d,timeout=%d)", epfd, msec))
	} else {
		vs.Point("epoll_wait")
	}
	ep := K.get(epfd, "epoll_wait")
	if ep == nil {
		// the caller would spin on EBADF for ever; let the rest of the system go on
		if vs.SpinGate() {
			t := vs.Cur()
			vs.Block("epoll_wait(EBADF, spinning)", func() bool { return vs.SpinChanged(t) })
			vs.SpinReset()
		}
		return nil, syscall.EBADF
	}
	if ep.Kind != KEpoll || max <= 0 {
		return nil, syscall.EINVAL
	}
	if K.F.EpollEINTR && vs.Choose(2, "epoll_wait EINTR") == 1 {
		vs.Touch(&ep.obj, false)
		return nil, syscall.EINTR
	}
	for {
		vs.Touch(&ep.obj, true)
		if ep.anyReady() {
			if vs.SpinGate() {
				t := vs.Cur()
				vs.Block(fmtFD("epoll_wait(spinning)", epfd), func() bool { return vs.SpinChanged(t) })
				vs.SpinReset()
				continue
			}
			break
		}
		ep.purge()
		if msec == 0 {
			if vs.SpinGate() {
				t := vs.Cur()
				vs.Block(fmtFD("epoll_wait(spinning)", epfd), func() bool { return vs.SpinChanged(t) || len(ep.ready) > 0 })
				vs.SpinReset()
				continue
			}
			return nil, 0
		}
		if msec < 0 {
			vs.Block(fmtFD("epoll_wait(blocked)", epfd), func() bool { return len(ep.ready) > 0 })
			continue
		}
		fired := false
		tm := vs.AddTimer(vs.NowNS()+int64(msec)*1e6, "", nil)
		vs.Block(fmtFD("epoll_wait(timed)", epfd), func() bool { return len(ep.ready) > 0 || !tm.Pending() })
		fired = !tm.Pending()
		tm.Stop()
		if fired && !ep.anyReady() {
			vs.Touch(&ep.obj, true)
			return nil, 0
		}
	}
	list := ep.ready
	ep.ready = nil
	var out []Event
	var rest []*epitem
	for i, it := range list {
		if len(out) == max {
			rest = list[i:]
			break
		}
		it.inReady = false
		vs.Touch(&it.f.obj, false)
		m := it.f.poll() & it.events
		if m == 0 {
			continue
		}
		out = append(out, Event{m, it.data})
		if it.events&EPOLLONESHOT != 0 {
			it.events &= epPrivate
		} else if it.events&EPOLLET == 0 {
			it.enqueue()
		}
	}
	if len(rest) > 0 {
		ep.ready = append(append([]*epitem{}, rest...), ep.ready...)
	}
	if vs.Tracing() {
		var b strings.Builder
		for _, e := range out {
			fmt.Fprintf(&b, " %d:%s", e.Data[0], MaskString(e.Events))
		}
		vs.Tracef("epoll_wait(%d) ->%s", epfd, b.String())
	}
	return out, 0
}

// MaskString renders an event mask.
func MaskString(m uint32) string {
	var s []string
	for _, p := range []struct {
		b uint32
		n string
	}{{EPOLLIN, "IN"}, {EPOLLPRI, "PRI"}, {EPOLLOUT, "OUT"}, {EPOLLERR, "ERR"}, {EPOLLHUP, "HUP"}, {EPOLLRDHUP, "RDHUP"}} {
		if m&p.b != 0 {
			s = append(s, p.n)
		}
	}
	if len(s) == 0 {
		return "0"
	}
	return strings.Join(s, "|")
}

func fmtFD(op string, fd int) string {
	if vs.Tracing() {
		return fmt.Sprintf("%s(%d)", op, fd)
	}
	return op
}

// ---------- foreign descriptors ----------

// ForeignOpen opens a descriptor that belongs to some other part of the
// process; any operation of gev on it is recorded as an anomaly.
func ForeignOpen(name string) int {
	if dead() {
		return -1
	}
	vs.Point("foreign open")
	f := newFile(KForeign, name)
	return K.install(f)
}

// ForeignClose closes it again.
func ForeignClose(fd int) {
	if dead() {
		return
	}
	vs.Point("foreign close")
	i := fd - fdBase
	if K.fds[i] == nil || K.fds[i].Kind != KForeign {
		K.anomaly("foreign fd %d was closed by someone else", fd)
		return
	}
	K.closeFD(fd)
}

// SetNonblockQuiet changes the flag as part of another call.
func SetNonblockQuiet(fd int, on bool) {
	if dead() {
		return
	}
	if f := K.get(fd, "fcntl"); f != nil {
		vs.Touch(&f.obj, true)
		f.nonblock = on
	}
}
