// Package vchan implements channel operations under the controlled scheduler,
// with the channel's contents held in a shadow.
package vchan

import (
	"unsafe"

	"gevmc/vrace"
	"gevmc/vs"
)

type shadow struct {
	p      unsafe.Pointer
	cap    int
	q      []interface{} // buffered values
	sq     []*sender     // blocked senders (unbuffered or full)
	recvW  int           // blocked receivers
	closed bool
	obj    vs.Obj
	sy     byte // race: values
	ry     byte // race: receivers
}

type sender struct {
	v    interface{}
	done bool
	sel  *int // select: index chosen
	idx  int
}

var tab []*shadow
var ep int

func get(p unsafe.Pointer, c int) *shadow {
	if e := vs.Epoch(); e != ep {
		ep = e
		tab = tab[:0]
	}
	for _, s := range tab {
		if s.p == p {
			return s
		}
	}
	s := &shadow{p: p, cap: c}
	vs.InitObj(&s.obj)
	tab = append(tab, s)
	return s
}

func ptr[T any](ch *T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(ch)) }

func off() bool { return vs.Active() && vs.Killing() }

func forever() {
	vs.Block("nil channel", func() bool { return false })
}

func (s *shadow) touch() {
	vs.Touch(&s.obj, true)
}

func (s *shadow) canRecv() bool { return len(s.q) > 0 || len(s.sq) > 0 || s.closed }
func (s *shadow) canSend() bool {
	return s.closed || len(s.q) < s.cap || (s.cap == 0 && s.recvW > len(s.q))
}

func (s *shadow) take() (interface{}, bool) {
	s.touch()
	vs.Bump()
	if len(s.q) > 0 {
		v := s.q[0]
		s.q = s.q[1:]
		if len(s.sq) > 0 {
			w := s.sq[0]
			s.sq = s.sq[1:]
			s.q = append(s.q, w.v)
			w.done = true
		}
		vrace.Acquire(unsafe.Pointer(&s.sy))
		vrace.ReleaseMerge(unsafe.Pointer(&s.ry))
		return v, true
	}
	if len(s.sq) > 0 {
		w := s.sq[0]
		s.sq = s.sq[1:]
		w.done = true
		vrace.Acquire(unsafe.Pointer(&s.sy))
		vrace.ReleaseMerge(unsafe.Pointer(&s.ry))
		return w.v, true
	}
	vrace.Acquire(unsafe.Pointer(&s.sy))
	return nil, false // closed
}

func (s *shadow) recv() (interface{}, bool) {
	s.recvW++
	vs.Block("chan recv", s.canRecv)
	s.recvW--
	return s.take()
}

func (s *shadow) send(v interface{}) {
	vrace.ReleaseMerge(unsafe.Pointer(&s.sy))
	vs.Point("chan send")
	s.touch()
	vs.Bump()
	if s.closed {
		panic("send on closed channel")
	}
	if len(s.q) < s.cap {
		s.q = append(s.q, v)
		return
	}
	w := &sender{v: v}
	s.sq = append(s.sq, w)
	vs.Block("chan send(blocked)", func() bool { return w.done || s.closed })
	s.touch()
	if !w.done {
		panic("send on closed channel")
	}
	vrace.Acquire(unsafe.Pointer(&s.ry))
}

func val[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if off() {
			return
		}
		if !vs.Active() {
			ch <- v
			return
		}
		if ch == nil {
			forever()
		}
		get(ptr(&ch), cap(ch)).send(v)
	}
}

// TrySend is a non-blocking send used by the timer shims.
func TrySend[T any](ch chan<- T, v T) {
	s := get(ptr(&ch), cap(ch))
	vrace.ReleaseMerge(unsafe.Pointer(&s.sy))
	s.touch()
	vs.Bump()
	if len(s.q) < s.cap {
		s.q = append(s.q, v)
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	var z T
	if off() {
		vs.Block("", nil)
	}
	if !vs.Active() {
		v, ok := <-ch
		return v, ok
	}
	if ch == nil {
		forever()
	}
	v, ok := get(ptr(&ch), cap(ch)).recv()
	if !ok {
		return z, false
	}
	return val[T](v), true
}

func Close[T any](ch chan<- T) {
	if off() {
		return
	}
	if !vs.Active() {
		close(ch)
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	s := get(ptr(&ch), cap(ch))
	vrace.ReleaseMerge(unsafe.Pointer(&s.sy))
	vs.Point("chan close")
	s.touch()
	vs.Bump()
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
}

func Len[T any](ch <-chan T) int {
	if !vs.Active() || off() {
		return len(ch)
	}
	if ch == nil {
		return 0
	}
	s := get(ptr(&ch), cap(ch))
	vs.Point("len(chan)")
	s.touch()
	return len(s.q)
}

// Case is one case of a select statement.
type Case interface {
	ready() bool
	fire()
	arm(d int)
}

type RCase[T any] struct {
	s   *shadow
	Val T
	OK  bool
}

func (c *RCase[T]) ready() bool { return c.s != nil && c.s.canRecv() }
func (c *RCase[T]) arm(d int) {
	if c.s != nil {
		c.s.recvW += d
	}
}
func (c *RCase[T]) fire() {
	v, ok := c.s.take()
	c.OK = ok
	if ok {
		c.Val = val[T](v)
	}
}

type SCase[T any] struct {
	s *shadow
	v T
}

func (c *SCase[T]) ready() bool { return c.s != nil && c.s.canSend() }
func (c *SCase[T]) arm(d int)   {}
func (c *SCase[T]) fire() {
	vrace.ReleaseMerge(unsafe.Pointer(&c.s.sy))
	c.s.touch()
	vs.Bump()
	if c.s.closed {
		panic("send on closed channel")
	}
	// for an unbuffered channel a receiver is waiting and takes it from q
	c.s.q = append(c.s.q, c.v)
}

func R[T any](ch <-chan T) *RCase[T] {
	if ch == nil || !vs.Active() {
		return &RCase[T]{}
	}
	return &RCase[T]{s: get(ptr(&ch), cap(ch))}
}

func S[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] {
		if ch == nil || !vs.Active() {
			return &SCase[T]{v: v}
		}
		return &SCase[T]{s: get(ptr(&ch), cap(ch)), v: v}
	}
}

// Select performs one of the cases and returns its index, or -1 for default.
func Select(def bool, cs ...Case) int {
	if off() {
		vs.Block("", nil)
	}
	anyReady := func() bool {
		for _, c := range cs {
			if c.ready() {
				return true
			}
		}
		return false
	}
	if def {
		vs.Point("select")
		for _, c := range cs {
			switch c := c.(type) {
			case interface{ sh() *shadow }:
				if s := c.sh(); s != nil {
					s.touch()
				}
			}
		}
		if !anyReady() {
			return -1
		}
	} else {
		for _, c := range cs {
			c.arm(1)
		}
		vs.Block("select", anyReady)
		for _, c := range cs {
			c.arm(-1)
		}
	}
	var r []int
	for i, c := range cs {
		if c.ready() {
			r = append(r, i)
		}
	}
	i := r[vs.ChooseFree(len(r), "select")]
	cs[i].fire()
	return i
}

func (c *RCase[T]) sh() *shadow { return c.s }
func (c *SCase[T]) sh() *shadow { return c.s }
