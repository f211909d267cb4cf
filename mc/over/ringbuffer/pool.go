package ringbuffer

import (
	"unsafe"

	"gevmc/vrace"
	"gevmc/vs"
)

// The pool under verification: last-in first-out reuse, contents poisoned on
// return, use after return and double return detected.

var (
	free  []*RingBuffer
	epoch int
	obj   vs.Obj
	seeds []int
	// Live counts buffers handed out and not returned in this execution.
	Live int
)

// Seed makes the pool start every execution with buffers of these sizes.
func Seed(sizes ...int) { seeds = sizes }

//go:norace
//go:noinline
func enter() bool {
	if vs.Active() && vs.Killing() {
		return false
	}
	if e := vs.Epoch(); e != epoch {
		epoch = e
		free = free[:0]
		Live = 0
		obj = vs.Obj{}
		vs.InitObj(&obj)
		for _, n := range seeds {
			b := New(n)
			b.pooled = true
			free = append(free, b)
		}
	}
	vs.Touch(&obj, true)
	return true
}

// LiveCount is the number of buffers in use.
//
//go:norace
//go:noinline
func LiveCount() int {
	enter()
	return Live
}

type Pool struct{}

func (p *Pool) Get() *RingBuffer  { return GetFromPool() }
func (p *Pool) Put(b *RingBuffer) { PutInPool(b) }

//go:norace
//go:noinline
func GetFromPool() *RingBuffer {
	if !enter() {
		return New(0)
	}
	Live++
	if n := len(free); n > 0 {
		b := free[n-1]
		free = free[:n-1]
		b.pooled = false
		vrace.Acquire(unsafe.Pointer(b))
		return b
	}
	return New(0)
}

//go:norace
//go:noinline
func PutInPool(b *RingBuffer) {
	if !enter() {
		return
	}
	if b.pooled {
		vs.Fail("buffer pool: a ring buffer was returned twice")
		return
	}
	Live--
	b.Reset()
	buf := b.buf[:cap(b.buf)]
	for i := range buf {
		buf[i] = 0xDB
	}
	b.pooled = true
	vrace.ReleaseMerge(unsafe.Pointer(b))
	free = append(free, b)
}

func (r *RingBuffer) chk() {
	if r.pooled && !(vs.Active() && vs.Killing()) {
		vs.Fail("buffer pool: a ring buffer was used after it had been returned")
	}
}
