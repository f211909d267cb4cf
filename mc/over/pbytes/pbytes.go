// Package pbytes: gobwas/pool/pbytes with last-in first-out reuse, poisoning
// and double-return detection.
package pbytes

import (
	"unsafe"

	"gevmc/vrace"
	"gevmc/vs"
)

var (
	free  [][]byte
	epoch int
	obj   vs.Obj
)

func enter() bool {
	if vs.Active() && vs.Killing() {
		return false
	}
	if e := vs.Epoch(); e != epoch {
		epoch = e
		free = free[:0]
		obj = vs.Obj{}
		vs.InitObj(&obj)
	}
	vs.Touch(&obj, true)
	return true
}

type Pool struct{}

var DefaultPool = &Pool{}

func New(min, max int) *Pool        { return &Pool{} }
func (p *Pool) Get(n, c int) []byte { return Get(n, c) }
func (p *Pool) GetCap(c int) []byte { return Get(0, c) }
func (p *Pool) GetLen(n int) []byte { return Get(n, n) }
func (p *Pool) Put(b []byte)        { Put(b) }
func GetCap(c int) []byte           { return Get(0, c) }
func GetLen(n int) []byte           { return Get(n, n) }

func ceil(n int) int {
	c := 128
	for c < n {
		c *= 2
	}
	return c
}

func Get(n, c int) []byte {
	if n > c {
		panic("requested length is greater than capacity")
	}
	if !enter() {
		return make([]byte, n, c)
	}
	for i := len(free) - 1; i >= 0; i-- {
		if cap(free[i]) >= c {
			b := free[i]
			free = append(free[:i], free[i+1:]...)
			vrace.Acquire(unsafe.Pointer(&b[:1][0]))
			return b[:n]
		}
	}
	b := make([]byte, ceil(c))
	for i := range b {
		b[i] = 0xDD
	}
	return b[:n]
}

func Put(b []byte) {
	if cap(b) == 0 || !enter() {
		return
	}
	b = b[:cap(b)]
	for _, f := range free {
		if &f[:1][0] == &b[0] {
			vs.Fail("buffer pool: a byte buffer was returned twice")
			return
		}
	}
	for i := range b {
		b[i] = 0xDB
	}
	vrace.ReleaseMerge(unsafe.Pointer(&b[0]))
	free = append(free, b)
}
