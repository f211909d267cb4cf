// Package vsync replaces package sync under the controlled scheduler. It is
// compiled without race instrumentation and announces its happens-before edges
// through vrace.
package vsync

import (
	"sync"
	"unsafe"

	"gevmc/vrace"
	"gevmc/vs"
)

type Locker = sync.Locker

func off() bool { return vs.Active() && vs.Killing() }

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	owner  int
}

func (m *Mutex) Lock() {
	if off() {
		m.locked = true
		return
	}
	vs.Block("Mutex.Lock", func() bool { return !m.locked })
	if vs.Active() {
		vs.Touch(vs.AddrObj(unsafe.Pointer(m)), true)
	}
	m.locked = true
	vs.Bump()
	vrace.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if off() {
		return true
	}
	vs.Mem(unsafe.Pointer(m), true, "Mutex.TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	vs.Bump()
	vrace.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if off() {
		m.locked = false
		return
	}
	vrace.Release(unsafe.Pointer(m))
	vs.Mem(unsafe.Pointer(m), true, "Mutex.Unlock")
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	vs.Bump()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	waiting int
	rel     byte
}

func (m *RWMutex) Lock() {
	if off() {
		return
	}
	m.waiting++
	vs.Block("RWMutex.Lock", func() bool { return !m.w && m.r == 0 })
	m.waiting--
	if vs.Active() {
		vs.Touch(vs.AddrObj(unsafe.Pointer(m)), true)
	}
	m.w = true
	vs.Bump()
	vrace.Acquire(unsafe.Pointer(m))
	vrace.Acquire(unsafe.Pointer(&m.rel))
}

func (m *RWMutex) TryLock() bool {
	if off() {
		return true
	}
	vs.Mem(unsafe.Pointer(m), true, "RWMutex.TryLock")
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	vs.Bump()
	vrace.Acquire(unsafe.Pointer(m))
	vrace.Acquire(unsafe.Pointer(&m.rel))
	return true
}

func (m *RWMutex) Unlock() {
	if off() {
		return
	}
	vrace.Release(unsafe.Pointer(m))
	vs.Mem(unsafe.Pointer(m), true, "RWMutex.Unlock")
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	vs.Bump()
}

func (m *RWMutex) RLock() {
	if off() {
		return
	}
	vs.Block("RWMutex.RLock", func() bool { return !m.w })
	if vs.Active() {
		vs.Touch(vs.AddrObj(unsafe.Pointer(m)), true)
	}
	m.r++
	vs.Bump()
	vrace.Acquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	if off() {
		return true
	}
	vs.Mem(unsafe.Pointer(m), true, "RWMutex.TryRLock")
	if m.w {
		return false
	}
	m.r++
	vs.Bump()
	vrace.Acquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	if off() {
		return
	}
	vrace.ReleaseMerge(unsafe.Pointer(&m.rel))
	vs.Mem(unsafe.Pointer(m), true, "RWMutex.RUnlock")
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	vs.Bump()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	if off() {
		return
	}
	if d < 0 {
		vrace.ReleaseMerge(unsafe.Pointer(w))
	}
	vs.Mem(unsafe.Pointer(w), true, "WaitGroup.Add")
	w.n += d
	vs.Bump()
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if off() {
		return
	}
	vs.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	if vs.Active() {
		vs.Touch(vs.AddrObj(unsafe.Pointer(w)), false)
	}
	vrace.Acquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if off() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	q    []*bool
	noCp byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if off() {
		return
	}
	vs.Mem(unsafe.Pointer(c), true, "Cond.Wait")
	woken := new(bool)
	c.q = append(c.q, woken)
	c.L.Unlock()
	vs.Block("Cond.Wait(blocked)", func() bool { return *woken })
	vs.Touch(vs.AddrObj(unsafe.Pointer(c)), true)
	vrace.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	if off() {
		return
	}
	vrace.ReleaseMerge(unsafe.Pointer(c))
	vs.Mem(unsafe.Pointer(c), true, "Cond.Signal")
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
		vs.Bump()
	}
}
func (c *Cond) Broadcast() {
	if off() {
		return
	}
	vrace.ReleaseMerge(unsafe.Pointer(c))
	vs.Mem(unsafe.Pointer(c), true, "Cond.Broadcast")
	for _, w := range c.q {
		*w = true
		vs.Bump()
	}
	c.q = nil
}

// Pool is sync.Pool with last-in first-out reuse, emptied at the start of
// every execution.
type Pool struct {
	New   func() interface{}
	items []interface{}
	ep    int
}

func (p *Pool) sync() {
	if e := vs.Epoch(); p.ep != e {
		p.ep = e
		p.items = nil
	}
	if vs.Active() && !vs.Killing() {
		vs.Touch(vs.AddrObj(unsafe.Pointer(p)), true)
	}
}

func (p *Pool) Get() interface{} {
	p.sync()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		vrace.Acquire(unsafe.Pointer(p))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	p.sync()
	vrace.ReleaseMerge(unsafe.Pointer(p))
	p.items = append(p.items, v)
}

// Map is sync.Map.
type Map struct {
	k, v []interface{}
}

func (m *Map) find(k interface{}) int {
	for i, x := range m.k {
		if x == k {
			return i
		}
	}
	return -1
}
func (m *Map) rd(w string) {
	vs.Mem(unsafe.Pointer(m), false, w)
	vrace.Acquire(unsafe.Pointer(m))
}
func (m *Map) wr(w string) {
	vrace.ReleaseMerge(unsafe.Pointer(m))
	vs.Mem(unsafe.Pointer(m), true, w)
	vrace.Acquire(unsafe.Pointer(m))
	vs.Bump()
}
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.rd("Map.Load")
	if i := m.find(k); i >= 0 {
		return m.v[i], true
	}
	return nil, false
}
func (m *Map) Store(k, v interface{}) { m.Swap(k, v) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.wr("Map.Store")
	if i := m.find(k); i >= 0 {
		o := m.v[i]
		m.v[i] = v
		return o, true
	}
	m.k, m.v = append(m.k, k), append(m.v, v)
	return nil, false
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.wr("Map.LoadOrStore")
	if i := m.find(k); i >= 0 {
		return m.v[i], true
	}
	m.k, m.v = append(m.k, k), append(m.v, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.wr("Map.LoadAndDelete")
	if i := m.find(k); i >= 0 {
		o := m.v[i]
		m.k = append(m.k[:i:i], m.k[i+1:]...)
		m.v = append(m.v[:i:i], m.v[i+1:]...)
		return o, true
	}
	return nil, false
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.wr("Map.CompareAndSwap")
	if i := m.find(k); i >= 0 && m.v[i] == o {
		m.v[i] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.wr("Map.CompareAndDelete")
	if i := m.find(k); i >= 0 && m.v[i] == o {
		m.k = append(m.k[:i:i], m.k[i+1:]...)
		m.v = append(m.v[:i:i], m.v[i+1:]...)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.rd("Map.Range")
	ks := append([]interface{}{}, m.k...)
	for _, k := range ks {
		if i := m.find(k); i >= 0 {
			if !f(k, m.v[i]) {
				return
			}
		}
	}
}
func (m *Map) Clear() {
	m.wr("Map.Clear")
	m.k, m.v = nil, nil
}
