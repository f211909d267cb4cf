package main

import (
	"fmt"
	"strings"

	"github.com/Allenxuxu/gev"

	"gevmc/vkern"
	"gevmc/vs"
)

// kvOp is one operation on a key/value context.
type kvOp struct {
	kind     byte // 'S' 'G' 'D'
	key      string
	val      interface{}
	inv, res int
	got      interface{}
	ok       bool
}

func (o *kvOp) String() string {
	switch o.kind {
	case 'S':
		return fmt.Sprintf("Set(%s,%v)", o.key, o.val)
	case 'D':
		return fmt.Sprintf("Delete(%s)", o.key)
	}
	return fmt.Sprintf("Get(%s)=%v,%v", o.key, o.got, o.ok)
}

// linearizable looks for an order of the operations that respects real time and
// explains every Get.
func linearizable(ops []*kvOp, done uint, m map[string]interface{}) bool {
	if done == 1<<uint(len(ops))-1 {
		return true
	}
	first := 1 << 30 // no operation invoked after another's response may come before it
	for i, o := range ops {
		if done>>uint(i)&1 == 0 && o.res < first {
			first = o.res
		}
	}
	for i, o := range ops {
		if done>>uint(i)&1 == 1 || o.inv > first {
			continue
		}
		old, had := m[o.key]
		switch o.kind {
		case 'G':
			if had != o.ok || had && old != o.got || !had && o.got != nil {
				continue
			}
		case 'S':
			m[o.key] = o.val
		case 'D':
			delete(m, o.key)
		}
		if linearizable(ops, done|1<<uint(i), m) {
			return true
		}
		if had {
			m[o.key] = old
		} else {
			delete(m, o.key)
		}
	}
	return false
}

type kvRun struct {
	c     *gev.Connection
	clock int
	ops   []*kvOp
}

func (k *kvRun) do(o *kvOp) {
	o.inv = k.clock
	k.clock++
	switch o.kind {
	case 'S':
		k.c.Set(o.key, o.val)
	case 'D':
		k.c.Delete(o.key)
	case 'G':
		o.got, o.ok = k.c.Get(o.key)
	}
	o.res = k.clock
	k.clock++
}

func (k *kvRun) verdict(what string) {
	s := ""
	for _, o := range k.ops {
		s += fmt.Sprintf("%v[%d-%d] ", o, o.inv, o.res)
	}
	vs.Outcome(s)
	chk("C17", linearizable(k.ops, 0, map[string]interface{}{}), "%s: no order of the operations explains %s", what, s)
}

func init() {
	alphabet := func(keys []string, vals []interface{}) []kvOp {
		var out []kvOp
		for _, k := range keys {
			out = append(out, kvOp{kind: 'G', key: k}, kvOp{kind: 'D', key: k})
			for _, v := range vals {
				out = append(out, kvOp{kind: 'S', key: k, val: v})
			}
		}
		return out
	}
	for _, v := range []struct {
		name     string
		shape    []int
		keys     []string
		vals     []interface{}
		pre      int
		thorough bool
	}{
		{"2x2", []int{2, 2}, []string{"a", "b"}, []interface{}{1}, 3, false},
		{"2x2-values", []int{2, 2}, []string{"a"}, []interface{}{1, 2, nil}, 3, false},
		{"3x1", []int{1, 1, 1}, []string{"a", "b"}, []interface{}{1, 2}, 3, false},
		{"3+2", []int{3, 2}, []string{"a"}, []interface{}{1, 2}, 2, false},
		{"2+1+1", []int{2, 1, 1}, []string{"a"}, []interface{}{1}, 2, false},
		{"3x2", []int{2, 2, 2}, []string{"a"}, []interface{}{1}, 2, true},
		{"3x3", []int{3, 3}, []string{"a", "b"}, []interface{}{1}, 2, true},
		{"4x1", []int{1, 1, 1, 1}, []string{"a"}, []interface{}{1, 2}, 3, true},
	} {
		v := v
		add(&Scen{Props: "C17", Name: "kv-" + v.name, Pre: v.pre, Thorough: v.thorough, Race: !v.thorough, Body: func() {
			g := run(&H{})
			g.connect("x")
			k := &kvRun{c: g.recs[0].c}
			al := alphabet(v.keys, v.vals)
			var th [][]*kvOp
			for _, n := range v.shape {
				var t []*kvOp
				for i := 0; i < n; i++ {
					o := al[vs.ChooseFree(len(al), "operation")]
					t = append(t, &o)
					k.ops = append(k.ops, &o)
				}
				th = append(th, t)
			}
			for _, t := range th {
				t := t
				vs.Go("kv", func() {
					receive()
					for _, o := range t {
						k.do(o)
					}
				})
			}
			quiesce()
			receive()
			for _, key := range v.keys {
				o := &kvOp{kind: 'G', key: key}
				k.ops = append(k.ops, o)
				k.do(o)
			}
			k.verdict("concurrent use")
			g.finish()
		}})
	}
	// callbacks and other goroutines share the context
	add(&Scen{Props: "C17", Name: "kv-callbacks", Pre: 2, Race: true, Body: func() {
		k := &kvRun{}
		put := func(kind byte, key string, val interface{}) {
			o := &kvOp{kind: kind, key: key, val: val}
			k.ops = append(k.ops, o)
			k.do(o)
		}
		h := &H{
			onCon: func(r *CR) { k.c = r.c; put('S', "n", 0) },
			onMsg: func(r *CR, ctx interface{}, b []byte) interface{} {
				put('G', "n", nil)
				put('S', "n", int(b[0]))
				return nil
			},
			onCls: func(r *CR) { put('G', "n", nil); put('D', "n", nil) },
		}
		g := run(h)
		c := g.connect("x")
		vs.Go("client", func() { c.Send([]byte{7}); c.Close() })
		vs.Go("app", func() {
			receive()
			put('G', "n", nil)
			put('D', "n", nil)
		})
		quiesce()
		receive()
		put('G', "n", nil)
		k.verdict("use inside and outside callbacks")
		g.finish()
	}})
	// contexts of different connections are independent, one after the other too
	add(&Scen{Props: "C17", Name: "kv-independent", Body: func() {
		g := run(&H{}, gev.NumLoops(2))
		vs.Serial(true)
		a, b := g.connect("a"), g.connect("b")
		vs.Serial(true)
		ra, rb := g.of(a), g.of(b)
		receive()
		type kv struct{ m map[string]interface{} }
		ma, mb := map[string]interface{}{}, map[string]interface{}{}
		for i := 0; i < 4; i++ {
			r, m := ra, ma
			if vs.ChooseFree(2, "connection") == 1 {
				r, m = rb, mb
			}
			key := []string{"a", "b"}[vs.ChooseFree(2, "key")]
			if vs.ChooseFree(2, "delete") == 1 {
				r.c.Delete(key)
				delete(m, key)
			} else {
				r.c.Set(key, i)
				m[key] = i
			}
			for _, x := range []struct {
				r *CR
				m map[string]interface{}
			}{{ra, ma}, {rb, mb}} {
				for _, q := range []string{"a", "b", "c"} {
					v, ok := x.r.c.Get(q)
					w, want := x.m[q]
					chk("C17", ok == want && v == w, "Get(%s) of connection %s = %v, %v, expected %v, %v", q, x.r.peer.Name, v, ok, w, want)
				}
			}
		}
		// the end of a connection takes nothing out of its context
		look := func(when string) {
			for _, q := range []string{"a", "b", "c"} {
				v, ok := ra.c.Get(q)
				w, want := ma[q]
				chk("C17", ok == want && v == w, "%s, Get(%s) = %v, %v, expected %v, %v", when, q, v, ok, w, want)
			}
		}
		g.H.onCls = func(r *CR) {
			if r == ra {
				look("in the close callback")
			}
		}
		switch vs.ChooseFree(3, "end") {
		case 0:
			a.Close()
		case 1:
			a.Reset()
		case 2:
			ra.c.Close()
		}
		quiesce()
		receive()
		look("after the end of the connection")
		c := g.connect("c")
		receive()
		look("after another connection came")
		for _, q := range []string{"a", "b"} {
			v, ok := g.of(c).c.Get(q)
			chk("C17", !ok && v == nil, "a new connection finds %s = %v", q, v)
			v, ok = rb.c.Get(q)
			w, want := mb[q]
			chk("C17", ok == want && v == w, "after the end of another connection, Get(%s) = %v, %v, expected %v, %v", q, v, ok, w, want)
		}
		g.finish()
	}})
	// all sequential histories
	add(&Scen{Props: "C17", Name: "kv-histories", Enum: func(e *Enum) {
		al := alphabet([]string{"a", "b"}, []interface{}{1, 2, nil})
		n := len(al)
		for depth := 1; depth <= 5; depth++ {
			tot := 1
			for i := 0; i < depth; i++ {
				tot *= n
			}
			for x := 0; x < tot; x++ {
				if !e.Begin("history %d of length %d", x, depth) {
					return
				}
				var c gev.KeyValueContext
				m := map[string]interface{}{}
				y := x
				for i := 0; i < depth; i++ {
					o := al[y%n]
					y /= n
					switch o.kind {
					case 'S':
						c.Set(o.key, o.val)
						m[o.key] = o.val
					case 'D':
						c.Delete(o.key)
						delete(m, o.key)
					}
					for _, key := range []string{"a", "b"} {
						v, ok := c.Get(key)
						w, want := m[key]
						if v != w || ok != want {
							e.Bad("after step %d Get(%s) = %v, %v, expected %v, %v", i, key, v, ok, w, want)
							return
						}
					}
				}
				e.State(hashStr(fmt.Sprint(m["a"], m["b"], len(m))))
			}
		}
	}})
	// many and long keys, all kinds of values
	add(&Scen{Props: "C17", Name: "kv-scale", Enum: func(e *Enum) {
		for _, n := range []int{1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 10000, 65536, 65537, 100001} {
			for _, l := range []int{0, 1, 8, 16, 31, 32, 33, 64, 65, 128, 255, 256, 257, 1000, 4096, 65536} {
				if n*l > 4000000 || !e.Begin("%d keys of %d more characters", n, l) {
					continue
				}
				var c, o gev.KeyValueContext
				pre := strings.Repeat("k", l)
				check := func(what string, i int, v interface{}, has bool) bool {
					w, ok := c.Get(pre + fmt.Sprint(i))
					if w != v || ok != has {
						e.Bad("%s with %d keys of %d more characters: Get(%d) = %v, %v, expected %v, %v", what, n, l, i, w, ok, v, has)
						return false
					}
					_, ok = o.Get(pre + fmt.Sprint(i))
					if ok {
						e.Bad("key %d is in another context", i)
						return false
					}
					return true
				}
				all := func() bool {
					for i := 0; i < n; i++ {
						c.Set(pre+fmt.Sprint(i), i)
						if !check("Set", i, i, true) {
							return false
						}
					}
					for i := 0; i < n; i++ {
						if !check("all set", i, i, true) {
							return false
						}
					}
					if !check("all set", n, nil, false) {
						return false
					}
					for i := 0; i < n; i += 2 {
						c.Delete(pre + fmt.Sprint(i))
					}
					c.Delete(pre + fmt.Sprint(n))
					for i := 0; i < n; i++ {
						var v interface{} = i
						if i%2 == 0 {
							v = nil
						}
						if !check("half deleted", i, v, i%2 == 1) {
							return false
						}
					}
					for i := 0; i < n; i++ {
						c.Set(pre+fmt.Sprint(i), -i)
					}
					for i := 0; i < n; i++ {
						if !check("set again", i, -i, true) {
							return false
						}
						c.Delete(pre + fmt.Sprint(i))
						if !check("deleted", i, nil, false) {
							return false
						}
					}
					return true
				}
				if !all() {
					return
				}
				e.State(uint64(n)<<32 + uint64(l))
			}
		}
		// keys and values of any kind
		keys := []string{"", " ", "a", "A", "a ", " a", "a\x00", "a\x00b", "\xff", "\xfe", "é", "e\u0301", "ab", "ba", strings.Repeat("x", 300) + "1", strings.Repeat("x", 300) + "2"}
		p, q := new(int), new(int)
		vals := []interface{}{nil, 0, "", false, "v", p, q, 1.5, struct{}{}, error(nil), (*int)(nil), [2]int{1, 2}}
		for i, k := range keys {
			for j, v := range vals {
				if !e.Begin("key %q value %d", k, j) {
					return
				}
				var c gev.KeyValueContext
				for x, other := range keys {
					c.Set(other, x)
				}
				c.Set(k, v)
				for x, other := range keys {
					var want interface{} = x
					if x == i {
						want = v
					}
					w, ok := c.Get(other)
					if w != want || !ok {
						e.Bad("after Set(%q, %v), Get(%q) = %v, %v, expected %v", k, v, other, w, ok, want)
						return
					}
				}
				c.Delete(k)
				for x, other := range keys {
					w, ok := c.Get(other)
					if ok != (x != i) || ok && w != x || !ok && w != nil {
						e.Bad("after Delete(%q), Get(%q) = %v, %v", k, other, w, ok)
						return
					}
				}
				e.State(uint64(i)<<8 + uint64(j))
			}
		}
	}})
	// the gauges, read by another goroutine at any time
	for _, cap := range []int{1 << 20, 3} {
		cap := cap
		add(&Scen{Props: "C16", Name: fmt.Sprintf("gauges-sampled-%d", cap), Pre: 2, Dev: 1, Body: func() {
			vkern.Reset()
			vkern.K.TxCap = cap
			g := newRig(&H{onMsg: reply}, withProto(&lineProto{}))
			g.start()
			c := g.connect("a")
			r := g.of(c)
			vkern.K.F.WriteShort = true
			vs.Go("sampler", func() {
				for i := 0; i < 3; i++ {
					rl, wl := r.c.ReadBufferLength(), r.c.WriteBufferLength()
					chk("C16", rl >= 0 && wl >= 0, "a gauge is negative: read %d write %d", rl, wl)
					chk("C16", int(rl) <= len(c.Sent), "ReadBufferLength() = %d, the client has sent only %d bytes", rl, len(c.Sent))
					chk("C16", int(wl) <= len(r.out), "WriteBufferLength() = %d, only %d bytes were handed over", wl, len(r.out))
					vs.Point("sampled")
				}
			})
			vs.Go("client", func() {
				c.Send([]byte("ab"))
				c.Send([]byte("c\nde"))
				c.Send([]byte("\n"))
				c.RecvN(4)
			})
			quiesce()
			g.finish()
		}})
	}
}
