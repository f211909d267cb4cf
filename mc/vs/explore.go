package vs

import "time"

// stateCache remembers fingerprints with the largest remaining budgets seen.
type stateCache struct {
	k  []uint64
	v  []uint16 // (remaining preemptions+1)<<8 | remaining deviations+1
	n  int
	ov int
}

func newCache() *stateCache { return &stateCache{k: make([]uint64, 1<<12), v: make([]uint16, 1<<12)} }

func (c *stateCache) seen(fp uint64, rp, rd int) bool {
	if fp == 0 {
		fp = 1
	}
	if c.n*2 >= len(c.k) {
		ok, ov := c.k, c.v
		c.k, c.v = make([]uint64, 2*len(ok)), make([]uint16, 2*len(ok))
		for i, k := range ok {
			if k != 0 {
				j := k % uint64(len(c.k))
				for c.k[j] != 0 {
					j = (j + 1) % uint64(len(c.k))
				}
				c.k[j], c.v[j] = k, ov[i]
			}
		}
	}
	j := fp % uint64(len(c.k))
	for c.k[j] != 0 && c.k[j] != fp {
		j = (j + 1) % uint64(len(c.k))
	}
	if c.k[j] == 0 {
		c.k[j] = fp
		c.v[j] = uint16(rp+1)<<8 | uint16(rd+1)
		c.n++
		return false
	}
	op, od := int(c.v[j]>>8)-1, int(c.v[j]&255)-1
	if op >= rp && od >= rd {
		return true
	}
	if rp >= op && rd >= od {
		c.v[j] = uint16(rp+1)<<8 | uint16(rd+1)
	}
	return false
}

// Stats of an exploration.
type Stats struct {
	Execs     int
	Pruned    int
	States    int // distinct fingerprints at decision points
	Steps     int // transitions executed
	Outcomes  int
	Diverged  int
	MaxDepth  int
	Complete  bool
	CutPre    bool // an alternative was left out for the preemption bound
	CutDev    bool // ... for the deviation bound
	OutSample []string
}

// Explore enumerates every execution of body within cfg's bounds. It stops at
// the first failure. deadline (zero: none) and maxExecs (0: none) cap it.
func Explore(cfg Config, deadline time.Time, maxExecs int, body func()) (Stats, *Result) {
	var st Stats
	var cache *stateCache
	if !cfg.NoCache {
		cache = newCache()
	}
	outs := map[uint64]bool{}
	type item struct{ prefix []int }
	stack := []item{{nil}}
	for len(stack) > 0 {
		if maxExecs > 0 && st.Execs >= maxExecs {
			return st, nil
		}
		if !deadline.IsZero() && st.Execs&63 == 0 && time.Now().After(deadline) {
			return st, nil
		}
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		r := Run(cfg, it.prefix, cache, body)
		st.Execs++
		st.Steps += r.Steps
		if r.Diverged {
			st.Diverged++
		}
		if r.Pruned {
			st.Pruned++
		} else if !outs[r.Outcome] {
			outs[r.Outcome] = true
			if len(st.OutSample) < 3 && r.OutcomeS != "" {
				st.OutSample = append(st.OutSample, r.OutcomeS)
			}
		}
		if len(r.choices) > st.MaxDepth {
			st.MaxDepth = len(r.choices)
		}
		if r.Fail != "" {
			st.States = states(cache, st)
			st.Outcomes = len(outs)
			return st, r
		}
		for i := len(r.choices) - 1; i >= len(it.prefix); i-- {
			c := r.choices[i]
			if c.cost1 && cfg.Preempt >= 0 && c.pre+1 > cfg.Preempt {
				st.CutPre = true
				continue
			}
			if c.dcost && c.dv+1 > cfg.Dev {
				st.CutDev = true
				continue
			}
			for a := c.n - 1; a >= 1; a-- {
				if a == c.n-1 && c.clock && cfg.Preempt >= 0 && c.pre+1 > cfg.Preempt {
					st.CutPre = true
					continue
				}
				p := make([]int, i+1)
				copy(p, r.Choices[:i])
				p[i] = a
				stack = append(stack, item{p})
			}
		}
	}
	st.Complete = true
	st.States = states(cache, st)
	st.Outcomes = len(outs)
	return st, nil
}

func states(c *stateCache, st Stats) int {
	if c == nil {
		return st.Execs
	}
	return c.n + st.Execs - st.Pruned // decision states plus final states
}
