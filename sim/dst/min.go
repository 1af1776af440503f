package main

import (
	"encoding/json"
	"time"
)

// minimiser shrinks a failing case while the same class of violation of the
// same property persists in replay mode.
type minimiser struct {
	best  *Case
	class string
	until time.Time
	tries int
}

func clone(c *Case) *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	n := &Case{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

func (m *minimiser) try(c *Case) bool {
	if time.Now().After(m.until) {
		return false
	}
	for _, l := range lists(c) {
		for _, o := range l.get(c) {
			if o.K == "limits" && lim(o.A) > lim(o.B) {
				return false // not a legal call
			}
		}
	}
	m.tries++
	res := Execute(c, nil, false)
	if res.Fail == nil || res.Fail.Class != m.class {
		return false
	}
	// keep only what was used
	c.Sched = res.Sched
	c.Faults = res.Faults
	c.Lats = res.Lats
	m.best = c
	return true
}

// chunks removes chunks of a list of n elements; rm builds the case without
// the elements for which drop is true.
func (m *minimiser) chunks(count func(*Case) int, rm func(c *Case, from, to int)) {
	for size := count(m.best); size >= 1; {
		n := count(m.best)
		if size > n {
			size = n
		}
		if size < 1 {
			return
		}
		removed := false
		for at := n - size; at > -size; at -= size {
			from, to := at, at+size
			if from < 0 {
				from = 0
			}
			if to > count(m.best) {
				continue
			}
			if time.Now().After(m.until) {
				return
			}
			c := clone(m.best)
			rm(c, from, to)
			if m.try(c) {
				removed = true
			}
		}
		if size == 1 && !removed {
			return
		}
		if size > 1 {
			size = (size + 1) / 2
			if size == 1 && count(m.best) == 0 {
				return
			}
		}
	}
}

type oplist struct {
	get func(*Case) []Op
	set func(*Case, []Op)
}

func lists(c *Case) []oplist {
	var out []oplist
	for i := range c.Rounds {
		i := i
		for j := range c.Rounds[i].Setup {
			j := j
			out = append(out, oplist{func(c *Case) []Op { return c.Rounds[i].Setup[j] }, func(c *Case, o []Op) { c.Rounds[i].Setup[j] = o }})
		}
		for j := range c.Rounds[i].Ops {
			j := j
			out = append(out, oplist{func(c *Case) []Op { return c.Rounds[i].Ops[j] }, func(c *Case, o []Op) { c.Rounds[i].Ops[j] = o }})
		}
		out = append(out, oplist{func(c *Case) []Op { return c.Rounds[i].End }, func(c *Case, o []Op) { c.Rounds[i].End = o }})
	}
	return out
}

func nops(c *Case) int {
	n := 0
	for _, l := range lists(c) {
		n += len(l.get(c))
	}
	return n
}

func (m *minimiser) run() {
	for pass := 0; pass < 6; pass++ {
		before := nops(m.best) + len(m.best.Sched) + len(m.best.Faults) + len(m.best.Lats) + len(m.best.Rounds)
		t0 := m.tries
		// whole rounds
		m.chunks(func(c *Case) int { return len(c.Rounds) }, func(c *Case, f, t int) {
			c.Rounds = append(c.Rounds[:f:f], c.Rounds[t:]...)
		})
		// all clients' operations of a round at once, then list by list
		for i := 0; i < len(m.best.Rounds); i++ {
			for what := 0; what < 3; what++ {
				c := clone(m.best)
				switch what {
				case 0:
					for j := range c.Rounds[i].Ops {
						c.Rounds[i].Ops[j] = nil
					}
				case 1:
					c.Rounds[i].End = nil
				case 2:
					c.Rounds[i].Crash = nil
				}
				m.try(c)
			}
		}
		for _, l := range lists(m.best) {
			l := l
			m.chunks(func(c *Case) int { return len(l.get(c)) }, func(c *Case, f, t int) {
				o := l.get(c)
				l.set(c, append(o[:f:f], o[t:]...))
			})
		}
		m.chunks(func(c *Case) int { return len(c.Lats) }, func(c *Case, f, t int) { c.Lats = append(c.Lats[:f:f], c.Lats[t:]...) })
		m.chunks(func(c *Case) int { return len(c.Faults) }, func(c *Case, f, t int) { c.Faults = append(c.Faults[:f:f], c.Faults[t:]...) })
		m.chunks(func(c *Case) int { return len(c.Sched) }, func(c *Case, f, t int) { c.Sched = append(c.Sched[:f:f], c.Sched[t:]...) })
		m.numbers()
		m.config()
		after := nops(m.best) + len(m.best.Sched) + len(m.best.Faults) + len(m.best.Lats) + len(m.best.Rounds)
		if after >= before || time.Now().After(m.until) || m.tries == t0 {
			break
		}
	}
}

// numbers shrinks repetition counts and arguments.
func (m *minimiser) numbers() {
	for _, l := range lists(m.best) {
		for i := range l.get(m.best) {
			if i >= len(l.get(m.best)) {
				break
			}
			for _, f := range []func(o *Op) *int{func(o *Op) *int { return &o.B }, func(o *Op) *int { return &o.A }} {
				for k := 0; k < 24; k++ {
					op := &l.get(m.best)[i]
					v := *f(op)
					if v <= 0 {
						break
					}
					if op.K == "settle" && f(op) == &op.A {
						// flags: drop them one by one
						hit := false
						for b := 1; b <= 64; b <<= 1 {
							if v&b == 0 {
								continue
							}
							c := clone(m.best)
							*f(&l.get(c)[i]) = v &^ b
							if m.try(c) {
								hit = true
								break
							}
						}
						if !hit {
							break
						}
						continue
					}
					ok := false
					for _, nv := range []int{0, v / 2, v - 1} {
						if nv >= v {
							continue
						}
						c := clone(m.best)
						*f(&l.get(c)[i]) = nv
						if m.try(c) {
							ok = true
							break
						}
					}
					if !ok {
						break
					}
				}
			}
		}
	}
}

// config simplifies the configuration.
func (m *minimiser) config() {
	for _, f := range []func(c *Cfg){
		func(c *Cfg) { c.NoCache = true },
		func(c *Cfg) { c.Caches = 0 },
		func(c *Cfg) { c.Low, c.High = 1000, 2000 },
		func(c *Cfg) { c.Low, c.High = 0, 0 },
		func(c *Cfg) { c.KeyKind = "int" },
		func(c *Cfg) { c.ValKind = "u64" },
		func(c *Cfg) { c.Reverse = false },
		func(c *Cfg) { c.CmpMag = 0 },
		func(c *Cfg) { c.Alloc = "node"; c.AllocHi = false; c.SharedObjs = false },
		func(c *Cfg) { c.AllocHi = false },
		func(c *Cfg) {
			for i := range c.MaxKeys {
				c.MaxKeys[i] = 4
			}
		},
		func(c *Cfg) {
			for i := range c.Foreign {
				c.Foreign[i] = 0
			}
		},
		func(c *Cfg) { c.Stats = false },
	} {
		c := clone(m.best)
		f(&c.Cfg)
		m.try(c)
	}
}
