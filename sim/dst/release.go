package main

import (
	"fmt"
	"runtime"
	"weak"

	"verif/sim/simrt"
	"verif/sim/simsync"
)

// boxed is a key or value that can be told apart from any other of the same
// number, so that the garbage collector can be asked whether it is still
// referenced.
type boxed struct {
	n    int
	self *boxed
	pad  [4]int
}

func (b *boxed) String() string { return fmt.Sprint(b.n) }

// releases remembers, weakly, everything the library was ever given or read.
type releases struct {
	keys, vals []weak.Pointer[boxed]
	imgs       []weak.Pointer[byte]
}

func (rel *releases) box(n int, key bool) *boxed {
	b := &boxed{n: n}
	if rel != nil {
		if key {
			rel.keys = append(rel.keys, weak.Make(b))
		} else {
			rel.vals = append(rel.vals, weak.Make(b))
		}
	}
	return b
}

func (rel *releases) img(b []byte) {
	if rel != nil && len(b) >= 16 {
		rel.imgs = append(rel.imgs, weak.Make(&b[0]))
	}
}

func alive[T any](l *[]weak.Pointer[T]) int {
	n := 0
	for _, p := range *l {
		if p.Value() != nil {
			(*l)[n] = p
			n++
		}
	}
	*l = (*l)[:n]
	return n
}

// bound is how many nodes' worth of items may be referenced at rest.
type bound struct{ keys, vals, imgs int }

// most is how many items a node of the tree can have.
func (r *Run) most(ts *TreeState) int {
	if ts.bt == nil {
		return 4
	}
	return min(r.cs.Cfg.MaxKeys[ts.id], r.cs.Cfg.KeyN)
}

func (r *Run) slack() int {
	n := 16
	for _, ts := range r.trees {
		n += 2*r.most(ts) + 2
	}
	return n
}

// mayHold says what the library may hold at rest: the items of nodes in
// memory; empty tells that the trees without a cache have none there.
func (r *Run) mayHold(empty bool) (b bound) {
	most := 0
	for _, ts := range r.trees {
		most = max(most, r.most(ts))
		if ts.cache == nil && !(empty && ts.bt != nil) {
			b.vals += ts.m.Len()
			b.keys += 2 * ts.m.Len()
			b.imgs += ts.m.Len()
		}
	}
	for _, ch := range r.caches {
		n := int(ch.total())
		b.vals += n * most
		b.keys += n * most
		b.imgs += n
	}
	return
}

// held compares what is still referenced with what may be.
func (r *Run) held(when string, b bound) {
	simsync.DropPools()
	runtime.GC()
	rel := r.w.rel
	s := r.slack()
	nk, nv, ni := alive(&rel.keys), alive(&rel.vals), alive(&rel.imgs)
	r.stats.Probes["release-"+when]++
	say := func(what string, n, may int) {
		if n > may+s {
			r.w.soft("release", "%s: the library still references %s that left its memory: more than the %d it may hold there, and %d besides", when, what, may, s)
		}
	}
	say("values", nv, b.vals)
	say("keys", nk, b.keys)
	say("node images", ni, b.imgs)
}

// storm makes every n-th callback of a kind fail.
type storm struct {
	k        cbKind
	n, every int
}

// loadStorm has one node after the other fail to load, part of it unpacked.
func (r *Run) loadStorm(op *Op, c *OpCtx) bool {
	rg := r.rng(op, 1)
	st := &storm{k: cbUnpackV}
	n := 0
	for _, ts := range r.trees {
		simrt.Progress()
		if _, ok := r.flush(ts, c, true); !ok {
			return false
		}
	}
	for _, ts := range r.trees {
		st.every = 1 + rg.Intn(1+r.most(ts))
		for i := 0; i < ts.m.Len() && i < 600; i++ {
			simrt.Progress()
			st.n = 0
			r.w.storm = st
			_, _, ok, err := ts.bt.GetByIndex(i)
			r.w.storm = nil
			if ok == (err != nil) {
				r.w.soft("result", "tree %d: GetByIndex(%d) of %d items returned ok=%v, error %v", ts.id, i, ts.m.Len(), ok, err)
				return false
			}
			if ok { // a leaf read completely is looked at item by item
				n++
			}
		}
	}
	simrt.Quiesce()
	b := r.mayHold(false)
	b.vals = n
	r.held("after nodes failed to load", b)
	return true
}

// flushStorm has a flush that also purges fail somewhere.
func (r *Run) flushStorm(op *Op, c *OpCtx) bool {
	rg := r.rng(op, 2)
	for _, ts := range r.trees {
		simrt.Progress()
		if ts.cache == nil {
			continue
		}
		wk, ok := r.flush(ts, c, false)
		if !ok {
			return false
		}
		simrt.Progress()
		ts.mutated(nil)
		if err := ts.bt.Touch(); err != nil {
			r.w.soft("result", "tree %d: Touch fails although no callback did: %v", ts.id, err)
			return false
		}
		n := len(wk.Nodes)
		st := &storm{k: cbPut, every: n - rg.Intn(1+rg.Intn(n))}
		r.w.storm = st
		_, _, _, err := ts.bt.Flush(true)
		r.w.storm = nil
		if err == nil && st.n >= st.every {
			r.w.soft("result", "tree %d: Flush succeeds although a callback failed", ts.id)
			return false
		}
	}
	simrt.Quiesce()
	r.held("after flushes failed", r.mayHold(false))
	return true
}

func (r *Run) rng(op *Op, i int) *simrt.RNG {
	return simrt.NewRNG(simrt.Mix(uint64(op.ID), uint64(i), 41))
}

// release lets everything that may be released be released, one way or
// another, and asks the garbage collector whether it was.
func (r *Run) release(op *Op, c *OpCtx) {
	if r.w.rel == nil || !r.allArrived() {
		return
	}
	simrt.Quiesce()
	r.held("at rest", r.mayHold(false))
	if op.A&4 != 0 { // replace every value, or some
		for _, ts := range r.trees {
			for i := 0; i < ts.m.Len() && i < 600; i++ {
				simrt.Progress()
				r.soloOp(ts, &Op{ID: op.ID, K: pick(r.rng(op, i), "patchk", "patchi", "patchi"), A: i, V: i}, c)
			}
		}
		simrt.Quiesce()
		r.held("after values were replaced", r.mayHold(false))
	}
	if r.cs.Cfg.Engine == "llrb" {
		if op.A&1 != 0 {
			for _, ts := range r.trees {
				ts.ll.Reset()
				ts.m = &Model{}
			}
			r.held("after a reset", r.mayHold(false))
		}
		return
	}
	if op.A&16 != 0 && !r.loadStorm(op, c) {
		return
	}
	if op.A&32 != 0 && !r.flushStorm(op, c) {
		return
	}
	switch op.A % 4 {
	case 0: // one purge or flush with purge after the other
		for _, ts := range r.trees {
			simrt.Progress()
			if op.A&8 != 0 || ts.dirty != 0 {
				if _, ok := r.flush(ts, c, true); !ok {
					return
				}
			} else if err := ts.bt.Purge(op.A&4 == 0); err != nil {
				r.w.soft("result", "tree %d: full purge of a flushed tree fails: %v", ts.id, err)
				return
			}
		}
		simrt.Quiesce()
		r.held("after everything was purged", r.mayHold(true))
	case 1: // flushed, then evicted
		for _, ts := range r.trees {
			simrt.Progress()
			if _, ok := r.flush(ts, c, false); !ok {
				return
			}
		}
		for _, ch := range r.caches {
			lo, hi := ch.low, ch.high
			if op.A&8 == 0 {
				ch.update(0, 0)
			} else {
				n := uint64(r.rng(op, 3).Intn(1 + int(ch.total())/2))
				ch.update(n, n)
			}
			simrt.Quiesce()
			defer ch.setLimits(lo, hi)
		}
		r.held("after eviction", r.mayHold(false))
	case 2: // everything in memory, none of it superseded
		for _, ts := range r.trees {
			simrt.Progress()
			if _, ok := r.flush(ts, c, op.A&8 != 0); !ok {
				return
			}
			r.scan(ts, c)
		}
		simrt.Quiesce()
		r.held("after a scan", r.mayHold(false))
	case 3: // the handles stay, the trees, or all but one of them, are gone
		keep := -1
		if op.A&8 != 0 && len(r.trees) > 1 {
			keep = r.rng(op, 4).Intn(len(r.trees))
			if !r.leaveOne(op, keep, c) {
				return
			}
		}
		for i, ts := range r.trees {
			if i == keep {
				continue
			}
			simrt.Progress()
			ts.gone = ts.bt
			c.op = &Op{ID: op.ID, K: "discard"}
			r.btOp(ts, c.op, c)
			c.op = op
		}
		simrt.Quiesce()
		r.held("after the trees were discarded", r.mayHold(keep < 0))
		for _, ts := range r.trees {
			runtime.KeepAlive(ts.gone)
			ts.gone = nil
		}
	}
}

// leaveOne prepares the discarding of all trees but one: that one is the first
// to be evicted, at least in part.
func (r *Run) leaveOne(op *Op, keep int, c *OpCtx) bool {
	ts := r.trees[keep]
	ch := ts.cache
	if ch == nil {
		return true
	}
	lo, hi := ch.low, ch.high
	ch.update(1<<40, 1<<40)
	defer ch.setLimits(lo, hi)
	if _, ok := r.flush(ts, c, true); !ok {
		return false
	}
	r.scan(ts, c)
	for i := range r.trees {
		if t := r.trees[i]; t != ts && t.cache == ch {
			simrt.Progress()
			if _, ok := r.flush(t, c, false); !ok {
				return false
			}
			r.scan(t, c)
		}
	}
	n := ch.total()
	if n > 1 {
		n -= 1 + uint64(r.rng(op, 5).LogUniform(int(n-1)))
	}
	ch.update(n, n)
	simrt.Quiesce()
	return true
}
