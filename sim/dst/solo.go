package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/NVIDIA/sortedmap"
	"verif/sim/simrt"
)

func (r *Run) cmp() sortedmap.Compare { return r.w.compare }

// open creates the volatile objects at the start of an epoch.
func (r *Run) open() {
	cfg := &r.cs.Cfg
	simrt.EnterOp(-3 - r.epoch)
	if cfg.Engine == "llrb" {
		for _, ts := range r.trees {
			var cb sortedmap.DumpCallbacks
			if !cfg.NilCB {
				cb = &TreeCB{r.w, ts.id}
			}
			ts.ll = sortedmap.NewLLRBTree(r.cmp(), cb)
			ts.sm = ts.ll
		}
		return
	}
	if !cfg.NoCache {
		n := cfg.Caches
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			r.caches = append(r.caches, &Cache{bp: sortedmap.NewBPlusTreeCache(lim(cfg.Low), lim(cfg.High)), low: cfg.Low, high: cfg.High, minHigh: lim(cfg.High), calm: calm{high: lim(cfg.High)}})
		}
		for _, ts := range r.trees {
			ts.cache = r.caches[ts.id%n]
			ts.cache.trees = append(ts.cache.trees, ts)
		}
	}
	for _, ts := range r.trees {
		if len(ts.cks) > 0 {
			r.reopenAt(ts, ts.cks[len(ts.cks)-1], nil)
			continue
		}
		if r.epoch == 0 && ts.id < len(cfg.Foreign) && cfg.Foreign[ts.id] > 0 {
			ck := r.buildForeign(ts, cfg.Foreign[ts.id])
			ts.cks = []*Checkpoint{ck}
			ts.m = &Model{append([]KV(nil), ck.kv...)}
			ts.height = 0
			ts.dirty = 0
			ts.foreign = true
			r.reopenAt(ts, ck, nil)
			continue
		}
		r.fresh(ts)
	}
}

// bp is the cache the tree is opened with.
func (ts *TreeState) bp() sortedmap.BPlusTreeCache {
	if ts.cache == nil {
		return nil
	}
	return ts.cache.bp
}

func (r *Run) fresh(ts *TreeState) {
	var cb sortedmap.BPlusTreeCallbacks
	if !r.cs.Cfg.NilCB {
		cb = &TreeCB{r.w, ts.id}
	}
	ts.bt = r.meter(ts, sortedmap.NewBPlusTree(uint64(r.cs.Cfg.MaxKeys[ts.id]), r.cmp(), cb, ts.bp()), 0, 1, 1)
	ts.mt.opened(nil)
	ts.sm = ts.bt
	ts.m = &Model{}
	ts.height = 0
	ts.dirty = 1
	ts.cks = nil
	ts.sweep = nil
	ts.gen++
}

// reopenAt reconstructs a tree from a root location; faults may hit the first
// attempt, the repeated one must succeed.
func (r *Run) reopenAt(ts *TreeState, ck *Checkpoint, c *OpCtx) {
	for try := 0; ; try++ {
		e0, g0 := 0, 0
		if c != nil {
			e0, g0 = c.errs, c.gets
		}
		bt, err := sortedmap.OldBPlusTree(ck.loc.Num, ck.loc.Off, ck.loc.Len, r.cmp(), &TreeCB{r.w, ts.id}, ts.bp())
		if err == nil {
			ts.bt = r.meter(ts, bt, len(ck.kv), 0, 0)
			ts.mt.opened(&ck.loc)
			if c != nil && c.gets-g0 > 1 {
				r.w.soft("io", "tree %d: opening it read %d nodes", ts.id, c.gets-g0)
			}
			ts.sm = ts.bt
			break
		}
		if c == nil || c.errs == e0 {
			violate("reopen", "tree %d cannot be reopened at %v: %v", ts.id, ck.loc, err)
		}
		r.stats.Probes["reopen-retried"]++
		if try >= 1 {
			c.op = &Op{ID: c.op.ID, K: c.op.K} // no more faults
		}
	}
	ts.m = &Model{append([]KV(nil), ck.kv...)}
	ts.height = 0
	ts.dirty = 0
	ts.sweep = nil
	ts.gen++
}

// unexpected handles an error result: legitimate only if a callback failed.
func (r *Run) failed(ts *TreeState, c *OpCtx, err error) bool {
	if err == nil {
		return false
	}
	if c.errs == 0 {
		cl := "result"
		if c.op.K == "validate" {
			cl = "shape"
		}
		violate(cl, "tree %d: %s reports an error although no callback failed: %v", ts.id, c.op.K, err)
	}
	r.stats.Probes["error-"+c.op.K]++
	r.sim.Mark("err", uint64(c.op.ID), uint64(c.errs), 0)
	return true
}

func (r *Run) want(ts *TreeState, op *Op, what string, got, want interface{}) {
	if got != want {
		violate("result", "tree %d: %s(a=%d b=%d) returned %s=%v, an ideal sorted map returns %v (%d items)", ts.id, op.K, op.A, op.B, what, got, want, ts.m.Len())
	}
}

func (ts *TreeState) mutated(err error) {
	if err != nil {
		if ts.dirty == 0 {
			ts.dirty = 2
		}
	} else {
		ts.dirty = 1
	}
	ts.lastPruned = false
	ts.sweep = nil
	ts.height = 0
}

// patched: replacing a value by an equal one may or may not count as a change.
func (ts *TreeState) patched(same bool) {
	was := ts.dirty
	ts.mutated(nil)
	if same && was != 1 {
		ts.dirty = 2
	}
}

func (r *Run) key(i int) (int, sortedmap.Key) {
	n := r.w.kk.N()
	i %= n
	if i < 0 {
		i += n
	}
	return i, r.w.kk.Key(i)
}

// num converts a returned key, complaining about keys nobody stored.
func (r *Run) num(ts *TreeState, k sortedmap.Key) int {
	i, ok := r.w.kk.Num(k)
	if !ok {
		violate("result", "tree %d returned a key nobody stored: %v", ts.id, k)
	}
	return i
}
func (r *Run) vnum(ts *TreeState, v sortedmap.Value) int {
	i, ok := r.w.vk.Num(v)
	if !ok {
		violate("result", "tree %d returned a value nobody stored: %v", ts.id, v)
	}
	return i
}

// solo executes one call of the only caller of a tree and compares it with the
// ideal map at once.
func (r *Run) solo(ts *TreeState, op *Op) {
	c := r.begin(ts, op)
	r.soloOp(ts, op, c)
	r.end(ts, c)
}

// wrecked looks at the shape of a tree whose modification failed for no reason.
func (r *Run) wrecked(ts *TreeState, err error) {
	if accepts(r.cs.Prop, "shape") && !accepts(r.cs.Prop, "result") {
		if e := ts.sm.Validate(); e != nil {
			violate("shape", "tree %d: a modification fails (%v) and leaves a tree that does not validate: %v", ts.id, err, e)
		}
	}
}

// spelling checks that the key read back is the key that was inserted, not
// another one equal to it (a B+Tree may have stored it packed meanwhile).
func (r *Run) spelling(ts *TreeState, class string, ki int, k sortedmap.Key) {
	s, is := k.(string)
	want, known := ts.spelt[ki]
	if !is || !known || s == want || ts.bt != nil && s == strings.ToLower(want) {
		return
	}
	violate(class, "tree %d: key %d is returned as %q, but was inserted as %q", ts.id, ki, s, want)
}

func (r *Run) soloPut(ts *TreeState, op *Op, c *OpCtx, ki, v int) {
	_, k := r.key(ki)
	ki, _ = r.key(ki)
	e0 := c.errs
	_, dup := ts.m.find(ki)
	ok, err := ts.sm.Put(k, r.w.vk.Val(v))
	if err != nil && c.errs > e0 {
		delete(ts.spelt, ki)
		ts.mutated(err)
		r.failed(ts, c, err)
		return
	}
	if err != nil {
		r.wrecked(ts, err)
		violate("result", "tree %d: put of key %d reports an error although no callback failed: %v", ts.id, ki, err)
	}
	r.want(ts, op, "ok", ok, !dup)
	if ok {
		ts.m.Put(ki, r.w.vk.Canon(v))
		if s, is := k.(string); is && r.w.kk.Kind == "fold" {
			if ts.spelt == nil {
				ts.spelt = map[int]string{}
			}
			ts.spelt[ki] = s
		}
		ts.mutated(nil)
	}
	r.sim.Mark("put", uint64(ki), b2u(ok), 0)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (r *Run) soloDelKey(ts *TreeState, op *Op, c *OpCtx, ki int) {
	_, k := r.key(ki)
	ki, _ = r.key(ki)
	e0 := c.errs
	_, has := ts.m.find(ki)
	ok, err := ts.sm.DeleteByKey(k)
	if err != nil && c.errs > e0 {
		ts.mutated(err)
		r.failed(ts, c, err)
		return
	}
	if err != nil {
		r.wrecked(ts, err)
		violate("result", "tree %d: delete of key %d reports an error although no callback failed: %v", ts.id, ki, err)
	}
	r.want(ts, op, "ok", ok, has)
	if ok {
		ts.m.DelKey(ki)
		ts.mutated(nil)
	}
	r.sim.Mark("del", uint64(ki), b2u(ok), 0)
}

func (r *Run) soloDelIdx(ts *TreeState, op *Op, c *OpCtx, i int) {
	e0 := c.errs
	ok, err := ts.sm.DeleteByIndex(i)
	if err != nil && c.errs > e0 {
		ts.mutated(err)
		r.failed(ts, c, err)
		return
	}
	if err != nil {
		r.wrecked(ts, err)
		violate("result", "tree %d: delete at index %d reports an error although no callback failed: %v", ts.id, i, err)
	}
	r.want(ts, op, "ok", ok, i >= 0 && i < ts.m.Len())
	if ok {
		ts.m.DelIdx(i)
		ts.mutated(nil)
	}
	r.sim.Mark("deli", uint64(i), b2u(ok), 0)
}

func (r *Run) soloOp(ts *TreeState, op *Op, c *OpCtx) {
	m := ts.m
	var lookups bool
	var s0 *sortedmap.BPlusTreeCacheStats
	switch op.K {
	case "get", "geti", "bl", "br":
		lookups = true
		fallthrough
	case "put", "fill", "drain", "delk", "deli", "patchk", "patchi", "lookupdims", "dims":
		if r.cs.Cfg.Stats && ts.cache != nil && ts.bt != nil {
			s0 = ts.cache.bp.Stats()
			c.gets = 0
		}
	}
	switch op.K {
	case "put":
		r.soloPut(ts, op, c, op.A, op.V)
	case "fill": // B puts: V 0 random, 1 ascending, 2 descending from A
		for i := 0; i < op.B; i++ {
			simrt.Progress()
			k := op.A + i
			if op.V == 0 {
				k = int(simrt.Mix(uint64(op.A), uint64(i)) >> 2)
			} else if op.V == 2 {
				k = op.A - i
			}
			r.soloPut(ts, op, c, k, op.ID*1000+i)
		}
	case "drain": // B deletes: V 0 random index, 1 from the front, 2 from the back, 3 from the middle, 4 by random key
		for i := 0; i < op.B && ts.m.Len() > 0; i++ {
			simrt.Progress()
			n := ts.m.Len()
			switch op.V {
			case 0:
				r.soloDelIdx(ts, op, c, int(simrt.Mix(uint64(op.A), uint64(i))>>2)%n)
			case 1:
				r.soloDelIdx(ts, op, c, 0)
			case 2:
				r.soloDelIdx(ts, op, c, n-1)
			case 3:
				r.soloDelKey(ts, op, c, ts.m.kv[n/2].K)
			default:
				r.soloDelKey(ts, op, c, ts.m.kv[int(simrt.Mix(uint64(op.A), uint64(i))>>2)%n].K)
			}
		}
	case "delk":
		r.soloDelKey(ts, op, c, op.A)
	case "deli":
		r.soloDelIdx(ts, op, c, op.A)
	case "patchk":
		ki, k := r.key(op.A)
		ok, err := ts.sm.PatchByKey(k, r.w.vk.Val(op.V))
		if r.failed(ts, c, err) {
			ts.mutated(err)
			return
		}
		_, has := m.find(ki)
		r.want(ts, op, "ok", ok, has)
		if ok {
			i, _ := m.find(ki)
			same := m.kv[i].V == r.w.vk.Canon(op.V)
			m.PatchKey(ki, r.w.vk.Canon(op.V))
			ts.patched(same)
		}
		r.sim.Mark("patch", uint64(ki), b2u(ok), 0)
	case "patchi":
		ok, err := ts.sm.PatchByIndex(op.A, r.w.vk.Val(op.V))
		if r.failed(ts, c, err) {
			ts.mutated(err)
			return
		}
		r.want(ts, op, "ok", ok, op.A >= 0 && op.A < m.Len())
		if ok {
			same := m.kv[op.A].V == r.w.vk.Canon(op.V)
			m.PatchIdx(op.A, r.w.vk.Canon(op.V))
			ts.patched(same)
		}
		r.sim.Mark("patchi", uint64(op.A), b2u(ok), 0)
	case "get":
		ki, k := r.key(op.A)
		v, ok, err := ts.sm.GetByKey(k)
		if r.failed(ts, c, err) {
			return
		}
		i, has := m.find(ki)
		r.want(ts, op, "ok", ok, has)
		if ok {
			r.want(ts, op, "value", r.vnum(ts, v), m.kv[i].V)
		}
		r.sim.Mark("get", uint64(ki), b2u(ok), 0)
	case "geti":
		k, v, ok, err := ts.sm.GetByIndex(op.A)
		if r.failed(ts, c, err) {
			return
		}
		r.want(ts, op, "ok", ok, op.A >= 0 && op.A < m.Len())
		if ok {
			r.want(ts, op, "key", r.num(ts, k), m.kv[op.A].K)
			r.spelling(ts, "result", m.kv[op.A].K, k)
			r.want(ts, op, "value", r.vnum(ts, v), m.kv[op.A].V)
		}
		r.sim.Mark("geti", uint64(op.A), b2u(ok), 0)
	case "bl", "br":
		ki, k := r.key(op.A)
		var i int
		var f bool
		var err error
		var wi int
		var wf bool
		if op.K == "bl" {
			i, f, err = ts.sm.BisectLeft(k)
			wi, wf = m.BisectLeft(ki)
		} else {
			i, f, err = ts.sm.BisectRight(k)
			wi, wf = m.BisectRight(ki)
		}
		if r.failed(ts, c, err) {
			return
		}
		r.want(ts, op, "found", f, wf)
		r.want(ts, op, "index", i, wi)
		r.sim.Mark(op.K, uint64(ki), uint64(i), b2u(f))
	case "len":
		n, err := ts.sm.Len()
		if r.failed(ts, c, err) {
			return
		}
		r.want(ts, op, "length", n, m.Len())
	case "bad":
		r.badKey(ts, op, c)
	case "scan":
		r.scan(ts, c)
	case "validate":
		err := ts.sm.Validate()
		r.failed(ts, c, err)
	case "dump":
		err := ts.sm.Dump()
		if c.errs > 0 && err == nil {
			r.w.soft(r.dumpClass(), "tree %d: dump reports success although %d of its callbacks failed, so what it printed is incomplete", ts.id, c.errs)
		}
		if !r.failed(ts, c, err) {
			if p := r.dumpShows(c.dumpK, c.dumpV, m.kv); p != "" {
				r.w.soft("dump", "tree %d: a dump of %d items %s", ts.id, m.Len(), p)
			}
			r.stats.Probes["dump-complete"]++
			if c.gets > 0 {
				r.stats.Probes["dump-paged-in"]++
			}
		}
	case "quiesce":
		seq := 0
		if ts.cache != nil {
			seq = ts.cache.calm.seq
		}
		simrt.Quiesce()
		r.settled(ts.cache, seq)
	case "sleep":
		simrt.Sleep(time.Duration(op.A) * time.Microsecond)
	case "limits":
		if ts.cache != nil {
			ts.cache.setLimits(op.A, op.B)
		}
	case "stats":
		if ts.cache != nil {
			r.checkLimits(ts.cache)
		}
	default:
		if ts.bt == nil {
			switch op.K {
			case "reset":
				ts.ll.Reset()
				ts.m = &Model{}
			case "release":
				r.release(op, c)
			case "settle":
				r.settle(ts, op, c)
			}
			return
		}
		r.btOp(ts, op, c)
	}
	if s0 != nil && !op.F {
		s1 := ts.cache.bp.Stats()
		if int(s1.CacheMisses-s0.CacheMisses) != c.gets {
			r.w.soft("stats", "tree %d: %s read %d nodes from storage but the cache counted %d misses", ts.id, op.K, c.gets, s1.CacheMisses-s0.CacheMisses)
		}
		visited := int(s1.CacheHits-s0.CacheHits) + c.gets
		if lookups && ts.height > 0 && c.errs == 0 && (op.K != "geti" || (op.A >= 0 && op.A < m.Len())) {
			r.stats.Probes["hits-judged"]++
			if visited != ts.height {
				r.w.soft("stats", "tree %d: %s in a tree of height %d read %d nodes and the cache counted %d hits", ts.id, op.K, ts.height, c.gets, visited-c.gets)
			}
		}
	}
	if lookups {
		if c.gets > 0 {
			r.stats.Probes["lookup-paged-in"]++
		}
	}
	if r.cs.Cfg.CmpBound {
		r.cmpBound(ts, op, simrt.Cur().Cmp, m.Len()+1)
	}
	r.worked(ts, op, m.Len()+1)
}

// lim is a cache limit; negative numbers count down from the largest one.
func lim(x int) uint64 { return uint64(int64(x)) }

// update changes the cache limits.
func (ch *Cache) update(lo, hi uint64) {
	if hi < ch.minHigh {
		ch.minHigh = hi
	}
	if ch.calm.is && (ch.calm.depth > 0 || ch.limBusy > 1 || ch.total() > hi) {
		ch.uncalm()
	}
	ch.calm.high = hi
	ch.bp.UpdateLimits(lo, hi)
}

// setLimits changes the cache limits; of overlapping calls nobody can tell
// which took effect last.
func (ch *Cache) setLimits(lo, hi int) {
	ch.limCalls++
	my, alone := ch.limCalls, ch.limBusy == 0
	ch.limBusy++
	ch.update(lim(lo), lim(hi))
	ch.limBusy--
	ch.low, ch.high = lo, hi
	ch.limAmbig = !alone || my != ch.limCalls
}

func (r *Run) checkLimits(ch *Cache) {
	if s := ch.bp.Stats(); len(r.cs.Cfg.TreeOf) == 1 && (s.EvictLowLimit != lim(ch.low) || s.EvictHighLimit != lim(ch.high)) {
		r.w.soft("stats", "cache reports limits %d/%d after %d/%d were set", s.EvictLowLimit, s.EvictHighLimit, ch.low, ch.high)
	}
}

// account adds what a call read and found to its cache's books.
func (r *Run) account(ts *TreeState, c *OpCtx) {
	if ts == nil || ts.cache == nil || ts.bt == nil || ts.cache.s0 == nil {
		return
	}
	ch := ts.cache
	switch c.op.K {
	case "get", "bl", "br", "geti":
		if ts.height > 0 && c.errs == 0 && (c.op.K != "geti" || (c.op.A >= 0 && c.op.A < ts.m.Len())) && (!ts.shared || ts.calm) {
			ch.found += ts.height - c.gets
		}
		fallthrough
	case "put", "delk", "deli", "patchk", "patchi", "fill", "drain":
		ch.reads += c.gets
		ch.otherReads = ch.otherReads || c.errs > 0
	case "snapread", "recency", "cachecheck", "corrupt", "settle", "bound", "reopen", "discard", "release":
		ch.otherReads = true
	default:
		ch.otherReads = ch.otherReads || c.gets > 0 || c.errs > 0
	}
}

// checkAccounts compares the round's books with the cache's counters.
func (r *Run) checkAccounts() {
	for _, ch := range r.caches {
		if ch.s0 == nil {
			continue
		}
		s := ch.bp.Stats()
		if d := int(s.CacheMisses - ch.s0.CacheMisses); !ch.otherReads {
			if d != ch.reads {
				r.w.soft("stats", "concurrent lookups and modifications read %d nodes from storage but the cache counted %d misses", ch.reads, d)
			}
			if ch.reads > 0 {
				r.stats.Probes["misses-judged-concurrent"]++
			}
		}
		if d := int(s.CacheHits - ch.s0.CacheHits); d < ch.found {
			r.w.soft("stats", "concurrent lookups found %d nodes in memory but the cache counted %d hits", ch.found, d)
		}
		if ch.found > 0 {
			r.stats.Probes["hits-judged-concurrent"]++
		}
		ch.s0 = nil
	}
}

// cmpBound checks the number of comparator calls of one LLRB operation.
func (r *Run) cmpBound(ts *TreeState, op *Op, got int64, n int) {
	lg := math.Log2(float64(n + 1))
	switch op.K {
	case "get", "bl", "br", "patchk":
		if lim := int64(2*lg + 1e-9); got > lim && n > 0 {
			r.w.soft("cmpcount", "%s among at most %d items made %d comparisons; a balanced map needs at most %d", op.K, n, got, lim)
		}
	case "put", "delk", "deli":
		if lim := int64(12*lg + 12); got > lim {
			r.w.soft("cmpcount", "%s among at most %d items made %d comparisons, more than %d", op.K, n, got, lim)
		}
	}
}

// worked judges how many statements of the library a call of an LLRB map executed.
func (r *Run) worked(ts *TreeState, op *Op, n int) {
	if ts.ll == nil {
		return
	}
	lg, lim := math.Log2(float64(n+1)), float64(0)
	switch op.K {
	case "get", "bl", "br", "patchk", "geti", "patchi":
		lim = 120 + 70*(lg+1)
	case "put", "delk", "deli":
		lim = 300 + 300*(lg+1)
	case "len":
		lim = 100
	default:
		return
	}
	if d := simrt.Cur().Step(); float64(d) > lim {
		r.w.soft("work", "%s among at most %d items executed %d statements, more than %.0f", op.K, n, d, lim)
	}
	if n > 500 {
		r.stats.Probes["work-large-map-"+op.K]++
	}
}

// badCall makes one of the six calls that take a key with a key the
// comparator rejects.
func (r *Run) badCall(ts *TreeState, op *Op) (i int, ok bool, err error) {
	k := r.w.kk.Bad()
	switch op.A % 6 {
	case 0:
		ok, err = ts.sm.Put(k, r.w.vk.Val(op.V))
	case 1:
		ok, err = ts.sm.DeleteByKey(k)
	case 2:
		ok, err = ts.sm.PatchByKey(k, r.w.vk.Val(op.V))
	case 3:
		_, ok, err = ts.sm.GetByKey(k)
	case 4:
		i, ok, err = ts.sm.BisectLeft(k)
	case 5:
		i, ok, err = ts.sm.BisectRight(k)
	}
	r.stats.Probes["rejected-key"]++
	return
}

// badOK tells whether a call with a rejected key may report success: a lookup
// in an empty map has nothing to compare the key with.
func badOK(op *Op, n, i int, ok bool) bool {
	return n == 0 && op.A%6 != 0 && !ok && (op.A%6 != 4 || i == -1) && (op.A%6 != 5 || i == 0)
}

func (r *Run) badKey(ts *TreeState, op *Op, c *OpCtx) {
	i, ok, err := r.badCall(ts, op)
	if err == nil && !badOK(op, ts.m.Len(), i, ok) {
		r.w.soft("atomic", "tree %d: a call with a key the comparator rejects reported no error (variant %d, %d items)", ts.id, op.A%6, ts.m.Len())
	}
	if ts.m.Len() == 0 {
		r.stats.Probes["rejected-key-empty"]++
	}
	if ts.dirty == 0 {
		ts.dirty = 2
	}
}

// scan compares the whole contents with the model through the public calls.
func (r *Run) scan(ts *TreeState, c *OpCtx) {
	m := ts.m
	n, err := ts.sm.Len()
	if r.failed(ts, c, err) {
		return
	}
	if n != m.Len() {
		violate("contents", "tree %d has length %d, expected %d", ts.id, n, m.Len())
	}
	for i := 0; i < n; i++ {
		simrt.Progress()
		k, v, ok, err := ts.sm.GetByIndex(i)
		if r.failed(ts, c, err) {
			return
		}
		if !ok {
			violate("contents", "tree %d: no item at index %d of %d", ts.id, i, n)
		}
		kn, ok := r.w.kk.Num(k)
		vn, ok2 := r.w.vk.Num(v)
		if !ok || !ok2 || kn != m.kv[i].K || vn != m.kv[i].V {
			violate("contents", "tree %d: index %d holds %v, expected %v", ts.id, i, KV{kn, vn}, m.kv[i])
		}
		r.spelling(ts, "contents", kn, k)
	}
	step := 1 + n/40
	for i := 0; i < n; i += step {
		simrt.Progress()
		v, ok, err := ts.sm.GetByKey(r.w.kk.Key(m.kv[i].K))
		if r.failed(ts, c, err) {
			return
		}
		vn, ok2 := -1, false
		if ok {
			vn, ok2 = r.w.vk.Num(v)
		}
		if !ok || !ok2 || vn != m.kv[i].V {
			violate("contents", "tree %d: key %d reads ok=%v value=%d, expected %d", ts.id, m.kv[i].K, ok, vn, m.kv[i].V)
		}
	}
}

func (r *Run) loc(ts *TreeState) Loc {
	a, b, c := ts.bt.FetchLocation()
	return Loc{a, b, c}
}

// snapRead opens one of the promised locations while the tree's own handle
// stays in use, through the same cache, and reads it from beginning to end,
// with a modification and a flush of the tree itself in between.
func (r *Run) snapRead(ts *TreeState, op *Op, c *OpCtx) {
	if len(ts.cks) == 0 || ts.bt == nil {
		return
	}
	simrt.Progress()
	ck := ts.cks[int(simrt.Mix(uint64(op.A), 3)>>1)%len(ts.cks)]
	sn := &TreeState{id: ts.id, cks: []*Checkpoint{ck}}
	for {
		e0 := c.errs
		bt, err := sortedmap.OldBPlusTree(ck.loc.Num, ck.loc.Off, ck.loc.Len, r.cmp(), &TreeCB{r.w, ts.id}, ts.bp())
		if err == nil {
			sn.bt = r.meter(sn, bt, len(ck.kv), 0, 0)
			sn.mt.cache = ts.cache
			sn.mt.opened(&ck.loc)
			sn.sm = sn.bt
			break
		}
		if c.errs == e0 {
			violate("reopen", "tree %d cannot be opened at the promised location %v: %v", ts.id, ck.loc, err)
		}
		c.op = &Op{ID: c.op.ID, K: c.op.K} // no more faults
	}
	r.stats.Probes["second-handle"]++
	sn.m = &Model{append([]KV(nil), ck.kv...)}
	h := simrt.Mix(uint64(op.A), 17)
	if n := sn.m.Len(); n > 0 { // some of it is in memory before the tree moves on
		for i := uint64(0); i < h%4; i++ {
			r.soloOp(sn, &Op{ID: op.ID, K: "geti", A: int(simrt.Mix(h, i)>>2) % n}, c)
		}
	}
	if op.B&1 != 0 {
		r.soloPut(ts, &Op{ID: op.ID, K: "put"}, c, op.A, op.V)
	}
	if op.B&2 != 0 {
		r.flush(ts, c, op.B&4 != 0)
	}
	r.scan(sn, c)
	c.op = &Op{ID: op.ID, K: op.K}
	e0 := c.errs
	c.errs = 0
	if err := sn.bt.Validate(); err != nil {
		r.w.soft("shape", "tree %d: validation of the tree opened at the promised location %v fails: %v", ts.id, ck.loc, err)
	}
	if op.B&8 != 0 {
		r.layout(sn, &Op{ID: op.ID, K: "layout"}, c)
		r.dims(sn, c)
	}
	if err := sn.bt.Purge(true); err != nil {
		violate("result", "tree %d: full purge of an unmodified tree fails: %v", ts.id, err)
	}
	c.errs = e0
}

func gensOf(l []*Stored) map[int]bool {
	m := map[int]bool{}
	for _, s := range l {
		m[s.Gen] = true
	}
	return m
}

// flush calls Flush, and on success verifies from stored bytes that the
// returned location denotes the contents and remembers the promise.
func (r *Run) flush(ts *TreeState, c *OpCtx, purge bool) (*Walked, bool) {
	simrt.Progress()
	was := ts.dirty
	a, b, l, err := ts.bt.Flush(purge)
	if r.failed(ts, c, err) {
		return nil, false
	}
	loc := Loc{a, b, l}
	if l == 0 {
		violate("durable", "tree %d: flush returned no root location", ts.id)
	}
	wk, p := r.w.codec.Walk(loc, r.w.get)
	if p != nil {
		r.w.soft(p.Class, "tree %d: after flush: %s", ts.id, p.Msg)
		ts.dirty = 2
		return nil, false
	}
	if !kvEqual(wk.KVs, ts.m.kv) {
		r.w.soft("durable", "tree %d: flush returned location %v whose contents are wrong: %s", ts.id, loc, kvDiff(wk.KVs, ts.m.kv))
		ts.dirty = 2
		return nil, false
	}
	for _, st := range wk.Nodes {
		if st.Tree != ts.id || st.Orphan {
			r.w.soft("dangling", "tree %d: flushed tree references a node that is not its own: %v", ts.id, st.Loc)
		}
	}
	if was == 0 && c.puts > 0 {
		r.stats.Probes["flush-rewrote-clean"]++
	}
	ts.dirty = 0
	ts.mt.learn(wk.Height, wk)
	r.sim.Mark("flushed", uint64(ts.id), kvHash(wk.KVs), uint64(len(wk.Nodes)))
	n := len(ts.cks)
	if n == 0 || ts.cks[n-1].loc != loc {
		ts.cks = append(ts.cks, &Checkpoint{loc, append([]KV(nil), wk.KVs...), gensOf(wk.Nodes)})
	}
	return wk, true
}

// breakPromises is called when a prune or discard starts.
func (r *Run) breakPromises(ts *TreeState, all bool) {
	if all || ts.dirty != 0 || len(ts.cks) == 0 {
		ts.cks = nil
		return
	}
	ts.cks = ts.cks[len(ts.cks)-1:]
}

// exactStore: stored nodes of the tree are exactly the reachable ones.
func (r *Run) exactStore(ts *TreeState, when string) *Walked {
	simrt.Progress()
	if len(ts.cks) == 0 {
		return nil
	}
	ck := ts.cks[len(ts.cks)-1]
	wk, p := r.w.codec.Walk(ck.loc, r.w.get)
	if p != nil {
		cl := p.Class
		if cl == "durable" {
			cl = "discardlive"
		}
		r.w.soft(cl, "tree %d: %s: the current tree is damaged in storage: %s", ts.id, when, p.Msg)
		return nil
	}
	g := gensOf(wk.Nodes)
	for _, st := range r.w.treeNodes(ts.id) {
		if !g[st.Gen] {
			r.w.soft("leak", "tree %d: %s: node %v (write %d) is still stored but not part of the tree: it is leaked", ts.id, when, st.Loc, st.Gen)
		}
	}
	return wk
}

func (r *Run) btOp(ts *TreeState, op *Op, c *OpCtx) {
	m := ts.m
	switch op.K {
	case "flush":
		r.flush(ts, c, op.A == 1)
	case "purge":
		var s0 *sortedmap.BPlusTreeCacheStats
		if ts.cache != nil && op.A == 1 && len(r.cs.Cfg.TreeOf) == 1 && ts.dirty == 1 && op.B == 1 {
			simrt.Quiesce()
			s0 = ts.cache.bp.Stats()
		}
		err := ts.bt.Purge(op.A == 1)
		if s0 != nil && err != nil {
			r.stats.Probes["purge-refused"]++
			if s1 := ts.cache.bp.Stats(); s1.CleanLRUItems != s0.CleanLRUItems || s1.DirtyLRUItems != s0.DirtyLRUItems {
				r.w.soft("result", "tree %d: a refused full purge removed nodes from memory: %d clean + %d dirty before, %d + %d after", ts.id, s0.CleanLRUItems, s0.DirtyLRUItems, s1.CleanLRUItems, s1.DirtyLRUItems)
			}
		}
		if op.A == 1 {
			if ts.dirty == 1 && err == nil {
				violate("result", "tree %d: a full purge succeeded although unflushed changes exist", ts.id)
			}
			if ts.dirty == 0 && err != nil {
				r.failed(ts, c, err)
			}
		} else {
			r.failed(ts, c, err)
		}
		r.sim.Mark("purge", uint64(op.A), b2u(err == nil), 0)
	case "hoard": // rewrite the tree again and again, keeping every version
		for p0, i := c.puts, 0; c.puts-p0 < op.A && i < 300; i++ {
			simrt.Progress()
			if err := ts.bt.Touch(); err != nil {
				r.failed(ts, c, err)
				ts.mutated(err)
				return
			}
			ts.mutated(nil)
			if _, ok := r.flush(ts, c, i%3 == 2); !ok {
				return
			}
		}
		r.stats.Probes["hoarded"]++
		if p := r.checkCheckpoints(ts); p != nil {
			r.w.soft(p.Class, "%s", p.Msg)
		}
	case "touch":
		err := ts.bt.Touch()
		sw := ts.sweep
		if r.failed(ts, c, err) {
			ts.mutated(err)
			ts.sweep = sw
			return
		}
		ts.mutated(nil)
		ts.sweep = sw
	case "touchall":
		r.touchAll(ts, op, c)
	case "sweep":
		r.sweepStep(ts, op, c)
	case "touchitem":
		r.touchItem(ts, op, c)
	case "prune":
		r.prune(ts, op, c)
	case "discard":
		r.discard(ts, op, c)
	case "reopen":
		r.reopen(ts, op, c)
	case "floc":
		loc := r.loc(ts)
		if loc == (Loc{}) {
			return
		}
		wk, p := r.w.codec.Walk(loc, r.w.get)
		if p != nil {
			r.w.soft("snapshot", "tree %d: fetched location %v denotes no stored tree: %s", ts.id, loc, p.Msg)
			return
		}
		if !kvEqual(wk.KVs, m.kv) {
			r.w.soft("snapshot", "tree %d: fetched location %v does not denote the current contents: %s", ts.id, loc, kvDiff(wk.KVs, m.kv))
		}
	case "layout":
		r.layout(ts, op, c)
	case "dims":
		r.dims(ts, c)
	case "lookupdims": // lookups followed by a height report
		g0 := c.gets
		_, k := r.key(op.A)
		var err error
		switch op.B % 4 {
		case 0:
			_, _, err = ts.sm.GetByKey(k)
		case 1:
			_, _, err = ts.sm.BisectLeft(k)
		case 2:
			_, _, err = ts.sm.BisectRight(k)
		default:
			n := ts.m.Len()
			if n > 0 {
				_, _, _, err = ts.sm.GetByIndex(op.A % n)
			}
		}
		if r.failed(ts, c, err) {
			return
		}
		g := c.gets - g0
		d := r.dims(ts, c)
		if d != nil && uint64(g) > d.Height {
			r.w.soft("shape", "tree %d: a lookup read %d nodes of a tree of height %d", ts.id, g, d.Height)
		}
		r.stats.Probes[fmt.Sprintf("lookup-height-%d", d2h(d))]++
	case "recency":
		r.recency(ts, op, c)
	case "bound":
		r.boundCheck(ts, op, c)
	case "release":
		r.release(op, c)
	case "cachecheck":
		r.cacheCheck(op, c)
	case "corrupt":
		r.corrupt(ts, op, c)
	case "settle":
		r.settle(ts, op, c)
	case "snapread":
		r.snapRead(ts, op, c)
	default:
		panic("unknown op " + op.K)
	}
}

func d2h(d *sortedmap.DimensionsReport) uint64 {
	if d == nil {
		return 0
	}
	return d.Height
}

func (r *Run) dims(ts *TreeState, c *OpCtx) *sortedmap.DimensionsReport {
	simrt.Progress()
	d, err := ts.bt.FetchDimensionsReport()
	if r.failed(ts, c, err) {
		return nil
	}
	mk := uint64(r.cs.Cfg.MaxKeys[ts.id])
	if d.MaxKeysPerNode != mk || d.MinKeysPerNode != mk/2 {
		r.w.soft("shape", "tree %d: dimensions report says %d..%d keys per node, configured %d..%d", ts.id, d.MinKeysPerNode, d.MaxKeysPerNode, mk/2, mk)
	}
	if d.Items != uint64(ts.m.Len()) {
		r.w.soft("shape", "tree %d: dimensions report says %d items, there are %d", ts.id, d.Items, ts.m.Len())
	}
	if ts.dirty == 0 && len(ts.cks) > 0 {
		wk, p := r.w.codec.Walk(ts.cks[len(ts.cks)-1].loc, r.w.get)
		if p == nil && uint64(wk.Height) != d.Height {
			r.w.soft("shape", "tree %d: dimensions report says height %d, the stored tree has %d levels", ts.id, d.Height, wk.Height)
		}
	}
	if d.Height < 1 || (d.Height > 1 && d.Items < 2) {
		r.w.soft("shape", "tree %d: dimensions report says height %d with %d items", ts.id, d.Height, d.Items)
	}
	ts.height = int(d.Height)
	ts.mt.learn(ts.height, nil)
	return &d
}

func (r *Run) prune(ts *TreeState, op *Op, c *OpCtx) {
	if op.A == 1 && ts.dirty != 0 {
		return // the careful client prunes only what a flush has superseded
	}
	r.breakPromises(ts, false)
	err := ts.bt.Prune()
	if err == nil && c.errs > 0 {
		r.w.soft("atomic", "tree %d: prune reports success although discarding a node failed", ts.id)
	}
	if r.failed(ts, c, err) {
		return
	}
	ts.lastPruned = true
	if ts.dirty == 0 {
		r.exactStore(ts, "after flush and prune")
		r.stats.Probes["exact-store-check"]++
	}
}

func (r *Run) discard(ts *TreeState, op *Op, c *OpCtx) {
	r.breakPromises(ts, true)
	err := ts.bt.Discard()
	if r.failed(ts, c, err) {
		ts.mutated(err)
		if op.A == 1 {
			return // keep using the tree; a later call discards it
		}
		c.op = &Op{ID: op.ID, K: op.K}
		if op.A == 2 {
			r.scan(ts, c)
		}
		e := c.errs
		err = ts.bt.Discard()
		if err != nil {
			violate("atomic", "tree %d: repeating a failed discard fails although no callback failed: %v", ts.id, err)
		}
		_ = e
		r.stats.Probes["discard-retried"]++
	} else if c.errs > 0 {
		r.w.soft("atomic", "tree %d: discard reports success although %d callbacks failed", ts.id, c.errs)
	}
	if l := r.w.treeNodes(ts.id); len(l) > 0 {
		r.w.soft("leak", "tree %d: %d nodes are still stored after the tree was discarded, e.g. %v (write %d)", ts.id, len(l), l[0].Loc, l[0].Gen)
	}
	r.stats.Probes["discarded"]++
	r.fresh(ts)
}

func (r *Run) reopen(ts *TreeState, op *Op, c *OpCtx) {
	if ts.cache != nil {
		// let go of the old handle's nodes before dropping it
		if ts.dirty != 0 || len(ts.cks) == 0 {
			if _, ok := r.flush(ts, c, true); !ok {
				return
			}
		} else if err := ts.bt.Purge(true); err != nil {
			violate("result", "tree %d: full purge of a flushed tree failed: %v", ts.id, err)
		}
	} else if len(ts.cks) == 0 {
		if _, ok := r.flush(ts, c, false); !ok {
			return
		}
	}
	ck := ts.cks[len(ts.cks)-1]
	if op.A > 0 {
		ck = ts.cks[op.A%len(ts.cks)]
	}
	if ck != ts.cks[len(ts.cks)-1] {
		r.stats.Probes["reopened-older"]++
	}
	// the old handle is dropped: what it wrote beyond ck is unreachable
	r.adopt(ts, ck)
	r.reopenAt(ts, ck, c)
	r.stats.Probes["reopened"]++
}

func (r *Run) layout(ts *TreeState, op *Op, c *OpCtx) {
	simrt.Progress()
	var s0 *sortedmap.BPlusTreeCacheStats
	quietCache := ts.cache != nil && len(r.cs.Cfg.TreeOf) == 1 && op.A == 1
	lo, hi := 0, 0
	if quietCache {
		lo, hi = ts.cache.low, ts.cache.high
		// with eviction out of the way residency must not change at all
		ts.cache.update(1<<40, 1<<41)
		simrt.Quiesce()
		s0 = ts.cache.bp.Stats()
	}
	rep, err := ts.bt.FetchLayoutReport()
	if !r.failed(ts, c, err) {
		if ts.dirty == 0 && len(ts.cks) > 0 {
			wk, p := r.w.codec.Walk(ts.cks[len(ts.cks)-1].loc, r.w.get)
			if p == nil {
				bad := len(rep) != len(wk.Objects)
				for o, n := range wk.Objects {
					if rep[o] != n {
						bad = true
					}
				}
				if bad {
					r.w.soft("layout", "tree %d: layout report %v differs from the stored nodes %v", ts.id, brief(rep), brief(wk.Objects))
				}
				r.stats.Probes["layout-exact"]++
				if len(wk.Objects) < len(wk.Nodes) {
					r.stats.Probes["layout-several-nodes-per-object"]++
				}
			}
		} else if ts.lastPruned || ts.dirty == 1 {
			// superseded nodes are on the way out: never counted
			live := map[uint64]uint64{}
			for _, st := range r.w.treeNodes(ts.id) {
				live[st.Loc.Num] += st.Loc.Len
			}
			for o, n := range rep {
				if n > live[o] {
					r.w.soft("layout", "tree %d: layout report counts %d bytes in object %x, only %d are stored there", ts.id, n, o, live[o])
				}
			}
		}
	}
	if quietCache {
		s1 := ts.cache.bp.Stats()
		if err == nil && (s0.CleanLRUItems != s1.CleanLRUItems || s0.DirtyLRUItems != s1.DirtyLRUItems) {
			r.w.soft("layout", "tree %d: producing the layout report changed the resident nodes from %d clean + %d dirty to %d clean + %d dirty", ts.id, s0.CleanLRUItems, s0.DirtyLRUItems, s1.CleanLRUItems, s1.DirtyLRUItems)
		}
		ts.cache.setLimits(lo, hi)
	}
}

func brief(m map[uint64]uint64) string {
	if len(m) > 6 {
		return fmt.Sprintf("{%d objects}", len(m))
	}
	return fmt.Sprint(m)
}

// touchItem is one TouchItem call at index A (no sweep bookkeeping).
func (r *Run) touchItem(ts *TreeState, op *Op, c *OpCtx) {
	n := ts.m.Len()
	nx, err := ts.bt.TouchItem(uint64(op.A))
	sw := ts.sweep
	if r.failed(ts, c, err) {
		ts.mutated(err)
		ts.sweep = sw
		return
	}
	r.touchResult(ts, uint64(op.A), nx, n)
	if op.A < n {
		ts.mutated(nil)
		ts.sweep = sw
	}
}

func (r *Run) touchResult(ts *TreeState, at, nx uint64, n int) {
	if at >= uint64(n) {
		if nx != 0 {
			r.w.soft("touch", "tree %d: touching item %d of %d returned next index %d instead of wrapping to 0", ts.id, at, n, nx)
		}
		return
	}
	if nx <= at || nx > uint64(n) {
		r.w.soft("touch", "tree %d: touching item %d of %d returned next index %d", ts.id, at, n, nx)
	}
}

// sweepStep advances (or starts, or completes) a sweep of item touches.
func (r *Run) sweepStep(ts *TreeState, op *Op, c *OpCtx) {
	if ts.sweep == nil {
		if ts.m.Len() == 0 {
			return
		}
		wk, ok := r.flush(ts, c, op.A == 1)
		if !ok {
			return
		}
		ts.sweep = &sweepState{old: gensOf(wk.Nodes)}
		return
	}
	steps := op.B
	if steps < 1 {
		steps = 1
	}
	for i := 0; i < steps; i++ {
		simrt.Progress()
		sw := ts.sweep
		n := ts.m.Len()
		nx, err := ts.bt.TouchItem(uint64(sw.next))
		if r.failed(ts, c, err) {
			ts.mutated(err)
			ts.sweep = sw
			return
		}
		r.touchResult(ts, uint64(sw.next), nx, n)
		if sw.next < n {
			ts.mutated(nil)
			ts.sweep = sw
		}
		sw.calls++
		sw.next = int(nx)
		if nx == 0 {
			r.sweepDone(ts, c, "a complete sweep of item touches")
			return
		}
	}
}

func (r *Run) sweepDone(ts *TreeState, c *OpCtx, what string) {
	sw := ts.sweep
	c.op = &Op{ID: c.op.ID, K: "sweep"} // faults stop
	wk, ok := r.flush(ts, c, false)
	if !ok {
		ts.sweep = nil
		return
	}
	for _, st := range wk.Nodes {
		if sw.old[st.Gen] {
			r.w.soft("touch", "tree %d: after %s and a flush the tree still uses node %v (write %d, leaf=%v) from before", ts.id, what, st.Loc, st.Gen, st.Leaf)
		}
	}
	r.breakPromises(ts, false)
	c.op = &Op{ID: c.op.ID, K: "prune"}
	if err := ts.bt.Prune(); err != nil {
		violate("result", "tree %d: prune failed although no callback failed: %v", ts.id, err)
	}
	for _, st := range r.w.treeNodes(ts.id) {
		if sw.old[st.Gen] {
			r.w.soft("touch", "tree %d: after %s, flush and prune node %v (write %d) from before is still stored", ts.id, what, st.Loc, st.Gen)
		}
	}
	r.exactStore(ts, "after "+what+", flush and prune")
	r.scan(ts, c)
	r.stats.Probes["sweep-complete"]++
	if wk.Height > 1 {
		r.stats.Probes["sweep-complete-multilevel"]++
	}
	ts.sweep = nil
}

// touchAll: Touch, interleaved reads, flush, and the relocation check.
func (r *Run) touchAll(ts *TreeState, op *Op, c *OpCtx) {
	wk, ok := r.flush(ts, c, op.A&1 == 1)
	if !ok {
		return
	}
	ts.sweep = &sweepState{old: gensOf(wk.Nodes)}
	for try := 0; ; try++ {
		err := ts.bt.Touch()
		sw := ts.sweep
		if r.failed(ts, c, err) {
			ts.mutated(err)
			ts.sweep = sw
			if try > 0 {
				c.op = &Op{ID: c.op.ID, K: c.op.K}
				c.errs = 0
			}
			continue
		}
		ts.mutated(nil)
		ts.sweep = sw
		break
	}
	switch (op.A >> 1) % 4 {
	case 1:
		if err := ts.bt.Purge(false); err != nil && c.errs == 0 {
			r.failed(ts, c, err)
		}
	case 2:
		if n := ts.m.Len(); n > 0 {
			ts.sm.GetByIndex(op.B % n)
		}
	case 3:
		keep := c.op
		c.op = &Op{ID: op.ID, K: "prune"}
		ts.cks = nil
		err := ts.bt.Prune()
		c.op = keep
		if err != nil {
			violate("result", "tree %d: prune failed although no callback failed: %v", ts.id, err)
		}
	}
	r.sweepDone(ts, c, "touching the whole tree")
}

// dumpClass is the class of a dump that hides a failure.
func (r *Run) dumpClass() string {
	if r.cs.Prop == "C17" {
		return "dump"
	}
	return "atomic"
}

// dumpShows compares what a dump had rendered with the items of the map: every
// key, and of a B+Tree (whose inner nodes hold keys of their own) every value
// once.
func (r *Run) dumpShows(ks, vs []int, kv []KV) string {
	seen := make(map[int]bool, len(ks))
	for _, k := range ks {
		seen[k] = true
	}
	for _, e := range kv {
		if !seen[e.K] {
			return fmt.Sprintf("does not show key %d", e.K)
		}
	}
	if r.cs.Cfg.Engine == "llrb" {
		if len(seen) != len(kv) {
			return fmt.Sprintf("shows %d keys, the map holds %d", len(seen), len(kv))
		}
		return ""
	}
	if len(vs) != len(kv) {
		return fmt.Sprintf("shows %d values, the map holds %d", len(vs), len(kv))
	}
	n := make(map[int]int, len(vs))
	for _, v := range vs {
		n[v]++
	}
	for _, e := range kv {
		n[e.V]--
		if n[e.V] < 0 {
			return fmt.Sprintf("does not show value %d of key %d", e.V, e.K)
		}
	}
	return ""
}
