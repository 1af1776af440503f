package main

import (
	"fmt"
	"math/bits"
	"time"

	"github.com/NVIDIA/sortedmap"
	"verif/sim/simrt"
)

// HistOp is one completed call of a history on a shared tree.
type HistOp struct {
	op       *Op
	client   int
	inv, ret int
	failed   bool // returned an error: must have changed nothing
	ok       bool
	i        int
	k, v     int
	kvs      []KV // contents denoted by a returned root location
	has      bool
	dump     bool // a dump, with what it showed
	dumpK    []int
	dumpV    []int
}

func (h *HistOp) String() string {
	return fmt.Sprintf("[%d..%d] c%d %s(a=%d) -> ok=%v i=%d k=%d v=%d err=%v", h.inv, h.ret, h.client, h.op.K, h.op.A, h.ok, h.i, h.k, h.v, h.failed)
}

// sharedOp executes one call on a tree with several callers and records it.
func (r *Run) sharedOp(ts *TreeState, client int, op *Op) {
	c := r.begin(ts, op)
	h := &HistOp{op: op, client: client, inv: r.stamp()}
	var err error
	rec := true
	sm := ts.sm
	switch op.K {
	case "put":
		_, k := r.key(op.A)
		h.ok, err = sm.Put(k, r.w.vk.Val(op.V))
		if h.ok && err == nil {
			r.grow(ts, 1)
		}
	case "delk":
		_, k := r.key(op.A)
		h.ok, err = sm.DeleteByKey(k)
		if h.ok && err == nil {
			r.grow(ts, -1)
		}
	case "deli":
		h.ok, err = sm.DeleteByIndex(op.A)
		if h.ok && err == nil {
			r.grow(ts, -1)
		}
	case "patchk":
		_, k := r.key(op.A)
		h.ok, err = sm.PatchByKey(k, r.w.vk.Val(op.V))
	case "patchi":
		h.ok, err = sm.PatchByIndex(op.A, r.w.vk.Val(op.V))
	case "get":
		_, k := r.key(op.A)
		var v sortedmap.Value
		v, h.ok, err = sm.GetByKey(k)
		if err == nil && h.ok {
			h.v = r.vnum(ts, v)
		}
	case "geti":
		var k sortedmap.Key
		var v sortedmap.Value
		k, v, h.ok, err = sm.GetByIndex(op.A)
		if err == nil && h.ok {
			h.k, h.v = r.num(ts, k), r.vnum(ts, v)
		}
	case "bl":
		_, k := r.key(op.A)
		h.i, h.ok, err = sm.BisectLeft(k)
	case "br":
		_, k := r.key(op.A)
		h.i, h.ok, err = sm.BisectRight(k)
	case "len":
		h.i, err = sm.Len()
	case "reset":
		ts.ll.Reset()
		ts.lenNow = 0
	case "validate":
		err = sm.Validate()
	case "dump":
		err = sm.Dump()
		h.dumpK, h.dumpV, h.dump = c.dumpK, c.dumpV, true
	case "bad":
		var e error
		h.i, h.ok, e = r.badCall(ts, op)
		h.failed = e != nil
	case "quiesce":
		simrt.Quiesce()
		rec = false
	case "sleep":
		simrt.Sleep(time.Duration(op.A) * time.Microsecond)
		rec = false
	case "limits":
		if ts.cache != nil {
			ts.cache.setLimits(op.A, op.B)
		}
		rec = false
	case "stats":
		if ts.cache != nil {
			ts.cache.bp.Stats()
		}
		rec = false
	case "flush":
		var a, b, l uint64
		p0, busy := ts.pruneSeq, ts.pruning > 0
		a, b, l, err = ts.bt.Flush(op.A == 1)
		if err == nil {
			var wk *Walked
			if wk, h.has = r.decodeEver(ts, Loc{a, b, l}, "flush returned"); h.has {
				h.kvs = wk.KVs
				if !busy && ts.pruneSeq == p0 { // promised until a prune starts
					ts.cks = append(ts.cks, &Checkpoint{Loc{a, b, l}, wk.KVs, gensOf(wk.Nodes)})
				}
			}
		}
	case "floc":
		loc := r.loc(ts)
		if loc == (Loc{}) {
			rec = false
			r.stats.Probes["location-unset"]++
		} else {
			var wk *Walked
			if wk, h.has = r.decodeEver(ts, loc, "the fetched location is"); h.has {
				h.kvs = wk.KVs
			}
			r.stats.Probes["location-set"]++
		}
	case "purge":
		err = ts.bt.Purge(op.A == 1)
		if op.A == 1 && err != nil {
			err = nil // refused: unflushed changes
		}
		rec = false
	case "touch":
		err = ts.bt.Touch()
		rec = false
	case "touchitem":
		var nx uint64
		nx, err = ts.bt.TouchItem(uint64(op.A))
		h.i = int(nx)
	case "prune":
		ts.cks = nil
		ts.pruneSeq++
		ts.pruning++
		err = ts.bt.Prune()
		ts.pruning--
		rec = false
	case "sweep":
		err = r.sharedSweep(ts, op)
		rec = false
	case "layout":
		var rep sortedmap.LayoutReport
		rep, err = ts.bt.FetchLayoutReport()
		rec = false
		if wk := ts.still; wk != nil && err == nil {
			bad := len(rep) != len(wk.Objects)
			for o, n := range wk.Objects {
				if rep[o] != n {
					bad = true
				}
			}
			if bad {
				r.w.soft("layout", "tree %d: layout report %v differs from the stored nodes %v although no call of the round changes anything", ts.id, brief(rep), brief(wk.Objects))
			}
			r.stats.Probes["layout-exact-concurrent"]++
		}
	case "dims":
		var d sortedmap.DimensionsReport
		d, err = ts.bt.FetchDimensionsReport()
		h.i = int(d.Items)
		mk := uint64(r.cs.Cfg.MaxKeys[ts.id])
		if err == nil && (d.MaxKeysPerNode != mk || d.MinKeysPerNode != mk/2) {
			r.w.soft("shape", "tree %d: dimensions report says %d..%d keys per node, configured %d..%d", ts.id, d.MinKeysPerNode, d.MaxKeysPerNode, mk/2, mk)
		}
	default:
		panic("unknown shared op " + op.K)
	}
	h.ret = r.stamp()
	if err != nil {
		if c.errs == 0 {
			cl := "lin"
			if op.K == "validate" {
				cl = "shape"
			}
			r.w.soft(cl, "tree %d: %s by client %d reports an error although no callback failed: %v", ts.id, op.K, client, err)
		}
		h.failed = true
		ts.hadFail = true
	}
	if c.errs > 0 && err == nil && op.K == "dump" {
		r.w.soft(r.dumpClass(), "tree %d: dump reports success although its callbacks failed", ts.id)
	}
	r.sim.Mark(op.K, uint64(op.A), uint64(h.i)<<1|b2u(h.ok), b2u(h.failed))
	if rec {
		ts.hist = append(ts.hist, h)
	}
	if r.cs.Cfg.CmpBound && !h.failed {
		r.cmpBound(ts, op, simrt.Cur().Cmp, c.hw)
	}
	if !h.failed {
		r.worked(ts, op, c.hw)
	}
	r.end(ts, c)
}

func (r *Run) grow(ts *TreeState, d int) {
	ts.lenNow += d
	for _, c := range ts.inflight {
		if n := ts.lenNow + len(r.cs.Cfg.TreeOf); n > c.hw {
			c.hw = n
		}
	}
}

// decodeEver decodes the tree at a location from everything ever written
// (locations are never reused in these runs), so later pruning by another
// caller does not matter.
func (r *Run) decodeEver(ts *TreeState, loc Loc, what string) (*Walked, bool) {
	wk, p := r.w.codec.Walk(loc, func(l Loc) *Stored {
		for i := len(r.w.all) - 1; i >= 0; i-- {
			st := r.w.all[i]
			if st.Loc.Num == l.Num && st.Loc.Off == l.Off {
				if st.Orphan {
					return nil
				}
				return st
			}
		}
		return nil
	})
	if p != nil {
		r.w.soft("snapshot", "tree %d: %s %v, which is not the location of a complete stored tree: %s", ts.id, what, loc, p.Msg)
		return nil, false
	}
	return wk, true
}

// sharedSweep touches the whole tree while other callers look things up, flush
// and purge, then flushes: no node stored before may still be in use.
func (r *Run) sharedSweep(ts *TreeState, op *Op) error {
	if !ts.calm || ts.m.Len() == 0 {
		return nil
	}
	g0 := len(r.w.all)
	n := ts.m.Len()
	what := "a complete sweep of item touches"
	if op.A&1 == 1 {
		what = "touching the whole tree"
		if err := ts.bt.Touch(); err != nil {
			return err
		}
	} else {
		for at := uint64(0); ; {
			simrt.Progress()
			nx, err := ts.bt.TouchItem(at)
			if err != nil {
				return err
			}
			r.touchResult(ts, at, nx, n)
			if nx == 0 || nx <= at {
				break
			}
			at = nx
		}
	}
	a, b, l, err := ts.bt.Flush(op.A&2 == 2)
	if err != nil {
		return err
	}
	wk, ok := r.decodeEver(ts, Loc{a, b, l}, "flush returned")
	if !ok {
		return nil
	}
	for _, st := range wk.Nodes {
		if st.Gen < g0 {
			r.w.soft("touch", "tree %d: after %s and a flush the tree still uses node %v (write %d, leaf=%v) from before", ts.id, what, st.Loc, st.Gen, st.Leaf)
		}
	}
	r.stats.Probes["sweep-complete-concurrent"]++
	if wk.Height > 1 {
		r.stats.Probes["sweep-complete-concurrent-multilevel"]++
	}
	return nil
}

// step applies a call to the ideal map; false if its result is impossible.
func (r *Run) step(kv []KV, h *HistOp) ([]KV, bool) {
	if h.failed {
		return kv, true
	}
	m := &Model{kv}
	op := h.op
	n := len(kv)
	ki := 0
	switch op.K {
	case "put", "delk", "patchk", "get", "bl", "br":
		ki, _ = r.key(op.A)
	}
	switch op.K {
	case "put":
		_, has := m.find(ki)
		if h.ok == has {
			return nil, false
		}
		if !h.ok {
			return kv, true
		}
		c := m.Clone()
		c.Put(ki, r.w.vk.Canon(op.V))
		return c.kv, true
	case "delk":
		_, has := m.find(ki)
		if h.ok != has {
			return nil, false
		}
		if !h.ok {
			return kv, true
		}
		c := m.Clone()
		c.DelKey(ki)
		return c.kv, true
	case "deli":
		in := op.A >= 0 && op.A < n
		if h.ok != in {
			return nil, false
		}
		if !h.ok {
			return kv, true
		}
		c := m.Clone()
		c.DelIdx(op.A)
		return c.kv, true
	case "patchk":
		_, has := m.find(ki)
		if h.ok != has {
			return nil, false
		}
		if !h.ok {
			return kv, true
		}
		c := m.Clone()
		c.PatchKey(ki, r.w.vk.Canon(op.V))
		return c.kv, true
	case "patchi":
		in := op.A >= 0 && op.A < n
		if h.ok != in {
			return nil, false
		}
		if !h.ok {
			return kv, true
		}
		c := m.Clone()
		c.PatchIdx(op.A, r.w.vk.Canon(op.V))
		return c.kv, true
	case "get":
		i, has := m.find(ki)
		if h.ok != has || (has && kv[i].V != h.v) {
			return nil, false
		}
	case "geti":
		in := op.A >= 0 && op.A < n
		if h.ok != in || (in && (kv[op.A] != KV{h.k, h.v})) {
			return nil, false
		}
	case "bl":
		i, f := m.BisectLeft(ki)
		if i != h.i || f != h.ok {
			return nil, false
		}
	case "br":
		i, f := m.BisectRight(ki)
		if i != h.i || f != h.ok {
			return nil, false
		}
	case "len", "dims":
		if h.i != n {
			return nil, false
		}
	case "reset":
		return nil, true
	case "touchitem":
		if op.A >= n {
			if h.i != 0 {
				return nil, false
			}
		} else if h.i <= op.A || h.i > n {
			return nil, false
		}
	case "bad":
		if !badOK(op, n, h.i, h.ok) {
			return nil, false
		}
	case "flush", "floc":
		if h.has && !kvEqual(h.kvs, kv) {
			return nil, false
		}
	case "dump":
		if r.dumpShows(h.dumpK, h.dumpV, kv) != "" {
			return nil, false
		}
	}
	return kv, true
}

type linKey struct {
	done uint64
	h    uint64
}

// linearize searches for a sequential order of the history that starts from
// init and ends in final. It returns 1 (found), 0 (none) or -1 (gave up).
func (r *Run) linearize(hist []*HistOp, init, final []KV) int {
	n := len(hist)
	if n > 62 {
		return -1
	}
	seen := map[linKey]bool{}
	budget := 400000
	full := uint64(1)<<uint(n) - 1
	var rec func(done uint64, kv []KV) int
	rec = func(done uint64, kv []KV) int {
		if done == full {
			if kvEqual(kv, final) {
				return 1
			}
			return 0
		}
		k := linKey{done, kvHash(kv)}
		if seen[k] {
			return 0
		}
		seen[k] = true
		budget--
		if budget < 0 {
			return -1
		}
		r.stats.LinStates++
		minRet := int(^uint(0) >> 1)
		for rest := full &^ done; rest != 0; rest &= rest - 1 {
			if h := hist[bits.TrailingZeros64(rest)]; h.ret < minRet {
				minRet = h.ret
			}
		}
		for rest := full &^ done; rest != 0; rest &= rest - 1 {
			i := bits.TrailingZeros64(rest)
			h := hist[i]
			if h.inv > minRet {
				continue
			}
			nkv, ok := r.step(kv, h)
			if !ok {
				continue
			}
			if x := rec(done|1<<uint(i), nkv); x != 0 {
				return x
			}
		}
		return 0
	}
	return rec(0, init)
}

// closeRound judges the history of a shared tree.
func (r *Run) closeRound(ts *TreeState) {
	simrt.EnterOp(-100 - r.round*16 - ts.id)
	if p := r.checkCheckpoints(ts); p != nil {
		r.w.soft(p.Class, "%s", p.Msg)
	}
	n, err := ts.sm.Len()
	if err != nil {
		violate("lin", "tree %d: length after the round fails: %v", ts.id, err)
	}
	var final []KV
	for i := 0; i < n; i++ {
		k, v, ok, err := ts.sm.GetByIndex(i)
		if err != nil || !ok {
			violate("lin", "tree %d: item %d of %d cannot be read after the round (ok=%v err=%v)", ts.id, i, n, ok, err)
		}
		final = append(final, KV{r.num(ts, k), r.vnum(ts, v)})
	}
	for i := 1; i < len(final); i++ {
		if final[i-1].K >= final[i].K {
			violate("lin", "tree %d: items %d and %d are out of order after the round", ts.id, i-1, i)
		}
	}
	init := ts.m.kv
	// failed and location-less calls constrain nothing
	r.stats.LinOps += int64(len(ts.hist))
	switch r.linearize(ts.hist, init, final) {
	case 0:
		cl, what := "lin", "no sequential order of the calls explains their results"
		var rest []*HistOp
		for _, h := range ts.hist {
			if !h.has {
				rest = append(rest, h)
			}
		}
		if len(rest) < len(ts.hist) && r.linearize(rest, init, final) == 1 {
			cl, what = "snapshot", "a location returned by flush or location fetch denotes no state the map had during that call"
		} else if nd := r.noDumps(ts.hist); len(nd) < len(ts.hist) && r.linearize(nd, init, final) == 1 {
			cl, what = "dump", "what a dump showed is no state the map had during that call"
		} else if ts.hadFail && accepts(r.cs.Prop, "atomic") {
			cl = "atomic"
		}
		s := ""
		for _, h := range ts.hist {
			s += "\n  " + h.String()
		}
		r.w.soft(cl, "tree %d: %s (%d calls, %d items before, %d after)%s", ts.id, what, len(ts.hist), len(init), len(final), s)
	case -1:
		r.stats.LinUnknown++
	}
	ts.m, ts.spelt = &Model{final}, nil
	ts.height = 0
	ts.lenNow = len(final)
	ts.dirty = 2
	ts.cks = nil
	ts.hist = nil
	ts.sweep = nil
	r.sim.Mark("round", uint64(ts.id), kvHash(final), uint64(n))
}

func (r *Run) startRound(rd *Round) {
	for _, ch := range r.caches {
		ch.reads, ch.found, ch.otherReads = 0, 0, false
		ch.s0 = nil
		if r.cs.Prop == "C06" {
			ch.s0 = ch.bp.Stats()
		}
	}
	for _, ts := range r.trees {
		ts.hist = nil
		ts.lenNow = ts.m.Len()
		ts.calm, ts.still = true, nil
		ts.pruning = 0
		if ts.bt != nil && r.cs.Prop == "C06" && ts.height == 0 && ts.dirty == 0 && len(ts.cks) > 0 {
			if wk, p := r.w.codec.Walk(ts.cks[len(ts.cks)-1].loc, r.w.get); p == nil {
				ts.height = wk.Height
			}
		}
		if !ts.shared || ts.bt == nil {
			continue
		}
		still := ts.dirty == 0 && len(ts.cks) > 0
		for cl, ops := range rd.Ops {
			if r.cs.Cfg.TreeOf[cl] != ts.id {
				continue
			}
			for _, o := range ops {
				switch o.K {
				case "put", "delk", "deli", "patchk", "patchi", "reset", "bad":
					ts.calm = false
				case "touch", "touchitem", "sweep":
					still = false
				}
			}
		}
		if still && ts.calm {
			if wk, p := r.w.codec.Walk(ts.cks[len(ts.cks)-1].loc, r.w.get); p == nil {
				ts.still = wk
			}
		}
	}
}

// armStalls prepares the one-hour stall of a round: when it is over, every
// client of every other tree must have finished.
func (r *Run) armStalls(rd *Round) {
	r.w.stall = map[int]func(){}
	for cl, ops := range rd.Ops {
		for i := range ops {
			if !ops[i].S {
				continue
			}
			tree := r.cs.Cfg.TreeOf[cl]
			id := ops[i].ID
			r.w.stall[id] = func() {
				simrt.Sleep(time.Hour)
				for c2, t2 := range r.cs.Cfg.TreeOf {
					if t2 != tree && !r.arrived[c2] {
						violate("stalled", "a client of tree %d made no progress while a callback of tree %d was stalled", t2, tree)
					}
				}
				r.stats.Probes["stall-isolated"]++
			}
		}
	}
}

// quiet is the quiescent end of a round.
func (r *Run) quiet(rd *Round) {
	r.w.stall = nil
	simrt.EnterOp(-50 - r.round)
	simrt.Quiesce()
	for _, ts := range r.trees {
		if ts.shared {
			r.closeRound(ts)
		}
	}
	for i := range rd.End {
		op := &rd.End[i]
		ts := r.trees[op.T]
		sh := ts.shared
		ts.shared = false
		r.solo(ts, op)
		ts.shared = sh
	}
}

func (r *Run) noDumps(l []*HistOp) (out []*HistOp) {
	for _, h := range l {
		if !h.dump {
			out = append(out, h)
		}
	}
	return
}
