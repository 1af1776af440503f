package main

import (
	"fmt"
	"sort"

	"github.com/NVIDIA/sortedmap"
	"verif/sim/simrt"
)

// settle brings a tree to rest at the end of a round and checks everything a
// quiescent tree promises. A: 1 flush, 2 purge with the flush, 4 prune,
// 8 layout report, 16 reopen, 32 dimensions, 64 touch before the flush.
func (r *Run) settle(ts *TreeState, op *Op, c *OpCtx) {
	r.scan(ts, c)
	simrt.Progress()
	if err := ts.sm.Validate(); err != nil {
		r.w.soft("shape", "tree %d: validation of a quiescent tree fails: %v", ts.id, err)
	}
	if p := r.checkCheckpoints(ts); p != nil {
		r.w.soft(p.Class, "%s", p.Msg)
	}
	if op.A&32 != 0 {
		r.dims(ts, c)
	}
	if op.A&64 != 0 {
		if err := ts.bt.Touch(); err != nil {
			r.failed(ts, c, err)
		}
		ts.mutated(nil)
	}
	if op.A&1 != 0 {
		if wk, ok := r.flush(ts, c, op.A&2 != 0); ok {
			r.stats.Probes[fmt.Sprintf("stored-height-%d", wk.Height)]++
		}
	}
	if op.A&4 != 0 && ts.dirty == 0 {
		o := c.op
		c.op = &Op{ID: op.ID, K: "prune"}
		r.breakPromises(ts, false)
		if err := ts.bt.Prune(); err != nil {
			violate("atomic", "tree %d: prune fails although no callback failed: %v", ts.id, err)
		}
		c.op = o
		ts.lastPruned = true
		r.exactStore(ts, "after flush and prune")
		r.stats.Probes["exact-store-check"]++
	}
	if op.A&8 != 0 {
		r.layout(ts, &Op{ID: op.ID, K: "layout"}, c)
	}
	if op.A&32 != 0 {
		r.dims(ts, c)
	}
	if op.A&16 != 0 && ts.dirty == 0 && len(ts.cks) > 0 {
		r.reopen(ts, &Op{ID: op.ID, K: "reopen"}, c)
		r.scan(ts, c)
		if err := ts.sm.Validate(); err != nil {
			r.w.soft("shape", "tree %d: validation of a reopened tree fails: %v", ts.id, err)
		}
	}
}

// recency: with eviction confined to the gaps between lookups, whatever was
// used recently enough to fit under the low limit must still be in memory.
func (r *Run) recency(ts *TreeState, op *Op, c *OpCtx) {
	if ts.cache == nil || ts.m.Len() == 0 || len(r.cs.Cfg.TreeOf) > 1 && !r.allArrived() {
		return // other callers use the cache
	}
	wk, ok := r.flush(ts, c, op.V&1 == 1)
	if !ok {
		return
	}
	for _, o := range ts.cache.trees {
		if o != ts && o.dirty != 0 {
			if _, ok := r.flush(o, c, true); !ok {
				return
			}
		}
	}
	h := wk.Height
	low := h * (1 + op.B%5)
	high := low + (op.B/5)%(2*h)
	ts.cache.update(uint64(low), uint64(high))
	simrt.Quiesce()
	rng := simrt.NewRNG(simrt.Mix(uint64(op.A), 5))
	n := ts.m.Len()
	nk := 3 + rng.Intn(9)
	last := map[int]int{}
	for i := 0; i < 24; i++ {
		simrt.Progress()
		j := rng.Intn(nk) * (n - 1) / nk
		if rng.Bool(0.3) && i > 0 { // come back to something recent
			at := i - 1 - rng.Intn(2)
			best := -1
			for k, a := range last {
				if a == at {
					best = k // at most one item was looked up at that point
				}
			}
			if best >= 0 {
				j = best
			}
		}
		r.sim.Hold = true
		g0 := c.gets
		var err error
		switch rng.Intn(4) {
		case 0:
			_, _, _, err = ts.sm.GetByIndex(j)
		case 1:
			_, _, err = ts.sm.GetByKey(r.w.kk.Key(ts.m.kv[j].K))
		case 2:
			_, _, err = ts.sm.BisectLeft(r.w.kk.Key(ts.m.kv[j].K))
		default:
			_, _, err = ts.sm.BisectRight(r.w.kk.Key(ts.m.kv[j].K))
		}
		r.sim.Hold = false
		if r.failed(ts, c, err) {
			ts.cache.setLimits(ts.cache.low, ts.cache.high)
			return
		}
		g := c.gets - g0
		if at, ok := last[j]; ok && (i-at)*h+h <= low {
			r.stats.Probes["recency-hit-expected"]++
			if g > 0 {
				r.w.soft("bound", "tree %d: item %d was looked up %d lookups ago (height %d, low limit %d) yet %d of its nodes had been evicted", ts.id, j, i-at, h, low, g)
			}
		}
		if g > 0 {
			r.stats.Probes["recency-miss"]++
		}
		last[j] = i
		simrt.Quiesce()
		s := ts.cache.bp.Stats()
		if g > 0 && s.CleanLRUItems != 0 && s.CleanLRUItems+s.DirtyLRUItems > uint64(high) {
			r.w.soft("bound", "at rest after nodes were loaded the cache holds %d clean + %d dirty nodes, high limit %d", s.CleanLRUItems, s.DirtyLRUItems, high)
		}
	}
	ts.cache.setLimits(ts.cache.low, ts.cache.high)
}

// boundCheck: once eviction has come to rest after loads or new limits, the
// cache is within its limits.
func (r *Run) boundCheck(ts *TreeState, op *Op, c *OpCtx) {
	if ts.cache == nil || len(r.cs.Cfg.TreeOf) > 1 && !r.allArrived() {
		return
	}
	loaded := false
	if op.B == 1 {
		ts.cache.setLimits(ts.cache.low, ts.cache.high)
		loaded = true
	} else {
		g0 := c.gets
		for i := 0; i < 6 && ts.m.Len() > 0 && c.gets == g0; i++ {
			simrt.Progress()
			j := int(simrt.Mix(uint64(op.A), uint64(i))>>2) % ts.m.Len()
			if _, _, _, err := ts.sm.GetByIndex(j); err != nil {
				r.failed(ts, c, err)
			}
		}
		loaded = c.gets > g0
	}
	if !loaded {
		return
	}
	simrt.Quiesce()
	s := ts.cache.bp.Stats()
	r.stats.Probes["bound-check"]++
	if !ts.cache.limAmbig && (s.EvictLowLimit != lim(ts.cache.low) || s.EvictHighLimit != lim(ts.cache.high)) {
		r.w.soft("stats", "cache reports limits %d/%d after %d/%d were set", s.EvictLowLimit, s.EvictHighLimit, ts.cache.low, ts.cache.high)
	}
	if s.CleanLRUItems != 0 && s.CleanLRUItems+s.DirtyLRUItems > s.EvictHighLimit {
		r.w.soft("bound", "at rest after nodes were loaded or limits announced the cache holds %d clean + %d dirty nodes, high limit %d", s.CleanLRUItems, s.DirtyLRUItems, s.EvictHighLimit)
	}
}

func (r *Run) allArrived() bool {
	for _, a := range r.arrived {
		if !a {
			return false
		}
	}
	return true
}

// cacheCheck ties the cache counters to what is observable at the callbacks.
func (r *Run) cacheCheck(op *Op, c *OpCtx) {
	if !r.allArrived() {
		return
	}
	for _, ch := range r.caches {
		r.cacheCheck1(ch, op, c)
	}
}

func (r *Run) cacheCheck1(ch *Cache, op *Op, c *OpCtx) {
	stats := func() *sortedmap.BPlusTreeCacheStats { return ch.bp.Stats() }
	r.stats.Probes["cache-account-check"]++
	lo, hi := ch.low, ch.high
	ch.update(1<<40, 1<<41)
	simrt.Quiesce()
	if op.A&1 != 0 {
		d0 := stats().DirtyLRUItems
		for _, ts := range ch.trees {
			simrt.Progress()
			if err := ts.bt.Purge(false); err != nil {
				violate("result", "tree %d: purge fails although no callback failed: %v", ts.id, err)
			}
		}
		if s := stats(); s.CleanLRUItems != 0 || s.DirtyLRUItems != d0 {
			r.w.soft("stats", "after purging every tree the cache counts %d clean and %d dirty nodes (dirty before: %d)", s.CleanLRUItems, s.DirtyLRUItems, d0)
		}
	}
	// nodes awaiting flush are exactly those the next flushes write
	s0 := stats()
	p0 := c.puts
	for _, ts := range ch.trees {
		simrt.Progress()
		if _, ok := r.flush(ts, c, false); !ok {
			ch.setLimits(lo, hi)
			return
		}
	}
	if n := c.puts - p0; uint64(n) != s0.DirtyLRUItems {
		r.w.soft("stats", "the cache counted %d nodes awaiting flush but flushing every tree wrote %d", s0.DirtyLRUItems, n)
	}
	s1 := stats()
	if s1.DirtyLRUItems != 0 || s1.CleanLRUItems != s0.CleanLRUItems+s0.DirtyLRUItems {
		r.w.soft("stats", "flushing turned %d clean + %d dirty nodes into %d clean + %d dirty", s0.CleanLRUItems, s0.DirtyLRUItems, s1.CleanLRUItems, s1.DirtyLRUItems)
	}
	// everything resident: the counters equal the number of nodes
	total := 0
	g0 := c.gets
	for _, ts := range ch.trees {
		simrt.Progress()
		if err := ts.bt.Validate(); err != nil {
			r.w.soft("shape", "tree %d: validation fails: %v", ts.id, err)
		}
		wk, p := r.w.codec.Walk(ts.cks[len(ts.cks)-1].loc, r.w.get)
		if p != nil {
			ch.setLimits(lo, hi)
			return
		}
		total += len(wk.Nodes)
	}
	s2 := stats()
	if int(s2.CleanLRUItems) != total || s2.DirtyLRUItems != 0 {
		r.w.soft("stats", "with every node of every tree resident (%d nodes) the cache counts %d clean + %d dirty", total, s2.CleanLRUItems, s2.DirtyLRUItems)
	}
	if int(s1.CleanLRUItems)+(c.gets-g0) != total {
		r.w.soft("stats", "the cache counted %d resident nodes but %d of %d had to be read to make all resident", s1.CleanLRUItems, c.gets-g0, total)
	}
	if op.A&2 != 0 {
		for _, ts := range ch.trees {
			simrt.Progress()
			if err := ts.bt.Purge(true); err != nil {
				violate("result", "tree %d: full purge of a flushed tree fails: %v", ts.id, err)
			}
		}
		if s := stats(); s.CleanLRUItems != 0 || s.DirtyLRUItems != 0 {
			r.w.soft("stats", "after everything was purged the cache counts %d clean and %d dirty nodes", s.CleanLRUItems, s.DirtyLRUItems)
		}
	}
	if op.A&4 != 0 && total > 2 {
		// lowered in two steps, the second while eviction for the first runs
		ch.setLimits(total*3/4, total-1)
		simrt.Progress()
	}
	ch.setLimits(lo, hi)
	simrt.Quiesce()
	if s := stats(); s.CleanLRUItems != 0 && s.CleanLRUItems+s.DirtyLRUItems > lim(hi) {
		r.w.soft("bound", "at rest after limits were announced the cache holds %d clean + %d dirty nodes, high limit %d", s.CleanLRUItems, s.DirtyLRUItems, hi)
	}
}

// buildForeign stores a well-formed tree written by "another release": other
// legal node boundaries and separators than this code would choose.
func (r *Run) buildForeign(ts *TreeState, n int) *Checkpoint {
	rng := simrt.NewRNG(simrt.Mix(r.cs.Cfg.KeySeed, uint64(ts.id), 991))
	max := r.cs.Cfg.MaxKeys[ts.id]
	min := max / 2
	N := r.w.kk.N()
	if n > N {
		n = N
	}
	perm := make([]int, N)
	for i := range perm {
		perm[i] = i
	}
	for i := 0; i < n; i++ {
		j := i + rng.Intn(N-i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	m := &Model{}
	for i := 0; i < n; i++ {
		m.kv = append(m.kv, KV{perm[i], r.w.vk.Canon(900000000 + i)})
	}
	sort.Slice(m.kv, func(i, j int) bool { return m.kv[i].K < m.kv[j].K })
	mode := rng.Intn(3)
	split := func(n, lo, hi int) []int {
		gmin, gmax := (n+hi-1)/hi, n/lo
		if gmin < 2 {
			gmin = 2 // the caller has enough for two
		}
		g := gmin
		switch mode {
		case 0:
			g = rng.Range(gmin, gmax)
		case 1:
			g = gmax
		}
		out := make([]int, g)
		rest := n
		for i := range out {
			out[i] = lo
			rest -= lo
		}
		for rest > 0 {
			i := rng.Intn(g)
			d := rng.Range(1, rest)
			if d > hi-out[i] {
				d = hi - out[i]
			}
			out[i] += d
			rest -= d
		}
		return out
	}
	type sub struct {
		ref    Ref
		lo, hi int // smallest and largest key below
	}
	put := func(img *NodeImg) *Stored {
		return r.w.store(ts.id, r.w.codec.Encode(img), img.Items, img.Leaf)
	}
	var gens []*Stored
	leafImg := func(kv []KV, root bool) *NodeImg {
		img := &NodeImg{Items: uint64(len(kv)), Leaf: true, Root: root, MaxKeys: uint64(max)}
		for _, e := range kv {
			img.Keys = append(img.Keys, e.K)
			img.Vals = append(img.Vals, e.V)
		}
		return img
	}
	if n <= max && (n < 2*min || rng.Bool(0.5)) {
		st := put(leafImg(m.kv, true))
		return &Checkpoint{st.Loc, m.kv, gensOf([]*Stored{st})}
	}
	var level []sub
	pos := 0
	for _, sz := range split(n, min, max) {
		kv := m.kv[pos : pos+sz]
		st := put(leafImg(kv, false))
		gens = append(gens, st)
		level = append(level, sub{Ref{st.Loc, uint64(sz)}, kv[0].K, kv[sz-1].K})
		pos += sz
	}
	mk := func(ch []sub, root bool) sub {
		img := &NodeImg{Root: root, MaxKeys: uint64(max)}
		for i, s := range ch {
			img.Items += s.ref.Items
			img.Kids = append(img.Kids, s.ref)
			if i > 0 {
				img.Keys = append(img.Keys, rng.Range(ch[i-1].hi+1, s.lo))
			}
		}
		st := put(img)
		gens = append(gens, st)
		return sub{Ref{st.Loc, img.Items}, ch[0].lo, ch[len(ch)-1].hi}
	}
	for len(level) > max+1 || (len(level) >= 2*(min+1) && rng.Bool(0.3)) {
		var up []sub
		pos := 0
		for _, sz := range split(len(level), min+1, max+1) {
			up = append(up, mk(level[pos:pos+sz], false))
			pos += sz
		}
		level = up
	}
	root := mk(level, true)
	r.stats.Probes["foreign-multilevel"]++
	return &Checkpoint{root.ref.Loc, m.kv, gensOf(gens)}
}

// corrupt alters stored bytes of a flushed tree and requires validation of the
// reopened tree to notice, then restores them and requires it to be satisfied.
func (r *Run) corrupt(ts *TreeState, op *Op, c *OpCtx) {
	wk, ok := r.flush(ts, c, op.A&1 == 0)
	if !ok {
		return
	}
	loc := ts.cks[len(ts.cks)-1].loc
	rng := simrt.NewRNG(simrt.Mix(uint64(op.A), 31))
	imgs := map[*Stored]*NodeImg{}
	var leaves, inner []*Stored
	parent := map[*Stored]*Stored{}
	slot := map[*Stored]int{}
	for _, st := range wk.Nodes {
		img, err := r.w.codec.Decode(st.Data)
		if err != nil {
			return
		}
		imgs[st] = img
		if img.Leaf {
			leaves = append(leaves, st)
		} else {
			inner = append(inner, st)
			for i, k := range img.Kids {
				ch := r.w.get(k.Loc)
				parent[ch], slot[ch] = st, i
			}
		}
	}
	delta := func(v uint64) uint64 {
		switch rng.Intn(5) {
		case 0:
			return v + 1
		case 1:
			return v - 1
		case 2:
			return v + uint64(rng.Range(1, 50))
		case 3:
			if v != 0 {
				return 0
			}
			return 7
		}
		return v ^ (1 << uint(rng.Intn(64)))
	}
	var what string
	dirty := map[*Stored]bool{}
	saved := map[*Stored][]byte{}
	raw := map[*Stored][]byte{}
	kinds := []string{"leafcount", "truncate", "recount", "shortitems"}
	if len(inner) > 0 {
		kinds = append(kinds, "ref", "refpair", "refpair", "refpair", "path", "leafandref", "leafpair", "refmany")
	}
	kind := kinds[rng.Intn(len(kinds))]
	pick := func(l []*Stored) *Stored { return l[rng.Intn(len(l))] }
	switch kind {
	case "leafcount":
		l := pick(leaves)
		imgs[l].Items = delta(imgs[l].Items)
		dirty[l] = true
	case "leafandref": // the leaf and its parent agree on a wrong count
		l := pick(leaves)
		imgs[l].Items = delta(imgs[l].Items)
		dirty[l] = true
		if p := parent[l]; p != nil {
			imgs[p].Kids[slot[l]].Items = imgs[l].Items
			dirty[p] = true
		}
	case "path": // the whole path agrees on a wrong count
		l := pick(leaves)
		d := uint64(1)
		if rng.Bool(0.5) {
			d = ^uint64(0)
		}
		imgs[l].Items += d
		dirty[l] = true
		for x := l; parent[x] != nil; x = parent[x] {
			p := parent[x]
			imgs[p].Kids[slot[x]].Items += d
			imgs[p].Items += d
			dirty[p] = true
		}
	case "ref":
		p := pick(inner)
		i := rng.Intn(len(imgs[p].Kids))
		imgs[p].Kids[i].Items = delta(imgs[p].Kids[i].Items)
		dirty[p] = true
	case "refpair": // two wrong counts that cancel out
		p := pick(inner)
		i := rng.Intn(len(imgs[p].Kids))
		j := rng.Intn(len(imgs[p].Kids) - 1)
		if j >= i {
			j++
		}
		d := uint64(rng.Range(1, 3))
		imgs[p].Kids[i].Items += d
		imgs[p].Kids[j].Items -= d
		dirty[p] = true
	case "refmany": // several canceling pairs, in several nodes
		for n := rng.Range(2, 4); n > 0; n-- {
			p := pick(inner)
			i := rng.Intn(len(imgs[p].Kids))
			j := (i + 1) % len(imgs[p].Kids)
			imgs[p].Kids[i].Items += uint64(n * n)
			imgs[p].Kids[j].Items -= uint64(n * n)
			dirty[p] = true
		}
	case "leafpair":
		a, b := pick(leaves), pick(leaves)
		if a == b {
			imgs[a].Items++
		} else {
			imgs[a].Items++
			imgs[b].Items--
			dirty[b] = true
		}
		dirty[a] = true
	case "recount", "shortitems":
		// recount: a leaf claims fewer items than its image holds;
		// shortitems: it claims more. Everything above agrees with the claim,
		// or with what the leaf used to hold.
		l := pick(leaves)
		n := len(imgs[l].Keys)
		if n == 0 {
			return
		}
		d := 1
		if rng.Bool(0.3) {
			d = rng.Range(1, n)
		}
		full := r.w.codec.Encode(imgs[l])
		if kind == "recount" {
			cut := *imgs[l]
			cut.Items -= uint64(d)
			cut.Keys, cut.Vals = cut.Keys[:n-d], cut.Vals[:n-d]
			short := r.w.codec.Encode(&cut)
			raw[l] = append(short, full[len(short):]...)
		} else {
			cut, more := *imgs[l], *imgs[l]
			cut.Keys, cut.Vals = cut.Keys[:n-d], cut.Vals[:n-d]
			more.Keys, more.Vals = more.Keys[:n-d+1], more.Vals[:n-d+1]
			lo, hi := len(r.w.codec.Encode(&cut)), len(r.w.codec.Encode(&more))
			raw[l] = append([]byte(nil), full[:[]int{lo, rng.Range(lo, hi-1), hi - 1}[rng.Intn(3)]]...)
		}
		if kind == "recount" && rng.Bool(0.7) || kind == "shortitems" && rng.Bool(0.3) {
			if kind == "shortitems" { // the header, too, tells how many are left
				r.w.codec.bo.PutUint64(raw[l], uint64(n-d))
			}
			for x := l; parent[x] != nil; x = parent[x] {
				p := parent[x]
				imgs[p].Kids[slot[x]].Items -= uint64(d)
				imgs[p].Items -= uint64(d)
				dirty[p] = true
			}
		}
	case "truncate":
		st := wk.Nodes[rng.Intn(len(wk.Nodes))]
		raw[st] = st.Data[:rng.Intn(len(st.Data))]
	}
	changed := false
	for _, st := range wk.Nodes {
		var b []byte
		if dirty[st] {
			b = r.w.codec.Encode(imgs[st])
		} else if x, ok := raw[st]; ok {
			b = x
		} else {
			continue
		}
		if string(b) != string(st.Data) {
			saved[st] = st.Data
			st.Data = b
			changed = true
		}
	}
	if !changed {
		return
	}
	what = kind
	r.w.Fired["corrupt-"+kind]++
	var cache sortedmap.BPlusTreeCache
	if rng.Bool(0.5) {
		cache = sortedmap.NewBPlusTreeCache(100, 200)
	}
	open := func() error {
		bt, err := sortedmap.OldBPlusTree(loc.Num, loc.Off, loc.Len, r.cmp(), &TreeCB{r.w, ts.id}, cache)
		if err != nil {
			return err
		}
		if rng.Bool(0.3) && ts.m.Len() > 0 { // some of it is already in memory
			bt.GetByKey(r.w.kk.Key(ts.m.kv[rng.Intn(ts.m.Len())].K))
		}
		return bt.Validate()
	}
	err := open()
	if err == nil {
		violate("undetected", "tree %d: validation accepts stored bytes altered by %s (%d nodes, height %d)", ts.id, what, len(wk.Nodes), wk.Height)
	}
	simrt.Quiesce()
	for st, b := range saved {
		st.Data = b
	}
	cache = nil
	if err := open(); err != nil {
		violate("falsealarm", "tree %d: validation rejects unaltered bytes: %v", ts.id, err)
	}
	r.stats.Probes["corruption-detected"]++
}
