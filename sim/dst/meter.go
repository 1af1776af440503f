package main

import (
	"math"
	"sort"

	"github.com/NVIDIA/sortedmap"
	"verif/sim/simrt"
)

// meter stands between the simulated client and a B+Tree and weighs the
// storage traffic of every single call: what it may read is bounded by the
// height of the tree, what a flush may write by the changes since the last one.
type meter struct {
	sortedmap.BPlusTree
	r        *Run
	ts       *TreeState
	min      int
	n, peak  int // items; most that can have been present during a call in progress
	pend     int // insertions in progress
	busy     int
	known    int // height at some point, 0 if not known
	puts     int // insertions since, completed or not
	owed     []owed
	begun    int // changes begun
	changing int // changes in progress
	seq      int
	walk     *Walked // the tree as flushed, nil once it may have changed
	calls    int
	cache    *Cache
	mem      memory
}

// owed is what a change allows the next flush to write.
type owed struct{ seq, cost int }

const everything = 1 << 40

func (r *Run) meter(ts *TreeState, bt sortedmap.BPlusTree, n, height, owe int) sortedmap.BPlusTree {
	m := &meter{BPlusTree: bt, r: r, ts: ts, cache: ts.cache, min: r.cs.Cfg.MaxKeys[ts.id] / 2, n: n, peak: n, known: height}
	if owe > 0 {
		m.owe(owe)
	}
	ts.mt = m
	return m
}

func (m *meter) owe(cost int) {
	m.seq++
	m.owed = append(m.owed, owed{m.seq, cost})
}

// height is the most levels the tree can have.
func (m *meter) height() int {
	h := 1
	if n := m.peak; n/2 >= m.min {
		h = 2
		for l := n / m.min / 2; l >= m.min+1; l /= m.min + 1 {
			h++
		}
	}
	if k := m.known + m.puts; m.known > 0 && k < h {
		h = k
	}
	return h
}

type call struct {
	c      *OpCtx
	m      *meter
	what   string
	g0, p0 int
	cmp    int64
	step   int
	gens   int
	puts   int
	errs   int
	total  uint64 // in memory when it began
	epoch  int
	calls  int // as of this call, if it began while no other was in progress
}

func (m *meter) enter(what string) *call {
	if m.busy == 0 {
		m.peak = m.n
	}
	total := uint64(0)
	if ch := m.cache; ch != nil && m.booked() {
		ch.calm.depth++
		ch.calm.seq++
		if ch.calm.depth > 1 {
			ch.uncalm()
		}
		if ch.calm.is {
			total = ch.total()
		}
	}
	m.r.w.inCall[m.ts.id&63]++
	m.calls++
	k := &call{total: total, m: m, what: what, epoch: m.mem.epoch, calls: -1}
	if m.busy == 0 {
		k.calls = m.calls
	}
	m.busy++
	if m.r.cs.Prop == "C23" {
		simrt.Progress() // a limit of its own for each call
	}
	k.cmp, k.step = simrt.Cur().Cmp, simrt.Cur().Step()
	if c, ok := simrt.Cur().User.(*OpCtx); ok && c != nil {
		k.c, k.g0, k.p0, k.gens, k.puts, k.errs = c, c.gets, c.puts, len(c.getGens), len(c.putGens), c.errs
	}
	return k
}

// leave judges a call: at most reads nodes read (each once), at most writes written.
func (k *call) leave(reads, writes int) {
	m := k.m
	m.r.w.inCall[m.ts.id&63]--
	m.busy--
	m.remember(k)
	if k.c == nil {
		return
	}
	w := m.r.w
	k.compared()
	k.worked()
	if g := k.c.gets - k.g0; g > reads {
		w.soft("io", "tree %d: %s read %d nodes; a tree of at most %d items and %d levels allows %d", m.ts.id, k.what, g, m.peak, m.height(), reads)
	}
	if p := k.c.puts - k.p0; p > writes {
		w.soft("io", "tree %d: %s wrote %d nodes; what was changed since the last flush allows %d", m.ts.id, k.what, p, writes)
	}
	l := k.c.getGens[k.gens:]
	if len(l) > 1 {
		seen := make(map[int]bool, len(l))
		for _, g := range l {
			if seen[g] {
				w.soft("io", "tree %d: %s read the same stored node (write %d) twice", m.ts.id, k.what, g)
			}
			seen[g] = true
		}
	}
	if k.c.gets > k.g0 {
		m.r.stats.Probes["io-read-by-"+k.what]++
	}
}

// allowance is what a modification may read and may make the next flush write,
// in a tree of h levels of which, from its leaf upwards, lean nodes cannot give
// up a key and full ones cannot take one.
type allowance func(h, lean, full int) (reads, writes int)

func along(h, lean, full int) (int, int) { return h, h }
func ins(h, lean, full int) (int, int) {
	if full == h {
		full++ // and a new root
	}
	return h, h + full
}
func del(h, lean, full int) (int, int) { return h + 2*lean, h + lean }
func whole(h, lean, full int) (int, int) {
	return everything, everything
}

// change runs a modification near item at (-1 if not known): what it costs is
// granted to the next flush unless the call says that it changed nothing.
func (m *meter) change(what string, at int, a allowance, pick func(n *NodeImg) int, f func() (bool, error)) (ok bool, err error) {
	wk := m.walk
	m.walk = nil
	root := m.mem.root
	m.mem.root = -1
	k := m.enter(what)
	put := what == "put"
	if put {
		m.pend++
		m.puts++
		if m.n+m.pend > m.peak {
			m.peak = m.n + m.pend
		}
	}
	m.begun++
	m.changing++
	b0, alone := m.begun, m.changing == 1
	ok, err = f()
	m.changing--
	if !alone || m.begun != b0 {
		wk = nil // others changed the tree meanwhile
	}
	h := m.height()
	lean, full := h-1, h
	if wk != nil && at >= 0 {
		h, lean, full = wk.Height, 0, 0
		for _, i := range []int{at - 1, at} { // an insertion between two leaves goes into either
			if l := sort.SearchInts(wk.leafEnd, i+1); i >= 0 && l < len(wk.leafEnd) && (put || i == at) {
				if wk.lean[l] > lean {
					lean = wk.lean[l]
				}
				if wk.full[l] > full {
					full = wk.full[l]
				}
			}
		}
		if put && len(wk.KVs) == 0 {
			full = 0
		}
	}
	reads, writes := a(h, lean, full)
	if ok || err != nil {
		m.owe(writes)
	} else {
		if reads > h {
			reads = h // nothing to do
		}
		m.walk = wk
		if alone && m.begun == b0 {
			m.mem.root = root
		}
	}
	if put {
		m.pend--
		if ok && err == nil {
			m.n++
		} else {
			m.puts--
		}
	} else if what == "delete" && ok && err == nil {
		m.n--
	}
	k.leave(reads, 0)
	if ok && err == nil && pick != nil {
		m.used(k, root, pick)
	}
	return
}

// at is the position of a key as of the last flush, if nothing has changed since.
func (m *meter) at(key sortedmap.Key) int {
	if m.walk == nil {
		return -1
	}
	n, ok := m.r.w.kk.Num(key)
	if !ok {
		return -1
	}
	kv := m.walk.KVs
	return sort.Search(len(kv), func(i int) bool { return kv[i].K >= n })
}

func (m *meter) Put(key sortedmap.Key, v sortedmap.Value) (bool, error) {
	return m.change("put", m.at(key), ins, nil, func() (bool, error) { return m.BPlusTree.Put(key, v) })
}
func (m *meter) DeleteByKey(key sortedmap.Key) (bool, error) {
	return m.change("delete", m.at(key), del, nil, func() (bool, error) { return m.BPlusTree.DeleteByKey(key) })
}
func (m *meter) DeleteByIndex(i int) (bool, error) {
	return m.change("delete", i, del, nil, func() (bool, error) { return m.BPlusTree.DeleteByIndex(i) })
}
func (m *meter) PatchByKey(key sortedmap.Key, v sortedmap.Value) (bool, error) {
	return m.change("patch", m.at(key), along, m.byKey(key), func() (bool, error) { return m.BPlusTree.PatchByKey(key, v) })
}
func (m *meter) PatchByIndex(i int, v sortedmap.Value) (bool, error) {
	return m.change("patch", i, along, m.byIndex(i), func() (bool, error) { return m.BPlusTree.PatchByIndex(i, v) })
}
func (m *meter) TouchItem(at uint64) (nx uint64, err error) {
	_, err = m.change("item touch", 0, along, nil, func() (bool, error) {
		var e error
		nx, e = m.BPlusTree.TouchItem(at)
		return true, e
	})
	return
}
func (m *meter) all(what string, f func() error) error {
	_, err := m.change(what, -1, whole, nil, func() (bool, error) { return true, f() })
	return err
}
func (m *meter) Touch() error { return m.all("touch", m.BPlusTree.Touch) }
func (m *meter) Discard() (err error) {
	m.drop(func() (bool, bool) {
		err = m.all("discard", m.BPlusTree.Discard)
		return false, false
	})
	return
}

func (m *meter) GetByKey(key sortedmap.Key) (sortedmap.Value, bool, error) {
	k := m.enter("lookup")
	v, ok, err := m.BPlusTree.GetByKey(key)
	k.leave(m.height(), 0)
	if ok && err == nil {
		m.used(k, m.mem.root, m.byKey(key))
	}
	return v, ok, err
}
func (m *meter) GetByIndex(i int) (sortedmap.Key, sortedmap.Value, bool, error) {
	k := m.enter("positional access")
	key, v, ok, err := m.BPlusTree.GetByIndex(i)
	k.leave(m.height(), 0)
	if ok && err == nil {
		m.used(k, m.mem.root, m.byIndex(i))
	}
	return key, v, ok, err
}
func (m *meter) BisectLeft(key sortedmap.Key) (int, bool, error) {
	k := m.enter("bisection")
	i, ok, err := m.BPlusTree.BisectLeft(key)
	k.leave(m.height(), 0)
	return i, ok, err
}
func (m *meter) BisectRight(key sortedmap.Key) (int, bool, error) {
	k := m.enter("bisection")
	i, ok, err := m.BPlusTree.BisectRight(key)
	k.leave(m.height(), 0)
	return i, ok, err
}
func (m *meter) Len() (int, error) {
	k := m.enter("length")
	n, err := m.BPlusTree.Len()
	k.leave(1, 0)
	return n, err
}
func (m *meter) FetchDimensionsReport() (sortedmap.DimensionsReport, error) {
	k := m.enter("dimensions report")
	d, err := m.BPlusTree.FetchDimensionsReport()
	k.leave(m.height(), 0)
	return d, err
}
func (m *meter) FetchLayoutReport() (sortedmap.LayoutReport, error) {
	k := m.enter("layout report")
	d, err := m.BPlusTree.FetchLayoutReport()
	k.leave(everything, 0)
	return d, err
}
func (m *meter) FetchLocation() (uint64, uint64, uint64) {
	k := m.enter("location")
	a, b, c := m.BPlusTree.FetchLocation()
	k.leave(0, 0)
	return a, b, c
}
func (m *meter) Validate() error {
	k := m.enter("validation")
	err := m.BPlusTree.Validate()
	k.leave(everything, 0)
	return err
}
func (m *meter) Dump() error {
	k := m.enter("dump")
	err := m.BPlusTree.Dump()
	k.leave(everything, 0)
	return err
}
func (m *meter) Purge(full bool) (err error) {
	m.drop(func() (bool, bool) {
		k := m.enter("purge")
		err = m.BPlusTree.Purge(full)
		k.leave(0, 0)
		return err == nil, full && err != nil
	})
	return
}
func (m *meter) Prune() error {
	k := m.enter("prune")
	err := m.BPlusTree.Prune()
	k.leave(0, 0)
	return err
}
func (m *meter) Flush(purge bool) (num, off, n uint64, err error) {
	if !purge {
		return m.flush(false)
	}
	m.drop(func() (bool, bool) {
		num, off, n, err = m.flush(true)
		return err == nil, false
	})
	return
}
func (m *meter) flush(purge bool) (uint64, uint64, uint64, error) {
	k := m.enter("flush")
	s0, b0, alone := m.seq, m.begun, m.changing == 0
	allow := 0
	for _, o := range m.owed {
		allow += o.cost
	}
	a, b, c, err := m.BPlusTree.Flush(purge)
	if !alone || m.begun != b0 {
		allow = everything // changes overlap the flush
	}
	if err == nil {
		l := m.owed[:0]
		for _, o := range m.owed {
			if o.seq > s0 {
				l = append(l, o)
			}
		}
		m.owed = l
	} else if allow < everything && m.changing == 0 && m.begun == b0 && m.busy == 1 && k.c != nil {
		// what this flush stored the next one need not store again
		left := allow
		for _, g := range k.c.putGens[k.puts:] {
			if !m.r.w.all[g].Orphan {
				left--
			}
		}
		m.owed = append(m.owed[:0], owed{m.seq, left})
		m.r.stats.Probes["io-flush-failed"]++
	}
	if m.busy == 1 && k.c != nil && k.c.errs == 0 {
		switch p := k.c.puts - k.p0; {
		case allow == 0:
			m.r.stats.Probes["io-flush-nothing-changed"]++
		case allow < everything/2 && p*2 >= allow:
			m.r.stats.Probes["io-flush-near-bound"]++
		}
	}
	k.leave(0, allow)
	m.mem.root = -1
	if err == nil && k.calls == m.calls {
		if st := m.r.w.live[[2]uint64{a, b}]; st != nil {
			m.mem.root = st.Gen
		}
	}
	return a, b, c, err
}

// learn is told the height while nothing else is going on.
func (m *meter) learn(h int, wk *Walked) {
	if m != nil && m.busy == 0 && h > 0 {
		m.known, m.puts = h, 0
		if wk != nil {
			m.walk = wk
		}
	}
}

// compared judges how often a call made the comparator run: by the nodes on a
// path, those it read and, if it is a modification, those it may rearrange.
func (k *call) compared() {
	m, d := k.m, simrt.Cur().Cmp-k.cmp
	if d <= 4 {
		return
	}
	keys := 2 * m.min // of a node
	if m.peak < keys {
		keys = m.peak
	}
	lg, h := math.Log2(float64(keys+1)), m.height()
	path := float64(h) * (4*lg + 4)
	node := 2 * float64(keys+1) * (2*lg + 2)
	reads := k.c.gets - k.g0
	lim := path + float64(reads)*node
	switch k.what {
	case "lookup", "bisection", "positional access", "patch":
	case "put", "delete":
		lim += float64(h) * node
	default:
		return
	}
	if float64(d) > lim {
		m.r.w.soft("compares", "tree %d: %s made %d comparisons and read %d nodes; a tree of at most %d items and %d levels with nodes of at most %d keys allows %.0f", m.ts.id, k.what, d, reads, m.peak, h, keys, lim)
	}
	if keys >= 32 && reads == 0 {
		m.r.stats.Probes["compared-in-large-nodes-"+k.what]++
	}
}

// worked judges how many statements of the library a call executed, by the
// same measure.
func (k *call) worked() {
	m, d := k.m, simrt.Cur().Step()-k.step
	if d <= 200 {
		return
	}
	keys := 2 * m.min // of a node
	if m.peak < keys {
		keys = m.peak
	}
	lg, h := math.Log2(float64(keys+1)), m.height()
	path := float64(h) * (120 + 70*(lg+1))
	node := 500 + 150*float64(keys+1)*(lg+2)
	reads := k.c.gets - k.g0
	lim := float64(0)
	switch k.what {
	case "lookup", "bisection", "positional access", "patch", "dimensions report", "item touch":
		lim = path + float64(reads)*node
	case "put", "delete":
		lim = path + float64(reads+h)*node
	case "length", "location":
		lim = 200 + float64(reads)*node
	case "flush", "purge", "touch", "validation", "layout report":
		lim = 4000 + 400*float64(m.peak+1)
		if reads > 0 {
			lim += 150*float64(m.peak+1)*(lg+2) + 1000*float64(reads)
		}
	default:
		return
	}
	if float64(d) > lim {
		m.r.w.soft("work", "tree %d: %s executed %d statements and read %d nodes; a tree of at most %d items and %d levels with nodes of at most %d keys allows %.0f", m.ts.id, k.what, d, reads, m.peak, h, keys, lim)
	}
	if m.peak > 500 && reads == 0 {
		m.r.stats.Probes["work-large-tree-"+k.what]++
	}
}
