package main

import "sort"

// memory keeps the books of which nodes of one B+Tree handle are in memory:
// held are stored nodes (by write) that must be there, because they were read
// or written and nothing may have dropped them; those not in maybe cannot be
// there, because everything that could be was dropped since they were last
// read or written.
type memory struct {
	held  map[int]bool
	maybe map[int]bool // nil if not known
	root  int          // the write that stored the root, if the tree is as stored; else -1
	epoch int          // purges and other droppings begun and ended
	busy  int          // those in progress
	since int
}

// pinned says whether nothing evicts nodes of the tree in the background.
func (m *meter) pinned() bool {
	return m.cache == nil || m.cache.minHigh >= 200000 || m.cache.calm.is
}

// calm keeps track of whether a cache can have begun to evict: it cannot as
// long as what was in memory before each call, and what that call added, did
// not exceed the high limit.
type calm struct {
	is    bool
	high  uint64
	depth int // calls in progress on the cache's trees
	seq   int
	since int // counts the times it was given up
}

func (ch *Cache) total() uint64 {
	s := ch.bp.Stats()
	return s.CleanLRUItems + s.DirtyLRUItems
}

func (ch *Cache) uncalm() {
	ch.calm.is = false
	ch.calm.since++
}

// settled is told that background eviction was seen at rest.
func (r *Run) settled(ch *Cache, seq int) {
	if r.cs.Prop == "C19" && ch != nil && ch.calm.depth == 0 && ch.calm.seq == seq && ch.limBusy == 0 && !ch.limAmbig {
		if !ch.calm.is && ch.total() <= ch.calm.high && ch.calm.depth == 0 && ch.calm.seq == seq {
			ch.uncalm()
			ch.calm.is = true
			r.stats.Probes["memory-calm"]++
		}
	}
}

func (m *meter) booked() bool { return m.r.cs.Prop == "C19" }

// opened is told that the handle was opened at loc (nil: newly created).
func (m *meter) opened(loc *Loc) {
	if m.cache != nil {
		m.cache.uncalm()
	}
	m.mem.root = -1
	m.mem.held = map[int]bool{}
	m.mem.maybe = map[int]bool{}
	if loc != nil && m.booked() {
		if st := m.r.w.live[[2]uint64{loc.Num, loc.Off}]; st != nil {
			m.mem.root = st.Gen
			m.mem.maybe[st.Gen] = true
			m.mem.held[st.Gen] = true
		}
	}
}

// remember judges what a call read against what was in memory and books it.
func (m *meter) remember(k *call) {
	if !m.booked() {
		return
	}
	mem := &m.mem
	if ch := m.cache; ch != nil {
		ch.calm.depth--
		if add := uint64(0); ch.calm.is {
			if k.c != nil {
				add = uint64(k.c.gets - k.g0)
			}
			if k.what == "put" {
				add += uint64(m.height()) + 1
			}
			if k.c == nil || k.total+add > ch.calm.high {
				ch.uncalm()
			}
		}
		if ch.minHigh < 200000 && mem.since != ch.calm.since {
			mem.since = ch.calm.since
			mem.held = map[int]bool{}
		}
	}
	if k.c == nil { // one of the simulator's own, whose reads are not recorded
		mem.held, mem.maybe = map[int]bool{}, nil
		return
	}
	gets, puts := k.c.getGens[k.gens:], k.c.putGens[k.puts:]
	peek := k.what == "layout report" // which removes again what it loads
	if k.epoch == mem.epoch && mem.busy == 0 && m.pinned() && (!peek || k.calls == m.calls) {
		for _, g := range gets {
			if mem.held[g] {
				m.r.w.soft("memory", "tree %d: %s read a stored node (write %d) that was in memory already", m.ts.id, k.what, g)
			}
		}
		if len(gets) == 0 {
			m.r.stats.Probes["memory-nothing-read"]++
		}
		if k.c.errs == k.errs && !peek {
			for _, g := range gets {
				mem.held[g] = true
			}
			for _, g := range puts {
				mem.held[g] = true
			}
		}
	}
	if mem.maybe != nil && !(peek && k.calls == m.calls && k.c.errs == k.errs) {
		for _, g := range gets {
			mem.maybe[g] = true
		}
		for _, g := range puts {
			mem.maybe[g] = true
		}
	}
}

// drop brackets a call that may remove nodes from memory; all says whether,
// once it succeeded, no stored node is left there.
func (m *meter) drop(f func() (all, none bool)) {
	if !m.booked() {
		f()
		return
	}
	mem := &m.mem
	e, alone, held := mem.epoch, m.busy == 0, mem.held
	calls, since := m.calls, mem.since
	mem.epoch++
	mem.busy++
	mem.held = map[int]bool{}
	all, none := f()
	mem.busy--
	alone = alone && m.calls == calls+1 && mem.epoch == e+1
	mem.epoch++
	mem.held = map[int]bool{}
	switch {
	case none && alone && mem.since == since:
		mem.held = held
	case all && alone:
		mem.maybe = map[int]bool{}
	case alone:
		// it may have removed some, which maybe allows for
	default:
		mem.maybe = nil
	}
}

// used judges a lone access to the item chosen by pick: each stored node on
// its path must have been read or possibly be in memory.
func (m *meter) used(k *call, root int, pick func(n *NodeImg) int) {
	if !m.booked() || k.c == nil || m.mem.maybe == nil || root < 0 || m.calls != k.calls {
		return
	}
	w := m.r.w
	g := root
	for depth := 1; depth < 40; depth++ {
		if !m.mem.maybe[g] {
			w.soft("memory", "tree %d: %s used a stored node (write %d, level %d) that was dropped from memory, without reading it", m.ts.id, k.what, g, depth)
			return
		}
		n := w.image(g)
		if n == nil || n.Leaf {
			break
		}
		i := pick(n)
		if i < 0 || i >= len(n.Kids) {
			return
		}
		l := n.Kids[i].Loc
		st := w.live[[2]uint64{l.Num, l.Off}]
		if st == nil {
			return
		}
		g = st.Gen
	}
	m.r.stats.Probes["memory-path"]++
	if len(k.c.getGens) > k.gens {
		m.r.stats.Probes["memory-path-read"]++
	}
}

func (m *meter) byKey(key interface{}) func(n *NodeImg) int {
	num, ok := m.r.w.kk.Num(key)
	return func(n *NodeImg) int {
		if !ok {
			return -1
		}
		return sort.Search(len(n.Keys), func(i int) bool { return n.Keys[i] > num })
	}
}

func (m *meter) byIndex(i int) func(n *NodeImg) int {
	at := uint64(i)
	return func(n *NodeImg) int {
		for j, r := range n.Kids {
			if at < r.Items {
				return j
			}
			at -= r.Items
		}
		return -1
	}
}

// image is the decoded image of a write.
func (w *World) image(g int) *NodeImg {
	if n, ok := w.images[g]; ok {
		return n
	}
	n, err := w.codec.Decode(w.all[g].Data)
	if err != nil {
		n = nil
	}
	if w.images == nil {
		w.images = map[int]*NodeImg{}
	}
	w.images[g] = n
	return n
}
