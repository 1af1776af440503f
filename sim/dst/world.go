package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/NVIDIA/sortedmap"
	"verif/sim/simrt"
)

// Stored is one node write that reached storage.
type Stored struct {
	Tree   int
	Gen    int
	Loc    Loc
	Data   []byte
	Live   bool
	Orphan bool // stored, but the writer was told it failed
	Gone   bool // discarded, but the caller was told it failed
	Items  uint64
	Leaf   bool
}

var errInjected = errors.New("injected storage failure")

type cbKind int

const (
	cbGet cbKind = iota
	cbPut
	cbDiscard
	cbPackK
	cbUnpackK
	cbPackV
	cbUnpackV
	cbDumpK
	cbDumpV
	nCb
)

var cbNames = [nCb]string{"get", "put", "discard", "packkey", "unpackkey", "packvalue", "unpackvalue", "dumpkey", "dumpvalue"}

// OpCtx is what the harness knows about the call a task is executing.
type OpCtx struct {
	op                   *Op
	tree                 int
	nth                  [nCb]int
	nstore               int // storage callbacks so far
	nlight, ncmp         int // others, comparisons
	errs                 int // injected failures so far
	gets, puts, discards int
	hw                   int
	putGens              []int
	getGens              []int
	dumpK, dumpV         []int // what a dump handed to the client for rendering
}

type fkey struct {
	op   int
	kind cbKind
	nth  int
}

// World is the simulated storage shared by all trees of a run. It survives
// crashes; everything else does not.
type World struct {
	cs        *Case
	cfg       *Cfg
	codec     *Codec
	kk        *KeyKind
	vk        ValKind
	rel       *releases // C22 only
	storm     *storm    // C22 only
	arena     arena
	images    map[int]*NodeImg
	inCall    [64]int    // calls in progress per tree
	rng       *simrt.RNG // fault/latency choices; nil in replay
	live      map[[2]uint64]*Stored
	all       []*Stored
	nTree     map[int]int
	faults    map[fkey]Fault
	lats      map[fkey]int64
	RecFaults []Fault
	RecLats   []Lat
	Fired     map[string]int64
	Calls     [nCb]int64
	crash     *Crash
	// allocation
	seq                     uint64
	segNum, segOff, segLeft uint64
	segOf                   map[int]*[3]uint64
	free                    map[uint64][][2]uint64
	lenient                 bool // C12: bytes were altered on purpose
	Soft                    map[string]int64
	stall                   map[int]func() // op id -> called when that op's first storage callback stalls
	Bytes                   int64
}

func NewWorld(cs *Case, rng *simrt.RNG) *World {
	cfg := &cs.Cfg
	w := &World{cs: cs, cfg: cfg, rng: rng, live: map[[2]uint64]*Stored{}, faults: map[fkey]Fault{}, lats: map[fkey]int64{}, Fired: map[string]int64{}, Soft: map[string]int64{}, free: map[uint64][][2]uint64{}, segOf: map[int]*[3]uint64{}}
	w.kk = NewKeyKind(cfg.KeyKind, cfg.KeyN, cfg.KeySeed, cfg.Reverse, cfg.CmpMag)
	if cs.Prop == "C22" {
		w.rel = &releases{}
	}
	w.kk.rel = w.rel
	w.vk = ValKind{cfg.ValKind, cfg.Arena, w.rel}
	w.codec = &Codec{binary.LittleEndian, w.kk, w.vk}
	kinds := map[string]cbKind{}
	for i, n := range cbNames {
		kinds[n] = cbKind(i)
	}
	for _, f := range cs.Faults {
		w.faults[fkey{f.Op, kinds[f.Kind], f.Nth}] = f
	}
	for _, l := range cs.Lats {
		w.lats[fkey{l.Op, kinds[l.Kind], l.Nth}] = l.NS
	}
	return w
}

func (w *World) get(l Loc) *Stored {
	st := w.live[[2]uint64{l.Num, l.Off}]
	if st == nil || st.Gone {
		return nil
	}
	return st
}

// treeNodes lists the live nodes of a tree (orphans excluded) by generation.
func (w *World) treeNodes(tree int) []*Stored {
	var out []*Stored
	for _, st := range w.live {
		if st.Tree == tree && !st.Orphan && !st.Gone {
			out = append(out, st)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Gen < out[j].Gen })
	return out
}

func (w *World) alloc(tree int, n uint64) (uint64, uint64) {
	hi := uint64(0)
	if w.cfg.AllocHi {
		hi = 0xFFFFFFFFFF000000
	}
	switch w.cfg.Alloc {
	case "node":
		w.seq++
		return hi + w.seq, 0
	case "reuse":
		if l := w.free[n]; len(l) > 0 {
			p := l[len(l)-1]
			w.free[n] = l[:len(l)-1]
			return p[0], p[1]
		}
	}
	owner := tree
	if w.cfg.SharedObjs {
		owner = -1
	}
	s := w.segOf[owner]
	if s == nil || s[2] < n {
		w.seq++
		s = &[3]uint64{hi + w.seq, 0, uint64(w.cfg.SegBytes)}
		if w.cfg.AllocHi {
			s[1] = 0xFFFFFFFF00000000
		}
		if s[2] < n {
			s[2] = n
		}
		w.segOf[owner] = s
	}
	off := s[1]
	s[1] += n
	s[2] -= n
	return s[0], off
}

// store puts bytes into the simulated storage.
func (w *World) store(tree int, data []byte, items uint64, leaf bool) *Stored {
	num, off := w.alloc(tree, uint64(len(data)))
	if !w.cfg.Retain {
		data = append([]byte(nil), data...)
	}
	st := &Stored{Tree: tree, Gen: len(w.all), Loc: Loc{num, off, uint64(len(data))}, Data: data, Live: true, Items: items, Leaf: leaf}
	w.all = append(w.all, st)
	w.live[[2]uint64{num, off}] = st
	w.Bytes += int64(len(data))
	return st
}

func (w *World) remove(st *Stored) {
	st.Live = false
	delete(w.live, [2]uint64{st.Loc.Num, st.Loc.Off})
	if w.cfg.Alloc == "reuse" {
		w.free[st.Loc.Len] = append(w.free[st.Loc.Len], [2]uint64{st.Loc.Num, st.Loc.Off})
	}
}

// TreeCB is the client of one tree: the callbacks the tree is given.
type TreeCB struct {
	w    *World
	tree int
}

func ctxOf() *OpCtx {
	if t := simrt.Cur(); t != nil {
		if c, ok := t.User.(*OpCtx); ok {
			return c
		}
	}
	return nil
}

func (w *World) opID(c *OpCtx) int {
	if c == nil || c.op == nil {
		return -1
	}
	return c.op.ID
}

// fault decides whether this callback fails, and how.
func (w *World) fault(c *OpCtx, k cbKind, nth int, size int) (string, int) {
	if k == cbPut && w.stormy(k) {
		return "err", 0
	}
	if c == nil || c.op == nil || !c.op.F {
		return "", 0
	}
	id := c.op.ID
	if w.rng == nil {
		f, ok := w.faults[fkey{id, k, nth}]
		if !ok {
			return "", 0
		}
		return w.fire(c, f)
	}
	p := w.cfg.PFault[cbNames[k]]
	if p == 0 || !w.rng.Bool(p) {
		return "", 0
	}
	f := Fault{Op: id, Kind: cbNames[k], Nth: nth, Type: "err"}
	switch k {
	case cbGet:
		if w.rng.Bool(0.3) && size > 0 {
			f.Type = "short"
			f.N = w.rng.Intn(size)
		}
	case cbPut, cbDiscard:
		if w.rng.Bool(0.3) {
			f.Type = "lost"
		}
	}
	return w.fire(c, f)
}

func (w *World) fire(c *OpCtx, f Fault) (string, int) {
	w.RecFaults = append(w.RecFaults, f)
	w.Fired[f.Kind+"-"+f.Type]++
	c.errs++
	simrt.S().Note("fault %s %s nth=%d n=%d", f.Kind, f.Type, f.Nth, f.N)
	return f.Type, f.N
}

// enter is the common part of a storage callback.
func (w *World) enter(k cbKind) (*OpCtx, int) {
	c := ctxOf()
	w.Calls[k]++
	simrt.Event()
	nth := 0
	if c != nil {
		nth = c.nth[k]
		c.nth[k]++
		c.nstore++
		if w.crash != nil && c.op != nil && c.op.ID == w.crash.Op && w.crash.Cb == c.nstore && !w.crash.After {
			w.Fired["crash"]++
			simrt.S().Crash()
		}
		id := w.opID(c)
		if w.stall != nil {
			if f := w.stall[id]; f != nil && c.nstore == 1 && c.op.SC == 0 {
				w.Fired["stall"]++
				f()
			}
		}
		var ns int64
		if w.rng == nil {
			ns = w.lats[fkey{id, k, nth}]
		} else if w.cfg.PLat > 0 && id >= 0 && w.rng.Bool(w.cfg.PLat) {
			ns = int64(w.rng.LogUniform(int(w.cfg.MaxLat)))
		}
		if ns > 0 {
			w.RecLats = append(w.RecLats, Lat{id, cbNames[k], nth, ns})
			w.Fired["latency"]++
			simrt.Sleep(time.Duration(ns))
		}
	}
	return c, nth
}

func (w *World) leave(c *OpCtx) {
	if w.crash != nil && c != nil && c.op != nil && c.op.ID == w.crash.Op && w.crash.Cb == c.nstore && w.crash.After {
		w.Fired["crash"]++
		simrt.S().Crash()
	}
	simrt.Event()
}

func violate(class, f string, a ...interface{}) { simrt.S().Violate(class, f, a...) }

// soft reports a deviation that leaves the simulation able to continue. When
// it does not refute the property being checked it is counted, and the run
// goes on so that its consequences for that property can surface.
func (w *World) soft(class, f string, a ...interface{}) {
	if accepts(w.cs.Prop, class) {
		violate(class, f, a...)
	}
	w.Soft[class]++
}

func (cb *TreeCB) GetNode(num, off, length uint64) ([]byte, error) {
	w := cb.w
	c, nth := w.enter(cbGet)
	st := w.live[[2]uint64{num, off}]
	l := Loc{num, off, length}
	if st == nil || st.Gone {
		w.soft("badread", "tree %d reads location %v, which it has discarded or never written", cb.tree, l)
		w.leave(c)
		return nil, errors.New("no such object")
	}
	if st.Tree != cb.tree {
		w.soft("badread", "tree %d reads location %v, which belongs to tree %d", cb.tree, l, st.Tree)
	}
	if st.Loc.Len != length {
		w.soft("badread", "tree %d reads location %v with the wrong length (stored: %d)", cb.tree, l, st.Loc.Len)
	}
	if c != nil {
		c.gets++
		if w.cs.Prop == "C18" || w.cs.Prop == "C19" {
			c.getGens = append(c.getGens, st.Gen)
		}
	}
	f, n := w.fault(c, cbGet, nth, len(st.Data))
	simrt.S().Mark("get", uint64(cb.tree), uint64(st.Gen), uint64(len(f)))
	w.background(cb.tree, "reads")
	data := st.Data
	if !w.cfg.Retain {
		data = append([]byte(nil), data...)
		w.rel.img(data)
	}
	if length < uint64(len(data)) {
		data = data[:length]
		if n > len(data) {
			n = len(data)
		}
	}
	w.leave(c)
	switch f {
	case "err":
		return nil, errInjected
	case "short":
		return data[:n], nil
	}
	return data, nil
}

func (cb *TreeCB) PutNode(b []byte) (uint64, uint64, error) {
	w := cb.w
	c, nth := w.enter(cbPut)
	img := w.checkImage(cb.tree, b)
	if !w.cfg.Retain {
		w.rel.img(b)
	}
	w.background(cb.tree, "writes")
	f, _ := w.fault(c, cbPut, nth, 0)
	if f == "err" {
		simrt.S().Mark("put!", uint64(cb.tree), uint64(len(b)), 0)
		w.leave(c)
		return 0, 0, errInjected
	}
	st := w.store(cb.tree, b, img.Items, img.Leaf)
	if c != nil {
		c.puts++
		c.putGens = append(c.putGens, st.Gen)
	}
	simrt.S().Mark("put", uint64(cb.tree), uint64(st.Gen), uint64(len(b)))
	if f == "lost" {
		st.Orphan = true
		w.leave(c)
		return 0, 0, errInjected
	}
	w.leave(c)
	return st.Loc.Num, st.Loc.Off, nil
}

// background judges storage traffic that no call asked for.
func (w *World) background(tree int, what string) {
	if t := simrt.Cur(); t != nil && t.Background() && w.inCall[tree&63] == 0 {
		w.soft("io", "tree %d: background work %s a node while no call on the tree is in progress", tree, what)
	}
}

// checkImage judges a node image against the documented layout.
func (w *World) checkImage(tree int, b []byte) *NodeImg {
	n, err := w.codec.Decode(b)
	if err != nil {
		violate("format", "tree %d writes a node image that does not decode: %v", tree, err)
	}
	if !bytes.Equal(w.codec.Encode(n), b) {
		w.soft("format", "tree %d writes a node image that differs from the documented encoding of its contents", tree)
	}
	nk := uint64(len(n.Keys))
	max := uint64(w.cfg.MaxKeys[tree])
	if n.Root && n.MaxKeys != max {
		w.soft("format", "tree %d writes a root recording capacity %d, configured %d", tree, n.MaxKeys, max)
	}
	for i := 1; i < len(n.Keys); i++ {
		if n.Keys[i-1] >= n.Keys[i] {
			w.soft("contents", "tree %d writes a node with keys out of order", tree)
		}
	}
	if n.Leaf {
		if n.Items != nk {
			w.soft("format", "tree %d writes a leaf recording %d items but holding %d", tree, n.Items, nk)
		}
	} else {
		var sum uint64
		for _, r := range n.Kids {
			st := w.get(r.Loc)
			if st == nil || st.Orphan || st.Tree != tree || st.Loc.Len != r.Len {
				w.soft("dangling", "tree %d writes a node referencing %v, which is not one of its stored nodes", tree, r.Loc)
			}
			if st != nil && st.Items != r.Items {
				w.soft("format", "tree %d writes a node recording %d items for child %v, which holds %d", tree, r.Items, r.Loc, st.Items)
			}
			sum += r.Items
		}
		if len(n.Kids) == 0 || n.Items != sum {
			w.soft("format", "tree %d writes a non-leaf recording %d items; its %d children hold %d", tree, n.Items, len(n.Kids), sum)
		}
	}
	if nk > max || (!n.Root && nk < max/2) || (n.Root && !n.Leaf && nk == 0) {
		w.soft("shape", "tree %d writes a node (root=%v leaf=%v) with %d keys; capacity %d", tree, n.Root, n.Leaf, nk, max)
	}
	return n
}

func (cb *TreeCB) DiscardNode(num, off, length uint64) error {
	w := cb.w
	c, nth := w.enter(cbDiscard)
	l := Loc{num, off, length}
	st := w.live[[2]uint64{num, off}]
	if st == nil || st.Orphan {
		w.soft("discard", "tree %d discards location %v, which holds no node of its own (never written, or already discarded)", cb.tree, l)
		w.leave(c)
		return nil
	}
	if st.Tree != cb.tree {
		w.soft("discard", "tree %d discards location %v, which belongs to tree %d", cb.tree, l, st.Tree)
	}
	if st.Loc.Len != length {
		w.soft("discard", "tree %d discards location %v with the wrong length (stored: %d)", cb.tree, l, st.Loc.Len)
	}
	if c == nil || c.op == nil || (c.op.K != "prune" && c.op.K != "discard") {
		k := "background eviction"
		if c != nil && c.op != nil {
			k = c.op.K
		}
		w.soft("discard", "tree %d discards location %v outside prune and discard (during %s)", cb.tree, l, k)
	}
	f, _ := w.fault(c, cbDiscard, nth, 0)
	simrt.S().Mark("discard", uint64(cb.tree), uint64(st.Gen), uint64(len(f)))
	if c != nil {
		c.discards++
	}
	switch f {
	case "err":
		w.leave(c)
		return errInjected
	case "lost":
		st.Gone = true
		w.leave(c)
		return errInjected
	}
	w.remove(st)
	w.leave(c)
	return nil
}

// compare is the comparator a tree is given.
func (w *World) compare(a, b sortedmap.Key) (int, error) {
	if w.stall != nil {
		if c := ctxOf(); c != nil && c.op != nil {
			if c.ncmp++; c.op.SC == -c.ncmp {
				if f := w.stall[c.op.ID]; f != nil {
					w.Fired["stall-compare"]++
					f()
				}
			}
		}
	}
	return w.kk.Compare(a, b)
}

// stormy tells whether this callback is the one that fails.
func (w *World) stormy(k cbKind) bool {
	st := w.storm
	if st == nil || st.k != k {
		return false
	}
	if st.n++; st.n%st.every != 0 {
		return false
	}
	w.Fired["storm-"+cbNames[k]]++
	return true
}

func (cb *TreeCB) light(k cbKind) error {
	w := cb.w
	w.Calls[k]++
	if w.stormy(k) {
		return errInjected
	}
	c := ctxOf()
	if c == nil {
		return nil
	}
	nth := c.nth[k]
	c.nth[k]++
	if c.nlight++; w.stall != nil && c.op != nil && c.op.SC == c.nlight {
		if f := w.stall[c.op.ID]; f != nil {
			w.Fired["stall-"+cbNames[k]]++
			f()
		}
	}
	if f, _ := w.fault(c, k, nth, 0); f != "" {
		return errInjected
	}
	return nil
}

func (cb *TreeCB) PackKey(key sortedmap.Key) ([]byte, error) {
	if err := cb.light(cbPackK); err != nil {
		return nil, err
	}
	p, err := cb.w.kk.pack(key)
	if err == nil {
		p = cb.w.lend("k", p)
	}
	return p, err
}
func (cb *TreeCB) UnpackKey(p []byte) (sortedmap.Key, uint64, error) {
	if err := cb.light(cbUnpackK); err != nil {
		return nil, 0, err
	}
	return cb.w.kk.unpack(p)
}
func (cb *TreeCB) PackValue(v sortedmap.Value) ([]byte, error) {
	if err := cb.light(cbPackV); err != nil {
		return nil, err
	}
	p, err := cb.w.vk.pack(v)
	if err == nil {
		p = cb.w.lend("v", p)
	}
	return p, err
}
func (cb *TreeCB) UnpackValue(p []byte) (sortedmap.Value, uint64, error) {
	if err := cb.light(cbUnpackV); err != nil {
		return nil, 0, err
	}
	return cb.w.vk.unpack(p)
}
func (cb *TreeCB) DumpKey(key sortedmap.Key) (string, error) {
	if err := cb.light(cbDumpK); err != nil {
		return "", err
	}
	if c := ctxOf(); c != nil {
		i, ok := cb.w.kk.Num(key)
		if !ok {
			cb.w.soft("dump", "tree %d: %s has a key rendered that nobody stored: %v", cb.tree, c.op.K, key)
		}
		c.dumpK = append(c.dumpK, i)
	}
	return fmt.Sprint(key), nil
}
func (cb *TreeCB) DumpValue(v sortedmap.Value) (string, error) {
	if err := cb.light(cbDumpV); err != nil {
		return "", err
	}
	if c := ctxOf(); c != nil {
		i, ok := cb.w.vk.Num(v)
		if !ok {
			cb.w.soft("dump", "tree %d: %s has a value rendered that nobody stored: %v", cb.tree, c.op.K, v)
		}
		c.dumpV = append(c.dumpV, i)
	}
	return fmt.Sprint(v), nil
}
