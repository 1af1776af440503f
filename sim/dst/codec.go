package main

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// An encoder and decoder for persisted nodes written from the documented
// layout, sharing nothing with the code under test:
//
//	node    = items:u64 root:u8 leaf:u8 payload
//	payload = [maxKeysPerNode:u64 when root] body
//	leaf    = n:u64 (key value)*n
//	nonleaf = children:u64 ref (key ref)*(children-1)
//	ref     = objectNumber:u64 objectOffset:u64 objectLength:u64 items:u64
type Loc struct{ Num, Off, Len uint64 }

func (l Loc) String() string { return fmt.Sprintf("(%x,%x,%d)", l.Num, l.Off, l.Len) }

type Ref struct {
	Loc
	Items uint64
}

type NodeImg struct {
	Items      uint64
	Root, Leaf bool
	MaxKeys    uint64
	Keys       []int
	Vals       []int
	Kids       []Ref
}

type Codec struct {
	bo binary.ByteOrder
	kk *KeyKind
	vk ValKind
}

var errShort = errors.New("image too short")

func (c *Codec) Decode(b []byte) (*NodeImg, error) {
	n := &NodeImg{}
	pos := 0
	u64 := func() (uint64, error) {
		if len(b)-pos < 8 {
			return 0, errShort
		}
		v := c.bo.Uint64(b[pos:])
		pos += 8
		return v, nil
	}
	boolean := func() (bool, error) {
		if len(b)-pos < 1 {
			return false, errShort
		}
		v := b[pos]
		pos++
		if v > 1 {
			return false, fmt.Errorf("bool encoded as %d", v)
		}
		return v == 1, nil
	}
	var err error
	if n.Items, err = u64(); err != nil {
		return nil, err
	}
	if n.Root, err = boolean(); err != nil {
		return nil, err
	}
	if n.Leaf, err = boolean(); err != nil {
		return nil, err
	}
	if n.Root {
		if n.MaxKeys, err = u64(); err != nil {
			return nil, err
		}
	}
	cnt, err := u64()
	if err != nil {
		return nil, err
	}
	key := func() error {
		k, used, e := c.kk.unpack(b[pos:])
		if e != nil {
			return e
		}
		pos += int(used)
		i, ok := c.kk.Num(k)
		if !ok {
			return fmt.Errorf("unknown key %v", k)
		}
		n.Keys = append(n.Keys, i)
		return nil
	}
	ref := func() error {
		var r Ref
		for _, f := range []*uint64{&r.Num, &r.Off, &r.Len, &r.Items} {
			v, e := u64()
			if e != nil {
				return e
			}
			*f = v
		}
		n.Kids = append(n.Kids, r)
		return nil
	}
	for i := uint64(0); i < cnt; i++ {
		if pos > len(b) || (pos == len(b) && c.vk.Kind != "none") {
			return nil, errShort
		}
		if n.Leaf {
			if err = key(); err != nil {
				return nil, err
			}
			v, used, e := c.vk.unpack(b[pos:])
			if e != nil {
				return nil, e
			}
			pos += int(used)
			i, ok := c.vk.Num(v)
			if !ok {
				return nil, fmt.Errorf("unknown value")
			}
			n.Vals = append(n.Vals, i)
		} else {
			if i > 0 {
				if err = key(); err != nil {
					return nil, err
				}
			}
			if err = ref(); err != nil {
				return nil, err
			}
		}
	}
	if pos != len(b) {
		return nil, fmt.Errorf("%d unexpected bytes at the end", len(b)-pos)
	}
	return n, nil
}

func (c *Codec) Encode(n *NodeImg) []byte {
	var b []byte
	u64 := func(v uint64) {
		var t [8]byte
		c.bo.PutUint64(t[:], v)
		b = append(b, t[:]...)
	}
	boolean := func(v bool) {
		if v {
			b = append(b, 1)
		} else {
			b = append(b, 0)
		}
	}
	key := func(i int) {
		p, err := c.kk.pack(c.kk.Key(i))
		if err != nil {
			panic(err)
		}
		b = append(b, p...)
	}
	u64(n.Items)
	boolean(n.Root)
	boolean(n.Leaf)
	if n.Root {
		u64(n.MaxKeys)
	}
	if n.Leaf {
		u64(uint64(len(n.Keys)))
		for i, k := range n.Keys {
			key(k)
			p, err := c.vk.pack(c.vk.Val(n.Vals[i]))
			if err != nil {
				panic(err)
			}
			b = append(b, p...)
		}
		return b
	}
	u64(uint64(len(n.Kids)))
	for i, r := range n.Kids {
		if i > 0 {
			key(n.Keys[i-1])
		}
		u64(r.Num)
		u64(r.Off)
		u64(r.Len)
		u64(r.Items)
	}
	return b
}

type KV struct{ K, V int }

// Walked is what an independent walk of a stored tree found.
type Walked struct {
	KVs     []KV
	Nodes   []*Stored
	Height  int
	MaxKeys uint64
	Leaves  int
	Objects map[uint64]uint64

	leafEnd    []int // per leaf, the items up to and including it
	lean, full []int // per leaf, how many nodes from it upwards (root excluded / included) are at their minimum / maximum
}

// Problem is a deviation found by an independent look at stored bytes.
type Problem struct{ Class, Msg string }

// Walk decodes the tree at loc using only stored bytes.
func (c *Codec) Walk(loc Loc, get func(Loc) *Stored) (*Walked, *Problem) {
	w := &Walked{Objects: map[uint64]uint64{}}
	var prob *Problem
	bad := func(class, f string, a ...interface{}) {
		if prob == nil {
			prob = &Problem{class, fmt.Sprintf(f, a...)}
		}
	}
	seen := map[*Stored]bool{}
	var rec func(l Loc, depth int, root bool, lo, hi, lean, full int) uint64
	rec = func(l Loc, depth int, root bool, lo, hi, lean, full int) uint64 {
		if prob != nil {
			return 0
		}
		st := get(l)
		if st == nil {
			bad("durable", "node %v referenced by the tree is not stored (depth %d)", l, depth)
			return 0
		}
		if st.Loc.Len != l.Len {
			bad("durable", "node %v referenced with length %d but stored with %d", l, l.Len, st.Loc.Len)
			return 0
		}
		if seen[st] {
			bad("format", "node %v referenced twice", l)
			return 0
		}
		seen[st] = true
		w.Nodes = append(w.Nodes, st)
		w.Objects[l.Num] += l.Len
		n, err := c.Decode(st.Data)
		if err != nil {
			bad("format", "node %v does not decode: %v", l, err)
			return 0
		}
		if n.Root != root {
			bad("format", "node %v at depth %d has root=%v", l, depth, n.Root)
			return 0
		}
		if root {
			w.MaxKeys = n.MaxKeys
		}
		nk := uint64(len(n.Keys))
		if nk > w.MaxKeys {
			bad("shape", "node %v holds %d keys, capacity %d", l, nk, w.MaxKeys)
		}
		if !root && nk < w.MaxKeys/2 {
			bad("shape", "non-root node %v holds %d keys, capacity %d", l, nk, w.MaxKeys)
		}
		if root && !n.Leaf && nk == 0 {
			bad("shape", "non-leaf root %v has a single child", l)
		}
		if lean++; root || nk > w.MaxKeys/2 {
			lean = 0
		}
		if full++; nk < w.MaxKeys {
			full = 0
		}
		prev := lo
		for i, k := range n.Keys {
			if k < lo || k >= hi || (i > 0 && k <= prev) {
				bad("contents", "key %d out of order in stored node %v", k, l)
			}
			prev = k
		}
		if n.Leaf {
			w.Leaves++
			if w.Height == 0 {
				w.Height = depth
			} else if w.Height != depth {
				bad("shape", "leaf %v at depth %d, others at %d", l, depth, w.Height)
			}
			for i, k := range n.Keys {
				w.KVs = append(w.KVs, KV{k, n.Vals[i]})
			}
			w.leafEnd = append(w.leafEnd, len(w.KVs))
			w.lean, w.full = append(w.lean, lean), append(w.full, full)
			if n.Items != nk {
				bad("format", "leaf %v records %d items, holds %d", l, n.Items, nk)
			}
			return nk
		}
		if len(n.Kids) == 0 {
			bad("format", "non-leaf %v without children", l)
			return 0
		}
		var sum uint64
		for i, r := range n.Kids {
			clo, chi := lo, hi
			if i > 0 {
				clo = n.Keys[i-1]
			}
			if i < len(n.Keys) {
				chi = n.Keys[i]
			}
			got := rec(r.Loc, depth+1, false, clo, chi, lean, full)
			if prob != nil {
				return 0
			}
			if got != r.Items {
				bad("format", "node %v records %d items for child %v, which holds %d", l, r.Items, r.Loc, got)
			}
			sum += got
		}
		if n.Items != sum {
			bad("format", "non-leaf %v records %d items, its children hold %d", l, n.Items, sum)
		}
		return sum
	}
	rec(loc, 1, true, -1, 1<<62, 0, 0)
	if prob != nil {
		return w, prob
	}
	return w, nil
}
