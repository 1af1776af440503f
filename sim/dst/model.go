package main

import "sort"

// Model is the ideal sorted map: a sorted slice of (key number, value number).
type Model struct{ kv []KV }

func (m *Model) Len() int { return len(m.kv) }
func (m *Model) find(k int) (int, bool) {
	i := sort.Search(len(m.kv), func(i int) bool { return m.kv[i].K >= k })
	return i, i < len(m.kv) && m.kv[i].K == k
}
func (m *Model) Put(k, v int) bool {
	i, ok := m.find(k)
	if ok {
		return false
	}
	m.kv = append(m.kv, KV{})
	copy(m.kv[i+1:], m.kv[i:])
	m.kv[i] = KV{k, v}
	return true
}
func (m *Model) DelIdx(i int) bool {
	if i < 0 || i >= len(m.kv) {
		return false
	}
	m.kv = append(m.kv[:i], m.kv[i+1:]...)
	return true
}
func (m *Model) DelKey(k int) bool {
	i, ok := m.find(k)
	if ok {
		m.DelIdx(i)
	}
	return ok
}
func (m *Model) PatchIdx(i, v int) bool {
	if i < 0 || i >= len(m.kv) {
		return false
	}
	m.kv[i].V = v
	return true
}
func (m *Model) PatchKey(k, v int) bool {
	i, ok := m.find(k)
	if ok {
		m.kv[i].V = v
	}
	return ok
}

// BisectLeft: index of the key, or of the item just before it.
func (m *Model) BisectLeft(k int) (int, bool) {
	i, ok := m.find(k)
	if ok {
		return i, true
	}
	return i - 1, false
}

// BisectRight: index of the key, or of the item just after it.
func (m *Model) BisectRight(k int) (int, bool) { return m.find(k) }

func (m *Model) Clone() *Model { return &Model{append([]KV(nil), m.kv...)} }

func kvEqual(a, b []KV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func kvHash(a []KV) uint64 {
	h := uint64(1469598103934665603)
	for _, e := range a {
		h = (h ^ uint64(e.K)) * 1099511628211
		h = (h ^ uint64(e.V)) * 1099511628211
		h ^= h >> 31
	}
	return h
}
