// Package simsync replaces package sync in the instrumented build: same API,
// but who acquires a lock, and when, is decided by simrt.
package simsync

import (
	"verif/sim/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type waitList []*simrt.Task

func (w *waitList) add() { *w = append(*w, simrt.Cur()) }
func (w *waitList) wake() {
	l := *w
	*w = nil
	for _, t := range l {
		simrt.Wake(t)
	}
}

// Mutex mirrors sync.Mutex.
type Mutex struct {
	locked bool
	w      waitList
	vc     simrt.VC
}

func (m *Mutex) Lock() {
	if !simrt.Active() {
		if m.locked {
			panic("simsync: Lock of locked mutex outside simulation")
		}
		m.locked = true
		return
	}
	if simrt.Stopping() {
		m.locked = true
		return
	}
	simrt.Event()
	for m.locked {
		m.w.add()
		simrt.Block("mutex")
	}
	m.locked = true
	simrt.Acquire(&m.vc)
}

func (m *Mutex) TryLock() bool {
	simrt.Event()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.Acquire(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Stopping() {
		m.locked = false
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.Release(&m.vc)
	m.w.wake()
	simrt.Event()
}

// RWMutex mirrors sync.RWMutex (writers are not starved: a waiting writer
// blocks new readers, as in the real one).
type RWMutex struct {
	w       Mutex
	readers int
	writing bool
	pending int
	wl      waitList
	vw, vr  simrt.VC // released by writers and by readers
}

func (m *RWMutex) Lock() {
	if simrt.Stopping() {
		return
	}
	if !simrt.Active() {
		m.writing = true
		return
	}
	simrt.Event()
	m.pending++
	for m.writing || m.readers > 0 {
		m.wl.add()
		simrt.Block("rwmutex")
	}
	m.pending--
	m.writing = true
	simrt.Acquire(&m.vw)
	simrt.Acquire(&m.vr)
}

func (m *RWMutex) TryLock() bool {
	simrt.Event()
	if m.writing || m.readers > 0 {
		return false
	}
	m.writing = true
	simrt.Acquire(&m.vw)
	simrt.Acquire(&m.vr)
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Stopping() {
		m.writing = false
		return
	}
	if !m.writing {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writing = false
	simrt.Release(&m.vw)
	m.wl.wake()
	simrt.Event()
}

func (m *RWMutex) RLock() {
	if simrt.Stopping() {
		return
	}
	if !simrt.Active() {
		m.readers++
		return
	}
	simrt.Event()
	for m.writing || m.pending > 0 {
		m.wl.add()
		simrt.Block("rwmutex(r)")
	}
	m.readers++
	simrt.Acquire(&m.vw)
}

func (m *RWMutex) TryRLock() bool {
	simrt.Event()
	if m.writing || m.pending > 0 {
		return false
	}
	m.readers++
	simrt.Acquire(&m.vw)
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Stopping() {
		m.readers = 0
		return
	}
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	simrt.Release(&m.vr)
	m.wl.wake()
	simrt.Event()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once mirrors sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct {
	n  int
	w  waitList
	vc simrt.VC
}

func (g *WaitGroup) Add(d int) {
	g.n += d
	if d < 0 {
		simrt.Release(&g.vc)
	}
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.wake()
	}
	simrt.Event()
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	simrt.Unwind()
	simrt.Event()
	for g.n > 0 {
		g.w.add()
		simrt.BlockIdle("waitgroup")
	}
	simrt.Acquire(&g.vc)
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() { defer g.Done(); f() })
}

// Cond mirrors sync.Cond.
type Cond struct {
	L  Locker
	w  waitList
	vc simrt.VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	simrt.Unwind()
	c.w.add()
	c.L.Unlock()
	me := simrt.Cur()
	for {
		still := false
		for _, t := range c.w {
			if t == me {
				still = true
			}
		}
		if !still {
			break
		}
		simrt.BlockIdle("cond")
	}
	simrt.Acquire(&c.vc)
	c.L.Lock()
}
func (c *Cond) Signal() {
	simrt.Release(&c.vc)
	if len(c.w) > 0 {
		t := c.w[0]
		c.w = c.w[1:]
		simrt.Wake(t)
	}
	simrt.Event()
}
func (c *Cond) Broadcast() { simrt.Release(&c.vc); c.w.wake(); simrt.Event() }

// Pool mirrors sync.Pool (a plain stack, so reuse is deterministic).
type Pool struct {
	New   func() any
	items []any
	vc    simrt.VC
}

func (p *Pool) Get() any {
	simrt.Event()
	if n := len(p.items); n > 0 {
		simrt.Acquire(&p.vc)
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	simrt.Release(&p.vc)
	if len(p.items) == 0 {
		pools = append(pools, p)
	}
	p.items = append(p.items, v)
	simrt.Event()
}

var pools []*Pool // those that may hold something

// DropPools empties every pool, as garbage collections do.
func DropPools() {
	for _, p := range pools {
		p.items = nil
	}
	pools = nil
}

// ResetPools forgets the pools of earlier runs.
func ResetPools() { pools = nil }

// Map mirrors sync.Map with insertion-ordered iteration.
type Map struct {
	m     map[any]any
	order []any
	vc    simrt.VC
}

func (m *Map) Load(k any) (any, bool) {
	simrt.Event()
	simrt.Sync(&m.vc)
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) {
	simrt.Event()
	simrt.Sync(&m.vc)
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.order = append(m.order, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if a, ok := m.Load(k); ok {
		return a, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	v, ok := m.Load(k)
	m.del(k)
	return v, ok
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, o := range m.order {
		if o == k {
			m.order = append(m.order[:i:i], m.order[i+1:]...)
			break
		}
	}
}
func (m *Map) Delete(k any) { simrt.Event(); simrt.Sync(&m.vc); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	p, ok := m.Load(k)
	m.Store(k, v)
	return p, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if v, ok := m.Load(k); ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	if v, ok := m.Load(k); ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { simrt.Event(); simrt.Sync(&m.vc); m.m = nil; m.order = nil }
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Sync(&m.vc)
	for _, k := range append([]any(nil), m.order...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
