package simrt

import (
	"fmt"
	"runtime"
	"time"
)

// Simulated channels and timers: same meaning as Go's, but who blocks, who is
// woken and which ready case a select takes is decided by the simulation.

type chanCore struct {
	cap          int
	buf          []any
	closed       bool
	recvq, sendq []*chWaiter
	vc           VC
}

type chWaiter struct {
	t   *Task
	sel *chSel
	idx int
	val any
}

// chSel is one blocked channel operation or select statement.
type chSel struct {
	done bool
	idx  int
	val  any
	ok   bool
}

// Chan replaces chan T (a nil *Chan is a nil channel).
type Chan[T any] struct{ c chanCore }

func core[T any](c *Chan[T]) *chanCore {
	if c == nil {
		return nil
	}
	return &c.c
}

// MakeCh replaces make(chan E, n).
func MakeCh[P interface{ ~*Chan[E] }, E any](n ...int) P {
	c := &Chan[E]{}
	if len(n) > 0 {
		if n[0] < 0 {
			panic("makechan: size out of range")
		}
		c.c.cap = n[0]
	}
	return P(c)
}

// ChLen replaces len(ch).
func ChLen[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return len(c.c.buf)
}

// ChCap replaces cap(ch).
func ChCap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

func pop(q *[]*chWaiter) *chWaiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func waiting(q []*chWaiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func (w *chWaiter) finish(v any, ok bool) {
	w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, ok
	Wake(w.t)
}

func (c *chanCore) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || waiting(c.recvq))
}

func (c *chanCore) canRecv() bool {
	return c != nil && (c.closed || len(c.buf) > 0 || waiting(c.sendq))
}

// send completes a send that canSend allows.
func (c *chanCore) send(v any) {
	if c.closed {
		panic("send on closed channel")
	}
	if w := pop(&c.recvq); w != nil {
		w.finish(v, true)
		return
	}
	c.buf = append(c.buf, v)
}

// recv completes a receive that canRecv allows.
func (c *chanCore) recv() (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if w := pop(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.finish(nil, true)
		}
		return v, true
	}
	if w := pop(&c.sendq); w != nil {
		v := w.val
		w.finish(nil, true)
		return v, true
	}
	return nil, false
}

// SelCase is one case of a select.
type SelCase struct {
	c    *chanCore
	send bool
	val  any
}

func RecvCase[T any](c *Chan[T]) SelCase { return SelCase{c: core(c)} }
func SendCase[T any](c *Chan[T]) func(T) SelCase {
	return func(v T) SelCase { return SelCase{c: core(c), send: true, val: v} }
}

// Select performs a select and returns the index of the case taken (-1: the
// default). The value received is fetched with Got or Got2.
func Select(def bool, cases ...SelCase) int {
	if !Active() {
		panic("simrt: select outside a simulated task")
	}
	s := sim
	if s.stopping {
		runtime.Goexit()
	}
	Event()
	var ready []int
	for i, k := range cases {
		if k.send && k.c.canSend() || !k.send && k.c.canRecv() {
			ready = append(ready, i)
		}
	}
	t := cur
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[int(Mix(s.hash, uint64(s.NEvents))%uint64(len(ready)))]
		}
		k := cases[i]
		Sync(&k.c.vc)
		if k.send {
			k.c.send(k.val)
		} else {
			t.gotV, t.gotOK = k.c.recv()
		}
		return i
	}
	if def {
		return -1
	}
	sel := &chSel{}
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		if k.send {
			Release(&k.c.vc)
		}
		w := &chWaiter{t: t, sel: sel, idx: i, val: k.val}
		if k.send {
			k.c.sendq = append(k.c.sendq, w)
		} else {
			k.c.recvq = append(k.c.recvq, w)
		}
	}
	why := "a select"
	if len(cases) == 1 {
		why = "a channel receive"
		if cases[0].send {
			why = "a channel send"
		}
	}
	for !sel.done {
		BlockIdle(why)
	}
	Acquire(&cases[sel.idx].c.vc)
	if cases[sel.idx].send {
		if !sel.ok {
			panic("send on closed channel")
		}
		return sel.idx
	}
	t.gotV, t.gotOK = sel.val, sel.ok
	return sel.idx
}

// Got2 is the value the last Select of the task received from c.
func Got2[T any](c *Chan[T]) (v T, ok bool) {
	t := cur
	if t.gotV != nil {
		v = t.gotV.(T)
	}
	ok = t.gotOK
	t.gotV = nil
	return
}

func Got[T any](c *Chan[T]) T { v, _ := Got2(c); return v }

// Send replaces ch <- v.
func Send[T any](c *Chan[T]) func(T) {
	return func(v T) {
		if !Active() {
			if !core(c).canSend() {
				panic("simrt: blocking send outside a simulated task")
			}
			c.c.send(v)
			return
		}
		Select(false, SelCase{c: core(c), send: true, val: v})
	}
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](c *Chan[T]) (v T, ok bool) {
	if !Active() {
		if !core(c).canRecv() {
			panic("simrt: blocking receive outside a simulated task")
		}
		x, o := c.c.recv()
		if x != nil {
			v = x.(T)
		}
		return v, o
	}
	Select(false, SelCase{c: core(c)})
	return Got2(c)
}

// Recv replaces <-ch.
func Recv[T any](c *Chan[T]) T { v, _ := Recv2(c); return v }

// Close replaces close(ch).
func Close[T any](c *Chan[T]) {
	if c == nil {
		panic("close of nil channel")
	}
	if c.c.closed {
		panic("close of closed channel")
	}
	c.c.closed = true
	Release(&c.c.vc)
	for w := pop(&c.c.recvq); w != nil; w = pop(&c.c.recvq) {
		w.finish(nil, false)
	}
	for w := pop(&c.c.sendq); w != nil; w = pop(&c.c.sendq) {
		w.finish(nil, false)
	}
	Event()
}

// Forever replaces an empty select.
func Forever() {
	if !Active() {
		panic("simrt: empty select outside a simulated task")
	}
	BlockIdle("an empty select")
}

// timer is one pending expiry.
type timer struct {
	when   int64
	seq    int64
	period int64
	f      func()
	dead   bool
	fired  int
}

func (s *Sim) addTimer(d time.Duration, period int64, f func()) *timer {
	if d < 0 {
		d = 0
	}
	if s == nil { // package initialisation: runs again in every simulated process
		return &timer{dead: true}
	}
	s.timerSeq++
	tm := &timer{when: s.now + int64(d), seq: s.timerSeq, period: period, f: f}
	s.timers = append(s.timers, tm)
	return tm
}

// nextTimer is the pending timer that expires first.
func (s *Sim) nextTimer() *timer {
	var b *timer
	for _, t := range s.timers {
		if b == nil || t.when < b.when || t.when == b.when && t.seq < b.seq {
			b = t
		}
	}
	return b
}

// fireTimers runs every timer that is due.
func (s *Sim) fireTimers() {
	for {
		t := s.nextTimer()
		if t == nil || t.when > s.now {
			return
		}
		t.fired++
		s.timerFires++
		if t.period > 0 {
			t.when += t.period
			if t.when <= s.now {
				t.when = s.now + t.period
			}
		} else {
			t.dead = true
			s.dropTimer(t)
		}
		s.hashInt(uint64(t.seq) + 0x71)
		t.f()
	}
}

func (s *Sim) dropTimer(t *timer) {
	for i, x := range s.timers {
		if x == t {
			s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
			return
		}
	}
}

// Timer replaces time.Timer.
type Timer struct {
	C  *Chan[time.Time]
	t  *timer
	f  func()
	vc *VC
}

func tick(c *Chan[time.Time]) func() {
	return func() {
		if len(c.c.buf) < 1 && !c.c.closed {
			c.c.send(TimeNow())
		}
	}
}

func NewTimer(d time.Duration) *Timer {
	c := &Chan[time.Time]{}
	c.c.cap = 1
	t := &Timer{C: c}
	t.f = tick(c)
	t.t = sim.addTimer(d, 0, t.f)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	s := sim
	var vc VC
	t := &Timer{vc: &vc}
	Release(&vc)
	t.f = func() {
		s.NSpawn++
		s.spawnVC = &vc
		s.spawn(fmt.Sprintf("timer%d", s.NSpawn), true, f)
		s.spawnVC = nil
	}
	t.t = s.addTimer(d, 0, t.f)
	return t
}

func (t *Timer) Stop() bool {
	was := !t.t.dead
	t.t.dead = true
	if sim != nil {
		sim.dropTimer(t.t)
	}
	if t.C != nil {
		t.C.c.buf = nil
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	if t.vc != nil {
		Release(t.vc)
	}
	t.t = sim.addTimer(d, 0, t.f)
	return was
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C *Chan[time.Time]
	t *timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := &Chan[time.Time]{}
	c.c.cap = 1
	return &Ticker{C: c, t: sim.addTimer(d, int64(d), tick(c))}
}

func (t *Ticker) Stop() {
	if sim != nil {
		sim.dropTimer(t.t)
	}
}

func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.t = sim.addTimer(d, int64(d), tick(t.C))
}

func TimeAfter(d time.Duration) *Chan[time.Time] { return NewTimer(d).C }
func TimeTick(d time.Duration) *Chan[time.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
