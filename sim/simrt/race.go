package simrt

import (
	"reflect"
	"strings"
	"unsafe"
)

// Happens-before bookkeeping. In a build instrumented with -race every access
// of the code under test to memory that may be shared (fields behind a
// pointer, elements, package variables, captured variables) is reported here,
// and every operation of the simulated sync package, channels, atomics and
// spawns orders what came before it in one task before what follows in
// another, as the Go memory model does. Two accesses to one location, at least
// one of them a write, by different tasks and not so ordered are a data race:
// nothing but the schedule kept them apart.

// Races turns the bookkeeping on for simulations created afterwards.
var Races bool

// RaceBuilt is set by sources instrumented with -race.
var RaceBuilt bool

// VC is a vector clock, by task number.
type VC []uint32

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

type access struct {
	t    *Task
	c    uint32
	site string
}

type shadow struct {
	w access
	r []access // reads not ordered before one another
	a []access // atomic operations, likewise
	l []access // atomic loads
}

type raceState struct {
	mem    map[unsafe.Pointer]*shadow // its keys keep the memory from being reused
	maps   map[unsafe.Pointer]*shadow
	atomic VC
	// Accesses counts what was looked at.
	n int64
}

func (s *Sim) newRace() {
	if Races {
		s.race = &raceState{mem: map[unsafe.Pointer]*shadow{}, maps: map[unsafe.Pointer]*shadow{}}
	}
}

// RaceAccesses is how many accesses were judged, RaceSpots at how many places.
func (s *Sim) RaceAccesses() (n, spots int64) {
	if s.race == nil {
		return 0, 0
	}
	return s.race.n, int64(len(s.race.mem) + len(s.race.maps))
}

func (t *Task) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

// Acquire orders what was released to v before what the running task does next.
func Acquire(v *VC) {
	if t := cur; t != nil && sim.race != nil {
		t.vc.join(*v)
	}
}

// Release orders what the running task did before what acquires v later.
func Release(v *VC) {
	if t := cur; t != nil && sim.race != nil {
		v.join(t.vc)
		t.tick()
	}
}

// Sync does both.
func Sync(v *VC) { Acquire(v); Release(v) }

func (a *access) before(t *Task) bool {
	return a.t == nil || a.t == t || a.t.id < len(t.vc) && t.vc[a.t.id] >= a.c
}

func racing() *Task {
	if t := cur; t != nil && sim.race != nil && !sim.stopping {
		return t
	}
	return nil
}

func (s *Sim) at(m map[unsafe.Pointer]*shadow, p unsafe.Pointer) *shadow {
	s.race.n++
	h := m[p]
	if h == nil {
		h = &shadow{}
		m[p] = h
	}
	return h
}

func who(t *Task) string {
	if t.bg {
		return "a background task"
	}
	return "a caller"
}

func (s *Sim) raced(t *Task, how string, site string, o *access, ohow string) {
	s.Note("race %s %s", site, o.site)
	s.Violate("race", "%s by %s at %s and an earlier %s by %s at %s are ordered by nothing but chance", how, who(t), site, ohow, who(o.t), o.site)
}

func (s *Sim) read(t *Task, h *shadow, site string) {
	if !h.w.before(t) {
		s.raced(t, "a read", site, &h.w, "write")
	}
	for i := range h.a {
		if !h.a[i].before(t) {
			s.raced(t, "a read", site, &h.a[i], "atomic update")
		}
	}
	for i := range h.r {
		if h.r[i].before(t) {
			h.r[i] = access{t, t.vc[t.id], site}
			return
		}
	}
	h.r = append(h.r, access{t, t.vc[t.id], site})
}

func (s *Sim) write(t *Task, h *shadow, site string) {
	if !h.w.before(t) {
		s.raced(t, "a write", site, &h.w, "write")
	}
	for i := range h.r {
		if !h.r[i].before(t) {
			s.raced(t, "a write", site, &h.r[i], "read")
		}
	}
	for i := range h.a {
		if !h.a[i].before(t) {
			s.raced(t, "a write", site, &h.a[i], "atomic update")
		}
	}
	for i := range h.l {
		if !h.l[i].before(t) {
			s.raced(t, "a write", site, &h.l[i], "atomic load")
		}
	}
	h.r, h.a, h.l = h.r[:0], h.a[:0], h.l[:0]
	h.w = access{t, t.vc[t.id], site}
}

// Rd reports a read of *p.
func Rd[T any](p *T, site string) *T {
	if t := racing(); t != nil && p != nil {
		sim.read(t, sim.at(sim.race.mem, unsafe.Pointer(p)), site)
	}
	return p
}

// Wr reports a write of *p.
func Wr[T any](p *T, site string) *T {
	if t := racing(); t != nil && p != nil {
		sim.write(t, sim.at(sim.race.mem, unsafe.Pointer(p)), site)
	}
	return p
}

func mapAt[M any](m M) unsafe.Pointer { return reflect.ValueOf(m).UnsafePointer() }

// RdM reports that an element or the length of a map is read.
func RdM[M any](m M, site string) M {
	if t := racing(); t != nil {
		if p := mapAt(m); p != nil {
			sim.read(t, sim.at(sim.race.maps, p), site)
		}
	}
	return m
}

// WrM reports that a map is changed.
func WrM[M any](m M, site string) M {
	if t := racing(); t != nil {
		if p := mapAt(m); p != nil {
			sim.write(t, sim.at(sim.race.maps, p), site)
		}
	}
	return m
}

// Ap stands before an atomic operation on a variable of an atomic type.
func Ap[T any](p T) T {
	if cur != nil && sim.race != nil {
		Sync(&sim.race.atomic)
	}
	return p
}

func put(l []access, n access) []access {
	for i := range l {
		if l[i].t == n.t {
			l[i] = n
			return l
		}
	}
	return append(l, n)
}

// ApR stands before an atomic load of *p.
func ApR[T any](p *T, site string) *T {
	if t := racing(); t != nil && p != nil {
		Acquire(&sim.race.atomic)
		h := sim.at(sim.race.mem, unsafe.Pointer(p))
		if !h.w.before(t) {
			sim.raced(t, "an atomic load", site, &h.w, "write")
		}
		h.l = put(h.l, access{t, t.vc[t.id], site})
		Release(&sim.race.atomic)
	}
	return p
}

// ApW stands before any other atomic operation on *p.
func ApW[T any](p *T, site string) *T {
	if t := racing(); t != nil && p != nil {
		Acquire(&sim.race.atomic)
		h := sim.at(sim.race.mem, unsafe.Pointer(p))
		if !h.w.before(t) {
			sim.raced(t, "an atomic update", site, &h.w, "write")
		}
		for i := range h.r {
			if !h.r[i].before(t) {
				sim.raced(t, "an atomic update", site, &h.r[i], "read")
			}
		}
		h.a = put(h.a, access{t, t.vc[t.id], site})
		Release(&sim.race.atomic)
	}
	return p
}

// leaves are the offsets of a type's fields and elements (of the first 64).
func leaves(t reflect.Type, at uintptr, l []uintptr) []uintptr {
	if t.Size() == 0 {
		return l
	}
	switch t.Kind() {
	case reflect.Struct:
		if p := t.PkgPath(); p == "sync" || p == "sync/atomic" || strings.HasSuffix(p, "/simsync") {
			return l
		}
		for i := range t.NumField() {
			if f := t.Field(i); f.Name != "_" {
				l = leaves(f.Type, at+f.Offset, l)
			}
		}
	case reflect.Array:
		for i := range min(t.Len(), 64) {
			l = leaves(t.Elem(), at+uintptr(i)*t.Elem().Size(), l)
		}
	default:
		l = append(l, at)
	}
	return l
}

// RdS reports a read of the whole of *p.
func RdS[T any](p *T, site string) *T {
	if t := racing(); t != nil && p != nil {
		for _, o := range leaves(reflect.TypeFor[T](), 0, nil) {
			sim.read(t, sim.at(sim.race.mem, unsafe.Add(unsafe.Pointer(p), o)), site)
		}
	}
	return p
}

// WrS reports a write of the whole of *p.
func WrS[T any](p *T, site string) *T {
	if t := racing(); t != nil && p != nil {
		for _, o := range leaves(reflect.TypeFor[T](), 0, nil) {
			sim.write(t, sim.at(sim.race.mem, unsafe.Add(unsafe.Pointer(p), o)), site)
		}
	}
	return p
}

func ends[S ~[]E, E any](l S, f func(p *E)) {
	if len(l) > 0 && unsafe.Sizeof(l[0]) > 0 {
		f(&l[0])
		if len(l) > 1 {
			f(&l[len(l)-1])
		}
	}
}

// RdE reports that the elements of a slice are read (its first and its last stand for all).
func RdE[S ~[]E, E any](l S, site string) S {
	if racing() != nil {
		ends(l, func(p *E) { RdS(p, site) })
	}
	return l
}

// WrE reports that the elements of a slice are written.
func WrE[S ~[]E, E any](l S, site string) S {
	if racing() != nil {
		ends(l, func(p *E) { WrS(p, site) })
	}
	return l
}

// WrA reports that a slice is appended to.
func WrA[S ~[]E, E any](l S, site string) S {
	if racing() != nil {
		if cap(l) > len(l) {
			ends(l[:len(l)+1][len(l):], func(p *E) { WrS(p, site) })
		} else {
			ends(l, func(p *E) { RdS(p, site) })
		}
	}
	return l
}
