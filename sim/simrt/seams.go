package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"time"
)

// MapEntry is one entry of a map iterated by instrumented code.
type MapEntry[K comparable, V any] struct {
	m map[K]V
	K K
}

func (e MapEntry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }
func (e MapEntry[K, V]) V() V       { return e.m[e.K] }

// MapEntries replaces Go's random map iteration order with one that is a
// function of the map's contents and of the run (order seed), so that replay is
// exact while search still sees different orders.
func MapEntries[K comparable, V any](m map[K]V) []MapEntry[K, V] {
	out := make([]MapEntry[K, V], 0, len(m))
	for k := range m {
		out = append(out, MapEntry[K, V]{m, k})
	}
	less := keyLess(reflect.TypeOf((*K)(nil)).Elem())
	sort.Slice(out, func(i, j int) bool { return less(reflect.ValueOf(out[i].K), reflect.ValueOf(out[j].K)) })
	if sim != nil && MapOrderSeed != 0 {
		r := NewRNG(MapOrderSeed ^ uint64(len(out)))
		for i := len(out) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// MapOrderSeed selects the iteration order used by MapEntries (0: sorted).
var MapOrderSeed uint64

func keyLess(t reflect.Type) func(a, b reflect.Value) bool {
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return func(a, b reflect.Value) bool { return a.Int() < b.Int() }
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return func(a, b reflect.Value) bool { return a.Uint() < b.Uint() }
	case reflect.String:
		return func(a, b reflect.Value) bool { return a.String() < b.String() }
	case reflect.Struct:
		n := t.NumField()
		fl := make([]func(a, b reflect.Value) bool, n)
		for i := 0; i < n; i++ {
			fl[i] = keyLess(t.Field(i).Type)
		}
		return func(a, b reflect.Value) bool {
			for i := 0; i < n; i++ {
				if fl[i](a.Field(i), b.Field(i)) {
					return true
				}
				if fl[i](b.Field(i), a.Field(i)) {
					return false
				}
			}
			return false
		}
	default:
		// pointers and the like have no order that survives a restart
		return func(a, b reflect.Value) bool { return false }
	}
}

var onStart []func()

// OnStart registers what a simulated process does before anything else.
func OnStart(f func()) { onStart = append(onStart, f) }

// Start begins a simulated process: package variables get their initial values.
func Start() {
	for _, f := range onStart {
		f()
	}
}

// SleepFor replaces time.Sleep.
func SleepFor(d time.Duration) { Sleep(d) }

var epoch = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)

// TimeNow replaces time.Now.
func TimeNow() time.Time {
	if sim == nil {
		return epoch
	}
	return epoch.Add(time.Duration(sim.now))
}

// TimeSince replaces time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// Gosched replaces runtime.Gosched.
func Gosched() { Event() }

var _ = fmt.Sprint
