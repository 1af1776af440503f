package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/NVIDIA/sortedmap"
	"verif/sim/simrt"
)

// Keys and values are numbers 0..n-1 in every script and model; KeyKind maps
// them, in comparator order, to keys of the type under test.
type KeyKind struct {
	Kind    string
	Reverse bool
	keys    []sortedmap.Key // by number
	num     map[interface{}]int
	CmpMag  int
	uses    uint64
	rel     *releases
}

var keyKinds = []string{"int", "intfull", "uint16", "uint32", "uint64", "string", "bytes", "time", "fold"}

func mapKey(k sortedmap.Key) interface{} {
	switch x := k.(type) {
	case []byte:
		return "b" + string(x)
	case string:
		return "s" + x
	case time.Time: // equal instants in different zones are one key
		return [2]int64{x.Unix(), int64(x.Nanosecond())}
	}
	return k
}

// NewKeyKind builds a key space of about n keys.
func NewKeyKind(kind string, n int, seed uint64, reverse bool, mag int) *KeyKind {
	r := simrt.NewRNG(simrt.Mix(seed, 77))
	kk := &KeyKind{Kind: kind, Reverse: reverse, CmpMag: mag, num: map[interface{}]int{}}
	var nums []uint64
	set := map[uint64]bool{}
	add := func(v uint64) {
		if !set[v] {
			set[v] = true
			nums = append(nums, v)
		}
	}
	// near draws a number, often next to one drawn before
	near := func(f func() uint64) uint64 {
		if len(nums) > 0 && r.Bool(0.4) {
			return nums[r.Intn(len(nums))] + uint64(r.Range(1, 3))
		}
		return f()
	}
	var ks []sortedmap.Key
	switch kind {
	case "int":
		base := int64(r.Intn(2000)) - 1000
		for i := 0; i < n; i++ {
			ks = append(ks, int(base+int64(i)))
		}
	case "intfull":
		sp := []uint64{0, 1, math.MaxUint64, 1 << 63, 1<<63 - 1, 1<<63 + 1, 1 << 62, 1<<62 + 1<<61}
		for i := 0; i < len(sp) && i < n; i++ {
			add(sp[i])
		}
		for len(nums) < n {
			add(near(func() uint64 { return r.Uint64() >> uint(r.Intn(3)) }))
		}
		sort.Slice(nums, func(i, j int) bool { return int64(nums[i]) < int64(nums[j]) })
		for _, v := range nums {
			ks = append(ks, int(int64(v)))
		}
	case "uint16":
		if n > 60000 {
			n = 60000
		}
		if n < 2000 {
			add(0)
			add(65535)
		}
		for len(nums) < n {
			add(uint64(r.Intn(65536)))
		}
		sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
		for _, v := range nums {
			ks = append(ks, uint16(v))
		}
	case "uint32":
		add(0)
		add(math.MaxUint32)
		for len(nums) < n {
			add(near(r.Uint64) & math.MaxUint32)
		}
		sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
		for _, v := range nums {
			ks = append(ks, uint32(v))
		}
	case "uint64":
		add(0)
		add(math.MaxUint64)
		add(1 << 63)
		for len(nums) < n {
			add(near(r.Uint64))
		}
		sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
		for _, v := range nums {
			ks = append(ks, v)
		}
	case "string", "bytes", "fold":
		ss := map[string]bool{"": true}
		l := []string{""}
		for len(l) < n {
			m := r.Range(1, 6)
			if kind == "fold" {
				m += r.Intn(4)
			}
			if r.Bool(0.03) {
				m = r.Range(100, 400)
			}
			b := make([]byte, m)
			if r.Bool(0.2) { // much in common with another one
				o := l[r.Intn(len(l))]
				if r.Bool(0.3) {
					o += strings.Repeat("e", r.Range(8, 70))
				}
				if len(o) < 500 {
					b = append([]byte(o), b[:r.Range(1, m)]...)
				}
			}
			for i := max(0, len(b)-m); i < len(b); i++ {
				if r.Bool(0.3) && kind != "fold" {
					b[i] = byte(r.Intn(256))
				} else {
					b[i] = byte('a' + r.Intn(5))
				}
			}
			if !ss[string(b)] {
				ss[string(b)] = true
				l = append(l, string(b))
			}
		}
		sort.Strings(l)
		for _, v := range l {
			if kind == "bytes" {
				ks = append(ks, []byte(v))
			} else {
				ks = append(ks, v)
			}
		}
	case "time": // from the distant past to the distant future, some a nanosecond apart
		var ts []time.Time
		have := map[interface{}]bool{}
		for i := 0; len(ts) < n; i++ {
			var t time.Time
			switch {
			case i == 0: // the zero time
			case i == 1:
				t = time.Unix(0, 0)
			case len(ts) > 0 && r.Bool(0.4):
				t = ts[r.Intn(len(ts))].Add(time.Duration(r.Range(1, 3)) * pick(r, time.Nanosecond, time.Microsecond, time.Millisecond, time.Second))
			case r.Bool(0.2):
				t = time.Unix(int64(r.Uint64())>>uint(r.Range(3, 24)), int64(r.Intn(1e9)))
			default:
				t = time.Unix(0, int64(r.Uint64())>>uint(r.Intn(4)))
			}
			if t = t.UTC(); !have[mapKey(t)] {
				have[mapKey(t)] = true
				ts = append(ts, t)
			}
		}
		sort.Slice(ts, func(i, j int) bool {
			a, b := ts[i].Unix(), ts[j].Unix()
			return a < b || a == b && ts[i].Nanosecond() < ts[j].Nanosecond()
		})
		for _, t := range ts {
			ks = append(ks, t)
		}
	case "box": // keys with an identity
		for i := 0; i < n; i++ {
			ks = append(ks, i)
		}
	default:
		panic("unknown key kind " + kind)
	}
	if reverse {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	kk.keys = ks
	for i, k := range ks {
		kk.num[mapKey(k)] = i
	}
	return kk
}

func (kk *KeyKind) N() int { return len(kk.keys) }

// Key returns the key for a number (wrapping into the key space).
func (kk *KeyKind) Key(i int) sortedmap.Key {
	k := kk.keys[i]
	if kk.Kind == "box" {
		return kk.rel.box(k.(int), true)
	}
	if b, ok := k.([]byte); ok {
		return append([]byte(nil), b...)
	}
	if t, ok := k.(time.Time); ok {
		kk.uses++
		if h := simrt.Mix(kk.uses); h%3 == 0 {
			return t.In(time.FixedZone("z", int(h>>8%(28*3600))-14*3600))
		}
	}
	if kk.Kind == "fold" { // equal keys need not be identical
		b := []byte(k.(string))
		kk.uses++
		h := simrt.Mix(kk.uses)
		for i := range b {
			if h>>uint(i%64)&1 == 1 && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return k
}

// Num is the inverse of Key; ok is false for a foreign key.
func (kk *KeyKind) Num(k sortedmap.Key) (int, bool) {
	if k == nil {
		return -1, false
	}
	if b, ok := k.(*boxed); ok && kk.Kind == "box" {
		k = b.n
	}
	switch k.(type) {
	case int, uint16, uint32, uint64, string, []byte, time.Time:
	default:
		return -1, false
	}
	if s, ok := k.(string); ok && kk.Kind == "fold" {
		k = strings.ToLower(s)
	}
	i, ok := kk.num[mapKey(k)]
	if !ok {
		return -1, false
	}
	return i, ok
}

type badKey struct{}

// Bad returns a key the comparator rejects.
func (kk *KeyKind) Bad() sortedmap.Key { return badKey{} }

// Compare is the comparator given to the code under test: the package's own
// one, possibly reversed and with other magnitudes.
func (kk *KeyKind) Compare(a, b sortedmap.Key) (int, error) {
	if t := simrt.Cur(); t != nil {
		t.Cmp++
	}
	var f sortedmap.Compare
	switch kk.Kind {
	case "int", "intfull":
		f = sortedmap.CompareInt
	case "uint16":
		f = sortedmap.CompareUint16
	case "uint32":
		f = sortedmap.CompareUint32
	case "uint64":
		f = sortedmap.CompareUint64
	case "string":
		f = sortedmap.CompareString
	case "bytes":
		f = sortedmap.CompareByteSlice
	case "time":
		f = sortedmap.CompareTime
	case "fold": // a comparator of the client's own: upper and lower case are equal
		f = func(a, b sortedmap.Key) (int, error) {
			x, ok := a.(string)
			y, ok2 := b.(string)
			if !ok || !ok2 {
				return 0, fmt.Errorf("not a string")
			}
			return strings.Compare(strings.ToLower(x), strings.ToLower(y)), nil
		}
	case "box":
		f = func(a, b sortedmap.Key) (int, error) {
			x, ok := a.(*boxed)
			y, ok2 := b.(*boxed)
			if !ok || !ok2 {
				return 0, fmt.Errorf("not a box")
			}
			return x.n - y.n, nil
		}
	}
	c, err := f(a, b)
	if err != nil {
		return 0, err
	}
	if kk.Reverse {
		if c < 0 {
			c = 1
		} else if c > 0 {
			c = -1
		}
	}
	switch kk.CmpMag {
	case 1:
		if c < 0 {
			return math.MinInt, nil
		}
		if c > 0 {
			return math.MaxInt, nil
		}
	case 2:
		if c < 0 {
			return -7, nil
		}
		if c > 0 {
			return 1 << 40, nil
		}
	}
	return c, nil
}

func (kk *KeyKind) pack(k sortedmap.Key) ([]byte, error) {
	var b [8]byte
	if b, ok := k.(*boxed); ok {
		k = b.n
	}
	switch x := k.(type) {
	case int:
		binary.BigEndian.PutUint64(b[:], uint64(x))
		return append([]byte(nil), b[:]...), nil
	case uint16:
		binary.BigEndian.PutUint16(b[:], x)
		return append([]byte(nil), b[:2]...), nil
	case uint32:
		binary.BigEndian.PutUint32(b[:], x)
		return append([]byte(nil), b[:4]...), nil
	case uint64:
		binary.BigEndian.PutUint64(b[:], x)
		return append([]byte(nil), b[:]...), nil
	case time.Time:
		binary.BigEndian.PutUint64(b[:], uint64(x.Unix()))
		return binary.BigEndian.AppendUint32(append([]byte(nil), b[:]...), uint32(x.Nanosecond())), nil
	case string:
		if kk.Kind == "fold" {
			x = strings.ToLower(x)
		}
		binary.BigEndian.PutUint16(b[:], uint16(len(x)))
		return append(append([]byte(nil), b[:2]...), x...), nil
	case []byte:
		binary.BigEndian.PutUint16(b[:], uint16(len(x)))
		return append(append([]byte(nil), b[:2]...), x...), nil
	}
	return nil, fmt.Errorf("PackKey: unexpected key type %T", k)
}

func (kk *KeyKind) unpack(p []byte) (sortedmap.Key, uint64, error) {
	need := 8
	switch kk.Kind {
	case "uint16", "string", "bytes", "fold":
		need = 2
	case "uint32":
		need = 4
	case "time":
		need = 12
	}
	if len(p) < need {
		return nil, 0, fmt.Errorf("UnpackKey: short data")
	}
	switch kk.Kind {
	case "box":
		return kk.rel.box(int(binary.BigEndian.Uint64(p)), true), 8, nil
	case "int", "intfull":
		return int(binary.BigEndian.Uint64(p)), 8, nil
	case "uint16":
		return binary.BigEndian.Uint16(p), 2, nil
	case "uint32":
		return binary.BigEndian.Uint32(p), 4, nil
	case "uint64":
		return binary.BigEndian.Uint64(p), 8, nil
	case "time":
		return time.Unix(int64(binary.BigEndian.Uint64(p)), int64(binary.BigEndian.Uint32(p[8:]))).UTC(), 12, nil
	}
	n := int(binary.BigEndian.Uint16(p))
	if len(p) < 2+n {
		return nil, 0, fmt.Errorf("UnpackKey: short data")
	}
	if kk.Kind == "bytes" {
		return p[2 : 2+n : 2+n], uint64(2 + n), nil // a client may well not copy
	}
	return string(p[2 : 2+n]), uint64(2 + n), nil
}

// ValKind: "u64", "bytes", "str" (length derived from the number, sometimes long) or
// "none" (values carry no data and pack to zero bytes).
type ValKind struct {
	Kind  string
	alias bool // unpacked values share the library's memory
	rel   *releases
}

func (v ValKind) Val(n int) sortedmap.Value {
	switch v.Kind {
	case "box":
		return v.rel.box(n, false)
	case "u64":
		return uint64(n) * 0x9E3779B97F4A7C15
	case "str", "big":
		return v.str(n)
	case "bytes": // not comparable, and sometimes nil
		if v.Canon(n) == 0 {
			return nil
		}
		return []byte(v.str(n))
	}
	return struct{}{}
}

func (v ValKind) str(n int) string {
	h := simrt.Mix(uint64(n))
	l := int(h % 24)
	if h>>32%61 == 0 {
		l = 300 + int(h%900)
	}
	if v.Kind == "big" && h>>40%3 == 0 {
		l = 2000 + int(h%7000)
		if h>>50%16 == 0 {
			l = 65520 + int(h%5000)
		}
	}
	b := make([]byte, l)
	for i := range b {
		b[i] = byte(h >> uint(8*(i%8)))
	}
	return fmt.Sprintf("%d|", n) + string(b)
}

const valInv = 0xF1DE83E19937733D // inverse of the odd multiplier mod 2^64

// Num maps a value back to its number; values of kind "none" are all 0.
func (v ValKind) Num(x sortedmap.Value) (int, bool) {
	switch v.Kind {
	case "box":
		b, ok := x.(*boxed)
		if !ok || b == nil {
			return -1, false
		}
		return b.n, true
	case "u64":
		u, ok := x.(uint64)
		if !ok {
			return -1, false
		}
		return int(u * valInv), true
	case "str", "big", "bytes":
		s, ok := x.(string)
		if v.Kind == "bytes" {
			if x == nil {
				return 0, true
			}
			var b []byte
			b, ok = x.([]byte)
			s = string(b)
		}
		if !ok {
			return -1, false
		}
		n := 0
		for i := 0; i < len(s); i++ {
			if s[i] == '|' {
				return n, s == v.str(n)
			}
			if s[i] < '0' || s[i] > '9' {
				return -1, false
			}
			n = n*10 + int(s[i]-'0')
		}
		return -1, false
	}
	_, ok := x.(struct{})
	return 0, ok
}

// Canon is the number a value reads back as.
func (v ValKind) Canon(n int) int {
	if v.Kind == "none" || v.Kind == "bytes" && simrt.Mix(uint64(n), 3)%5 == 0 {
		return 0
	}
	return n
}

func (v ValKind) pack(x sortedmap.Value) ([]byte, error) {
	var b [8]byte
	switch y := x.(type) {
	case *boxed:
		binary.LittleEndian.PutUint64(b[:], uint64(y.n))
		return append([]byte(nil), b[:]...), nil
	case uint64:
		binary.LittleEndian.PutUint64(b[:], y)
		return append([]byte(nil), b[:]...), nil
	case string:
		binary.LittleEndian.PutUint32(b[:], uint32(len(y)))
		return append(append([]byte(nil), b[:4]...), y...), nil
	case []byte:
		binary.LittleEndian.PutUint32(b[:], uint32(len(y)))
		return append(append([]byte(nil), b[:4]...), y...), nil
	case nil:
		if v.Kind == "bytes" {
			return []byte{255, 255, 255, 255}, nil
		}
	case struct{}:
		return []byte{}, nil
	}
	return nil, fmt.Errorf("PackValue: unexpected value type %T", x)
}

func (v ValKind) unpack(p []byte) (sortedmap.Value, uint64, error) {
	switch v.Kind {
	case "box":
		if len(p) < 8 {
			return nil, 0, fmt.Errorf("UnpackValue: short data")
		}
		return v.rel.box(int(binary.LittleEndian.Uint64(p)), false), 8, nil
	case "u64":
		if len(p) < 8 {
			return nil, 0, fmt.Errorf("UnpackValue: short data")
		}
		return binary.LittleEndian.Uint64(p), 8, nil
	case "str", "big", "bytes":
		if len(p) < 4 {
			return nil, 0, fmt.Errorf("UnpackValue: short data")
		}
		if v.Kind == "bytes" && binary.LittleEndian.Uint32(p) == 1<<32-1 {
			return nil, 4, nil
		}
		n := int(binary.LittleEndian.Uint32(p))
		if len(p)-4 < n {
			return nil, 0, fmt.Errorf("UnpackValue: short data")
		}
		if v.Kind == "bytes" && v.alias {
			return p[4 : 4+n : 4+n], uint64(4 + n), nil
		}
		if v.Kind == "bytes" {
			return append([]byte{}, p[4:4+n]...), uint64(4 + n), nil
		}
		return string(p[4 : 4+n]), uint64(4 + n), nil
	}
	return struct{}{}, 0, nil
}
