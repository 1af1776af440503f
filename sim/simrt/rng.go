package simrt

import "math"

// RNG is splitmix64: every random choice of a run comes from one of these.
type RNG struct{ x uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }

func (r *RNG) Uint64() uint64 {
	r.x += 0x9E3779B97F4A7C15
	z := r.x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *RNG) Float64() float64    { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *RNG) Bool(p float64) bool { return r.Float64() < p }

// Range returns a value in [a,b].
func (r *RNG) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Geometric returns a positive value with the given mean.
func (r *RNG) Geometric(mean int) int {
	if mean <= 1 {
		return 1
	}
	u := r.Float64()
	return 1 + int(-math.Log(1-u)*float64(mean-1))
}

// LogUniform returns a value in [1,max], uniform in its logarithm.
func (r *RNG) LogUniform(max int) int {
	if max <= 1 {
		return 1
	}
	return int(math.Exp(r.Float64() * math.Log(float64(max)+0.999)))
}

// Split derives an independent generator.
func (r *RNG) Split() *RNG { return NewRNG(r.Uint64()) }

// Mix hashes values to a seed.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x8422_2325_cbf2_9ce4)
	for _, v := range vs {
		r := RNG{h ^ v}
		h = r.Uint64()
	}
	return h
}
