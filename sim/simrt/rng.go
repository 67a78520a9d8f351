// Package simrt is the run time of the simulator: a seeded pseudo-random
// generator, a cooperative scheduler that decides every interleaving, a virtual
// clock, and the event log whose hash identifies an execution.
package simrt

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

// NewRng makes a generator from a seed.
func NewRng(seed uint64) *Rng { return &Rng{seed} }

// Mix derives a seed from several numbers.
func Mix(a ...uint64) uint64 {
	var h uint64 = 0x9e3779b97f4a7c15
	for _, v := range a {
		h ^= v
		h = mix64(h + 0x9e3779b97f4a7c15)
	}
	return h
}

// MixStr derives a seed from a number and a string.
func MixStr(a uint64, s string) uint64 {
	h := a
	for i := 0; i < len(s); i++ {
		h = mix64(h ^ uint64(s[i]) + 0x9e3779b97f4a7c15)
	}
	return h
}

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// U64 returns the next number.
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// F returns a number in [0,1).
func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return p > 0 && r.F() < p }

// Range returns a number in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// Pick returns one of the choices.
func Pick[T any](r *Rng, l ...T) T { return l[r.N(len(l))] }
