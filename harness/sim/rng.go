// Package sim is the shared library of the runtime monitors: seeded random
// choices, the recorder of observations and violations, a fake Elements chain
// that validates what is broadcast, and builders for daemon instances.
package sim

import "math/bits"

// Rng is a splitmix64 generator: every random choice of a run derives from
// VERIF_SEED through it.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [lo, hi].
func (r *Rng) Range(lo, hi uint64) uint64 {
	if hi <= lo {
		return lo
	}
	w := hi - lo + 1
	if w == 0 {
		return r.U64()
	}
	return lo + r.U64()%w
}

func (r *Rng) Bool() bool        { return r.U64()&1 == 1 }
func (r *Rng) Chance(n int) bool { return r.Intn(n) == 0 }
func (r *Rng) Fork() *Rng        { return NewRng(r.U64()) }
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 17)
	}
	return b
}

// Log returns a value whose bit length is uniform in [1, maxBits].
func (r *Rng) Log(maxBits int) uint64 {
	n := 1 + r.Intn(maxBits)
	v := r.U64() >> uint(64-n)
	v |= 1 << uint(n-1)
	_ = bits.Len64(v)
	return v
}

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

const hexdigits = "0123456789abcdef"

func (r *Rng) Hex(nBytes int) string {
	b := make([]byte, 2*nBytes)
	for i := range b {
		b[i] = hexdigits[r.Intn(16)]
	}
	return string(b)
}

func (r *Rng) Str(n int) string {
	const al = "abcdefghijklmnopqrstuvwxyz0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.Intn(len(al))]
	}
	return string(b)
}
