// Package gen holds the generators of cases: every random choice is drawn from
// rapid, every drawn value is plain JSON data from which the input is built
// deterministically.
package gen

import (
	"math"

	"pgregory.net/rapid"
)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// U is uniform on [0,1), with simple values (k/16) over-represented; shrinks to them.
func U(t *rapid.T, label string) float64 {
	u := rapid.Uint64().Draw(t, label)
	if u < 16 {
		return float64(u) / 16
	}
	return float64(mix(u)>>11) / (1 << 53)
}

// F is a float on [lo,hi): see U.
func F(t *rapid.T, label string, lo, hi float64) float64 { return lo + (hi-lo)*U(t, label) }

// Log is log-uniform on [lo,hi).
func Log(t *rapid.T, label string, lo, hi float64) float64 {
	return math.Exp(F(t, label, math.Log(lo), math.Log(hi)))
}

// I is an int on [lo,hi].
func I(t *rapid.T, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }

// P is true with probability about pr (false shrinks first).
func P(t *rapid.T, label string, pr float64) bool {
	u := U(t, label)
	return u >= 1-pr
}

// Pick draws one of the values.
func Pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

// Grid is a multiple of step on [lo,hi].
func Grid(t *rapid.T, label string, lo, hi, step float64) float64 {
	n := int(math.Round((hi - lo) / step))
	return lo + step*float64(rapid.IntRange(0, n).Draw(t, label))
}

// Nice draws either a multiple of step or a uniform value.
func Nice(t *rapid.T, label string, lo, hi, step float64) float64 {
	if rapid.Bool().Draw(t, label+"?") {
		return F(t, label, lo, hi)
	}
	return Grid(t, label, lo, hi, step)
}

// Seed draws a seed for deterministic pseudo-random permutations.
func Seed(t *rapid.T, label string) uint64 { return rapid.Uint64().Draw(t, label) }

// Rng is a splitmix stream seeded by a drawn value.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }
func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
func (r *Rng) N(n int) int { return int(r.Next() % uint64(n)) }
func (r *Rng) F() float64  { return float64(r.Next()>>11) / (1 << 53) }
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
