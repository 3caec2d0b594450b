// Package spec describes record layouts as data. From one description the
// simulator builds the Go type with its struct tags, generates values, and
// runs an independent reference codec that never looks at the tags.
package spec

// Rng is a small deterministic random generator.
type Rng struct{ s uint64 }

// NewRng returns a generator for the seed.
func NewRng(seed uint64) *Rng { return &Rng{Mix(seed ^ 0x5851f42d4c957f2d)} }

// Mix hashes a number.
func Mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// U64 returns the next number.
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return Mix(r.s)
}

// N returns a number below n.
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number from a to b inclusive.
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with a chance of num in den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

// Pick returns one of the strings.
func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }

// Fork returns an independent generator.
func (r *Rng) Fork() *Rng { return NewRng(r.U64()) }
