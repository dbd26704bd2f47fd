package main

// Rand is a splitmix64/xorshift generator: one integer decides everything, and
// its stream does not depend on the Go release.
type Rand struct{ s uint64 }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewRand(parts ...uint64) *Rand {
	s := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		s = mix(s ^ mix(p))
	}
	return &Rand{s}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (r *Rand) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// P is true pct percent of the time.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

// Pick returns an index weighted by ws.
func (r *Rand) Pick(ws []int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	if t <= 0 {
		return 0
	}
	x := r.N(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return len(ws) - 1
}

func pick[T any](r *Rand, xs ...T) T { return xs[r.N(len(xs))] }
