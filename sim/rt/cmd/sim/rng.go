//go:build go1.21

package main

// rng is the generator behind every choice of a run.
type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	r := &rng{0x243f6a8885a308d3}
	for _, p := range parts {
		r.s ^= p + 0x9e3779b97f4a7c15 + (r.s << 6) + (r.s >> 2)
		r.next()
	}
	return r
}

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n returns a number in [0,k).
func (r *rng) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.next() % uint64(k))
}

// in returns a number in [a,b].
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

// p is true with the given chance in percent.
func (r *rng) p(pct int) bool { return r.n(100) < pct }

func pickOf[T any](r *rng, l ...T) T { return l[r.n(len(l))] }

// size draws from 1..max with a bias to small values.
func (r *rng) size(max int) int {
	m := 1
	for m < max && r.p(70) {
		m *= 2
	}
	if m > max {
		m = max
	}
	return 1 + r.n(m)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}
