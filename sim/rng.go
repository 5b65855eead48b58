package main

// rng is a small seeded generator (splitmix64). Every random decision of the
// harness comes from one of these.
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed} }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n returns a number in [0,n).
func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// rg returns a number in [a,b].
func (r *rng) rg(a, b int) int { return a + r.n(b-a+1) }

// p is true with probability pct percent.
func (r *rng) p(pct int) bool { return r.n(100) < pct }

func (r *rng) f() float64 { return float64(r.u64()>>11) / (1 << 53) }

func pick[T any](r *rng, xs ...T) T { return xs[r.n(len(xs))] }

func subset[T any](r *rng, pct int, xs ...T) []T {
	out := []T{}
	for _, x := range xs {
		if r.p(pct) {
			out = append(out, x)
		}
	}
	return out
}

func shuffle[T any](r *rng, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.n(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

func hashStr(h uint64, s string) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func mix(parts ...uint64) uint64 {
	r := rng{0x1234567}
	for _, p := range parts {
		r.s ^= p
		r.s = r.u64()
	}
	return r.s
}
