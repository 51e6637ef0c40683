package main

// rng is a small deterministic generator (splitmix64), so that every case is a
// function of (check, seed, index) on every Go version.
type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	r := &rng{0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s = mix(r.s ^ mix(p+0x632be59bd9b4e019))
	}
	return r
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// n returns a number in [0, n).
func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// in returns a number in [a, b].
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

// p is true with probability pct/100.
func (r *rng) p(pct int) bool { return r.n(100) < pct }

func (r *rng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64() >> 24)
	}
	return b
}

func pick[T any](r *rng, xs ...T) T { return xs[r.n(len(xs))] }

// weighted picks an index according to weights.
func (r *rng) weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return -1
	}
	k := r.n(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return -1
}

func (r *rng) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.n(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h)
}

func hashBytes(b []byte) uint64 { return hashStr(string(b)) }
