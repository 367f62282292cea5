package main

// R is the seeded generator every choice of a run is drawn from.
type R struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewR(parts ...uint64) *R {
	s := uint64(0x9e3779b97f4a7c15)
	for _, p := range parts {
		s = mix(s ^ mix(p+0x9e3779b97f4a7c15))
	}
	return &R{s}
}

func (r *R) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a number in [0,n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// In returns a number in [a,b].
func (r *R) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability num/den.
func (r *R) P(num, den int) bool { return r.N(den) < num }

func pick[T any](r *R, xs ...T) T { return xs[r.N(len(xs))] }

// geo returns a geometric-ish number with the given mean, at least 0.
func (r *R) geo(mean int) int {
	n := 0
	for n < 50*mean && r.N(mean+1) != 0 {
		n++
	}
	return n
}

func hstr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h)
}

func hbytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(b); i++ {
		h = (h ^ uint64(b[i])) * 1099511628211
	}
	return mix(h)
}
