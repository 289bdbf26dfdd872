package main

// Rand is a splitmix64 generator: every random choice of a check derives from VERIF_SEED through it.
type Rand struct{ s uint64 }

func NewRand(seed int64, stream string) *Rand {
	h := uint64(1469598103934665603)
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 1099511628211
	}
	r := &Rand{s: uint64(seed)*0x9E3779B97F4A7C15 ^ h}
	r.U64()
	return r
}

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Range(a, b int) int  { return a + r.N(b-a+1) } // inclusive
func (r *Rand) Bool() bool          { return r.U64()&1 == 1 }
func (r *Rand) P(num, den int) bool { return r.N(den) < num }
func (r *Rand) Byte() byte          { return byte(r.U64()) }
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
func pick[T any](r *Rand, xs ...T) T { return xs[r.N(len(xs))] }
