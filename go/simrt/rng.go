package simrt

// RNG is a splitmix64 generator: tiny, seedable, and ours alone.
type RNG struct{ s uint64 }

// NewRNG seeds a generator.
func NewRNG(seed uint64) *RNG { return &RNG{seed} }

// Next returns 64 random bits.
func (r *RNG) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Intn returns a number in [0,n).
func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *RNG) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// Bool is true one time in n.
func (r *RNG) Chance(n int) bool { return r.Intn(n) == 0 }

// Bytes fills a fresh slice.
func (r *RNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Next() >> 13)
	}
	return b
}

// Fork derives an independent generator.
func (r *RNG) Fork() *RNG { return NewRNG(r.Next()) }
