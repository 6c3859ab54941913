package simrt

// Rng is a splitmix64 generator: the only source of randomness in a simulated run.
type Rng struct{ s uint64 }

//go:norace
func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

//go:norace
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return Mix(r.s)
}

//go:norace
func Mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0, n), or 0 if n is not positive.
//
//go:norace
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability num/den.
//
//go:norace
func (r *Rng) P(num, den int) bool { return r.Intn(den) < num }
