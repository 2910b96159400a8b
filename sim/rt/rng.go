package rt

// RNG is a small self-contained generator (splitmix64): the only source of
// choice in a simulation.
type RNG struct{ s uint64 }

//go:norace
func NewRNG(seed uint64) *RNG { return &RNG{s: seed} }

// Mix derives an independent seed.
//
//go:norace
func Mix(a, b uint64) uint64 {
	z := a + 0x9e3779b97f4a7c15*(b+1)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int((r.U64() >> 1) % uint64(n))
}

//go:norace
func (r *RNG) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

//go:norace
func (r *RNG) Chance(p float64) bool { return r.F() < p }
