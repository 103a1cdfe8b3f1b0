package simrt

// Rand is a splitmix64 generator: tiny, seedable, stable over Go versions.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func Mix(a, b uint64) uint64 {
	r := Rand{a ^ (b * 0x9E3779B97F4A7C15)}
	r.Uint64()
	return r.Uint64()
}

func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

func (r *Rand) Float64() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// P is true with probability p.
func (r *Rand) P(p float64) bool { return r.Float64() < p }

// Perm returns a permutation.
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Pick one of the list.
func Choose[T any](r *Rand, l ...T) T { return l[r.Intn(len(l))] }
