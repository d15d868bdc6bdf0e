package hp

import (
	"hash/fnv"
	"math/rand/v2"
)

// Rng is a deterministic generator.
type Rng struct{ *rand.Rand }

// NewRng depends on the seed and the labels only.
func NewRng(seed int64, labels ...string) *Rng {
	h := fnv.New64a()
	for _, l := range labels {
		h.Write([]byte(l))
		h.Write([]byte{0})
	}
	return &Rng{rand.New(rand.NewPCG(uint64(seed)*0x9e3779b97f4a7c15+1, h.Sum64()))}
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return r.IntN(n)
}

// Range returns a number in [a, b].
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with the probability p percent.
func (r *Rng) P(p int) bool { return r.N(100) < p }

func Pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }

// Fill fills b with random bytes.
func (r *Rng) Fill(b []byte) {
	for i := range b {
		b[i] = byte(r.N(256))
	}
}
