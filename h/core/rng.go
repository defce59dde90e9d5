package core

import (
	"hash/fnv"
	"math/rand"
)

// Rng is a deterministic generator derived from the seed and a label.
type Rng struct{ *rand.Rand }

func NewRng(seed int64, label string) *Rng {
	h := fnv.New64a()
	h.Write([]byte(label))
	return &Rng{rand.New(rand.NewSource(seed*1000003 ^ int64(h.Sum64())))}
}

func (r *Rng) Chance(p float64) bool { return r.Float64() < p }

func Pick[T any](r *Rng, xs []T) T { return xs[r.Intn(len(xs))] }

func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
