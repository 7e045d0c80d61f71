// Package rand replaces math/rand inside the simulator.
package rand

import "zz.test/sim"

type Source interface {
	Int63() int64
	Seed(int64)
}
type src struct{ r *sim.Rand }

func (s *src) Int63() int64   { return int64(s.r.U64() >> 1) }
func (s *src) Uint64() uint64 { return s.r.U64() }
func (s *src) Seed(n int64)   { s.r = sim.NewRand(uint64(n)) }

func NewSource(seed int64) Source { return &src{sim.NewRand(uint64(seed))} }

// Rand draws from a source.
type Rand struct{ s Source }

func New(s Source) *Rand { return &Rand{s} }

type global struct{}

func (global) Int63() int64 { return int64(sim.DrawU64() >> 1) }
func (global) Seed(int64)   {}

var g = &Rand{global{}}

func (r *Rand) Int63() int64   { return r.s.Int63() }
func (r *Rand) Seed(n int64)   { r.s.Seed(n) }
func (r *Rand) Uint32() uint32 { return uint32(r.Int63() >> 31) }
func (r *Rand) Uint64() uint64 { return uint64(r.Int63())>>31 | uint64(r.Int63())<<32 }
func (r *Rand) Int31() int32   { return int32(r.Int63() >> 32) }
func (r *Rand) Int() int       { return int(uint(r.Int63())) }
func (r *Rand) Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return r.Int63() % n
}
func (r *Rand) Int31n(n int32) int32 { return int32(r.Int63n(int64(n))) }
func (r *Rand) Intn(n int) int       { return int(r.Int63n(int64(n))) }
func (r *Rand) Float64() float64     { return float64(r.Int63()>>10) / (1 << 53) }
func (r *Rand) Float32() float32     { return float32(r.Float64()) }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

func Seed(int64)                         {}
func Int63() int64                       { return g.Int63() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Int31() int32                       { return g.Int31() }
func Int() int                           { return g.Int() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Intn(n int) int                     { return g.Intn(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
