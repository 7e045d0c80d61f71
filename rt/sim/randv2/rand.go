// Package rand replaces math/rand/v2 inside the simulator.
package rand

import "zz.test/sim"

type Source interface{ Uint64() uint64 }
type pcg struct{ r *sim.Rand }

func (p *pcg) Uint64() uint64 { return p.r.U64() }

type PCG = pcg

func NewPCG(a, b uint64) *PCG { return &pcg{sim.NewRand(a ^ b*31)} }

type Rand struct{ s Source }

func New(s Source) *Rand { return &Rand{s} }

type global struct{}

func (global) Uint64() uint64 { return sim.DrawU64() }

var g = &Rand{global{}}

func (r *Rand) Uint64() uint64 { return r.s.Uint64() }
func (r *Rand) Uint32() uint32 { return uint32(r.Uint64() >> 32) }
func (r *Rand) Int64() int64   { return int64(r.Uint64() >> 1) }
func (r *Rand) Int32() int32   { return int32(r.Uint64() >> 33) }
func (r *Rand) Int() int       { return int(r.Uint64() >> 1) }
func (r *Rand) Int64N(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int64N")
	}
	return r.Int64() % n
}
func (r *Rand) Int32N(n int32) int32    { return int32(r.Int64N(int64(n))) }
func (r *Rand) IntN(n int) int          { return int(r.Int64N(int64(n))) }
func (r *Rand) Uint64N(n uint64) uint64 { return r.Uint64() % n }
func (r *Rand) Uint32N(n uint32) uint32 { return uint32(r.Uint64N(uint64(n))) }
func (r *Rand) UintN(n uint) uint       { return uint(r.Uint64N(uint64(n))) }
func (r *Rand) Float64() float64        { return float64(r.Uint64()<<11>>11) / (1 << 53) }
func (r *Rand) Float32() float32        { return float32(r.Float64()) }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.IntN(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.IntN(i+1))
	}
}

func Uint64() uint64                     { return g.Uint64() }
func Uint32() uint32                     { return g.Uint32() }
func Int64() int64                       { return g.Int64() }
func Int32() int32                       { return g.Int32() }
func Int() int                           { return g.Int() }
func Int64N(n int64) int64               { return g.Int64N(n) }
func Int32N(n int32) int32               { return g.Int32N(n) }
func IntN(n int) int                     { return g.IntN(n) }
func Uint64N(n uint64) uint64            { return g.Uint64N(n) }
func Uint32N(n uint32) uint32            { return g.Uint32N(n) }
func UintN(n uint) uint                  { return g.UintN(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }

func N[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n I) I {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return I(g.Uint64() % uint64(n))
}
