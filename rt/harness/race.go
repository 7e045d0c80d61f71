package main

import (
	"math"

	"zz.test/sim"
)

// C05: no data race in the concurrent types; what a caller wrote before
// handing a value over is visible to whoever obtains it.

func init() {
	errs := []int64{0, -5, 5 * msec, 500 * msec, math.MaxInt64}
	register(&Prop{
		ID:   "C05",
		Only: "race",
		Gen: func(r *sim.Rand, deep bool) *Work {
			var w *Work
			sut := r.Intn(3)
			switch sut {
			case 0:
				w = genRW(r, deep, rwMix{base: []int{4, 4, 3, 4, 3, 2, 3, 3, 3, 2, 2, 2, 1, 1, 0, 0, 1}, vmodes: []int{vUnique, vAny, vPtr, vStruct, vPub, vPub, vPub, vPub}, kmodes: []int{0, 0, 1, 2, 3}})
			case 1:
				w = genSC(r, deep, scMix{base: []int{4, 4, 4, 3, 3, 3, 2, 2, 3, 3, 3, 3, 2, 1, 0, 0, 1, 0, 1, 1, 1}, cb: 2})
				w.Cfg["mode"] = int64(r.Intn(2))
				if r.Intn(3) > 0 {
					w.Cfg["mode"] |= 4
				}
			case 2:
				w = genRC(r, deep, rcMix{base: []int{6, 4, 3, 2, 2, 4, 1}, perr: []int{0, 20, 60}, ppan: []int{0, 0, 10}, errs: errs, tmode: []int{0, 1, 1, 1, 2, 3}})
			}
			w.Cfg["sut"] = int64(sut)
			w.Race = true
			return w
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			switch w.Cfg["sut"] {
			case 0:
				runRW(s, w, h, func(r *rwRun) { h.checks++ })
			case 1:
				r := newSCRun(s, w, h)
				r.open()
				r.phasesRun()
				h.checks++
			case 2:
				r := newRCRun(s, w, h)
				r.all()
				h.checks++
			}
		},
		Rule:  "random workloads over every method of the concurrent map, the TTL cache with its entries and the background sweep, and the three refresh caches; two thirds of the values are pointers to data the storing task has just written without synchronisation; every instrumented plain or atomic access is checked against a vector-clock happens-before relation built only from the library's own synchronisation and task start/join; non-trivial when calls overlapped",
		Real:  []string{"rwmap", "synccache", "refreshcache", "refreshcache0", "refreshcache1", "utils"},
		Stub:  []string{"clock, ticker (simulated)", "sync, sync/atomic, channels, goroutines (simulated, with happens-before tracking)", "map iteration order (simulated)"},
		Notes: []string{"map accesses are tracked per map; accesses inside uninstrumented standard-library code (reflect, fmt) are not tracked"},
	})
}
