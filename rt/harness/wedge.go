package main

import (
	"runtime"

	"zz.test/sim"
)

// C04: nothing wedges, whatever panics.

var scNested = []string{"store", "load", "los", "lad", "del", "cad", "cvad", "clear", "range", "start", "close", "newcache"}

func runWedgeSC(s *sim.Sim, w *Work, h *Hist) {
	r := newSCRun(s, w, h)
	next := 200000
	inject := w.Cfg["inject"] == 1
	r.onCall = func(val int64, rec *scRec) {
		t := s.Cur()
		if rec == nil || !t.Work {
			if r.depth[t.ID] > 0 {
				return
			}
			switch s.Choose("re-entrant call or wait in background callback", 3, 0.4) {
			case 1:
				next++
				r.depth[t.ID]++
				r.nested(next, int(val%16))
				r.depth[t.ID]--
			case 2:
				s.Probe("sweep callback held while others run")
				sim.Block("background deletion callback waits for the others", func() bool { return r.live <= 0 })
			}
			return
		}
		if !inject || r.depth[t.ID] > 0 || rec.op.Kind == "rangeexit" {
			return
		}
		if rec.op.Kind == "delexit" {
			if s.Choose("goroutine end in deletion callback", 2, 0.7) == 1 {
				rec.inj = true
				s.Fault("deletion callback exits its goroutine")
				runtime.Goexit()
			}
			return
		}
		switch s.Choose("fault, re-entrant call or wait in deletion callback", 4, 0.6) {
		case 3:
			r.live--
			s.Probe("deletion callback held while others run")
			sim.Block("deletion callback waits for the others", func() bool { return r.live <= 0 })
			r.live++

		case 1:
			rec.inj = true
			s.Fault("deletion callback panics")
			injectPanic(int(val))
		case 2:
			next++
			r.depth[t.ID]++
			r.nested(next, int(val%16))
			r.depth[t.ID]--
		}
	}
	r.open()
	r.phasesRun()
	if s.Violation() != nil {
		return
	}
	s.Calm()
	sim.Sleep(12000 * msec)
	// the cache still works
	r.onCall = nil
	for k := 0; k < r.keys; k++ {
		r.do(Op{ID: 980000 + k, Kind: "store", Key: k, A: int64(980000+k)*16 + int64(k), B: 3600000 * msec})
		r.do(Op{ID: 981000 + k, Kind: "load", Key: k})
		r.do(Op{ID: 982000 + k, Kind: "del", Key: k})
		r.do(Op{ID: 983000 + k, Kind: "load", Key: k})
	}
	if s.Violation() == nil {
		r.checkTTL("content-after-panic")
	}
}

func (r *scRun) nested(id, k int) {
	if k >= r.keys {
		return
	}
	if r.s.ChooseVal("nested key", 2) == 1 {
		k = (k + 1) % r.keys
	}
	o := Op{ID: id, Kind: scNested[r.s.ChooseVal("nested operation", len(scNested))], Key: k, A: int64(id)*16 + int64(k), B: 1000 * msec, C: 1, D: 1}
	op, st := r.s.GetOp()
	r.do(o)
	r.s.RestoreOp(op, st+1000)
}

func init() {
	register(&Prop{
		ID:     "C04",
		Faulty: func(class string) bool { return class == "content-after-panic" },
		Gen: func(r *sim.Rand, deep bool) *Work {
			if r.Intn(2) == 0 {
				w := genRW(r, deep, rwMix{base: []int{3, 4, 2, 3, 2, 2, 3, 3, 2, 2, 1, 1, 3, 2, 3, 2, 2}, vmodes: []int{vUnique, vSmall, vAny, vUncomp, vUncomp, vUncomp}, kmodes: []int{0, 1, 3, 3}})
				w.Cfg["sut"] = 0
				return w
			}
			w := genSC(r, deep, scMix{base: []int{4, 3, 3, 3, 3, 3, 3, 2, 2, 1, 0, 0, 2, 2, 2, 1, 2, 2, 1, 1, 1}, cb: 1})
			if r.Intn(4) == 0 {
				w.Cfg["cb"] = 0
			}
			w.Cfg["sut"] = 1
			w.Cfg["extra"] = 0
			w.Cfg["inject"] = int64(r.Intn(4) / 1 & 1)
			if r.Intn(2) == 0 {
				w.Cfg["mode"] = w.Cfg["mode"]&1 | 2
			}
			return w
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			if w.Cfg["sut"] == 1 {
				runWedgeSC(s, w, h)
				return
			}
			r := runRW(s, w, h, func(r *rwRun) {
				r.checkKeys("content-after-panic")
			})
			if s.Violation() != nil {
				return
			}
			for k := 0; k < r.keys; k++ { // still works
				r.m.Store(k, 1)
				if v, ok := r.m.Load(k); !ok || v != map[bool]int32{false: 1, true: 0}[r.vmode == vUnit] {
					s.Fail("wedged", "after the run, Store then Load(k%d) returned %d %v", k, v, ok)
				}
			}
			r.m.Clear()
			if n := r.m.SlowLen(); n != 0 {
				s.Fail("wedged", "after the run, Clear left %d keys", n)
			}
		},
		Rule: "random workloads on the concurrent map and the TTL cache whose Range and deletion callbacks panic, exit their goroutine, call back into the container or wait for every other task, with unhashable keys and uncomparable values; deadlock and lack of progress under a fair fault-free suffix are violations, and so are swallowed panics and histories in which an interrupted call damaged other content; non-trivial when operations overlapped",
		Real: []string{"rwmap", "synccache", "utils"}, Stub: []string{"clock, ticker (simulated)", "sync, sync/atomic, channels, goroutines (simulated)", "map iteration order (simulated)"},
		Notes: []string{"panics are not injected into deletion callbacks run by the background sweep: there no caller exists and the process ends, as Go defines"},
	})
}
