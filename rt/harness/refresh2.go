package main

import (
	"math"
	"time"

	"zz.test/sim"
)

// C17: nobody waits for a running refresh who does not need its result.

// rcFree performs an operation that must complete while functions are held.
func runNoWait(s *sim.Sim, w *Work, h *Hist) {
	r := newRCRun(s, w, h)
	// the state the cache is brought into first
	switch w.Cfg["state"] {
	case 1: // a fresh value
		r.do(Op{ID: 700001, Kind: "refresh", D: 2})
	case 2: // an error in force
		r.do(Op{ID: 700002, Kind: "refresh", A: oErr, D: 2})
	case 3: // an error in force after a value
		r.do(Op{ID: 700001, Kind: "refresh", D: 2})
		r.do(Op{ID: 700002, Kind: "refresh", A: oErr, D: 2})
	}
	free := 0
	for _, o := range w.Ops {
		if o.Phase == 0 && o.Task != 0 {
			free++
		}
	}
	held := 0
	next := 800000
	r.hold = func(rec *rcRec, isClear bool) {
		if rec.op.Task != 0 || rec.op.ID >= 700000 {
			return
		}
		held++
		s.Fault("user function held until everybody else is done")
		if n := rec.op.D % 3; n > 0 { // the held function uses the cache itself
			next++
			op, st := s.GetOp()
			prev := r.cur[s.Cur().ID]
			kind := "observe"
			switch {
			case isClear && n == 1:
				kind = []string{"refresh", "get", "setf", "observe"}[rec.op.C%4]
			case n == 1 && held == 1 && w.Cfg["state"] != 0 && !hasKind(w, "clear"):
				kind = "get"
			case n == 1:
				kind = "setc"
			}
			s.Probe("held function calls " + kind)
			r.do(Op{ID: next, Task: 9, Kind: kind, D: 2})
			r.cur[s.Cur().ID] = prev
			s.RestoreOp(op, st+1000)
		}
		sim.Block("user function held", func() bool { return free <= 0 })
	}
	runPhase(s, w, 0, func(task int, o Op) {
		r.do(o)
		if o.Task != 0 {
			free--
		}
	})
	h.nontriv = held > 0 && r.over > 0
	h.checks += int64(len(r.recs))
	r.hold = nil
	if s.Violation() == nil {
		r.do(Op{ID: 900000, Kind: "get"})
	}
}

func hasKind(w *Work, k string) bool {
	for _, o := range w.Ops {
		if o.Kind == k {
			return true
		}
	}
	return false
}

func genNoWait(r *sim.Rand, deep bool) *Work {
	w := &Work{Cfg: map[string]int64{}}
	w.Cfg["variant"] = int64(r.Intn(3))
	w.Cfg["data"] = int64(r.Intn(4) / 3)
	w.Cfg["tmode"] = []int64{0, 2, 3}[r.Intn(3)]
	tasks := 2 + r.Intn(3)
	w.Cfg["tasks"] = int64(tasks)
	w.Cfg["phases"] = 1
	w.Cfg["state"] = int64(r.Intn(4))
	w.Cfg["maxage"] = []int64{-1, century, math.MaxInt64, int64(time.Hour) * 24}[r.Intn(4)]
	w.Cfg["errage"] = []int64{0, century, int64(time.Hour) * 24}[r.Intn(3)]
	if w.Cfg["state"] >= 2 {
		w.Cfg["errage"] = []int64{century, math.MaxInt64, int64(time.Hour) * 24}[r.Intn(3)]
	}
	id := 0
	add := func(t int, kind string) {
		id++
		o := Op{ID: id, Task: t, Kind: kind, Key: r.Intn(3), C: int64(r.Intn(4)), D: int64(r.U64() % 1000)}
		if r.Intn(4) == 0 {
			o.A = oErr
		}
		w.Ops = append(w.Ops, o)
	}
	// what is held: refresh functions, or clear functions
	holdClear := r.Intn(3) == 0
	n := 1 + r.Intn(2)
	for i := 0; i < n; i++ {
		if holdClear {
			if w.Cfg["data"] == 0 {
				add(0, "setc")
			}
			add(0, "clear")
		} else if r.Intn(3) == 0 && w.Cfg["state"] == 0 {
			add(0, "get")
		} else {
			add(0, "refresh")
		}
	}
	var kinds []string
	switch {
	case holdClear: // a held clear function is in nobody's way
		kinds = []string{"get", "refresh", "clear", "observe", "setf", "get"}
	case w.Cfg["state"] == 0:
		kinds = []string{"clear", "observe", "setf", "setc"}
	case w.Cfg["state"] == 1: // Clear would take the fresh value away
		kinds = []string{"get", "observe", "setf", "setc", "get", "get"}
	default: // Clear does not take an error away
		kinds = []string{"get", "get", "get", "clear", "observe", "setf", "setc"}
	}
	for t := 1; t < tasks; t++ {
		k := 1 + r.Intn(4)
		if deep {
			k = 1 + r.Intn(8)
		}
		for i := 0; i < k; i++ {
			add(t, kinds[r.Intn(len(kinds))])
		}
	}
	w.Strat = stratFor(r, 40*len(w.Ops)/tasks+40)
	return w
}

// ---------------------------------------------------------------- C18: accessors

// upto returns the runs that may have taken effect within g (from the latest
// one certain to have taken effect before g began), in order. A run takes
// effect between its end and its caller's return.
func (r *rcRun) upto(g *rcRec, out func(x *rcRunRec) bool) (cand []*rcRunRec, certain bool) {
	for i := len(r.runs) - 1; i >= 0; i-- {
		x := r.runs[i]
		if !out(x) || x.end == 0 || x.end > g.ret {
			continue
		}
		cand = append(cand, x)
		if x.callRet < g.inv {
			return cand, true
		}
	}
	return cand, false
}

func (r *rcRun) checkObs() {
	s := r.s
	maxAge, errAge := r.w.Cfg["maxage"], r.w.Cfg["errage"]
	completed := func(x *rcRunRec) bool { return x.completed() }
	okRun := func(x *rcRunRec) bool { return x.out == oOK }
	errRun := func(x *rcRunRec) bool { return x.out == oErr }
	for _, g := range r.recs {
		if g.kind != "observe" {
			continue
		}
		r.h.checks++
		o := g.obs
		if len(g.runs)+len(g.clrs) > 0 {
			s.Fail("disturbs", "accessors (op#%d) ran a user function", g.op.ID)
			return
		}
		if o.maxAge != maxAge || o.errAge != errAge {
			s.Fail("ages", "MaxAge, MaxErrAge (op#%d) returned %d, %d; configured %d, %d", g.op.ID, o.maxAge, o.errAge, maxAge, errAge)
			return
		}
		// the value: of the latest successful refresh, or none
		oks, okSure := r.upto(g, okRun)
		ers, erSure := r.upto(g, errRun)
		all, sure := r.upto(g, completed)
		cleared, maybeCleared := false, false // the latest successful value, at g
		if len(oks) > 0 {
			for _, c := range r.recs {
				if c.kind != "clear" || c.inv > g.ret || c.ret < oks[len(oks)-1].end {
					continue
				}
				maybeCleared = true
				if c.inv > oks[0].callRet && c.ret < g.inv && !c.pan {
					cleared = true
				}
			}
		}
		window := func(x *rcRunRec) (int64, int64) {
			return r.minClock(x.end, min(x.callRet, g.ret)), r.maxClock(x.end, min(x.callRet, g.ret))
		}
		inWin := func(t int64, l []*rcRunRec) bool {
			for _, x := range l {
				if lo, hi := window(x); t >= lo && t <= hi {
					return true
				}
			}
			return false
		}
		// settled: exactly one completed run can be the latest throughout g
		settled := sure && len(all) == 1
		none := len(all) == 0
		// --- timestamps
		last := func(name string, v int64, isErr bool) bool {
			l := oks
			if isErr {
				l = ers
			}
			if v != 0 && !inWin(v, l) {
				s.Fail("timestamp", "%s (op#%d [%d-%d]) returned %d, which is not when a refresh of that kind ended that can be the latest", name, g.op.ID, g.inv, g.ret, v)
				return false
			}
			if none && v != 0 {
				s.Fail("timestamp", "%s (op#%d) returned %d although no refresh had completed", name, g.op.ID, v)
				return false
			}
			if settled {
				is := (all[0].out == oErr) == isErr
				if !is && v != 0 {
					s.Fail("timestamp", "%s (op#%d [%d-%d]) returned %d although the latest refresh, %s, ended otherwise", name, g.op.ID, g.inv, g.ret, v, r.name(all[0]))
					return false
				}
				if is && v == 0 && (isErr || !maybeCleared) {
					s.Fail("timestamp", "%s (op#%d [%d-%d]) returned 0 although %s is the latest", name, g.op.ID, g.inv, g.ret, r.name(all[0]))
					return false
				}
				if is && v != 0 && !isErr && cleared {
					s.Fail("timestamp", "%s (op#%d [%d-%d]) returned %d although the value was cleared", name, g.op.ID, g.inv, g.ret, v)
					return false
				}
			}
			return true
		}
		if !last("Last", o.last, false) || !last("LastErr", o.lastErr, true) || !last("LastTime", o.lastT, false) || !last("LastErrTime", o.lastErrT, true) {
			return
		}
		// --- Raw
		fresh := func(x *rcRunRec, age int64) (must, may bool) {
			lo, hi := window(x)
			now0, now1 := r.minClock(g.inv, g.ret), r.maxClock(g.inv, g.ret)
			if age < 0 {
				return true, true
			}
			return now1-lo < age, now0-hi < age
		}
		has := func(l []*rcRunRec, f func(x *rcRunRec) bool) bool {
			for _, x := range l {
				if f(x) {
					return true
				}
			}
			return false
		}
		if o.val != 0 && !has(oks, func(x *rcRunRec) bool { return x.val == o.val }) {
			s.Fail("raw-value", "Raw (op#%d [%d-%d]) returned value %d, which is not that of a refresh that can be the latest successful one", g.op.ID, g.inv, g.ret, o.val)
			return
		}
		if o.err != nil && !has(ers, func(x *rcRunRec) bool { return sameErr(x.err, o.err) }) {
			s.Fail("raw-error", "Raw (op#%d [%d-%d]) returned error %v, which is not that of a refresh that can be the latest failed one", g.op.ID, g.inv, g.ret, o.err)
			return
		}
		if o.val == 0 && okSure { // only when an error is in force
			in := false
			for _, x := range ers {
				if _, may := fresh(x, errAge); may && errAge > 0 {
					in = true
				}
			}
			if !in {
				s.Fail("raw-value", "Raw (op#%d [%d-%d]) returned no value (error %v) although %s had succeeded and no error is in force", g.op.ID, g.inv, g.ret, o.err, r.name(oks[len(oks)-1]))
				return
			}
		}
		if o.val == 0 && o.err == nil && (okSure || erSure) {
			// a value had been there from the start, or an error: at no instant neither
			if okSure {
				s.Fail("raw-nothing", "Raw (op#%d [%d-%d]) returned neither a value nor an error although %s had succeeded", g.op.ID, g.inv, g.ret, r.name(oks[len(oks)-1]))
				return
			}
			if len(oks) == 0 {
				s.Fail("raw-nothing", "Raw (op#%d [%d-%d]) returned neither a value nor an error although %s had failed", g.op.ID, g.inv, g.ret, r.name(ers[len(ers)-1]))
				return
			}
		}
		if settled {
			x := all[0]
			if x.out == oOK && !maybeCleared {
				if must, _ := fresh(x, maxAge); must && (o.val != x.val || o.err != nil) {
					s.Fail("raw-fresh", "Raw (op#%d [%d-%d]) returned %d, %v although the value %d of %s is fresh", g.op.ID, g.inv, g.ret, o.val, o.err, x.val, r.name(x))
					return
				}
			}
			if x.out == oErr && !sameErr(o.err, x.err) {
				s.Fail("raw-error", "Raw (op#%d [%d-%d]) returned %d, %v although %s failed last", g.op.ID, g.inv, g.ret, o.val, o.err, r.name(x))
				return
			}
			if x.out == oErr && errAge > 0 && o.val != 0 {
				if must, _ := fresh(x, errAge); must {
					s.Fail("raw-value", "Raw (op#%d [%d-%d]) returned %d, %v although the error of %s is in force", g.op.ID, g.inv, g.ret, o.val, o.err, r.name(x))
					return
				}
			}
		}
	}
}

func init() {
	real := []string{"refreshcache", "refreshcache0", "refreshcache1"}
	stub := []string{"clock (simulated)", "sync.Mutex, sync/atomic (simulated)", "user refresh/clear functions (generated)"}
	register(&Prop{
		ID: "C17", Gen: genNoWait, Run: runNoWait,
		Rule: "one of the three variants holds nothing, a fresh value, an error in force or both in turn; one task's refresh or clear functions are held (and may use the cache themselves) until every other task, which only performs calls that do not need them, is done; a deadlock is a violation; non-trivial when a function was held and calls overlapped",
		Real: real, Stub: stub,
	})
	mx := rcMix{base: []int{5, 3, 2, 0, 0, 8, 2}, perr: []int{0, 20, 50}, ppan: []int{0}, errs: []int64{0, -5, 5 * msec, 500 * msec, century, math.MaxInt64}, tmode: []int{0, 2, 3}}
	register(&Prop{
		ID: "C18",
		Gen: func(r *sim.Rand, deep bool) *Work {
			w := genRC(r, deep, mx)
			return w
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			r := newRCRun(s, w, h)
			r.observe = true
			r.all()
			if s.Violation() == nil {
				r.checkObs()
			}
		},
		Rule: "random workloads on one of the three variants in which the accessors run concurrently with Get, Refresh and Clear and once more at every quiet point, under a seeded scheduler and a leaping clock; every accessor result is compared with the completed refreshes that can be the latest ones during the call; non-trivial when calls of different tasks overlapped",
		Real: real, Stub: stub,
	})
}
