package main

import (
	"fmt"
	"runtime"
	"time"
	"weak"

	"zz.test/sim"
)

// C08: background reclamation, Close/Start, isolation between caches.

type swEnt struct {
	cache    int
	val      int64
	key      int
	lo, hi   int64 // expiry bounds
	stored   uint64
	ret      uint64
	calls    int
	bg       bool
	at       int64 // clock at callback
	seq      uint64
	taken    bool // removed by a foreground operation
	touched  bool
	moving   bool
	reported bool
}

type swCache struct {
	c      scAd
	open   bool
	since  int64 // clock when Start/Close last returned
	closed int64
	moving bool // Start/Close in progress or overlapped
	ents   []*swEnt
}

type swRun struct {
	s       *sim.Sim
	w       *Work
	h       *Hist
	caches  []*swCache
	byVal   map[int64]*swEnt
	fg      map[int]bool // tasks inside a foreground call
	calm    int64        // when the faults ceased
	churned int
	other   scAd
}

func (r *swRun) callback(ci int) func(int64) {
	return func(val int64) {
		s := r.s
		e := r.byVal[val]
		if e == nil {
			s.Fail("callback", "cache %d: deletion callback for value %d that was never stored", ci, val)
			return
		}
		if e.cache != ci {
			s.Fail("isolation", "cache %d's deletion callback ran for a value of cache %d", ci, e.cache)
			return
		}
		e.calls++
		e.at, e.seq = sim.Now(), s.Seq()
		e.bg = !r.fg[s.Cur().ID]
		r.h.logf("[%d] t=%dms cache %d callback(k%d) background=%v (expiry %d..%dms)", e.seq, (e.at-sim.Epoch)/msec, ci, e.key, e.bg, (e.lo-sim.Epoch)/msec, (e.hi-sim.Epoch)/msec)
		if e.calls > 1 {
			s.Fail("callback-twice", "cache %d: deletion callback ran twice for key %d", ci, e.key)
		}
		c := r.caches[ci]
		if e.bg {
			if e.at <= e.lo-msec {
				s.Fail("early", "cache %d: the sweep removed key %d at t=%dms, before its expiry at t=%dms", ci, e.key, (e.at-sim.Epoch)/msec, (e.lo-sim.Epoch)/msec)
			}
			s.Probe("entry removed by the background sweep")
			if r.calm > 0 && !c.open && !c.moving && sim.Now()-max(c.closed, r.calm) > 15000*msec {
				s.Fail("closed", "cache %d was swept at t=%dms although it was closed at t=%dms", ci, (e.at-sim.Epoch)/msec, (c.closed-sim.Epoch)/msec)
			}
		}
		sim.Point("deletion callback")
		if d := r.w.Cfg["cbslow"]; d > 0 && s.Choose("slow deletion callback", 2, 0.5) == 1 {
			sim.Sleep(d)
		}
	}
}

func (r *swRun) create(ci int) {
	c := r.caches[ci]
	if c.c != nil {
		return
	}
	c.c = newSC(int(r.w.Cfg["mode"]), time.Duration(r.w.Cfg["trim"]), r.callback(ci))
	c.open, c.since = true, sim.Now()
	r.h.logf("[%d] t=%dms cache %d created", r.s.Seq(), (sim.Now()-sim.Epoch)/msec, ci)
}

func (r *swRun) store(ci, key int, d int64, id int) {
	c := r.caches[ci]
	e := &swEnt{cache: ci, key: key, val: int64(id)*16 + int64(key%16)}
	r.byVal[e.val] = e
	e.stored = r.s.Seq()
	t0 := sim.Now()
	e.lo, e.hi = t0+lifeOf(d), 1<<62
	id0 := r.s.Cur().ID
	r.fg[id0] = true
	c.c.Store(key, e.val, time.Duration(d))
	r.fg[id0] = false
	e.ret = r.s.Seq()
	_, t1 := r.s.ClockRange(e.stored, e.ret)
	e.hi = t1 + lifeOf(d)
	c.ents = append(c.ents, e)
	r.h.logf("[%d-%d] t=%dms cache %d Store(k%d, %dms)", e.stored, e.ret, (sim.Now()-sim.Epoch)/msec, ci, key, d/msec)
}

func (r *swRun) loadOrStore(ci, key int, d int64, id int) {
	c := r.caches[ci]
	e := &swEnt{cache: ci, key: key, val: int64(id)*16 + int64(key%16)}
	r.byVal[e.val] = e
	e.stored = r.s.Seq()
	e.lo, e.hi = sim.Now()+lifeOf(d), 1<<62
	t := r.s.Cur().ID
	r.fg[t] = true
	x, loaded := c.c.LoadOrStore(key, e.val, time.Duration(d))
	r.fg[t] = false
	e.ret = r.s.Seq()
	_, t1 := r.s.ClockRange(e.stored, e.ret)
	e.hi = t1 + lifeOf(d)
	if loaded {
		delete(r.byVal, e.val)
		if x.Val() == e.val {
			r.s.Fail("loaded", "cache %d: LoadOrStore(k%d) says it loaded the value it was given", ci, key)
		}
	} else {
		c.ents = append(c.ents, e)
	}
	r.h.logf("[%d-%d] t=%dms cache %d LoadOrStore(k%d, %dms) loaded=%v", e.stored, e.ret, (sim.Now()-sim.Epoch)/msec, ci, key, d/msec, loaded)
}

// move gives the entry of a key another expiry: d from now (how 1), d more (0),
// or an instant long past (2: the epoch, 3: the zero time).
func (r *swRun) move(ci, key int, d int64, how int64) {
	set := how > 0
	c := r.caches[ci]
	t := r.s.Cur().ID
	r.fg[t] = true
	x, ok := c.c.Load(key)
	r.fg[t] = false
	if !ok {
		return
	}
	e := r.byVal[x.Val()]
	if e == nil || e.moving || e.hi == 1<<62 || e.hi > 1<<61 || e.lo+d < sim.Epoch {
		return
	}
	e.moving = true
	lo, hi := e.lo, e.hi
	nlo, nhi := lo+d, hi+d
	at := time.Unix(0, sim.Now()).Add(time.Duration(d))
	if set {
		nlo = at.UnixNano()
		switch how {
		case 2:
			at, nlo = time.Unix(0, 0), 0
		case 3:
			at, nlo = time.Time{}, -1<<61
		}
		nhi = nlo
	}
	e.lo, e.hi = min(lo, nlo), max(hi, nhi)
	q0 := r.s.Seq()
	if set {
		x.SetExpiration(at)
	} else {
		x.AddExpiration(time.Duration(d))
	}
	if e.hi = max(hi, nhi); sim.Now() < lo-msec {
		e.hi = nhi
		// nobody can have seen it expired before, and nobody who read the old
		// expiry can act on it later
		quiet := r.s.ActiveUntil(q0, r.s.Seq()) == 0
		for _, b := range r.fg {
			quiet = quiet && !b
		}
		if quiet || nlo < lo {
			e.lo = nlo
		}
	}
	e.moving = false
	r.h.logf("[%d] t=%dms cache %d key %d moved to expire at t=%d..%dms", r.s.Seq(), (sim.Now()-sim.Epoch)/msec, ci, key, (e.lo-sim.Epoch)/msec, (e.hi-sim.Epoch)/msec)
}

func (r *swRun) do(o Op) {
	ci := int(o.C) % len(r.caches)
	c := r.caches[ci]
	if c.c == nil {
		if c.moving {
			return
		}
		c.moving = true
		r.create(ci)
		c.moving = false
	}
	switch o.Kind {
	case "store":
		r.store(ci, o.Key, o.B, o.ID)
	case "los":
		r.loadOrStore(ci, o.Key, o.B, o.ID)
	case "move":
		r.move(ci, o.Key, o.B, o.A)
	case "close", "start":
		if c.moving {
			return // one lifecycle call at a time per cache
		}
		c.moving = true
		t := r.s.Cur().ID
		r.fg[t] = true
		if o.Kind == "close" {
			c.c.Close()
		} else {
			c.c.Start()
		}
		r.fg[t] = false
		c.moving = false
		if o.Kind == "close" {
			if c.open {
				c.closed = sim.Now()
			}
			c.open = false
		} else {
			if !c.open {
				c.since = sim.Now()
			}
			c.open = true
		}
		r.h.logf("[%d] t=%dms cache %d %s", r.s.Seq(), (sim.Now()-sim.Epoch)/msec, ci, o.Kind)
	case "sleep":
		sim.Sleep(o.B)
	case "load":
		// touches the key: expired entries may be removed here
		t := r.s.Cur().ID
		r.fg[t] = true
		c.c.Load(o.Key)
		r.fg[t] = false
	}
}

// wait lets d pass, while caches other than those observed, and other keys of
// those, are used every now and then.
func (r *swRun) wait(d int64) {
	end := sim.Now() + d
	every, what := r.w.Cfg["churn"], r.w.Cfg["churnkind"]
	for every > 0 && sim.Now()+every < end {
		sim.Sleep(every)
		r.churned++
		switch what {
		case 0: // caches come and go
			newSC(int(r.w.Cfg["mode"]), 0, nil).Close()
		case 1: // caches come and stay
			if r.churned < 40 {
				newSC(int(r.w.Cfg["mode"]), 0, nil)
			}
		case 2: // one is closed and started again
			if r.other == nil {
				r.other = newSC(int(r.w.Cfg["mode"]), 0, nil)
			}
			r.other.Close()
			r.other.Start()
		case 3: // the observed caches are started again though they run
			for _, c := range r.caches {
				if c.c != nil && c.open {
					c.c.Start()
				}
			}
		case 4: // new entries
			for i, c := range r.caches {
				if c.c != nil {
					r.store(i, 9+r.churned%3, 1000*3600000*msec, 400000+r.churned*200+i%200)
				}
			}
		case 5: // lookups
			for _, c := range r.caches {
				if c.c != nil {
					c.c.Load(10)
				}
			}
		}
	}
	if d := end - sim.Now(); d > 0 {
		sim.Sleep(d)
	}
}

// due checks every entry whose deadline has passed; everything is calm since
// calmAt.
func (r *swRun) due(calmAt int64, when string) {
	now := sim.Now()
	for ci, c := range r.caches {
		if c.c == nil {
			continue
		}
		if !c.open {
			continue
		}
		last := map[int][2]uint64{} // the two latest returns of stores per key
		for _, e := range c.ents {
			l := last[e.key]
			if e.ret > l[0] {
				l[0], l[1] = e.ret, l[0]
			} else if e.ret > l[1] {
				l[1] = e.ret
			}
			last[e.key] = l
		}
		for _, e := range c.ents {
			if l := last[e.key]; l[0] != e.ret || l[1] > e.stored {
				continue // replaced, or possibly so
			}
			from := max(e.hi, calmAt, c.since)
			dl := from + 15000*msec
			if now > dl {
				r.h.checks++
				if e.calls == 0 {
					r.s.Fail("not-reclaimed", "%s: cache %d (of %d): key %d expired at t=%dms and is still there at t=%dms (faults ceased at t=%dms)", when, ci, len(r.caches), e.key, (e.hi-sim.Epoch)/msec, (now-sim.Epoch)/msec, (calmAt-sim.Epoch)/msec)
					return
				}
				if e.bg && e.at > dl {
					r.s.Fail("late", "%s: cache %d: key %d expired at t=%dms and was removed only at t=%dms", when, ci, e.key, (e.hi-sim.Epoch)/msec, (e.at-sim.Epoch)/msec)
					return
				}
			}
		}
	}
}

func runSweep(s *sim.Sim, w *Work, h *Hist) {
	r := &swRun{s: s, w: w, h: h, byVal: map[int64]*swEnt{}, fg: map[int]bool{}}
	for i := 0; i < int(w.Cfg["caches"]); i++ {
		r.caches = append(r.caches, &swCache{})
	}
	if w.Cfg["many"] == 1 { // every cache exists and holds something
		for i := range r.caches {
			r.create(i)
			r.store(i, 7, w.Cfg["life"], 200000+i)
		}
	}
	for i := 0; i < int(w.Cfg["bulk"]); i++ {
		r.create(0)
		r.store(0, 100+i, w.Cfg["life"], 300000+i)
	}
	for ph := 0; ph < w.phases(); ph++ {
		runPhase(s, w, ph, func(task int, o Op) { r.do(o) })
		if s.Violation() != nil {
			return
		}
	}
	s.Calm()
	s.SetOp(-5000)
	calm := sim.Now()
	r.calm = calm
	h.logf("-- calm at t=%dms", (calm-sim.Epoch)/msec)
	var end int64
	for _, c := range r.caches {
		for _, e := range c.ents {
			if e.hi < calm+40000*msec {
				end = max(end, e.hi, c.since)
				h.nontriv = true
			}
		}
	}
	if d := max(end, calm) + 15001*msec - sim.Now(); d > 0 {
		r.wait(d)
	}
	r.due(calm, "after the faults")
	if s.Violation() != nil {
		return
	}
	// closed caches, now long closed: entries stored in them stay
	id := 700000
	for ci, c := range r.caches {
		if c.c == nil {
			continue
		}
		if w.Cfg["flip"]&(1<<(ci%8)) != 0 {
			if c.open {
				c.c.Close()
				c.open, c.closed = false, sim.Now()
			}
		}
	}
	r.wait(15001 * msec)
	for ci, c := range r.caches {
		if c.c != nil {
			id++
			r.store(ci, 5, 1000*msec, id)
		}
	}
	r.wait(16002 * msec)
	r.due(calm, "in the quiet period")
	if s.Violation() != nil {
		return
	}
	restart := sim.Now()
	n := 0
	for _, c := range r.caches {
		if c.c != nil && !c.open && (w.Cfg["flip"]>>8)&(1<<(n%8)) == 0 {
			c.c.Start()
			c.open, c.since = true, restart
		}
		n++
	}
	r.wait(15001 * msec)
	r.due(calm, "after restarting")
	if s.Violation() != nil {
		return
	}
	// what must still be there
	for ci, c := range r.caches {
		if c.c == nil {
			continue
		}
		last := map[int]*swEnt{}
		multi := map[int]bool{}
		for _, e := range c.ents {
			if last[e.key] != nil {
				multi[e.key] = true
			}
			last[e.key] = e
		}
		for k, e := range last {
			if multi[k] || e.lo < sim.Now()+3600000*msec {
				continue
			}
			h.checks++
			x, ok := c.c.Load(k)
			if !ok || x.Val() != e.val || e.calls > 0 {
				s.Fail("lost", "cache %d: key %d, unexpired and never removed, is gone (callback ran %d times)", ci, k, e.calls)
				return
			}
		}
	}
}

// runWeak: without a deletion callback, reclamation shows as memory being freed.
func runWeak(s *sim.Sim, w *Work, h *Hist) {
	c := newSC(4, 0, nil)
	var ws []weak.Pointer[payload]
	for i := 0; i < 6; i++ {
		func() {
			p := penc(int64(i))
			ws = append(ws, weak.Make(p))
			c.(*scT[int, *payload]).c.Store(i, p, time.Duration(100+i)*time.Millisecond)
		}()
	}
	s.Calm()
	sim.Sleep(16000 * msec)
	h.nontriv = true
	h.checks++
	live := 0
	for try := 0; try < 3; try++ {
		runtime.GC()
		live = 0
		for _, p := range ws {
			if p.Value() != nil {
				live++
			}
		}
		if live < len(ws) {
			break
		}
	}
	if live == len(ws) {
		s.Fail("not-reclaimed", "a cache without deletion callback still holds all %d entries 15 s after they expired", live)
	}
	runtime.KeepAlive(c)
	h.logf("weak: %d of %d values still reachable", live, len(ws))
}

func init() {
	register(&Prop{
		ID: "C08",
		Gen: func(r *sim.Rand, deep bool) *Work {
			w := &Work{Cfg: map[string]int64{}}
			w.Cfg["mode"] = int64(r.Intn(2))
			w.Cfg["trim"] = []int64{0, 1000 * msec, 5000 * msec, 3600000 * msec}[r.Intn(4)]
			w.Cfg["cbslow"] = []int64{0, 0, 20 * msec, 200 * msec}[r.Intn(4)]
			w.Cfg["caches"] = int64(1 + r.Intn(4))
			w.Cfg["tasks"] = int64(1 + r.Intn(3))
			w.Cfg["flip"] = int64(r.U64() & 0xffff)
			if r.Intn(300) == 0 {
				w.Cfg["weak"] = 1
				w.Cfg["tasks"] = 1
				w.Strat = stratFor(r, 500)
				return w
			}
			switch r.Intn(40) {
			case 0: // many caches
				w.Cfg["many"] = 1
				w.Cfg["caches"] = int64(5 + r.Intn(28))
				if deep {
					w.Cfg["caches"] = int64(5 + r.Intn(120))
				}
			case 1: // many entries
				w.Cfg["bulk"] = int64(20 << r.Intn(5))
				if deep {
					w.Cfg["bulk"] = int64(20 << r.Intn(8))
				}
			}
			if r.Intn(8000) == 0 { // very many of either
				w.Cfg["many"], w.Cfg["bulk"] = 0, 0
				if r.Intn(3) == 0 {
					w.Cfg["many"] = 1
					w.Cfg["caches"] = int64(200 + r.Intn(900))
				} else {
					w.Cfg["bulk"] = int64(1500 + r.Intn(4000))
				}
			}
			if w.Cfg["many"]+w.Cfg["bulk"] > 0 {
				w.Cfg["cbslow"] = 0
				w.Cfg["life"] = []int64{1 * msec, 3000 * msec, 9000 * msec, 20000 * msec}[r.Intn(4)]
			}
			if w.Cfg["many"] == 0 && r.Intn(6) == 0 { // other business meanwhile
				w.Cfg["churn"] = []int64{500 * msec, 1000 * msec, 2600 * msec, 4300 * msec, 4999 * msec}[r.Intn(5)]
				w.Cfg["churnkind"] = int64(r.Intn(6))
			}
			nk := 0
			ph := 1 + r.Intn(3)
			wts := swarm(r, []int{6, 1, 1, 2, 1, 2, 2})
			if wts[0] == 0 {
				wts[0] = 4
			}
			id := 0
			stores := 0
			for p := 0; p < ph; p++ {
				for t := 0; t < int(w.Cfg["tasks"]); t++ {
					for i := 1 + r.Intn(4); i > 0; i-- {
						id++
						o := Op{ID: id, Phase: p, Task: t, Kind: []string{"store", "close", "start", "sleep", "load", "los", "move"}[pickW(r, wts)], C: int64(r.Intn(int(max(4, w.Cfg["caches"]))))}
						switch o.Kind {
						case "store", "los":
							if stores++; stores > 10 {
								continue
							}
							o.Key = nk % 5
							if r.Intn(3) > 0 {
								nk++
							}
							o.B = []int64{0, 1 * msec, 300 * msec, 3000 * msec, 5000 * msec, 9000 * msec, 30000 * msec, 100 * 3600000 * msec}[r.Intn(8)]
							if r.Intn(16) == 0 {
								o.B = longLife(r)
							}
						case "load":
							o.Key = r.Intn(5)
						case "move":
							o.Key = r.Intn(min(nk, 4) + 1)
							o.A = int64(r.Intn(2))
							if r.Intn(12) == 0 {
								o.A = int64(2 + r.Intn(2))
							}
							o.B = []int64{0, 1 * msec, 300 * msec, 3000 * msec, 9000 * msec, 30000 * msec, 100 * 3600000 * msec}[r.Intn(7)]
							if o.A == 0 && r.Intn(2) == 0 {
								o.B = -o.B
							}
						case "sleep":
							o.B = []int64{1 * msec, 700 * msec, 2500 * msec, 5000 * msec, 6100 * msec}[r.Intn(5)]
						}
						w.Ops = append(w.Ops, o)
					}
				}
			}
			w.Strat = stratFor(r, 400)
			w.Strat.MaxSteps += 400 * int(w.Cfg["bulk"]+10*w.Cfg["caches"])
			w.Strat.Leaps = []int64{1 * msec, 300 * msec, 3000 * msec, 5000 * msec, 9000 * msec}
			w.Strat.PTime = []float64{0, 0.003, 0.01, 0.03}[r.Intn(4)]
			return w
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			if w.Cfg["weak"] == 1 {
				runWeak(s, w, h)
				return
			}
			runSweep(s, w, h)
		},
		Rule: "1-4 caches (in some runs up to 32, thorough 124, very rarely 1100; or up to 320 entries, thorough 2560, very rarely 5500, in one) created, closed and restarted at random instants by 1-3 tasks, entries with lifetimes from 0 to 100 h, slow deletion callbacks, stalls and clock leaps; then faults cease and every due entry must be gone within 15 simulated seconds; in some runs other caches and keys are used throughout the waits; a second stage closes, fills, waits, restarts; some runs have no callback and observe reclamation through weak pointers; non-trivial when entries were due",
		Real: []string{"synccache (with its package-wide sweeper goroutine)", "rwmap", "utils"}, Stub: []string{"clock, ticker (simulated)", "sync, sync/atomic, channels, goroutines (simulated)", "map iteration order (simulated)"},
	})
	_ = fmt.Sprint
}
