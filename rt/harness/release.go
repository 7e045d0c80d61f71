package main

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"time"
	"weak"

	"zz.test/repo/refreshcache"
	"zz.test/repo/refreshcache0"
	"zz.test/repo/refreshcache1"
	"zz.test/repo/rwmap"
	"zz.test/repo/synccache"
	"zz.test/sim"
)

// C28: what was removed or superseded is let go. Values are real heap objects
// observed through weak pointers; after each phase the garbage collector runs
// and everything that is not part of the content has to be gone.

type held struct {
	id  int64
	pad [4]*int64
}

func (e *held) Error() string { return "failed" }

type relRun struct {
	s    *sim.Sim
	w    *Work
	h    *Hist
	made map[int64]weak.Pointer[held]
	how  map[int64]string
	n    int64
}

func (r *relRun) mk(how string) *held {
	r.n++
	v := &held{id: r.n}
	r.made[v.id] = weak.Make(v)
	r.how[v.id] = how
	return v
}

// letGo: nothing but the objects in keep is alive.
func (r *relRun) letGo(what string, keep map[int64]bool) bool {
	r.h.checks++
	var alive []int64
	for try := 0; try < 4; try++ {
		runtime.GC()
		alive = alive[:0]
		for id, p := range r.made {
			if !keep[id] && p.Value() != nil {
				alive = append(alive, id)
			}
		}
		if len(alive) == 0 {
			break
		}
	}
	for id := range r.made {
		if !keep[id] {
			r.h.nontriv = true
			delete(r.made, id)
		}
	}
	if len(alive) > 0 {
		sort.Slice(alive, func(i, j int) bool { return alive[i] < alive[j] })
		r.s.Fail("retained", "%s is quiet and does not hold the value of %s (one of %d such) any more, but keeps it alive", what, r.how[alive[0]], len(alive))
		return false
	}
	return true
}

func (r *relRun) runMap() {
	m := &rwmap.RWMap[int, *held]{}
	do := func(task int, o Op) {
		how := o.String()
		switch o.Kind {
		case "store":
			m.Store(o.Key, r.mk(how))
		case "swap":
			m.Swap(o.Key, r.mk(how))
		case "los":
			m.LoadOrStore(o.Key, r.mk(how))
		case "load":
			m.Load(o.Key)
		case "delete":
			m.Delete(o.Key)
		case "lad":
			m.LoadAndDelete(o.Key)
		case "cas":
			if v, ok := m.Load(o.Key); ok {
				sim.Point("between")
				m.CompareAndSwap(o.Key, v, r.mk(how))
			}
		case "cad":
			if v, ok := m.Load(o.Key); ok {
				sim.Point("between")
				m.CompareAndDelete(o.Key, v)
			}
		case "clear":
			m.Clear()
		case "range":
			m.Range(func(k int, v *held) bool {
				switch o.C {
				case 1:
					m.Delete(k)
				case 2:
					m.Store(k, r.mk(how))
				case 3:
					m.Clear()
				case 4:
					return false
				}
				return true
			})
		case "len":
			m.Len()
			m.SlowLen()
		}
	}
	for ph := 0; ph < r.w.phases(); ph++ {
		runPhase(r.s, r.w, ph, do)
		if r.s.Violation() != nil {
			return
		}
		keep := map[int64]bool{}
		if r.w.Cfg["look"]&(1<<(ph%8)) != 0 { // by Load: a Range would tidy up
			for k := 0; k < 5; k++ {
				if v, ok := m.Load(k); ok {
					keep[v.id] = true
				}
			}
		} else {
			m.Range(func(_ int, v *held) bool { keep[v.id] = true; return true })
		}
		if !r.letGo("the map", keep) {
			return
		}
	}
	runtime.KeepAlive(m)
}

func (r *relRun) runCache() {
	var conf []synccache.SyncCacheConfig[int, *held]
	if r.w.Cfg["cb"] == 1 {
		conf = append(conf, synccache.WithDeletedCallback[int, *held](func(*held) { sim.Point("deletion callback") }))
	}
	c := synccache.NewSyncCache[int, *held](0, conf...)
	do := func(task int, o Op) {
		how := o.String()
		d := time.Duration(o.B)
		switch o.Kind {
		case "store", "swap":
			c.Store(o.Key, r.mk(how), d)
		case "los":
			c.LoadOrStore(o.Key, r.mk(how), d)
		case "load":
			c.Load(o.Key)
		case "delete":
			c.Delete(o.Key)
		case "lad":
			c.LoadAndDelete(o.Key)
		case "cas":
			if e, ok := c.Load(o.Key); ok {
				sim.Point("between")
				c.CompareValueAndDelete(o.Key, e.Value())
			}
		case "cad":
			if e, ok := c.Load(o.Key); ok {
				sim.Point("between")
				c.CompareAndDelete(o.Key, e)
			}
		case "clear":
			c.Clear()
		case "range":
			c.Range(func(k int, e *synccache.Entry[*held]) bool {
				switch o.C {
				case 1:
					c.Delete(k)
				case 2:
					c.Store(k, r.mk(how), d)
				case 3:
					c.Clear()
				case 4:
					return false
				}
				return true
			})
		case "len":
			sim.Sleep(o.B % (6000 * msec))
		}
	}
	for ph := 0; ph < r.w.phases(); ph++ {
		runPhase(r.s, r.w, ph, do)
		if r.s.Violation() != nil {
			return
		}
		if ph == r.w.phases()-1 {
			r.s.Calm()
		}
		sim.Sleep(16000 * msec) // what expired is reclaimed
		if ph < r.w.phases()-1 {
			continue // stalls may still keep the sweep from it
		}
		keep := map[int64]bool{}
		for k := 0; k < 5; k++ {
			if e, ok := c.Load(k); ok {
				keep[e.Value().id] = true
			}
		}
		if !r.letGo("the cache", keep) {
			return
		}
	}
	runtime.KeepAlive(c)
}

func (r *relRun) runRefresh() {
	var okID, errID int64
	ma, ea := time.Duration(r.w.Cfg["maxage"]), time.Duration(r.w.Cfg["errage"])
	cur := map[int]Op{}
	fn := func() (*held, error) {
		o := cur[r.s.Cur().ID]
		sim.Point("refreshing")
		switch o.C {
		case 1:
			e := r.mk("the error of " + o.String())
			errID = e.id
			return nil, e
		case 2:
			r.s.Fault("injected: refresh function panics")
			panic("injected")
		case 3:
			sim.Sleep(o.B)
		}
		v := r.mk(o.String())
		okID = v.id
		return v, nil
	}
	var get, refresh func()
	var clr func()
	var keepAlive any
	switch r.w.Cfg["variant"] {
	case 0:
		c := refreshcache0.NewRefreshCache[*held](func(context.Context) (*held, error) { return fn() }, ma, refreshcache0.WithErrAge[*held](ea))
		if r.w.Cfg["cb"] == 1 {
			c.SetClearFunc(func(context.Context) error { sim.Point("clear function"); return nil })
		}
		get, refresh = func() { c.Get(context.Background()) }, func() { c.Refresh(context.Background()) }
		clr, keepAlive = func() { c.Clear(context.Background()); c.Raw() }, c
	case 1:
		c := refreshcache1.NewRefreshCache[*held, int](func(context.Context, int) (*held, error) { return fn() }, ma, refreshcache1.WithErrAge[*held, int](ea))
		if r.w.Cfg["cb"] == 1 {
			c.SetClearFunc(func(context.Context, int) error { sim.Point("clear function"); return nil })
		}
		get, refresh = func() { c.Get(context.Background(), 1) }, func() { c.Refresh(context.Background(), 1) }
		clr, keepAlive = func() { c.Clear(context.Background(), 1); c.Raw() }, c
	default:
		c := refreshcache.NewRefreshCache[*held, int](func(context.Context, ...int) (*held, error) { return fn() }, ma, refreshcache.WithErrAge[*held, int](ea))
		if r.w.Cfg["cb"] == 1 {
			c.SetClearFunc(func(context.Context, ...int) error { sim.Point("clear function"); return nil })
		}
		get, refresh = func() { c.Get(context.Background()) }, func() { c.Refresh(context.Background()) }
		clr, keepAlive = func() { c.Clear(context.Background()); c.Raw() }, c
	}
	for ph := 0; ph < r.w.phases(); ph++ {
		runPhase(r.s, r.w, ph, func(task int, o Op) {
			cur[r.s.Cur().ID] = o
			guard(func() {
				switch o.Kind {
				case "delete", "lad", "clear":
					clr()
				case "load", "store", "los", "range":
					get()
				case "len":
					sim.Sleep(o.B)
				default:
					refresh()
				}
			})
		})
		if r.s.Violation() != nil {
			return
		}
		if !r.letGo("the cache", map[int64]bool{okID: true, errID: true}) {
			return
		}
	}
	runtime.KeepAlive(keepAlive)
}

func init() {
	register(&Prop{
		ID: "C28",
		Gen: func(r *sim.Rand, deep bool) *Work {
			w := &Work{Cfg: map[string]int64{}}
			w.Cfg["sut"] = int64(r.Intn(3))
			w.Cfg["variant"] = int64(r.Intn(3))
			w.Cfg["cb"] = int64(r.Intn(2))
			w.Cfg["look"] = int64(r.Intn(256))
			w.Cfg["maxage"] = []int64{-1, 0, 20 * msec, 3600000 * msec}[r.Intn(4)]
			w.Cfg["errage"] = []int64{0, 20 * msec, 3600000 * msec}[r.Intn(3)]
			nt := 1 + r.Intn(3)
			keys := 1 + r.Intn(4)
			w.Cfg["tasks"] = int64(nt)
			kinds := []string{"store", "swap", "los", "load", "delete", "lad", "cas", "cad", "clear", "range", "len"}
			id := 0
			for ph, n := 0, 1+r.Intn(3); ph < n; ph++ {
				wts := swarm(r, []int{5, 2, 3, 3, 3, 3, 3, 3, 1, 2, 1})
				for t := 0; t < nt; t++ {
					for i := 1 + r.Intn(7); i > 0; i-- {
						id++
						o := Op{ID: id, Phase: ph, Task: t, Kind: kinds[pickW(r, wts)], Key: r.Intn(keys)}
						o.B = []int64{0, 5 * msec, 20 * msec, 3000 * msec, 3600000 * msec, 3600000 * msec}[r.Intn(6)]
						o.C = int64(r.Intn(6))
						w.Ops = append(w.Ops, o)
					}
				}
			}
			if w.Cfg["sut"] == 2 {
				for i := range w.Ops {
					w.Ops[i].B %= 3000 * msec
				}
			}
			w.Strat = stratFor(r, 300)
			w.Strat.MaxSteps = 20000
			return w
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			r := &relRun{s: s, w: w, h: h, made: map[int64]weak.Pointer[held]{}, how: map[int64]string{}}
			switch w.Cfg["sut"] {
			case 0:
				r.runMap()
			case 1:
				r.runCache()
			case 2:
				r.runRefresh()
			}
			if h.on {
				h.logf("%d objects made", r.n)
			}
		},
		Rule: "random workloads of 1-3 tasks on a concurrent map, a TTL cache (with and without deletion callback, with the real background sweep) or a refresh cache (three variants), whose values and errors are heap objects observed through weak pointers; whenever the workload is quiet the garbage collector runs and every object that is not part of the content (for a refresh cache: not the latest value or the latest error) must be gone; non-trivial when there was such an object",
		Real: []string{"rwmap", "synccache", "refreshcache", "refreshcache0", "refreshcache1", "utils", "the Go garbage collector"}, Stub: []string{"clock, ticker (simulated)", "sync, sync/atomic, channels, goroutines (simulated)", "map iteration order (simulated)"},
		Notes: []string{"reachability is observed, not timing: a value still referenced after several full collections counts as retained", "keys are not covered: the map keeps deleted keys until its next rebuild"},
	})
	_ = fmt.Sprint
}
