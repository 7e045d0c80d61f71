package main

import (
	"fmt"
	"math"
	"runtime"
	"strconv"
	"time"

	"zz.test/repo/synccache"
	"zz.test/sim"
)

// ---------------------------------------------------------------- adaptor

type scEnt interface {
	Val() int64
	IsExpired() bool
	AddExpiration(time.Duration)
	SetExpiration(time.Time)
	Ptr() any
}

type scAd interface {
	Store(k int, v int64, d time.Duration)
	Load(k int) (scEnt, bool)
	LoadOrStore(k int, v int64, d time.Duration) (scEnt, bool)
	Delete(k int)
	LoadAndDelete(k int) (scEnt, bool)
	CompareAndDelete(k int, e scEnt) bool
	CompareValueAndDelete(k int, v int64) bool
	Clear()
	Range(f func(k int, e scEnt) bool)
	Start()
	Close()
}

type entT[V any] struct {
	e   *synccache.Entry[V]
	dec func(V) int64
}

func (e entT[V]) Val() int64                    { return e.dec(e.e.Value()) }
func (e entT[V]) IsExpired() bool               { return e.e.IsExpired() }
func (e entT[V]) AddExpiration(d time.Duration) { e.e.AddExpiration(d) }
func (e entT[V]) SetExpiration(t time.Time)     { e.e.SetExpiration(t) }
func (e entT[V]) Ptr() any                      { return e.e }

type scT[K comparable, V any] struct {
	c   *synccache.SyncCache[K, V]
	key func(int) K
	unk func(K) int
	enc func(int64) V
	dec func(V) int64
}

func (a *scT[K, V]) ent(e *synccache.Entry[V], ok bool) (scEnt, bool) {
	if e == nil {
		return nil, ok
	}
	return entT[V]{e, a.dec}, ok
}
func (a *scT[K, V]) Store(k int, v int64, d time.Duration) { a.c.Store(a.key(k), a.enc(v), d) }
func (a *scT[K, V]) Load(k int) (scEnt, bool)              { return a.ent(a.c.Load(a.key(k))) }
func (a *scT[K, V]) LoadOrStore(k int, v int64, d time.Duration) (scEnt, bool) {
	return a.ent(a.c.LoadOrStore(a.key(k), a.enc(v), d))
}
func (a *scT[K, V]) Delete(k int)                      { a.c.Delete(a.key(k)) }
func (a *scT[K, V]) LoadAndDelete(k int) (scEnt, bool) { return a.ent(a.c.LoadAndDelete(a.key(k))) }
func (a *scT[K, V]) CompareAndDelete(k int, e scEnt) bool {
	return a.c.CompareAndDelete(a.key(k), e.(entT[V]).e)
}
func (a *scT[K, V]) CompareValueAndDelete(k int, v int64) bool {
	return a.c.CompareValueAndDelete(a.key(k), a.enc(v))
}
func (a *scT[K, V]) Clear() { a.c.Clear() }
func (a *scT[K, V]) Range(f func(k int, e scEnt) bool) {
	stop := &stopped{}
	a.c.Range(func(k K, e *synccache.Entry[V]) bool { return stop.visit(f(a.unk(k), entT[V]{e, a.dec})) })
}
func (a *scT[K, V]) Start() { a.c.Start() }
func (a *scT[K, V]) Close() { a.c.Close() }

func mkSC[K comparable, V any](key func(int) K, unk func(K) int, enc func(int64) V, dec func(V) int64, trim time.Duration, cb func(int64)) scAd {
	a := &scT[K, V]{key: key, unk: unk, enc: enc, dec: dec}
	if cb != nil {
		cf := synccache.WithDeletedCallback[K, V](func(v V) { cb(dec(v)) })
		nop := func(*synccache.SyncCache[K, V]) {} // a caller's own option
		switch trim % 3 {
		case 0:
			a.c = synccache.NewSyncCache[K, V](trim, cf)
		case 1:
			a.c = synccache.NewSyncCache[K, V](trim, nop, cf)
		default:
			a.c = synccache.NewSyncCache[K, V](trim, cf, nop)
		}
	} else {
		a.c = synccache.NewSyncCache[K, V](trim)
	}
	return a
}

type payload struct{ a, b int64 }

func ikey(i int) int    { return i }
func skey(i int) string { return fmt.Sprintf("key-%d", i) }
func sunk(k string) int { n, _ := strconv.Atoi(k[4:]); return n }
func idv(v int64) int64 { return v }

// the code 16 (key 0, first operation or first value) is the zero value
func zenc(v int64) int64 { return v - 16 }
func zdec(v int64) int64 { return v + 16 }
func aenc(v int64) any {
	if v == 16 {
		return nil
	}
	if v%3 == 0 {
		return []int64{v}
	}
	return v
}
func adec(v any) int64 {
	switch v := v.(type) {
	case []int64:
		return v[0]
	case int64:
		return v
	case nil:
		return 16
	}
	return -79
}

// benc: values of several comparable types behind an interface; some of
// different types print alike
func benc(v int64) any {
	g := v/16/3*16 + v%16
	switch {
	case v == 16:
		return nil
	case v/16%3 == 1:
		return strconv.FormatInt(g, 10)
	case v/16%3 == 2 && v/48%2 == 1:
		return pairV{v, -v}
	case v/16%3 == 2:
		return int(g)
	}
	return g
}
func bdec(v any) int64 {
	un := func(g, k int64) int64 { return (g/16*3+k)*16 + g%16 }
	switch v := v.(type) {
	case nil:
		return 16
	case string:
		n, _ := strconv.ParseInt(v, 10, 64)
		return un(n, 1)
	case pairV:
		return v.a
	case int:
		return un(int64(v), 2)
	case int64:
		return un(v, 0)
	}
	return -79
}

func penc(v int64) *payload {
	p := &payload{v, -v}
	sim.NoteW(&p.a, locPayW)
	return p
}
func pdec(p *payload) int64 {
	if p == nil {
		return -80
	}
	sim.NoteR(&p.a, locPayR)
	if p.a != -p.b {
		return -81
	}
	return p.a
}

var locPayW = sim.AddLocs([]string{"caller's write before storing the value"})
var locPayR = sim.AddLocs([]string{"caller's read of the loaded value"})

// cells: distinct pointers to equal data, told apart by identity only.
type cell struct{ x int64 }

type cells struct {
	of map[int64]*cell
	id map[*cell]int64
}

func newCells() *cells { return &cells{map[int64]*cell{}, map[*cell]int64{}} }
func (c *cells) enc(v int64) *cell {
	p := c.of[v]
	if p == nil {
		p = &cell{}
		c.of[v], c.id[p] = p, v
	}
	return p
}
func (c *cells) dec(p *cell) int64 {
	if v, ok := c.id[p]; ok {
		return v
	}
	return -83
}

// newSC: kmode bit 0: string keys; bits 1-3: value type.
func newSC(mode int, trim time.Duration, cb func(int64)) scAd {
	if mode&1 == 1 {
		switch mode >> 1 {
		case 1:
			return mkSC(skey, sunk, aenc, adec, trim, cb)
		case 2:
			return mkSC(skey, sunk, penc, pdec, trim, cb)
		case 3:
			return mkSC(skey, sunk, benc, bdec, trim, cb)
		case 4:
			cs := newCells()
			return mkSC(skey, sunk, cs.enc, cs.dec, trim, cb)
		}
		return mkSC(skey, sunk, zenc, zdec, trim, cb)
	}
	switch mode >> 1 {
	case 1:
		return mkSC(ikey, ikey, aenc, adec, trim, cb)
	case 2:
		return mkSC(ikey, ikey, penc, pdec, trim, cb)
	case 3:
		return mkSC(ikey, ikey, benc, bdec, trim, cb)
	case 4:
		cs := newCells()
		return mkSC(ikey, ikey, cs.enc, cs.dec, trim, cb)
	}
	return mkSC(ikey, ikey, zenc, zdec, trim, cb)
}

// ---------------------------------------------------------------- workload

const msec = int64(time.Millisecond)

var scKinds = []string{"store", "load", "los", "lad", "del", "cad", "cvad", "clear", "range", "addexp", "setexp", "isexp", "sleep", "rangenest", "rangepanic", "rangeexit", "rangewait", "delexit", "start", "close", "newcache"}

var scDurs = []int64{10 * msec, 50 * msec, 1000 * msec, 4000 * msec, 6000 * msec}

type scMix struct {
	base []int
	cb   int // 0 never, 1 always, 2 either
	dup  bool
}

func scLeaps(r *sim.Rand, st *sim.Strategy) {
	st.Leaps = []int64{10 * msec, 50 * msec, 1000 * msec, 4000 * msec, 5000 * msec, 6000 * msec, 1 * msec}
	st.PTime = []float64{0, 0.004, 0.01, 0.02, 0.05, 0.1}[r.Intn(6)]
}

// longLife: an hour to two centuries, or as long as a duration can be.
func longLife(r *sim.Rand) int64 {
	switch r.Intn(3) {
	case 0:
		if r.Intn(4) == 0 {
			return math.MaxInt64
		}
		return int64(time.Hour)
	case 1:
		return 100 * 365 * 24 * int64(time.Hour)
	}
	d := int64(time.Hour) << r.Intn(20)
	return d + int64(r.U64()%uint64(d/2))/msec*msec
}

// lifeOf is what the models take for a lifetime: two centuries are for ever.
func lifeOf(d int64) int64 { return min(d, 200*365*24*int64(time.Hour)) }

func genSC(r *sim.Rand, deep bool, mx scMix) *Work {
	w := &Work{Cfg: map[string]int64{}}
	tasks := 2 + r.Intn(3)
	keys := 1 + r.Intn(3)
	w.Cfg["tasks"], w.Cfg["keys"] = int64(tasks), int64(keys)
	w.Cfg["mode"] = int64(r.Intn(2))
	if r.Intn(3) == 0 {
		w.Cfg["mode"] += 6 + int64(r.Intn(2))*2
	}
	w.Cfg["cb"] = int64(mx.cb)
	if mx.cb == 2 {
		w.Cfg["cb"] = int64(r.Intn(2))
	}
	dup := mx.dup && r.Intn(3) == 0
	if dup {
		w.Cfg["dup"] = 1
	}
	w.Cfg["trim"] = []int64{0, 1, 1000 * msec, 5000 * msec, 60000 * msec}[r.Intn(5)]
	w.Cfg["cbslow"] = []int64{0, 0, 0, 30 * msec}[r.Intn(4)]
	if r.Intn(40) == 0 { // a bigger cache: more entries that nobody touches
		w.Cfg["extra"] = int64(3 + r.Intn(40))
		if r.Intn(4) == 0 {
			w.Cfg["extra"] = int64(40 + r.Intn(200))
		}
		w.Cfg["cbslow"] = 0
	}
	id := 0
	longOnly := r.Intn(5) == 0 // nothing expires
	var far []int64            // lifetimes the clock has to leap for
	dur := func() int64 {
		if longOnly || r.Intn(5) == 0 {
			return longLife(r)
		}
		if r.Intn(10) == 0 {
			d := int64(10*time.Second) << r.Intn(18)
			d += int64(r.U64()%uint64(d)) / msec * msec
			if r.Intn(3) == 0 {
				d -= d % int64(time.Hour)
				d = max(d, int64(time.Minute))
			}
			far = append(far, d)
			return d
		}
		if r.Intn(12) == 0 {
			return []int64{0, -1, -5 * msec, 1, msec, 3*msec + 7}[r.Intn(6)]
		}
		return scDurs[r.Intn(len(scDurs))]
	}
	waited := false
	gen := func(wts []int, ph, task int) Op {
		id++
		o := Op{ID: id, Phase: ph, Task: task, Kind: scKinds[pickW(r, wts)], Key: r.Intn(keys)}
		o.A = int64(id)*16 + int64(o.Key)
		if dup {
			o.A = int64(1+r.Intn(2))*16 + int64(o.Key)
			if o.Kind == "cad" || o.Kind == "addexp" || o.Kind == "setexp" || o.Kind == "isexp" {
				o.Kind = "cvad"
			}
		}
		o.B = dur()
		if o.Kind == "addexp" {
			o.B -= o.B % msec
			if o.B < 0 {
				o.B = msec
			}
			if o.B > int64(time.Hour) {
				o.B = int64(time.Hour)
			}
			if r.Intn(3) == 0 {
				o.B = -o.B
			}
		}
		o.C = int64(r.Intn(6))
		o.D = int64(r.U64() % 1000)
		if o.Kind == "rangewait" {
			if waited {
				o.Kind = "range"
			}
			waited = true
		}
		if o.Kind == "sleep" {
			o.B = []int64{msec, 11 * msec, 51 * msec, 1001 * msec, 5001 * msec}[r.Intn(5)]
		}
		return o
	}
	pre := make([]int, len(scKinds))
	copy(pre, []int{6, 2, 2, 0, 1, 0, 0, 0, 1, 1, 1, 0, 1})
	for i := r.Intn(6); i > 0; i-- {
		w.Ops = append(w.Ops, gen(pre, 0, 0))
	}
	phases := 1 + r.Intn(2)
	if deep {
		phases = 1 + r.Intn(3)
	}
	for ph := 1; ph <= phases; ph++ {
		wts := swarm(r, mx.base)
		waited = false
		n := 2 + r.Intn(5)
		if deep {
			n = 2 + r.Intn(8)
		}
		for t := 0; t < tasks; t++ {
			for i := 0; i < n; i++ {
				if r.Intn(4) > 0 {
					w.Ops = append(w.Ops, gen(wts, ph, t))
				}
			}
		}
	}
	w.Cfg["phases"] = int64(phases + 1)
	w.Strat = stratFor(r, 60*len(w.Ops)/tasks+80)
	w.Strat.MaxSteps += 2000 * int(w.Cfg["extra"])
	scLeaps(r, &w.Strat)
	if len(far) > 0 && w.Cfg["extra"] == 0 && r.Intn(4) > 0 {
		d := far[r.Intn(len(far))]
		w.Strat.Leaps = append(w.Strat.Leaps, d, d, d-5*msec)
		w.Strat.PTime = max(w.Strat.PTime, 0.01)
	}
	return w
}

// genSCExp: several tasks move one entry's expiry at once; later readers look
// just before and just after the instant that results.
func genSCExp(r *sim.Rand) *Work {
	w := &Work{Cfg: map[string]int64{}}
	tasks := 2 + r.Intn(2)
	w.Cfg["tasks"], w.Cfg["keys"], w.Cfg["mode"], w.Cfg["cb"] = int64(tasks), 1, int64(r.Intn(2)), int64(r.Intn(2))
	w.Cfg["trim"] = []int64{0, 1000 * msec, 60000 * msec}[r.Intn(3)]
	id := 0
	add := func(ph, task int, kind string, b int64) {
		id++
		w.Ops = append(w.Ops, Op{ID: id, Phase: ph, Task: task, Kind: kind, A: int64(id) * 16, B: b, D: int64(r.U64() % 1000)})
	}
	life := []int64{50 * msec, 1000 * msec, 4000 * msec, 6000 * msec}[r.Intn(4)]
	add(0, 0, []string{"store", "los"}[r.Intn(2)], life)
	add(0, 0, "load", 0)
	end := life
	var ds []int64
	for t := 0; t < tasks; t++ {
		for i := 1 + r.Intn(2); i > 0; i-- {
			d := []int64{10 * msec, 50 * msec, 700 * msec, 1000 * msec, 4000 * msec, 3600000 * msec}[r.Intn(6)]
			if r.Intn(5) == 0 {
				d = -d
			}
			ds = append(ds, d)
			switch r.Intn(10) {
			case 0:
				add(1, t, "setexp", max(d, -d))
			case 1:
				add(1, t, []string{"load", "isexp", "store"}[r.Intn(3)], life)
			default:
				add(1, t, "addexp", d)
				end += d
			}
		}
	}
	// around the new end, short of it by less than one of the extensions
	at := int64(0)
	for _, off := range []int64{-max(ds[0], -ds[0]) / 2, -max(ds[len(ds)-1], -ds[len(ds)-1]) / 2, 5 * msec} {
		if r.Intn(3) > 0 && end+off > at {
			add(2, 0, "sleep", end+off-at)
			at = end + off
			add(2, 0, []string{"load", "isexp", "load"}[r.Intn(3)], 0)
		}
	}
	add(2, 0, "load", 0)
	w.Cfg["phases"] = 3
	w.Strat = stratFor(r, 60*len(w.Ops)/tasks+80)
	return w
}

// genSCDuel: the entries have expired but are still there (or are about to be
// swept) when several tasks look at, remove and replace them.
func genSCDuel(r *sim.Rand, cb int64) *Work {
	w := &Work{Cfg: map[string]int64{}}
	tasks, keys := 2+r.Intn(2), 1+r.Intn(4)/3
	w.Cfg["tasks"], w.Cfg["keys"], w.Cfg["mode"], w.Cfg["cb"] = int64(tasks), int64(keys), int64(r.Intn(2)), cb
	w.Cfg["trim"] = []int64{0, 1000 * msec, 60000 * msec}[r.Intn(3)]
	id := 0
	add := func(ph, task int, kind string, key int, b int64) {
		id++
		w.Ops = append(w.Ops, Op{ID: id, Phase: ph, Task: task, Kind: kind, Key: key, A: int64(id)*16 + int64(key), B: b, C: int64(r.Intn(6)), D: int64(r.U64() % 1000)})
	}
	life := []int64{10 * msec, 50 * msec, 1000 * msec, 4990 * msec}[r.Intn(4)]
	if r.Intn(8) == 0 {
		life = []int64{-5 * msec, 0, msec}[r.Intn(3)]
	}
	for k := 0; k < keys; k++ {
		if k == 0 || r.Intn(3) > 0 {
			add(0, 0, []string{"store", "los"}[r.Intn(2)], k, life)
		}
		if r.Intn(4) == 0 {
			add(0, 0, "load", k, 0)
		}
	}
	if r.Intn(2) > 0 { // to just before or after the expiry
		if d := max(life, 0) + []int64{-5 * msec, -3 * msec, -msec, msec, 2 * msec, 9 * msec, 10 * msec, 11 * msec}[r.Intn(8)]; d > 0 {
			add(0, 0, "sleep", 0, d)
		}
	}
	kinds := []string{"store", "los", "load", "range", "lad", "del", "cvad", "cad", "clear"}
	wts := swarm(r, []int{6, 4, 5, 4, 3, 2, 2, 1, 1})
	for t := 0; t < tasks; t++ {
		for i := 1 + r.Intn(3); i > 0; i-- {
			d := int64(3600000) * msec
			if r.Intn(5) == 0 {
				d = []int64{life, 0, 10 * msec}[r.Intn(3)]
			}
			add(1, t, kinds[pickW(r, wts)], r.Intn(keys), d)
		}
	}
	for k := 0; k < keys; k++ {
		add(2, 0, "load", k, 0)
	}
	w.Cfg["phases"] = 3
	w.Strat = stratFor(r, 60*len(w.Ops)/tasks+80)
	if r.Intn(4) > 0 { // it expires in the middle of a call
		w.Strat.Leaps = []int64{3 * msec, 5 * msec, max(life, msec), max(life, msec), 12 * msec}
		w.Strat.PTime = []float64{0.01, 0.02, 0.03, 0.06}[r.Intn(4)]
	}
	return w
}

// ---------------------------------------------------------------- history

const (
	sLoad = iota
	sStore
	sLOS
	sLAD
	sDel
	sCAD
	sCVAD
	sClear
	sSee
	sMiss
	sAddExp
	sSetExp
	sIsExp
	sMaybeDel // interrupted removal
	sRm       // callback: this entry left
	sMaybeLOS // interrupted LoadOrStore
)

var scNames = []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "CompareAndDelete", "CompareValueAndDelete", "Clear", "Range-saw", "Range-did-not-see", "AddExpiration", "SetExpiration", "IsExpired", "interrupted-removal", "callback", "interrupted-LoadOrStore"}

type scCall struct { // one callback
	val  int64
	seq  uint64
	done uint64
}

type scRec struct {
	op    Op
	kind  int
	inv   uint64
	ret   uint64
	ok    bool
	val   int64 // observed value
	arg   int64 // argument entry or value
	abs   int64 // SetExpiration argument (ns)
	calls []*scCall
	vis   []scVis
	full  bool // Range ran to completion
	pan   bool
	inj   bool // a panic was injected below this operation
}

type scSeen struct { // per key, the last entry handed out
	e [8]scEnt
	v [8]int64
}

type scVis struct {
	k   int
	val int64
	seq uint64
}

type scRun struct {
	s      *sim.Sim
	w      *Work
	h      *Hist
	c      scAd
	keys   int
	recs   []*scRec
	cur    map[int]*scRec // by task
	bg     []*scCall
	seen   map[int]*scSeen // entries handed out
	own    bool            // entries are not passed between tasks
	dup    bool
	onCall func(val int64, rec *scRec)
	count  map[int64]int
	live   int
	act    int
	over   int
	depth  map[int]int
	extra  int  // entries of keys xKey.. that nobody but Clear removes
	xclrs  int  // Clear calls begun
	xfull  int  // Clear calls completed
	xdone  bool // one of them has completed in an earlier phase
	xcalls []int
}

const scX = int64(1) << 40 // their values

// extras checks the entries nobody touches, while nothing runs.
func (r *scRun) extras() {
	for i := 0; i < r.extra; i++ {
		e, ok := r.c.Load(xKey + i)
		if ok && e.Val() != scX+int64(i) {
			r.s.Fail("wrong-value", "key %d served value %d; only %d was ever stored", xKey+i, e.Val(), scX+int64(i))
		}
		if r.xclrs > 0 && r.xfull == 0 { // interrupted: gone and reported, or neither
			if r.w.Cfg["cb"] == 1 && r.xcalls[i] != map[bool]int{false: 1}[ok] {
				r.s.Fail("callbacks", "after an interrupted Clear the entry of key %d is there: %v, its deletion callback ran %d times", xKey+i, ok, r.xcalls[i])
			}
			continue
		}
		if ok != (r.xclrs == 0) {
			r.s.Fail("ttl-linearizability", "Load(%d) found %v; the entry was stored once, expires in 100 years, and %d Clear calls have completed", xKey+i, ok, r.xclrs)
		}
		if r.w.Cfg["cb"] == 1 {
			if want := min(r.xclrs, 1); r.xcalls[i] != want {
				r.s.Fail("callbacks", "the deletion callback ran %d times for the entry of key %d, stored once and untouched until %d Clear calls", r.xcalls[i], xKey+i, r.xclrs)
			}
		}
		if r.s.Violation() != nil {
			return
		}
	}
}

func newSCRun(s *sim.Sim, w *Work, h *Hist) *scRun {
	return &scRun{s: s, w: w, h: h, keys: int(w.Cfg["keys"]), cur: map[int]*scRec{}, dup: w.Cfg["dup"] == 1, count: map[int64]int{}, seen: map[int]*scSeen{}, own: w.Race, depth: map[int]int{}}
}

func (r *scRun) callback(val int64) {
	s := r.s
	if i := int(val - scX); i >= 0 && i < r.extra {
		r.xcalls[i]++
		sim.Point("deletion callback")
		return
	}
	c := &scCall{val: val, seq: s.Seq()}
	rec := r.cur[s.Cur().ID]
	if r.h.on {
		who := "background"
		if rec != nil {
			who = fmt.Sprintf("op#%d", rec.op.ID)
		}
		r.h.logf("[%d] t=%dms deletion callback(%d) in %s", c.seq, (sim.Now()-sim.Epoch)/msec, val, who)
	}
	if rec != nil {
		rec.calls = append(rec.calls, c)
	} else {
		r.bg = append(r.bg, c)
		s.Probe("entry removed by the background sweep")
	}
	r.count[val]++
	sim.Point("deletion callback")
	if d := r.w.Cfg["cbslow"]; d > 0 {
		s.Fault("slow deletion callback")
		sim.Sleep(d)
	}
	if r.onCall != nil {
		r.onCall(val, rec)
	}
	c.done = s.Seq()
}

// mine is where the current task keeps the entries it was handed. When races
// are judged, tasks do not exchange entries behind the cache's back.
func (r *scRun) mine() *scSeen {
	id := 0
	if r.own {
		id = r.s.Cur().ID
	}
	x := r.seen[id]
	if x == nil {
		x = &scSeen{}
		r.seen[id] = x
	}
	return x
}

func (r *scRun) note(k int, e scEnt) int64 {
	v := e.Val()
	if int(v%16) != k || v < 0 {
		r.s.Fail("wrong-value", "key %d served value %d, which was stored under key %d", k, v, v%16)
	}
	x := r.mine()
	x.e[k], x.v[k] = e, v
	return v
}

func (r *scRun) do(o Op) {
	s, c := r.s, r.c
	tid := s.Cur().ID
	rec := &scRec{op: o, kind: -1}
	prev := r.cur[tid]
	r.act++
	if r.act > 1 {
		r.over++
	}
	have := r.mine()
	ent, entV := have.e[o.Key], have.v[o.Key]
	if (o.Kind == "cad" || o.Kind == "addexp" || o.Kind == "setexp" || o.Kind == "isexp") && ent == nil {
		o.Kind = "load"
	}
	rec.op.Kind = o.Kind
	rec.inv = s.Seq()
	r.cur[tid] = rec
	d := time.Duration(o.B)
	pv, pan := guard(func() {
		switch o.Kind {
		case "store":
			rec.kind, rec.arg = sStore, o.A
			c.Store(o.Key, o.A, d)
		case "load":
			rec.kind = sLoad
			e, ok := c.Load(o.Key)
			rec.ok = ok
			if ok {
				rec.val = r.note(o.Key, e)
			}
		case "los":
			rec.kind, rec.arg = sLOS, o.A
			e, ok := c.LoadOrStore(o.Key, o.A, d)
			rec.ok = ok
			if e == nil {
				s.Fail("nil-entry", "LoadOrStore returned no entry")
				return
			}
			rec.val = r.note(o.Key, e)
		case "lad":
			rec.kind = sLAD
			e, ok := c.LoadAndDelete(o.Key)
			rec.ok = ok
			if ok {
				rec.val = r.note(o.Key, e)
			}
		case "del":
			rec.kind = sDel
			c.Delete(o.Key)
		case "cad":
			rec.kind, rec.arg = sCAD, entV
			rec.ok = c.CompareAndDelete(o.Key, ent)
		case "cvad":
			rec.kind = sCVAD
			rec.arg = o.A
			if o.C > 0 && ent != nil {
				rec.arg = entV
				if o.D%8 == 0 { // its neighbour: may look alike, is not equal
					rec.arg += 16
				}
			}
			rec.ok = c.CompareValueAndDelete(o.Key, rec.arg)
		case "clear":
			rec.kind = sClear
			r.xclrs++
			c.Clear()
			r.xfull++
		case "addexp":
			rec.kind, rec.arg = sAddExp, entV
			ent.AddExpiration(d)
		case "setexp":
			rec.kind, rec.arg = sSetExp, entV
			rec.abs = sim.Now() + lifeOf(o.B)
			at := time.Unix(0, rec.abs).UTC()
			switch o.D % 24 {
			case 0: // callers who want it gone at once
				rec.abs, at = 0, time.Unix(0, 0)
			case 1:
				rec.abs, at = -1<<61, time.Time{}
			case 2:
				rec.abs, at = -5e9, time.Unix(-5, 0)
			case 3: // or kept for ever
				rec.abs, at = 9e18, time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC)
			}
			ent.SetExpiration(at)
		case "isexp":
			rec.kind, rec.arg = sIsExp, entV
			rec.ok = ent.IsExpired()
		case "sleep":
			sim.Sleep(o.B)
		case "start":
			c.Start()
		case "close":
			c.Close()
		case "newcache":
			c2 := newSC(int(r.w.Cfg["mode"]), time.Duration(r.w.Cfg["trim"]), nil)
			c2.Store(o.Key, o.A, d)
			c2.Load(o.Key)
			if o.D%2 == 0 {
				c2.Close()
			}
		case "delexit":
			rec.kind = sMaybeDel
			t := s.Spawn("exiter", func() {
				s.SetOp(100000 + o.ID)
				r.cur[s.Cur().ID] = rec
				c.Delete(o.Key)
				rec.kind = sDel
			})
			s.Join(t)
		default:
			r.rng(o, rec)
		}
	})
	rec.ret = s.Seq()
	r.act--
	r.cur[tid] = prev
	if rec.inj && !pan && o.Kind != "delexit" {
		s.Fail("panic-lost", "a panic in a deletion callback did not reach the caller of %s", o.Kind)
	}
	if pan {
		if wasInjected(pv) {
			rec.pan = true
		} else if o.Kind == "cvad" && r.w.Cfg["mode"]>>1 == 1 && rec.arg%3 == 0 {
			s.Fault("uncomparable values: panic")
			rec.kind = -1
		} else {
			s.Fail("panic", "%s panicked: %v", o.Kind, pv)
		}
	}
	r.recs = append(r.recs, rec)
	if r.h.on {
		r.h.logf("[%d-%d] t=%dms %s op#%d %s(k%d arg=%d d=%dms) -> %d %v%s", rec.inv, rec.ret, (sim.Now()-sim.Epoch)/msec, s.Cur().Name, o.ID, o.Kind, o.Key, rec.arg, o.B/msec, rec.val, rec.ok, map[bool]string{true: " PANIC"}[pan])
	}
}

func (r *scRun) rng(o Op, rec *scRec) {
	s, c := r.s, r.c
	seen := map[int]bool{}
	n := 0
	rec.full = true
	stopAt := -1
	if o.Kind == "range" && o.D%4 == 0 {
		stopAt = int(o.C)
	}
	xclrs, xseen := r.xclrs, 0
	cb := func(k int, e scEnt) bool {
		sim.Point("range callback")
		if i := k - xKey; i >= 0 && i < r.extra && !seen[k] {
			seen[k] = true
			xseen++
			if e.Val() != scX+int64(i) {
				s.Fail("wrong-value", "Range served key %d with value %d; only %d was ever stored", k, e.Val(), scX+int64(i))
			}
			return true
		}
		if k < 0 || k >= r.keys || seen[k] {
			s.Fail("range", "Range visited key %d twice or a key never stored", k)
			return false
		}
		seen[k] = true
		v := r.note(k, e)
		rec.vis = append(rec.vis, scVis{k, v, s.Seq()})
		if r.h.on {
			r.h.logf("[%d] op#%d Range visits k%d=%d", s.Seq(), o.ID, k, v)
		}
		n++
		switch o.Kind {
		case "rangenest":
			in := o
			in.ID = o.ID + 50000 + n*1000
			in.A = int64(in.ID)*16 + int64(o.Key)
			in.Kind = scNested[int(o.D+int64(n))%len(scNested)]
			if o.D%3 == 0 {
				in.Key = k
				in.A = int64(in.ID)*16 + int64(k)
			}
			r.do(in)
		case "rangewait":
			if n == 1 {
				r.live--
				s.Probe("Range callback held while others run")
				sim.Block("range callback waits for the others", func() bool { return r.live <= 0 })
				r.live++
			}
		case "rangepanic", "rangeexit":
			if n > int(o.C)%3 {
				rec.full = false
				s.Fault("callback panic/exit in Range")
				if o.Kind == "rangepanic" {
					injectPanic(n + o.ID)
				}
				runtime.Goexit()
			}
		}
		if n-1 == stopAt {
			rec.full = false
			return false
		}
		return true
	}
	if o.Kind == "rangeexit" {
		t := s.Spawn("exiter", func() {
			s.SetOp(100000 + o.ID)
			r.cur[s.Cur().ID] = rec
			c.Range(cb)
			if !rec.full {
				s.Fail("exit-lost", "Goexit in a Range callback was swallowed")
			}
		})
		s.Join(t)
		return
	}
	c.Range(cb)
	if rec.full && (r.xclrs == 0 && xseen != r.extra || xclrs > 0 && r.xdone && xseen > 0) {
		s.Fail("range", "Range visited %d of %d entries nobody touches; %d Clear calls", xseen, r.extra, r.xclrs)
	}
	if o.Kind == "rangepanic" && !rec.full {
		s.Fail("panic-lost", "a panic in a Range callback did not reach the caller of Range")
	}
}

func (r *scRun) phasesRun() {
	w, s := r.w, r.s
	for ph := 0; ph < w.phases(); ph++ {
		pt := w.phase(ph)
		r.live = len(pt)
		over := r.over
		r.h.logf("-- phase %d", ph)
		runPhase(s, w, ph, func(task int, o Op) {
			r.do(o)
			if o.ID == pt[task][len(pt[task])-1].ID {
				r.live--
			}
		}, func(int) { r.live-- })
		if r.over > over {
			r.h.nontriv = true
		}
		if s.Violation() != nil {
			return
		}
		r.h.logf("-- quiet")
		for k := 0; k < r.keys; k++ {
			r.do(Op{ID: 900000 + ph*100 + k, Kind: "load", Key: k})
		}
		r.xdone = r.xfull > 0
		r.do(Op{ID: 900000 + ph*100 + 50, Kind: "range", D: 1})
		if s.Violation() != nil {
			return
		}
		r.extras()
		if s.Violation() != nil {
			return
		}
	}
}

// ---------------------------------------------------------------- model

// scState is the store operation whose entry the key holds; -1 none.
type scState int32

type scMod struct { // a change of an entry's expiry
	inv, ret uint64
	set      bool
	v        int64
	late     uint64 // until when somebody may act on what the expiry was before
}

type scModel struct {
	r      *scRun
	strict bool // removals only through callbacks
	stores map[scState]*linOp
	mods   map[int64][]scMod // by value
}

func (m *scModel) init(ops []linOp) {
	m.stores = map[scState]*linOp{}
	m.mods = map[int64][]scMod{}
	for i := range ops {
		o := &ops[i]
		switch o.kind {
		case sStore, sMaybeLOS:
			m.stores[scState(o.e)] = o
		case sLOS:
			if !o.ok {
				m.stores[scState(o.e)] = o
			}
		case sAddExp, sSetExp:
			x := scMod{inv: o.inv, ret: o.ret, set: o.kind == sSetExp, v: o.b}
			x.late = max(x.ret, m.r.s.ActiveUntil(x.inv, x.ret))
			for _, c := range m.r.recs {
				if c.inv <= x.ret && c.ret >= x.inv {
					x.late = max(x.late, c.ret)
				}
			}
			m.mods[o.a] = append(m.mods[o.a], x)
		}
	}
}

func (m *scModel) val(h scState) int64 { return m.stores[h].a }

func satAdd(a, b int64) int64 {
	c := a + b
	if b > 0 && c < a {
		return math.MaxInt64
	}
	return c
}

// expiry bounds the values the entry's expiry can have within [from,to].
func (m *scModel) expiry(h scState, from, to uint64, late bool) (lo, hi int64) {
	st := m.stores[h]
	mods := m.mods[st.a]
	if late {
		mods = append([]scMod(nil), mods...)
		for i := range mods {
			mods[i].ret = mods[i].late
		}
	}
	adds := func(lo, hi int64, after, sure uint64) (int64, int64) {
		// additions certainly (or possibly) applied on top of a base value that
		// was set between after and sure
		for _, x := range mods {
			if x.set || x.inv > to || x.ret < after {
				continue
			}
			if x.ret < from && x.inv > sure {
				lo, hi = satAdd(lo, x.v), satAdd(hi, x.v)
			} else if x.v < 0 {
				lo = satAdd(lo, x.v)
			} else {
				hi = satAdd(hi, x.v)
			}
		}
		return lo, hi
	}
	lo, hi = math.MaxInt64, math.MinInt64
	join := func(l, h int64) { lo, hi = min(lo, l), max(hi, h) }
	over := func(inv, ret uint64) bool { // certainly replaced by a later set
		for _, y := range mods {
			if y.set && y.ret < from && y.inv > ret {
				return true
			}
		}
		return false
	}
	if !over(st.inv, st.inv) {
		join(adds(satAdd(st.tlo, st.b), satAdd(st.thi, st.b), 0, 0))
	}
	for _, x := range mods {
		if x.set && x.inv <= to && !over(x.inv, x.ret) {
			join(adds(x.v, x.v, x.inv, x.ret))
		}
	}
	return
}

// mayHaveExpired: the entry can have been past its expiry before the latest
// instant at which o can take effect. A change of expiry counts, for calls and
// sweeps that overlap it, until they end: reading the expiry, reading the clock
// and acting on it are steps of their own, in any order.
func (m *scModel) mayHaveExpired(h scState, o *linOp) bool {
	st := m.stores[h]
	if len(m.mods[st.a]) == 0 {
		_, hi := m.r.s.ClockRange(st.inv, o.up)
		return hi > satAdd(st.tlo, st.b)-msec
	}
	found := false
	var pq uint64
	var pt int64
	first := true
	seg := func(q1, q2 uint64, t int64) {
		if lo, _ := m.expiry(h, q1, q2, true); t > lo-msec {
			found = true
		}
	}
	m.r.s.ClockPoints(st.inv, o.up, func(q uint64, t int64) {
		if !first {
			seg(pq, q, pt)
		}
		pq, pt, first = q, t, false
	})
	seg(pq, o.ret, pt)
	return found
}

// fresh: the entry can have been unexpired at some instant of o.
func (m *scModel) fresh(h scState, o *linOp) bool {
	_, hi := m.expiry(h, o.inv, o.ret, false)
	return o.tlo < satAdd(hi, msec)
}

func (m *scModel) step(st scState, o *linOp, out []scState) []scState {
	none := scState(-1)
	has := st >= 0
	hit := func() bool { return has && m.val(st) == o.out && m.fresh(st, o) }
	exp := has && m.mayHaveExpired(st, o)
	// gone: the key can be empty at this point
	gone := !has || exp && !m.strict
	switch o.kind {
	case sStore:
		out = append(out, scState(o.e))
	case sLoad, sSee:
		if o.ok {
			if hit() {
				out = append(out, st)
			}
			return out
		}
		fallthrough
	case sMiss:
		if gone {
			out = append(out, none)
		}
		if exp {
			out = append(out, st)
		}
	case sLOS:
		if o.ok {
			if hit() {
				out = append(out, st)
			}
		} else if gone {
			out = append(out, scState(o.e))
		}
	case sLAD:
		if o.ok {
			if hit() {
				out = append(out, none)
			}
		} else if gone {
			out = append(out, none)
		}
	case sDel:
		if !m.strict || !has {
			out = append(out, none)
		}
	case sClear:
		if !m.strict || !has {
			out = append(out, none)
		}
	case sCAD, sCVAD:
		match := has && m.val(st) == o.b
		if o.ok {
			if match {
				out = append(out, none)
			}
		} else {
			if !match {
				out = append(out, st)
			}
			if match && exp {
				out = append(out, st)
			}
			if gone {
				out = append(out, none)
			}
		}
	case sRm:
		// o.a: value; o.ok: the operation may remove unexpired entries
		if has && m.val(st) == o.a && (o.ok || exp) {
			out = append(out, none)
		}
	case sMaybeDel:
		out = append(out, st, none)
	case sMaybeLOS:
		out = append(out, st, none, scState(o.e))
	case sAddExp, sSetExp:
		out = append(out, st)
	case sIsExp:
		if has && m.val(st) == o.a {
			lo, hi := m.expiry(st, o.inv, o.ret, false)
			if o.ok && o.thi <= lo-msec || !o.ok && o.tlo >= satAdd(hi, msec) {
				return out
			}
		}
		out = append(out, st)
	}
	return out
}

// linFor builds key k's history for the lenient model (callbacks ignored).
func (r *scRun) linFor(k int, m *scModel) []linOp {
	var ops []linOp
	add := func(o linOp) {
		o.tlo, o.thi = r.s.ClockRange(o.inv, o.ret)
		o.key = k
		ops = append(ops, o)
	}
	for _, c := range r.recs {
		mine := c.op.Key == k
		base := linOp{inv: c.inv, ret: c.ret, kind: c.kind, ok: c.ok, out: c.val, a: c.arg, b: lifeOf(c.op.B), e: c.op.ID}
		switch c.kind {
		case sStore, sLoad, sLAD, sDel:
			if mine {
				if c.pan && (c.kind == sLAD || c.kind == sDel || c.kind == sLoad) {
					base.kind = sMaybeDel
				}
				add(base)
			}
		case sLOS:
			if mine {
				if c.pan {
					base.kind = sMaybeLOS
				}
				add(base)
			}
		case sCAD, sCVAD:
			if mine {
				base.b = c.arg
				if c.pan {
					base.kind = sMaybeDel
				}
				add(base)
			}
		case sMaybeDel:
			if mine {
				add(base)
			}
		case sAddExp:
			if mine {
				add(base)
			}
		case sSetExp:
			if mine {
				base.b = c.abs
				add(base)
			}
		case sIsExp:
			if mine {
				add(base)
			}
		case sClear:
			if c.pan {
				base.kind = sMaybeDel
			}
			add(base)
		case -1:
			if c.op.Kind == "sleep" || c.op.Kind == "cvad" {
				continue
			}
			saw := false
			for _, v := range c.vis {
				if v.k == k {
					saw = true
					add(linOp{inv: c.inv, ret: v.seq, kind: sSee, ok: true, out: v.val, e: c.op.ID})
				}
			}
			if !saw && c.full && !c.pan {
				add(linOp{inv: c.inv, ret: c.ret, kind: sMiss, e: c.op.ID})
			}
			if c.pan {
				// interrupted: may have dropped expired entries only; covered by expiry
				continue
			}
		}
	}
	m.init(ops)
	return ops
}

func (r *scRun) checkTTL(class string) {
	for k := 0; k < r.keys; k++ {
		m := &scModel{r: r}
		ops := r.linFor(k, m)
		res, best := checkLin(ops, scState(-1), m.step, 300000)
		r.h.checks++
		switch res {
		case linUnknown:
			r.h.inconcl = true
		case linBad:
			r.s.Fail(class, "no history of key %d explains what was observed (longest explainable prefix %d of %d): %s", k, best, len(ops), r.describe(ops))
			return
		}
	}
}

func (r *scRun) describe(ops []linOp) string {
	out := ""
	for i, o := range ops {
		if i > 30 {
			out += "..."
			break
		}
		out += fmt.Sprintf("[%d-%d t=%d..%dms] %s(k%d %d,%d)=%d,%v; ", o.inv, o.ret, (o.tlo-sim.Epoch)/msec, (o.thi-sim.Epoch)/msec, scNames[o.kind], o.key, o.a, o.b/msec, o.out, o.ok)
	}
	return out
}

// checkCalls: removals happen exactly through callbacks.
func (r *scRun) checkCalls() {
	s := r.s
	for v, n := range r.count {
		if n > 1 {
			s.Fail("callback-twice", "the deletion callback ran %d times for value %d", n, v)
			return
		}
	}
	keyOf := func(v int64) int { return int(v % 16) }
	for k := 0; k < r.keys; k++ {
		var ops []linOp
		m := &scModel{r: r, strict: true}
		add := func(o linOp) {
			o.tlo, o.thi = s.ClockRange(o.inv, o.ret)
			o.key = k
			ops = append(ops, o)
		}
		stInv := map[int64]uint64{}
		for _, c := range r.recs {
			if c.kind == sStore || c.kind == sLOS {
				stInv[c.arg] = c.inv
			}
		}
		for _, c := range r.recs {
			mine := c.op.Key == k
			base := linOp{inv: c.inv, ret: c.ret, kind: c.kind, ok: c.ok, out: c.val, a: c.arg, b: lifeOf(c.op.B), e: c.op.ID}
			// callbacks this operation ran for this key
			var own []*scCall
			for _, x := range c.calls {
				if keyOf(x.val) == k {
					own = append(own, x)
				}
			}
			explicit := func(v int64) bool {
				switch c.kind {
				case sDel, sClear:
					return true
				case sLAD:
					return c.ok && v == c.val
				case sCAD, sCVAD:
					return v == c.arg
				}
				return false
			}
			used := func(v int64) { // the operation's own removal is its callback
				add(linOp{inv: c.inv, ret: c.ret, kind: sRm, a: v, ok: true, e: c.op.ID})
			}
			for _, x := range own {
				add(linOp{inv: c.inv, ret: x.seq, kind: sRm, a: x.val, ok: explicit(x.val), e: c.op.ID})
			}
			_ = used
			had := func(v int64) bool {
				for _, x := range own {
					if x.val == v {
						return true
					}
				}
				return false
			}
			switch c.kind {
			case sStore, sLoad, sLOS:
				if mine {
					add(base)
				}
			case sLAD:
				if !mine {
					break
				}
				if c.ok {
					if !had(c.val) {
						s.Fail("callback-missing", "LoadAndDelete(k%d) returned %d without running the deletion callback", k, c.val)
						return
					}
				} else if len(own) == 0 {
					base.kind, base.ok = sDel, false // strict: the key was empty at some instant
					add(base)
				}
			case sDel:
				if mine && len(own) == 0 {
					add(base)
				}
			case sCAD, sCVAD:
				if !mine {
					break
				}
				if c.ok {
					if !had(c.arg) {
						s.Fail("callback-missing", "%s(k%d,%d) reported success without running the deletion callback", scNames[c.kind], k, c.arg)
						return
					}
				} else {
					if c.kind == sCAD && had(c.arg) {
						s.Fail("callback-extra", "CompareAndDelete(k%d,%d) reported failure but ran the deletion callback", k, c.arg)
						return
					}
					base.b = c.arg
					add(base)
				}
			case sAddExp, sIsExp:
				if mine {
					add(base)
				}
			case sSetExp:
				if mine {
					base.b = c.abs
					add(base)
				}
			case sClear:
				overlap := false
				for _, d := range r.recs {
					if d.op.Key == k && (d.kind == sStore || d.kind == sLOS && !d.ok) && d.inv < c.ret && d.ret > c.inv {
						overlap = true
					}
				}
				if len(own) == 0 && !overlap {
					add(base)
				}
			case -1:
				if c.op.Kind == "sleep" || c.op.Kind == "cvad" {
					continue
				}
				saw := false
				for _, v := range c.vis {
					if v.k == k {
						saw = true
						add(linOp{inv: c.inv, ret: v.seq, kind: sSee, ok: true, out: v.val, e: c.op.ID})
					}
				}
				if !saw && c.full {
					add(linOp{inv: c.inv, ret: c.ret, kind: sMiss, e: c.op.ID})
				}
			}
		}
		for _, x := range r.bg {
			if keyOf(x.val) == k {
				add(linOp{inv: stInv[x.val], ret: x.seq, kind: sRm, a: x.val, e: -1})
			}
		}
		m.init(ops)
		res, best := checkLin(ops, scState(-1), m.step, 300000)
		r.h.checks++
		switch res {
		case linUnknown:
			r.h.inconcl = true
		case linBad:
			s.Fail("callbacks", "no history of key %d explains the removals and deletion callbacks observed (longest explainable prefix %d of %d): %s", k, best, len(ops), r.describe(ops))
			return
		}
	}
}

func (r *scRun) open() {
	var cb func(int64)
	if r.w.Cfg["cb"] == 1 {
		cb = r.callback
	}
	r.c = newSC(int(r.w.Cfg["mode"]), time.Duration(r.w.Cfg["trim"]), cb)
	r.extra = int(r.w.Cfg["extra"])
	r.xcalls = make([]int, r.extra)
	for i := 0; i < r.extra; i++ {
		r.c.Store(xKey+i, scX+int64(i), 100*365*24*time.Hour)
	}
}

func init() {
	real := []string{"synccache", "rwmap", "utils"}
	stub := []string{"clock, ticker (simulated)", "sync.Mutex, sync.Once, sync/atomic, channels, goroutines (simulated)", "map iteration order (simulated)"}
	register(&Prop{
		ID: "C06",
		Gen: func(r *sim.Rand, deep bool) *Work {
			if r.Intn(16) == 0 {
				return genSCExp(r)
			}
			if r.Intn(4) == 0 {
				return genSCDuel(r, int64(r.Intn(2)))
			}
			return genSC(r, deep, scMix{base: []int{4, 5, 3, 2, 1, 3, 2, 1, 2, 2, 1, 1, 2, 0, 0, 0, 0, 0}, cb: 2, dup: true})
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			mustStop = true
			r := newSCRun(s, w, h)
			r.open()
			r.phasesRun()
			if s.Violation() == nil {
				r.checkTTL("ttl-linearizability")
			}
		},
		Rule: "random workloads (2-4 tasks, 1-3 keys, lifetimes from negative to a century, with and without deletion callback, with the real background sweep) under a seeded scheduler and a clock that leaps around expiry and sweep instants; non-trivial when operations of different tasks overlapped; distinct by execution hash",
		Real: real, Stub: stub, Notes: []string{"the wall clock never steps backward in this property"},
	})
	register(&Prop{
		ID: "C07",
		Gen: func(r *sim.Rand, deep bool) *Work {
			if r.Intn(4) == 0 {
				return genSCDuel(r, 1)
			}
			return genSC(r, deep, scMix{base: []int{4, 3, 3, 3, 3, 4, 2, 2, 2, 2, 1, 0, 2, 0, 0, 0, 0, 0}, cb: 1})
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			r := newSCRun(s, w, h)
			r.open()
			r.phasesRun()
			if s.Violation() != nil {
				return
			}
			// let a sweep in progress finish, then account for what is left
			s.Calm()
			sim.Sleep(12000 * msec)
			r.do(Op{ID: 990000, Kind: "clear"})
			for k := 0; k < r.keys; k++ {
				r.do(Op{ID: 990001 + k, Kind: "load", Key: k})
			}
			r.extras()
			if s.Violation() == nil {
				r.checkCalls()
			}
		},
		Rule: "as C06 with a deletion callback (sometimes slow) that records every call; removals racing each other, the sweep, stores and Clear; a final Clear accounts for every entry; non-trivial when operations overlapped",
		Real: real, Stub: stub, Notes: []string{"the wall clock never steps backward in this property"},
	})
}
