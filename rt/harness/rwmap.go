package main

import (
	"fmt"
	"math"
	"runtime"

	"zz.test/repo/rwmap"
	"zz.test/sim"
)

// ---------------------------------------------------------------- adaptor

// The harness speaks small integers: a key is an index, a value is a code; an
// adaptor maps them onto the type parameters of the map under test.
type rwAd interface {
	Load(k int) (int32, bool)
	Store(k int, v int32)
	Swap(k int, v int32) (int32, bool)
	LoadOrStore(k int, v int32) (int32, bool)
	LoadAndDelete(k int) (int32, bool)
	Delete(k int)
	CompareAndSwap(k int, o, n int32) bool
	CompareAndDelete(k int, o int32) bool
	Range(f func(k int, v int32) bool)
	Clear()
	Len() int64
	SlowLen() int64
	BadKey(method int) bool // calls a method with an unhashable key; false: not possible
}

type adT[K comparable, V any] struct {
	m   rwmap.RWMap[K, V]
	key func(int) K
	unk func(K) int
	enc func(int32) V
	dec func(V) int32
	bad func() K
	old func(int32) V // comparison operands, when they differ from enc
}

func (a *adT[K, V]) setOld(f any) { a.old, _ = f.(func(int32) V) }
func (a *adT[K, V]) cmp(v int32) V {
	if a.old != nil {
		return a.old(v)
	}
	return a.enc(v)
}

func (a *adT[K, V]) val(v V, ok bool) (int32, bool) {
	if !ok {
		return -1, false
	}
	return a.dec(v), true
}
func (a *adT[K, V]) Load(k int) (int32, bool) { return a.val(a.m.Load(a.key(k))) }
func (a *adT[K, V]) Store(k int, v int32)     { a.m.Store(a.key(k), a.enc(v)) }
func (a *adT[K, V]) Swap(k int, v int32) (int32, bool) {
	return a.val(a.m.Swap(a.key(k), a.enc(v)))
}
func (a *adT[K, V]) LoadOrStore(k int, v int32) (int32, bool) {
	x, ok := a.m.LoadOrStore(a.key(k), a.enc(v))
	return a.dec(x), ok
}
func (a *adT[K, V]) LoadAndDelete(k int) (int32, bool) { return a.val(a.m.LoadAndDelete(a.key(k))) }
func (a *adT[K, V]) Delete(k int)                      { a.m.Delete(a.key(k)) }
func (a *adT[K, V]) CompareAndSwap(k int, o, n int32) bool {
	return a.m.CompareAndSwap(a.key(k), a.cmp(o), a.enc(n))
}
func (a *adT[K, V]) CompareAndDelete(k int, o int32) bool {
	return a.m.CompareAndDelete(a.key(k), a.cmp(o))
}
func (a *adT[K, V]) Range(f func(k int, v int32) bool) {
	stop := &stopped{}
	a.m.Range(func(k K, v V) bool { return stop.visit(f(a.unk(k), a.dec(v))) })
}
func (a *adT[K, V]) Clear()         { a.m.Clear() }
func (a *adT[K, V]) Len() int64     { return a.m.Len() }
func (a *adT[K, V]) SlowLen() int64 { return a.m.SlowLen() }
func (a *adT[K, V]) BadKey(method int) bool {
	if a.bad == nil {
		return false
	}
	k := a.bad()
	switch method % 7 {
	case 0:
		a.m.Load(k)
	case 1:
		a.m.Store(k, a.enc(1))
	case 2:
		a.m.LoadOrStore(k, a.enc(1))
	case 3:
		a.m.LoadAndDelete(k)
	case 4:
		a.m.Swap(k, a.enc(1))
	case 5:
		a.m.CompareAndSwap(k, a.enc(1), a.enc(2))
	case 6:
		a.m.CompareAndDelete(k, a.enc(1))
	}
	return true
}

const (
	vUnique = iota // int, every store distinct
	vSmall         // int from a domain of 3: equal values recur
	vAny           // any: nil, ints and strings
	vUnit          // struct{}: zero size
	vPtr           // pointers
	vStruct        // struct of two words
	vUncomp        // any, some of them slices
	vPub           // pointers to data the caller has just written
)

type pairV struct{ a, b int64 }

type mkey struct {
	s string
	n int8
}

func withKey[V any](kmode int, enc func(int32) V, dec func(V) int32) rwAd {
	switch kmode {
	case 1:
		return &adT[string, V]{key: func(i int) string { return fmt.Sprintf("key-%d", i) }, unk: func(k string) int { return int(k[4] - '0') }, enc: enc, dec: dec}
	case 2:
		return &adT[mkey, V]{key: func(i int) mkey { return mkey{"k", int8(i)} }, unk: func(k mkey) int { return int(k.n) }, enc: enc, dec: dec}
	case 4: // two zeros that are equal
		n := 0
		return &adT[float64, V]{key: func(i int) float64 {
			if n++; i == 0 && n%2 == 0 {
				return math.Copysign(0, -1)
			}
			return float64(i) / 4
		}, unk: func(k float64) int { return int(k * 4) }, enc: enc, dec: dec}
	case 5: // pointers to equal data
		cs := newCells()
		return &adT[*cell, V]{key: func(i int) *cell {
			if i == 1 {
				return nil
			}
			return cs.enc(int64(i))
		}, unk: func(k *cell) int {
			if k == nil {
				return 1
			}
			return int(cs.dec(k))
		}, enc: enc, dec: dec}
	case 3:
		return &adT[any, V]{key: func(i int) any {
			if i == 1 {
				return nil
			}
			switch i % 3 {
			case 0:
				return i
			case 1:
				return fmt.Sprintf("key-%d", i)
			}
			return mkey{"k", int8(i)}
		}, unk: func(k any) int {
			switch k := k.(type) {
			case nil:
				return 1
			case int:
				return k
			case string:
				return int(k[4] - '0')
			}
			return int(k.(mkey).n)
		}, enc: enc, dec: dec, bad: func() any { return []int{1} }}
	}
	return &adT[int, V]{key: func(i int) int { return i }, unk: func(k int) int { return k }, enc: enc, dec: dec}
}

func newRW(kmode, vmode int) rwAd {
	switch vmode {
	case vUncomp:
		return withKey(kmode, func(c int32) any {
			switch {
			case c == 0:
				return nil
			case c%3 == 0:
				return []int{int(c)}
			case c%2 == 1:
				return int(c)
			}
			return fmt.Sprint(c)
		}, func(v any) int32 {
			switch v := v.(type) {
			case nil:
				return 0
			case int:
				return int32(v)
			case []int:
				return int32(v[0])
			case string:
				var n int32
				fmt.Sscan(v, &n)
				return n
			}
			return -77
		})
	case vAny: // some values of different types print alike, some pointers have equal targets
		cs := newCells()
		return withKey(kmode, func(c int32) any {
			switch {
			case c == 0:
				return nil
			case c%4 == 1:
				return int(c / 4)
			case c%4 == 2:
				return fmt.Sprint(c / 4)
			case c%8 == 3:
				return int64(c / 4)
			case c%8 == 4:
				return pairV{int64(c), 1}
			}
			return cs.enc(int64(c))
		}, func(v any) int32 {
			switch v := v.(type) {
			case nil:
				return 0
			case int:
				return int32(v)*4 + 1
			case string:
				var n int32
				fmt.Sscan(v, &n)
				return n*4 + 2
			case int64:
				return int32(v)*4 + 3
			case pairV:
				return int32(v.a)
			case *cell:
				return int32(cs.dec(v))
			}
			return -77
		})
	case vUnit:
		return withKey(kmode, func(int32) struct{} { return struct{}{} }, func(struct{}) int32 { return 0 })
	case vPtr:
		cs := newCells()
		return withKey(kmode, func(c int32) *cell {
			if c == 0 {
				return nil
			}
			return cs.enc(int64(c))
		}, func(p *cell) int32 {
			if p == nil {
				return 0
			}
			return int32(cs.dec(p))
		})
	case vPub:
		last := map[int32]*payload{}
		ad := withKey(kmode, func(c int32) *payload {
			last[c] = penc(int64(c))
			return last[c]
		}, func(p *payload) int32 { return int32(pdec(p)) })
		ad.(interface{ setOld(any) }).setOld(func(c int32) *payload { return last[c] })
		return ad
	case vStruct:
		return withKey(kmode, func(c int32) pairV { return pairV{int64(c), -int64(c)} }, func(p pairV) int32 {
			if p.a != -p.b {
				return -78
			}
			return int32(p.a)
		})
	}
	return withKey(kmode, func(c int32) int { return int(c) }, func(v int) int32 { return int32(v) })
}

// ---------------------------------------------------------------- model

const (
	kLoad = iota
	kStore
	kSwap
	kLOS
	kLAD
	kDel
	kCAS
	kCAD
	kClear
	kSee    // Range reported (key,a)
	kAbsent // Range finished without the key
	kNop
)

const rwMaxK = 8

type rwState [rwMaxK]int32

// rwStep is the sequential map. Codes < 0 mean absent. uncomp marks codes that
// never compare equal.
func rwStep(uncomp bool) func(st rwState, o *linOp, out []rwState) []rwState {
	eq := func(a, b int32) bool { return a == b && !(uncomp && a != 0 && a%3 == 0) }
	return func(st rwState, o *linOp, out []rwState) []rwState {
		cur := st[o.key]
		ok := true
		switch o.kind {
		case kLoad:
			ok = o.ok == (cur >= 0) && (!o.ok || int32(o.out) == cur)
		case kStore:
			st[o.key] = int32(o.a)
		case kSwap:
			ok = o.ok == (cur >= 0) && (!o.ok || int32(o.out) == cur)
			st[o.key] = int32(o.a)
		case kLOS:
			if o.ok {
				ok = cur >= 0 && int32(o.out) == cur
			} else {
				ok = cur < 0 && o.out == o.a
				st[o.key] = int32(o.a)
			}
		case kLAD:
			ok = o.ok == (cur >= 0) && (!o.ok || int32(o.out) == cur)
			st[o.key] = -1
		case kDel:
			st[o.key] = -1
		case kCAS:
			if o.ok {
				ok = cur >= 0 && eq(cur, int32(o.b))
				st[o.key] = int32(o.a)
			} else {
				ok = cur < 0 || !eq(cur, int32(o.b))
			}
		case kCAD:
			if o.ok {
				ok = cur >= 0 && eq(cur, int32(o.b))
				st[o.key] = -1
			} else {
				ok = cur < 0 || !eq(cur, int32(o.b))
			}
		case kClear:
			for i := range st {
				st[i] = -1
			}
		case kSee:
			ok = cur == int32(o.a)
		case kAbsent:
			ok = cur < 0
		}
		if ok {
			out = append(out, st)
		}
		return out
	}
}

// ---------------------------------------------------------------- workload

var rwKinds = []string{"load", "store", "swap", "los", "lad", "del", "cas", "cad", "clear", "range", "len", "slowlen", "rangenest", "rangewait", "rangepanic", "rangeexit", "badkey"}

type rwMix struct {
	base   []int // weights per kind
	vmodes []int
	kmodes []int
}

func genRW(r *sim.Rand, deep bool, mx rwMix) *Work {
	w := &Work{Cfg: map[string]int64{}}
	tasks := 2 + r.Intn(3)
	keys := 1 + r.Intn(5)
	if r.Intn(3) == 0 {
		keys = 1 + r.Intn(2)
	}
	vm := mx.vmodes[r.Intn(len(mx.vmodes))]
	km := mx.kmodes[r.Intn(len(mx.kmodes))]
	w.Cfg["tasks"], w.Cfg["keys"], w.Cfg["vmode"], w.Cfg["kmode"] = int64(tasks), int64(keys), int64(vm), int64(km)
	if r.Intn(30) == 0 { // a bigger map: more keys that nobody touches
		w.Cfg["kmode"] = 0
		w.Cfg["extra"] = int64(3 + r.Intn(40))
		if r.Intn(4) == 0 {
			w.Cfg["extra"] = int64(40 + r.Intn(200))
		}
	}
	id := 0
	pre := swarm(r, mx.base)
	val := func() int64 {
		id++
		switch vm {
		case vUnit:
			return 0
		case vSmall:
			return int64(1 + r.Intn(3))
		case vAny, vUncomp:
			if r.Intn(4) > 0 {
				if vm == vAny && r.Intn(3) == 0 {
					return []int64{7, 8, 15, 16}[r.Intn(4)]
				}
				return int64(r.Intn(5))
			}
		case vPtr:
			return int64(r.Intn(6))
		}
		return int64(id)
	}
	noWait := false
	gen := func(wts []int, ph, task int) Op {
		o := Op{Phase: ph, Task: task, Kind: rwKinds[pickW(r, wts)], Key: r.Intn(keys)}
		o.A = val()
		o.ID = id
		o.B = -1
		if r.Intn(5) == 0 {
			o.B = o.A - int64(r.Intn(4))
			if o.B < 0 {
				o.B = 0
			}
		}
		o.C = int64(r.Intn(6))
		o.D = int64(r.U64() % 1000)
		if o.Kind == "clear" && w.Cfg["extra"] > 0 && r.Intn(3) > 0 {
			o.Kind = "del"
		}
		if o.Kind == "rangewait" {
			if noWait {
				o.Kind = "range"
			}
			noWait = true
		}
		return o
	}
	// prefill, sequential: reaches the internal states (promoted, amended,
	// deleted, expunged) concurrent phases start from
	np := r.Intn(9)
	preKinds := append([]int{}, pre...)
	preKinds[1] += 3
	for _, k := range []int{12, 13, 14, 15, 16} {
		preKinds[k] = 0
	}
	for i := 0; i < np; i++ {
		w.Ops = append(w.Ops, gen(preKinds, 0, 0))
	}
	phases := 1 + r.Intn(2)
	if deep {
		phases = 1 + r.Intn(4)
	}
	for ph := 1; ph <= phases; ph++ {
		wts := swarm(r, mx.base)
		noWait = false
		n := 2 + r.Intn(6)
		if deep {
			n = 2 + r.Intn(9)
		}
		for t := 0; t < tasks; t++ {
			for i := 0; i < n; i++ {
				if r.Intn(4) == 0 {
					continue
				}
				w.Ops = append(w.Ops, gen(wts, ph, t))
			}
		}
	}
	w.Cfg["phases"] = int64(phases + 1)
	w.Strat = stratFor(r, 60*len(w.Ops)/tasks+60)
	w.Strat.MaxSteps += 300 * int(w.Cfg["extra"])
	return w
}

type rwVisit struct {
	k   int
	v   int32
	seq uint64
}

type rwRun struct {
	s     *sim.Sim
	w     *Work
	h     *Hist
	m     rwAd
	keys  int
	last  [rwMaxK]int32
	lin   []linOp // pairs for C01/C02/C04
	slow  []rwSlow
	live  int
	pan   int
	init  rwState
	vmode int
	over  int // operations that overlapped another
	act   int
	extra int // keys xKey.. that nobody but Clear touches after they were stored
	xlo   int // of them there at the end of the phase
	clrs  int // Clear calls begun in this phase
}

const xKey = 1000

func (r *rwRun) xVal(i int) int32 {
	if r.vmode == vUnit {
		return 0
	}
	return int32(i%5*2 + 1)
}

type rwSlow struct {
	inv, ret uint64
	n        int64
}

func (r *rwRun) add(o linOp) { r.lin = append(r.lin, o) }

// do performs one operation and records it.
func (r *rwRun) do(o Op) {
	s, m := r.s, r.m
	l := linOp{key: o.Key, a: o.A, b: o.B}
	if l.b < 0 {
		l.b = int64(r.last[o.Key])
		if l.b < 0 {
			l.b = 0
		}
	}
	r.act++
	if r.act > 1 {
		r.over++
	}
	l.inv = s.Seq()
	fin := func() {
		l.ret = s.Seq()
		r.act--
		if r.h.on {
			r.h.logf("[%d-%d] task %s op#%d %s(k%d a=%d b=%d) -> %d %v", l.inv, l.ret, s.Cur().Name, o.ID, o.Kind, o.Key, l.a, l.b, l.out, l.ok)
		}
	}
	var out int32
	out = -1
	defer func() { _ = out }()
	pv, pan := guard(func() {
		switch o.Kind {
		case "load":
			l.kind = kLoad
			out, l.ok = m.Load(o.Key)
		case "store":
			l.kind = kStore
			m.Store(o.Key, int32(o.A))
			out = int32(o.A)
		case "swap":
			l.kind = kSwap
			out, l.ok = m.Swap(o.Key, int32(o.A))
		case "los":
			l.kind = kLOS
			out, l.ok = m.LoadOrStore(o.Key, int32(o.A))
		case "lad":
			l.kind = kLAD
			out, l.ok = m.LoadAndDelete(o.Key)
		case "del":
			l.kind = kDel
			m.Delete(o.Key)
		case "cas":
			l.kind = kCAS
			l.ok = m.CompareAndSwap(o.Key, int32(l.b), int32(o.A))
		case "cad":
			l.kind = kCAD
			l.ok = m.CompareAndDelete(o.Key, int32(l.b))
		case "clear":
			l.kind = kClear
			r.clrs++
			m.Clear()
		case "len":
			l.kind = kNop
			m.Len()
		case "slowlen":
			l.kind = kNop
			n := m.SlowLen()
			r.slow = append(r.slow, rwSlow{l.inv, s.Seq(), n})
			out = int32(n)
		case "badkey":
			l.kind = kNop
			l.ok = m.BadKey(int(o.D))
		default:
			l.kind = kNop
			r.rng(o, l.inv)
		}
	})
	l.out = int64(out)
	if pan {
		if wasInjected(pv) {
			r.pan++
			fin()
			return
		}
		if o.Kind == "badkey" {
			s.Fault("unhashable key: panic")
			fin()
			return
		}
		if r.vmode == vUncomp && (o.Kind == "cas" || o.Kind == "cad") {
			// comparing uncomparable values panics and changes nothing
			s.Fault("uncomparable values: panic")
			l.kind = kNop
			fin()
			return
		}
		fin()
		s.Fail("panic", "%s panicked: %v", o.Kind, pv)
		return
	}
	if o.Kind == "badkey" && l.ok {
		s.Fail("badkey", "an unhashable key was accepted")
	}
	fin()
	switch l.kind {
	case kStore, kSwap, kLOS:
		r.last[o.Key] = int32(o.A)
		if l.kind == kLOS && l.ok {
			r.last[o.Key] = out
		}
	case kLoad:
		if l.ok {
			r.last[o.Key] = out
		}
	case kCAS:
		if l.ok {
			r.last[o.Key] = int32(o.A)
		}
	}
	if l.kind != kNop {
		r.add(l)
	}
}

// rng performs a Range and records what it showed.
func (r *rwRun) rng(o Op, inv uint64) {
	s, m := r.s, r.m
	var vis []rwVisit
	seen := map[int]bool{}
	complete := true
	n := 0
	stopAt := -1
	if o.Kind == "range" && o.D%4 == 0 {
		stopAt = int(o.C)
	}
	xseen := 0
	cb := func(k int, v int32) bool {
		sim.Point("range callback")
		if i := k - xKey; i >= 0 && i < r.extra {
			if seen[k] || v != r.xVal(i) {
				s.Fail("range", "Range visited key %d, stored once with %d, with %d (visited before: %v)", k, r.xVal(i), v, seen[k])
				return false
			}
			seen[k] = true
			xseen++
			return true
		}
		if k < 0 || k >= r.keys {
			s.Fail("range", "Range reported key %d that was never stored", k)
			return false
		}
		if seen[k] {
			s.Fail("range", "Range visited key %d twice", k)
			return false
		}
		seen[k] = true
		vis = append(vis, rwVisit{k, v, s.Seq()})
		if r.h.on {
			r.h.logf("[%d] op#%d Range visits k%d=%d", s.Seq(), o.ID, k, v)
		}
		n++
		switch o.Kind {
		case "rangenest":
			in := o
			in.Kind = rwKinds[[]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11}[int(o.D+int64(n))%11]]
			if in.Kind == "clear" && r.extra > 0 && o.D%5 > 0 {
				in.Kind = "cad"
			}
			if o.D%3 == 0 {
				in.Key = k
			}
			r.do(in)
		case "rangewait":
			if n == 1 {
				s.Probe("Range callback held while others run")
				r.live--
				sim.Block("range callback waits for the others", func() bool { return r.live <= 0 })
				r.live++
			}
		case "rangepanic", "rangeexit":
			if n > int(o.C)%3 {
				complete = false
				s.Fault("callback panic/exit in Range")
				if o.Kind == "rangepanic" {
					injectPanic(n + o.ID)
				}
				runtime.Goexit()
			}
		}
		if n-1 == stopAt {
			complete = false
			return false
		}
		return true
	}
	record := func() {
		for _, v := range vis {
			r.add(linOp{kind: kSee, key: v.k, a: int64(v.v), inv: inv, ret: v.seq})
		}
		if complete {
			if xseen != r.extra && r.clrs == 0 {
				s.Fail("range", "Range visited %d of %d keys that were present throughout", xseen, r.extra)
			}
			q := s.Seq()
			for k := 0; k < r.keys; k++ {
				if !seen[k] {
					r.add(linOp{kind: kAbsent, key: k, inv: inv, ret: q})
				}
			}
		}
	}
	switch o.Kind {
	case "rangepanic":
		panicked := true
		func() {
			defer func() {
				if complete || !panicked {
					return
				}
				record()
			}()
			m.Range(cb)
			panicked = false
		}()
		if !complete {
			s.Fail("panic-lost", "a panic in a Range callback did not reach the caller of Range")
		}
		record()
	case "rangeexit":
		id := o.ID
		t := s.Spawn("exiter", func() {
			s.SetOp(100000 + id)
			m.Range(cb)
			if !complete {
				s.Fail("exit-lost", "Goexit in a Range callback was swallowed")
			}
		})
		s.Join(t)
		record()
	default:
		m.Range(cb)
		record()
	}
}

// runRW executes the workload; after each phase quiet is called with the
// content main read back.
func runRW(s *sim.Sim, w *Work, h *Hist, endPhase func(r *rwRun)) *rwRun {
	r := &rwRun{s: s, w: w, h: h, keys: int(w.Cfg["keys"]), vmode: int(w.Cfg["vmode"])}
	r.m = newRW(int(w.Cfg["kmode"]), r.vmode)
	for i := range r.init {
		r.init[i] = -1
		r.last[i] = -1
	}
	if r.extra = int(w.Cfg["extra"]); r.extra > 0 {
		for i := 0; i < r.extra; i++ {
			r.m.Store(xKey+i, r.xVal(i))
		}
		for i := 0; i < r.extra && w.Cfg["tasks"]%2 == 0; i++ { // promote
			r.m.Load(xKey + i)
		}
	}
	for ph := 0; ph < w.phases(); ph++ {
		r.lin, r.slow = r.lin[:0], r.slow[:0]
		h.logf("-- phase %d", ph)
		pt := w.phase(ph)
		r.live = len(pt)
		over0 := r.over
		runPhase(s, w, ph, func(task int, o Op) {
			r.do(o)
			if o.ID == pt[task][len(pt[task])-1].ID {
				r.live--
			}
		}, func(task int) {
			r.live--
		})
		if s.Violation() != nil {
			return r
		}
		// quiet: read everything back
		h.logf("-- quiet")
		var st rwState
		for i := range st {
			st[i] = -1
		}
		for k := 0; k < r.keys; k++ {
			l := linOp{kind: kLoad, key: k, inv: s.Seq()}
			v, ok := r.m.Load(k)
			l.out, l.ok, l.ret = int64(v), ok, s.Seq()
			if ok {
				st[k] = v
			}
			r.add(l)
			h.logf("[%d] quiet load k%d -> %d %v", l.inv, k, v, ok)
		}
		for i := 0; i < r.extra; i++ {
			if r.clrs > 0 {
				if v, ok := r.m.Load(xKey + i); ok {
					s.Fail("linearizability", "Load(%d) returned %d; the key was stored once, before a Clear that has returned", xKey+i, v)
					return r
				}
				continue
			}
			if v, ok := r.m.Load(xKey + i); !ok || v != r.xVal(i) {
				s.Fail("linearizability", "Load(%d) returned %d %v; the key was stored once, with %d, and never touched again", xKey+i, v, ok, r.xVal(i))
				return r
			}
		}
		if r.over > over0 {
			h.nontriv = true
		}
		r.xlo = r.extra
		if r.clrs > 0 {
			r.xlo = 0
		}
		endPhase(r)
		if r.clrs > 0 {
			r.extra, r.clrs = 0, 0
		}
		if s.Violation() != nil {
			return r
		}
		r.init = st
	}
	return r
}

// checkWhole: the phase linearizes as one map.
func (r *rwRun) checkWhole(class string) {
	res, best := checkLin(r.lin, r.init, rwStep(r.vmode == vUncomp), 300000)
	r.h.checks++
	switch res {
	case linUnknown:
		r.h.inconcl = true
	case linBad:
		r.s.Fail(class, "no order of the %d operations explains their results (longest explainable prefix %d): %s", len(r.lin), best, r.describe(-1))
	}
}

// checkKeys: the phase, with what Range showed, linearizes key by key.
func (r *rwRun) checkKeys(class string) {
	for k := 0; k < r.keys; k++ {
		var ops []linOp
		for _, o := range r.lin {
			if o.key == k || o.kind == kClear {
				o.key = k
				ops = append(ops, o)
			}
		}
		var st rwState
		for i := range st {
			st[i] = -1
		}
		st[k] = r.init[k]
		res, _ := checkLin(ops, st, rwStep(r.vmode == vUncomp), 200000)
		r.h.checks++
		switch res {
		case linUnknown:
			r.h.inconcl = true
		case linBad:
			r.s.Fail(class, "no history of key %d explains what was observed: %s", k, r.describe(k))
			return
		}
	}
}

var rwNames = []string{"Load", "Store", "Swap", "LoadOrStore", "LoadAndDelete", "Delete", "CompareAndSwap", "CompareAndDelete", "Clear", "Range-saw", "Range-did-not-see", "-"}

func (r *rwRun) describe(key int) string {
	out := ""
	n := 0
	for _, o := range r.lin {
		if key >= 0 && o.key != key && o.kind != kClear {
			continue
		}
		if n++; n > 24 {
			out += "..."
			break
		}
		switch o.kind {
		case kStore:
			out += fmt.Sprintf("[%d-%d] Store(k%d,%d); ", o.inv, o.ret, o.key, o.a)
		case kDel:
			out += fmt.Sprintf("[%d-%d] Delete(k%d); ", o.inv, o.ret, o.key)
		case kClear:
			out += fmt.Sprintf("[%d-%d] Clear(); ", o.inv, o.ret)
		case kCAS, kCAD:
			out += fmt.Sprintf("[%d-%d] %s(k%d,%d->%d)=%v; ", o.inv, o.ret, rwNames[o.kind], o.key, o.b, o.a, o.ok)
		case kSee, kAbsent:
			out += fmt.Sprintf("[%d-%d] %s(k%d %d); ", o.inv, o.ret, rwNames[o.kind], o.key, o.a)
		default:
			out += fmt.Sprintf("[%d-%d] %s(k%d,%d)=%d,%v; ", o.inv, o.ret, rwNames[o.kind], o.key, o.a, o.out, o.ok)
		}
	}
	return out
}

// checkSlow bounds concurrent SlowLen results.
func (r *rwRun) checkSlow() {
	for _, sl := range r.slow {
		lo, hi := int64(r.xlo), int64(r.extra)
		for k := 0; k < r.keys; k++ {
			mayAdd, mayDel := false, false
			for _, o := range r.lin {
				if o.key != k && o.kind != kClear || o.inv > sl.ret {
					continue
				}
				switch o.kind {
				case kStore, kSwap, kLOS, kCAS:
					mayAdd = true
				case kLAD, kDel, kCAD, kClear:
					mayDel = true
				}
			}
			if r.init[k] >= 0 && !mayDel {
				lo++
			}
			if r.init[k] >= 0 || mayAdd {
				hi++
			}
		}
		r.h.checks++
		if sl.n < lo || sl.n > hi {
			r.s.Fail("slowlen", "SlowLen returned %d; between %d and %d keys can have been present", sl.n, lo, hi)
		}
	}
}

// quietLen: Len, SlowLen, Range and Load agree while nothing runs.
func (r *rwRun) quietLen() {
	n := int64(r.xlo)
	for k := 0; k < r.keys; k++ {
		if _, ok := r.m.Load(k); ok {
			n++
		}
	}
	l1 := r.m.Len()
	rg := int64(0)
	r.m.Range(func(int, int32) bool { rg++; return true })
	sl := r.m.SlowLen()
	l2 := r.m.Len()
	r.h.checks++
	r.h.logf("quiet: Len=%d,%d Range=%d SlowLen=%d loads=%d", l1, l2, rg, sl, n)
	if l1 != n || l2 != n || rg != n || sl != n {
		r.s.Fail("len", "quiet map with %d keys present: Len=%d (then %d), Range visits %d, SlowLen=%d", n, l1, l2, rg, sl)
	}
}

// stopped watches that a callback that returned false is not called again.
type stopped struct{ yes bool }

var mustStop bool // the property includes that Range stops

func (s *stopped) visit(cont bool) bool {
	if s.yes && mustStop {
		sim.S.Fail("not-stopped", "Range calls the callback again although it returned false")
	}
	s.yes = s.yes || !cont
	return cont
}

func init() {
	all := []int{0, 1, 2, 3, 4, 5}
	nb := []int{0, 1, 2, 4, 5}
	register(&Prop{
		ID: "C01",
		Gen: func(r *sim.Rand, deep bool) *Work {
			return genRW(r, deep, rwMix{base: []int{4, 4, 3, 3, 3, 2, 3, 3, 1, 1, 0, 0, 0, 0, 0, 0, 0}, vmodes: []int{vUnique, vUnique, vSmall, vAny, vUnit, vPtr, vStruct}, kmodes: all})
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			runRW(s, w, h, func(r *rwRun) {
				l := r.lin[:0:0]
				for _, o := range r.lin { // Range belongs to C02
					if o.kind != kSee && o.kind != kAbsent {
						l = append(l, o)
					}
				}
				r.lin = l
				r.checkWhole("linearizability")
			})
		},
		Rule: "random workloads (2-4 tasks, 1-5 keys, 7 value and 4 key types, sequential prefill then 1-4 concurrent phases) on the real map under a seeded scheduler; non-trivial when operations of different tasks overlapped; distinct by execution hash",
		Real: []string{"rwmap", "utils"}, Stub: []string{"sync.Mutex and sync/atomic (simulated)", "map iteration order (simulated)"},
	})
	register(&Prop{
		ID: "C02",
		Gen: func(r *sim.Rand, deep bool) *Work {
			return genRW(r, deep, rwMix{base: []int{2, 4, 2, 2, 2, 2, 1, 2, 1, 6, 0, 2, 3, 2, 0, 0, 0}, vmodes: []int{vUnique, vUnique, vSmall, vAny, vUnit}, kmodes: nb})
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			mustStop = true
			runRW(s, w, h, func(r *rwRun) {
				r.checkSlow()
				r.checkKeys("range")
			})
		},
		Rule: "as C01 with Range (plain, stopping, nesting any other method, or holding its callback until every other task is done) and SlowLen weighted up; every visited pair becomes a read and every unvisited key an absence somewhere within the call; non-trivial when operations overlapped",
		Real: []string{"rwmap", "utils"}, Stub: []string{"sync.Mutex and sync/atomic (simulated)", "map iteration order (simulated, permuted)"},
	})
	register(&Prop{
		ID: "C03",
		Gen: func(r *sim.Rand, deep bool) *Work {
			return genRW(r, deep, rwMix{base: []int{2, 4, 3, 4, 4, 3, 2, 4, 4, 2, 1, 0, 0, 0, 0, 0, 1}, vmodes: []int{vUnique, vSmall, vSmall, vAny, vUnit, vPtr}, kmodes: all})
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			runRW(s, w, h, func(r *rwRun) { r.quietLen() })
		},
		Rule: "as C01 with removals, Clear and equal values weighted up (and calls with unhashable keys, which panic); after every phase Len is compared with the keys present; non-trivial when operations overlapped",
		Real: []string{"rwmap", "utils"}, Stub: []string{"sync.Mutex and sync/atomic (simulated)", "map iteration order (simulated)"},
	})
}
