package main

import (
	"cmp"
	"fmt"
	"sort"

	"zz.test/repo/genmap"
	"zz.test/repo/set"
	"zz.test/sim"
)

// C22, C27: sets and generic maps under every order the runtime may iterate a map in, with
// visitors that change what they visit, against plain models.

func keyText[T any](l []T) string { return sorted(l) }

type setRun[T cmp.Ordered] struct {
	s    *sim.Sim
	h    *Hist
	conv func(int) T
	dom  int
	sets []set.Set[T]
	mod  []map[T]bool
}

func (x *setRun[T]) modText(m map[T]bool) string {
	var l []T
	for k := range m {
		l = append(l, k)
	}
	return keyText(l)
}

func (x *setRun[T]) setText(m set.Set[T]) string {
	var l []T
	for k := range map[T]struct{}(m) {
		l = append(l, k)
	}
	return keyText(l)
}

func (x *setRun[T]) op(o Op) {
	n := len(x.sets)
	i, j, k := int(o.A)%n, int(o.A/7)%n, int(o.A/49)%n
	a, b := x.sets[i], x.sets[j]
	ma, mb := x.mod[i], x.mod[j]
	v, u := x.conv(int(o.B)%x.dom), x.conv(int(o.B)/x.dom%x.dom)
	want, got := "", ""
	comb := func(res set.Set[T], f func(T) bool, in ...map[T]bool) {
		m := map[T]bool{}
		for _, p := range in {
			for e := range p {
				if f(e) {
					m[e] = true
				}
			}
		}
		got, want = x.setText(res), x.modText(m)
		x.sets[k], x.mod[k] = res, m // results live on as operands
	}
	sub := func(p, q map[T]bool) bool {
		for e := range p {
			if !q[e] {
				return false
			}
		}
		return true
	}
	inA, inB := func(e T) bool { return ma[e] }, func(e T) bool { return mb[e] }
	any := func(T) bool { return true }
	name := ""
	switch o.Kind {
	case "push":
		name = fmt.Sprintf("s%d.Push(%v, %v)", i, v, u)
		a.Push(v, u)
		ma[v], ma[u] = true, true
	case "insert":
		name = fmt.Sprintf("s%d.Insert(%v)", i, v)
		got, want = fmt.Sprint(a.Insert(v)), fmt.Sprint(!ma[v])
		ma[v] = true
	case "remove":
		name = fmt.Sprintf("s%d.Remove(%v)", i, v)
		got, want = fmt.Sprint(a.Remove(v)), fmt.Sprint(ma[v])
		delete(ma, v)
	case "containremove":
		name = fmt.Sprintf("s%d.ContainAndRemove(%v)", i, v)
		got, want = fmt.Sprint(a.ContainAndRemove(v)), fmt.Sprint(ma[v])
		delete(ma, v)
	case "clear":
		name = fmt.Sprintf("s%d.Clear()", i)
		a.Clear()
		x.mod[i] = map[T]bool{}
	case "copyfrom":
		name = fmt.Sprintf("s%d.CopyFrom(s%d)", i, j)
		a.CopyFrom(b)
		for e := range mb {
			ma[e] = true
		}
	case "clone":
		name = fmt.Sprintf("s%d = s%d.Clone()", k, i)
		comb(a.Clone(), any, ma)
	case "union":
		name = fmt.Sprintf("s%d = s%d.Union(s%d)", k, i, j)
		comb(a.Union(b), any, ma, mb)
	case "union3":
		name = fmt.Sprintf("s%d = s%d.Union(s%d, s%d)", k, i, j, k)
		comb(a.Union(b, x.sets[k]), any, ma, mb, x.mod[k])
	case "union1":
		name = fmt.Sprintf("s%d = s%d.Union()", k, i)
		comb(a.Union(), any, ma)
	case "difference":
		name = fmt.Sprintf("s%d = s%d.Difference(s%d)", k, i, j)
		comb(a.Difference(b), func(e T) bool { return !inB(e) }, ma)
	case "symdiff":
		name = fmt.Sprintf("s%d = s%d.SymmetricDifference(s%d)", k, i, j)
		comb(a.SymmetricDifference(b), func(e T) bool { return inA(e) != inB(e) }, ma, mb)
	case "intersection":
		name = fmt.Sprintf("s%d = s%d.Intersection(s%d)", k, i, j)
		comb(a.Intersection(b), func(e T) bool { return inA(e) && inB(e) }, ma)
	case "equal":
		name = fmt.Sprintf("s%d.Equal(s%d)", i, j)
		got, want = fmt.Sprint(a.Equal(b)), fmt.Sprint(sub(ma, mb) && sub(mb, ma))
	case "subset":
		name = fmt.Sprintf("s%d.IsSubSet(s%d)", i, j)
		got, want = fmt.Sprint(a.IsSubSet(b)), fmt.Sprint(sub(ma, mb))
	case "superset":
		name = fmt.Sprintf("s%d.IsSupperSet(s%d)", i, j)
		got, want = fmt.Sprint(a.IsSupperSet(b)), fmt.Sprint(sub(mb, ma))
	case "observe":
		name = fmt.Sprintf("s%d.{Contain(%v), Len, IsEmpty, Slice}", i, v)
		got = fmt.Sprint(a.Contain(v), a.Len(), a.IsEmpty(), keyText(a.Slice()))
		want = fmt.Sprint(ma[v], len(ma), len(ma) == 0, x.modText(ma))
	case "range":
		stop, what := int(o.C)%8, int(o.D)%5
		if o.C&512 != 0 {
			stop = 1 << 20
		}
		name = fmt.Sprintf("s%d.Range(stop after %d, visitor %d)", i, stop+1, what)
		visit := newVisit(ma)
		nv := 0
		a.Range(func(e T) bool {
			nv++
			if bad := visit.saw(e, ma[e]); bad != "" {
				got = bad
				return false
			}
			switch what {
			case 1: // removes what it visits
				a.Remove(e)
				delete(ma, e)
				visit.touch(e, false)
			case 2: // removes another
				a.Remove(v)
				delete(ma, v)
				visit.touch(v, false)
			case 3: // adds
				if nv < 20 {
					w := x.conv(int(o.B)%x.dom + nv)
					a.Push(w)
					ma[w] = true
					visit.touch(w, true)
				}
			case 4: // nested
				x.sets[j].Range(func(T) bool { return true })
			}
			return nv <= stop
		})
		if got == "" && nv <= stop {
			got = visit.missed()
		}
		if nv > stop+1 {
			got = fmt.Sprintf("went on after the visitor stopped it (%d visits)", nv)
		}
	}
	x.h.checks++
	if x.h.on {
		x.h.logf("%s -> %s", name, got)
	}
	if got != want {
		x.s.Fail("result", "%s: got %s, want %s", name, got, want)
		return
	}
	for i := range x.sets {
		if g, w := x.setText(x.sets[i]), x.modText(x.mod[i]); g != w {
			x.s.Fail("content", "after %s s%d holds {%s}, want {%s}", name, i, g, w)
			return
		}
	}
}

// visits tracks what one iteration may and must visit.
type visits[T comparable] struct {
	must  map[T]bool // present from the start, never removed
	could map[T]bool // present at some instant
	again map[T]bool // removed or added meanwhile: may come back as a new entry
	seen  map[T]int
}

func newVisit[T comparable](m map[T]bool) *visits[T] {
	v := &visits[T]{map[T]bool{}, map[T]bool{}, map[T]bool{}, map[T]int{}}
	for e := range m {
		v.must[e], v.could[e] = true, true
	}
	return v
}
func (v *visits[T]) touch(e T, add bool) {
	if add {
		v.could[e] = true
		return
	}
	delete(v.must, e)
	v.again[e] = true
}
func (v *visits[T]) saw(e T, now bool) string {
	v.seen[e]++
	if !v.could[e] {
		return fmt.Sprintf("visited %v, which was never there", e)
	}
	if v.seen[e] > 1 && !v.again[e] {
		return fmt.Sprintf("visited %v twice", e)
	}
	return ""
}
func (v *visits[T]) missed() string {
	var l []T
	for e := range v.must {
		if v.seen[e] == 0 {
			l = append(l, e)
		}
	}
	if len(l) == 0 {
		return ""
	}
	return "never visited " + keyText(l)
}

func runSets[T cmp.Ordered](s *sim.Sim, w *Work, h *Hist, conv func(int) T) {
	x := &setRun[T]{s: s, h: h, conv: conv, dom: int(w.Cfg["dom"])}
	r := sim.NewRand(uint64(w.Cfg["content"]))
	domain := 10 + int(w.Cfg["n"])/4
	if w.Cfg["wide"] == 1 {
		domain = 10 + int(w.Cfg["n"])
	}
	for i := 0; i < int(w.Cfg["sets"]); i++ {
		t, m := set.New[T](), map[T]bool{}
		for n := r.Intn(int(w.Cfg["n"]) + 1); n > 0; n-- {
			e := conv(r.Intn(domain))
			t.Push(e)
			m[e] = true
		}
		x.sets, x.mod = append(x.sets, t), append(x.mod, m)
	}
	runPhase(s, w, 0, func(task int, o Op) {
		if s.Violation() == nil {
			if pv, pan := guard(func() { x.op(o) }); pan {
				s.Fail("panic", "%s panicked: %v", o.Kind, pv)
			}
		}
	})
	h.nontriv = s.Stats.MapShuffles > 0
}

type mapRun[K cmp.Ordered] struct {
	s    *sim.Sim
	h    *Hist
	conv func(int) K
	dom  int
	maps []genmap.GenMap[K, int]
	mod  []map[K]int
}

func pairText[K comparable](m map[K]int) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprint(k, "=", v))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func (x *mapRun[K]) op(o Op) {
	n := len(x.maps)
	i, j, k := int(o.A)%n, int(o.A/7)%n, int(o.A/49)%n
	a, b := x.maps[i], x.maps[j]
	ma, mb := x.mod[i], x.mod[j]
	key, val := x.conv(int(o.B)%x.dom), int(o.C)%5
	old, had := ma[key]
	copyOf := func(m map[K]int) map[K]int {
		c := map[K]int{}
		for k, v := range m {
			c[k] = v
		}
		return c
	}
	got, want, name := "", "", ""
	switch o.Kind {
	case "store":
		name = fmt.Sprintf("m%d.Store(%v, %d)", i, key, val)
		a.Store(key, val)
		ma[key] = val
	case "delete":
		name = fmt.Sprintf("m%d.Delete(%v)", i, key)
		a.Delete(key)
		delete(ma, key)
	case "observe":
		name = fmt.Sprintf("m%d.{Load(%v), Len, Keys, Values}", i, key)
		v, ok := a.Load(key)
		got = fmt.Sprint(v, ok, a.Len(), sorted(a.Keys()), sorted(a.Values()))
		var ks []K
		var vs []int
		for k, v := range ma {
			ks, vs = append(ks, k), append(vs, v)
		}
		want = fmt.Sprint(old, had, len(ma), sorted(ks), sorted(vs))
	case "clone":
		name = fmt.Sprintf("m%d = m%d.Clone()", k, i)
		x.maps[k], x.mod[k] = a.Clone(), copyOf(ma)
	case "loadorstore":
		name = fmt.Sprintf("m%d.LoadOrStore(%v, %d)", i, key, val)
		v, loaded := a.LoadOrStore(key, val)
		got, want = fmt.Sprint(loaded, v), fmt.Sprint(had, old)
		if !had {
			want = fmt.Sprint(had, val)
			ma[key] = val
		}
	case "loadorstorefunc":
		name = fmt.Sprintf("m%d.LoadOrStoreFunc(%v, %d)", i, key, val)
		calls := 0
		v, loaded := a.LoadOrStoreFunc(key, func() int { calls++; return val })
		if had {
			want = fmt.Sprint(old, true, 0)
		} else {
			want = fmt.Sprint(val, false, 1)
			ma[key] = val
		}
		got = fmt.Sprint(v, loaded, calls)
	case "loadanddelete":
		name = fmt.Sprintf("m%d.LoadAndDelete(%v)", i, key)
		v, loaded := a.LoadAndDelete(key)
		got, want = fmt.Sprint(v, loaded), fmt.Sprint(old, had)
		delete(ma, key)
	case "loadandstore":
		name = fmt.Sprintf("m%d.LoadAndStore(%v, %d)", i, key, val)
		v, loaded := a.LoadAndStore(key, val)
		got, want = fmt.Sprint(v, loaded), fmt.Sprint(old, had)
		ma[key] = val
	case "equalfunc":
		name = fmt.Sprintf("m%d.EqualFunc(m%d)", i, j)
		eq := len(ma) == len(mb)
		for k, v := range ma {
			if w, ok := mb[k]; !ok || w%2 != v%2 {
				eq = false
			}
		}
		got = fmt.Sprint(a.EqualFunc(b, func(p, q int) bool { return p%2 == q%2 }))
		want = fmt.Sprint(eq)
	case "clear":
		name = fmt.Sprintf("m%d.Clear()", i)
		a.Clear()
		x.mod[i] = map[K]int{}
	case "copyto", "copytoraw", "copyfrom", "copyfromraw":
		name = fmt.Sprintf("m%d.%s(m%d)", i, o.Kind, j)
		dst, src := j, i
		switch o.Kind {
		case "copyto":
			a.CopyTo(b)
		case "copytoraw":
			a.CopyToRaw(b.Map())
		case "copyfrom":
			a.CopyFrom(b)
			dst, src = i, j
		default:
			a.CopyFromRaw(b.Map())
			dst, src = i, j
		}
		for k, v := range x.mod[src] {
			x.mod[dst][k] = v
		}
	case "deletefunc":
		what := int(o.D) % 4
		name = fmt.Sprintf("m%d.DeleteFunc(value %% 3 == %d, visitor %d)", i, val%3, what)
		calls := map[K]int{}
		must := map[K]bool{} // there from the start and not deleted by the predicate
		for k := range ma {
			must[k] = true
		}
		fresh := 0
		a.DeleteFunc(func(k K, v int) bool {
			calls[k]++
			if w, ok := ma[k]; got == "" && (calls[k] > 1 || !ok || w != v) {
				got = fmt.Sprintf("predicate called for %v=%d, %d times; the entry is %d, %v", k, v, calls[k], w, ok)
			}
			sel := v%3 == val%3
			switch {
			case what == 1: // deletes another entry
				if calls[key] == 0 {
					a.Delete(key)
					delete(ma, key)
					delete(must, key)
				}
			case what == 2 && fresh < 20: // adds one that was never there
				fresh++
				w := x.conv(4000 + fresh)
				if _, ok := ma[w]; !ok && calls[w] == 0 {
					a.Store(w, val)
					ma[w] = val
				}
			case what == 3: // looks
				a.Range(func(K, int) bool { return false })
				a.Load(key)
			}
			if sel {
				delete(ma, k)
			}
			return sel
		})
		for k := range must {
			if calls[k] == 0 {
				got = fmt.Sprintf("predicate never called for %v", k)
			}
		}
	case "range":
		stop, what := int(o.C)%8, int(o.D)%4
		if o.C&512 != 0 {
			stop = 1 << 20
		}
		name = fmt.Sprintf("m%d.Range(stop after %d, visitor %d)", i, stop+1, what)
		present := map[K]bool{}
		for k := range ma {
			present[k] = true
		}
		visit := newVisit(present)
		nv := 0
		all := a.Range(func(k K, v int) bool {
			nv++
			if bad := visit.saw(k, true); bad != "" {
				got = bad
				return false
			}
			if w, ok := ma[k]; ok && w != v {
				got = fmt.Sprintf("visited %v with %d instead of %d", k, v, w)
				return false
			}
			switch what {
			case 1:
				a.Delete(k)
				delete(ma, k)
				visit.touch(k, false)
			case 2:
				a.Delete(key)
				delete(ma, key)
				visit.touch(key, false)
			case 3:
				if nv < 20 {
					w := x.conv(int(o.B)%x.dom + nv)
					if _, ok := ma[w]; !ok {
						a.Store(w, val)
						ma[w] = val
						visit.touch(w, true)
					}
				}
			}
			return nv <= stop
		})
		if got == "" && nv <= stop {
			got = visit.missed()
		}
		if got == "" && all != (nv <= stop) {
			got = fmt.Sprintf("returned %v after %d visits", all, nv)
		}
		if nv > stop+1 {
			got = fmt.Sprintf("went on after the visitor stopped it (%d visits)", nv)
		}
	}
	x.h.checks++
	if x.h.on {
		x.h.logf("%s -> %s", name, got)
	}
	if got != want {
		x.s.Fail("result", "%s: got %s, want %s", name, got, want)
		return
	}
	for i := range x.maps {
		if g, w := pairText(x.maps[i]), pairText(x.mod[i]); g != w {
			x.s.Fail("content", "after %s m%d holds %s, want %s", name, i, g, w)
			return
		}
	}
}

func runMaps[K cmp.Ordered](s *sim.Sim, w *Work, h *Hist, conv func(int) K) {
	x := &mapRun[K]{s: s, h: h, conv: conv, dom: int(w.Cfg["dom"])}
	r := sim.NewRand(uint64(w.Cfg["content"]))
	domain := 10 + int(w.Cfg["n"])/4
	if w.Cfg["wide"] == 1 {
		domain = 10 + int(w.Cfg["n"])
	}
	for i := 0; i < int(w.Cfg["sets"]); i++ {
		t, m := genmap.New[K, int](), map[K]int{}
		if r.Intn(3) == 0 {
			t = genmap.From(map[K]int{})
		}
		for n := r.Intn(int(w.Cfg["n"]) + 1); n > 0; n-- {
			k, v := conv(r.Intn(domain)), r.Intn(5)
			t.Store(k, v)
			m[k] = v
		}
		x.maps, x.mod = append(x.maps, t), append(x.mod, m)
	}
	runPhase(s, w, 0, func(task int, o Op) {
		if s.Violation() == nil {
			if pv, pan := guard(func() { x.op(o) }); pan {
				s.Fail("panic", "%s panicked: %v", o.Kind, pv)
			}
		}
	})
	h.nontriv = s.Stats.MapShuffles > 0
}

func orderGen(kinds []string) func(r *sim.Rand, deep bool) *Work {
	return func(r *sim.Rand, deep bool) *Work {
		w := &Work{Cfg: map[string]int64{}}
		w.Cfg["type"] = int64(r.Intn(3))
		w.Cfg["content"] = int64(r.Intn(1 << 30))
		w.Cfg["sets"] = int64(2 + r.Intn(3))
		w.Cfg["n"] = int64(r.Intn(9))
		switch r.Intn(96) {
		case 0, 1, 2, 3, 4, 5, 6, 7:
			w.Cfg["n"] = int64(r.Intn(60))
		case 8:
			w.Cfg["n"] = int64(r.Intn(1500))
			w.Cfg["wide"] = 1
		}
		dom := 10
		if w.Cfg["n"] > 8 && r.Intn(2) == 0 {
			dom = 10 + int(w.Cfg["n"])
		}
		w.Cfg["tasks"], w.Cfg["phases"] = 1, 1
		for i := 1 + r.Intn(10); i > 0; i-- {
			w.Ops = append(w.Ops, Op{ID: len(w.Ops) + 1, Kind: kinds[r.Intn(len(kinds))], A: int64(r.Intn(343)), B: int64(r.Intn(dom) + dom*r.Intn(dom)), C: int64(r.Intn(1 << 10)), D: int64(r.Intn(1 << 10))})
		}
		w.Cfg["dom"] = int64(dom)
		w.Strat = stratFor(r, 200)
		w.Strat.PMap = []float64{0.3, 1, 1, 1}[r.Intn(4)]
		w.Strat.MaxSteps = 2000000
		return w
	}
}

func init() {
	byType := func(s *sim.Sim, w *Work, h *Hist, sets bool) {
		i := func(i int) int { return i }
		str := func(i int) string { return fmt.Sprint("e", i) }
		f := func(i int) float64 { return float64(i)/2 - 1 }
		switch {
		case w.Cfg["type"] == 0 && sets:
			runSets(s, w, h, i)
		case w.Cfg["type"] == 1 && sets:
			runSets(s, w, h, str)
		case sets:
			runSets(s, w, h, f)
		case w.Cfg["type"] == 0:
			runMaps(s, w, h, i)
		case w.Cfg["type"] == 1:
			runMaps(s, w, h, str)
		default:
			runMaps(s, w, h, f)
		}
	}
	stub := []string{"the runtime's random map iteration order, and whether entries created during an iteration are visited (simulated)"}
	register(&Prop{
		ID: "C22",
		Gen: orderGen([]string{"push", "insert", "remove", "containremove", "clear", "copyfrom", "clone", "union", "union3", "union1", "difference", "symdiff", "intersection",
			"equal", "equal", "subset", "subset", "superset", "superset", "observe", "range", "range", "difference", "symdiff", "intersection"}),
		Run:  func(s *sim.Sim, w *Work, h *Hist) { byType(s, w, h, true) },
		Rule: "histories of up to ten operations over 2-4 sets whose results become operands, under seeded map iteration orders and visitors that stop, remove, add or nest, against plain sets; all sets compared after each operation; non-trivial when an iteration order was permuted",
		Real: []string{"set", "golang.org/x/exp/maps"}, Stub: stub,
	})
	register(&Prop{
		ID: "C27",
		Gen: orderGen([]string{"store", "store", "delete", "observe", "clone", "loadorstore", "loadorstorefunc", "loadanddelete", "loadandstore", "equalfunc", "equalfunc", "clear",
			"copyto", "copytoraw", "copyfrom", "copyfromraw", "deletefunc", "deletefunc", "range", "range"}),
		Run:  func(s *sim.Sim, w *Work, h *Hist) { byType(s, w, h, false) },
		Rule: "histories of up to ten operations over 2-4 generic maps, copied into one another, under seeded map iteration orders and visitors that stop, remove or add, against plain maps; all maps compared after each operation; non-trivial when an iteration order was permuted",
		Real: []string{"genmap", "golang.org/x/exp/maps"}, Stub: stub,
	})
}
