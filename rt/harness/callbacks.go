package main

import (
	"fmt"
	"math/bits"
	"runtime"
	"sort"

	"zz.test/repo/dllist"
	"zz.test/repo/genmap"
	"zz.test/repo/heap"
	"zz.test/repo/lhashmap"
	"zz.test/repo/ring"
	"zz.test/repo/set"
	"zz.test/repo/vec"
	"zz.test/sim"
)

// C16: a user function panics (or exits its goroutine) at its nth call.

// el is an element: equal v compare equal, id tells them apart.
type el struct{ v, id int }

// cbHeap is a user's heap whose comparison may panic.
type cbHeap struct {
	d    []el
	less func(a, b el) bool
}

func (h *cbHeap) Len() int           { return len(h.d) }
func (h *cbHeap) Less(i, j int) bool { return h.less(h.d[i], h.d[j]) }
func (h *cbHeap) Swap(i, j int)      { h.d[i], h.d[j] = h.d[j], h.d[i] }
func (h *cbHeap) Push(x el)          { h.d = append(h.d, x) }
func (h *cbHeap) Pop() el {
	x := h.d[len(h.d)-1]
	h.d = h.d[:len(h.d)-1]
	return x
}

type cbRun struct {
	kind  int // what the injected panic panics with
	s     *sim.Sim
	w     *Work
	h     *Hist
	left  int // calls until the fault; <0: none
	exit  bool
	fired bool
	next  int
}

// call is made by every user function.
func (r *cbRun) call() {
	if r.left < 0 {
		return
	}
	if r.left == 0 {
		r.left = -1
		r.fired = true
		if r.exit {
			r.s.Fault("user function exits its goroutine")
			runtime.Goexit()
		}
		r.s.Fault("user function panics")
		injectPanic(r.kind)
	}
	r.left--
}

// with performs f with the fault armed and reports whether it was interrupted.
func (r *cbRun) with(o Op, f func()) (interrupted bool) {
	r.left, r.fired, r.exit, r.kind = int(o.B), false, o.C%5 == 4, o.ID+int(o.C)
	what := fmt.Sprintf("%s (fault at call %d)", o.Kind, o.B)
	if r.exit {
		done := false
		t := r.s.Spawn("exiter", func() {
			r.s.SetOp(100000 + o.ID)
			f()
			done = true
		})
		r.s.Join(t)
		if r.fired && done {
			r.s.Fail("swallowed", "%s: the goroutine exit in a user function was swallowed", what)
		}
	} else {
		pv, pan := guard(f)
		if pan {
			if !wasInjected(pv) {
				r.s.Fail("panic", "%s panicked: %v", what, pv)
			}
		} else if r.fired {
			r.s.Fail("swallowed", "%s: the panic in a user function did not reach the caller", what)
		}
	}
	r.left = -1
	if r.fired {
		r.h.nontriv = true
	}
	return r.fired
}

func (r *cbRun) less(a, b el) bool  { r.call(); return a.v < b.v }
func (r *cbRun) equal(a, b el) bool { r.call(); return a.v == b.v }

func bag(l []el) map[el]int {
	m := map[el]int{}
	for _, e := range l {
		m[e]++
	}
	return m
}

// conserved: got is a permutation of want.
func (r *cbRun) conserved(o Op, what string, want, got []el) bool {
	r.h.checks++
	if r.h.on {
		r.h.logf("[%d] %s: %v -> %v", r.s.Seq(), what, want, got)
	}
	w, g := bag(want), bag(got)
	for e, n := range w {
		if g[e] != n {
			r.s.Fail("conservation", "%s interrupted at call %d of the user function: element %v (of %v) occurs %d times afterwards, expected %d: %v", what, o.B, e, want, g[e], n, got)
			return false
		}
	}
	if len(got) != len(want) {
		r.s.Fail("conservation", "%s interrupted at call %d of the user function: %d elements afterwards, expected %d: %v, was %v", what, o.B, len(got), len(want), got, want)
		return false
	}
	return true
}

// same: nothing moved either.
func (r *cbRun) same(o Op, what string, want, got []el) bool {
	if !r.conserved(o, what, want, got) {
		return false
	}
	for i := range want {
		if want[i] != got[i] {
			r.s.Fail("order", "%s interrupted at call %d of the user function changed the order of %v to %v", what, o.B, want, got)
			return false
		}
	}
	return true
}

func (r *cbRun) fill(n int) []el {
	rr := sim.NewRand(uint64(r.w.Cfg["content"]))
	mode := rr.Intn(5)
	var l []el
	for i := 0; i < n; i++ {
		e := el{rr.Intn(n + 1), i}
		switch mode {
		case 0:
			e.v = rr.Intn(3)
		case 1:
			e.v = i
		case 2:
			e.v = n - i
		}
		l = append(l, e)
	}
	r.next = n
	return l
}

func clone(l []el) []el { return append([]el{}, l...) }

func sortedByV(l []el) bool {
	return sort.SliceIsSorted(l, func(i, j int) bool { return l[i].v < l[j].v })
}

// ---- heap

func (r *cbRun) runHeap() {
	h := &cbHeap{d: r.fill(int(r.w.Cfg["n"])), less: r.less}
	heap.Init[el](h)
	for _, o := range r.w.Ops {
		before := clone(h.d)
		want := clone(before)
		var got *el
		i := 0
		if len(h.d) > 0 {
			i = int(o.A) % len(h.d)
		}
		kind := []string{"Init", "Push", "Pop", "Remove", "Fix"}[int(o.D)%5]
		if len(h.d) == 0 && kind != "Init" {
			kind = "Push"
		}
		var pushed el
		if kind == "Push" {
			r.next++
			pushed = el{int(o.A) % 20, r.next}
		}
		if kind == "Fix" {
			h.d[i].v = int(o.A/32) % 20
			want = clone(h.d)
		}
		if kind == "Init" && o.A%2 == 0 {
			for k := range h.d {
				h.d[k].v = (h.d[k].v*7 + int(o.A)) % 23
			}
			want = clone(h.d)
		}
		o.Kind = "heap." + kind
		in := r.with(o, func() {
			switch kind {
			case "Init":
				heap.Init[el](h)
			case "Push":
				heap.Push[el](h, pushed)
			case "Pop":
				x := heap.Pop[el](h)
				got = &x
			case "Remove":
				x := heap.Remove[el](h, i)
				got = &x
			case "Fix":
				heap.Fix[el](h, i)
			}
		})
		if r.s.Violation() != nil {
			return
		}
		if kind == "Push" {
			want = append(want, pushed)
		}
		after := clone(h.d)
		if got != nil {
			after = append(after, *got)
		}
		if !r.conserved(o, o.Kind, want, after) {
			return
		}
		if in { // the owner repairs the order
			heap.Init[el](h)
		}
	}
	// still a working heap
	all := clone(h.d)
	var out []el
	for h.Len() > 0 {
		out = append(out, heap.Pop[el](h))
	}
	if r.conserved(Op{}, "popping everything afterwards", all, out) && !sortedByV(out) {
		r.s.Fail("broken", "after the faults, popping everything gave %v", out)
	}
}

// ---- vec

func (r *cbRun) runVec() {
	v := vec.New(vec.WithCmpLess(r.less), vec.WithCmpEqual(r.equal)).Push(r.fill(int(r.w.Cfg["n"]))...)
	other := vec.New(vec.WithCmpLess(r.less), vec.WithCmpEqual(r.equal)).Push(r.fill(int(r.w.Cfg["n"]))...)
	kinds := []string{"Sort", "SortFunc", "SortStable", "SortStableFunc", "Search", "SearchFunc", "SearchAll", "SearchAllFunc", "BinarySearch", "BinarySearchFunc", "Contains", "ContainsFunc", "Range", "Compare", "CompareFunc", "EqualVec", "EqualSliceFunc", "IsSorted", "IsSortedFunc", "Max", "MaxFunc", "Min", "MinFunc", "ConpareAndRemove", "Clone", "Less", "Equal"}
	for _, o := range r.w.Ops {
		before := clone(v.Slice())
		kind := kinds[int(o.D)%len(kinds)]
		if o.A%3 == 0 {
			kind = kinds[int(o.D)%4]
		}
		t := el{int(o.A) % 20, -1}
		if len(before) == 0 && (kind == "Max" || kind == "Min" || kind == "MaxFunc" || kind == "MinFunc" || kind == "Less" || kind == "Equal") {
			kind = "Sort"
		}
		if o.A%4 == 1 && len(before) > 1 { // disorder
			v.Swap(int(o.A)%len(before), int(o.A/7)%len(before))
			before = clone(v.Slice())
		}
		i := 0
		if len(before) > 0 {
			i = int(o.A/64) % len(before)
		}
		match := func(x el) bool { r.call(); return x.v == t.v }
		removed := []el{}
		o.Kind = "vec." + kind
		in := r.with(o, func() {
			switch kind {
			case "Sort":
				v.Sort()
			case "SortFunc":
				v.SortFunc(r.less, r.equal)
			case "SortStable":
				v.SortStable()
			case "SortStableFunc":
				v.SortStableFunc(r.less, r.equal)
			case "Search":
				v.Search(t)
			case "SearchFunc":
				v.SearchFunc(match)
			case "SearchAll":
				v.SearchAll(t)
			case "SearchAllFunc":
				v.SearchAllFunc(match)
			case "BinarySearch":
				v.BinarySearch(t)
			case "BinarySearchFunc":
				v.BinarySearchFunc(t, func(a, b el) int { r.call(); return a.v - b.v })
			case "Contains":
				v.Contains(t)
			case "ContainsFunc":
				v.ContainsFunc(match)
			case "Range":
				v.Range(func(i int, x el) bool { r.call(); return true })
			case "Compare":
				v.Compare(*other)
			case "CompareFunc":
				v.CompareFunc(*other, r.less, r.equal)
			case "EqualVec":
				v.EqualVec(*other)
			case "EqualSliceFunc":
				v.EqualSliceFunc(other.Slice(), r.equal)
			case "IsSorted":
				v.IsSorted()
			case "IsSortedFunc":
				v.IsSortedFunc(r.less, r.equal)
			case "Max":
				v.Max()
			case "MaxFunc":
				v.MaxFunc(r.less, r.equal)
			case "Min":
				v.Min()
			case "MinFunc":
				v.MinFunc(r.less, r.equal)
			case "ConpareAndRemove":
				if e, ok := v.ConpareAndRemove(i, t); ok {
					removed = append(removed, e)
				}
			case "Clone":
				c := v.Clone()
				c.Sort()
			case "Less":
				v.Less(i, int(o.A)%len(before))
			case "Equal":
				v.Equal(i, int(o.A)%len(before))
			}
		})
		if r.s.Violation() != nil {
			return
		}
		after := append(clone(v.Slice()), removed...)
		sorting := kind == "Sort" || kind == "SortFunc" || kind == "SortStable" || kind == "SortStableFunc"
		if sorting || len(removed) > 0 {
			r.conserved(o, o.Kind, before, after)
		} else if in {
			r.same(o, o.Kind, before, after)
		}
		if r.s.Violation() != nil {
			return
		}
		if v.Len() != len(v.Slice()) {
			r.s.Fail("broken", "%s: Len %d, %d elements", o.Kind, v.Len(), len(v.Slice()))
			return
		}
	}
	before := clone(v.Slice())
	v.Sort()
	if r.conserved(Op{}, "sorting the vec afterwards", before, clone(v.Slice())) && !sortedByV(v.Slice()) {
		r.s.Fail("broken", "after the faults, Sort gave %v", v.Slice())
	}
}

// ---- dllist

func listOf(l *dllist.Dllist[el]) (f, b []el) {
	n := 0
	for e := l.Front(); e != nil && n < 10000; e = e.Next() {
		f = append(f, e.Value)
		n++
	}
	for e := l.Back(); e != nil && n < 20000; e = e.Prev() {
		b = append(b, e.Value)
		n++
	}
	return
}

func (r *cbRun) listOK(o Op, l *dllist.Dllist[el]) []el {
	f, b := listOf(l)
	bad := len(f) != len(b) || len(f) != l.Len()
	for i := range f {
		if !bad && f[i] != b[len(b)-1-i] {
			bad = true
		}
	}
	if bad {
		r.s.Fail("broken", "%s left a damaged list: forward %v backward %v Len %d", o.Kind, f, b, l.Len())
	}
	return f
}

func (r *cbRun) runList() {
	l := dllist.New[el]()
	for _, e := range r.fill(int(r.w.Cfg["n"])) {
		l.PushBack(e)
	}
	for _, o := range r.w.Ops {
		before := r.listOK(o, l)
		kind := []string{"Sort", "Range", "Element.Range", "Sort", "Sort"}[int(o.D)%5]
		if o.A%3 == 0 && l.Len() > 1 { // disorder
			l.MoveToFront(l.Get(int(o.A) % l.Len()))
			before = r.listOK(o, l)
		}
		o.Kind = "dllist." + kind
		in := r.with(o, func() {
			switch kind {
			case "Sort":
				l.Sort(r.less)
			case "Range":
				l.Range(func(*dllist.Element[el]) bool { r.call(); return true })
			case "Element.Range":
				if l.Len() > 0 {
					l.Get(int(o.A) % l.Len()).Range(func(*dllist.Element[el]) bool { r.call(); return true })
				}
			}
		})
		if r.s.Violation() != nil {
			return
		}
		after := r.listOK(o, l)
		if r.s.Violation() != nil {
			return
		}
		if in {
			r.same(o, o.Kind, before, after)
		} else {
			r.conserved(o, o.Kind, before, after)
		}
		if r.s.Violation() != nil {
			return
		}
	}
	before := r.listOK(Op{}, l)
	r.next++
	x := el{-1, r.next}
	l.PushBack(x)
	l.Sort(r.less)
	after := r.listOK(Op{Kind: "sorting the list afterwards"}, l)
	if r.s.Violation() == nil && r.conserved(Op{}, "pushing to and sorting the list afterwards", append(before, x), after) && !sortedByV(after) {
		r.s.Fail("broken", "after the faults, Sort gave %v", after)
	}
}

// ---- maps, sets, rings

func (r *cbRun) runMap() {
	m := genmap.New[int, el]()
	other := genmap.New[int, el]()
	for _, e := range r.fill(int(r.w.Cfg["n"])) {
		m.Store(e.id, e)
		other.Store(e.id, e)
	}
	content := func() []el {
		var l []el
		for k, e := range m.Map() {
			if k != e.id {
				r.s.Fail("broken", "key %d holds %v", k, e)
			}
			l = append(l, e)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		return l
	}
	for _, o := range r.w.Ops {
		want := content()
		kind := []string{"LoadOrStoreFunc", "DeleteFunc", "DeleteFunc", "Range", "EqualFunc"}[int(o.D)%5]
		o.Kind = "genmap." + kind
		k := int(o.A) % (len(want) + 3)
		if kind == "LoadOrStoreFunc" && o.B > 0 {
			o.B = int64(o.A % 2)
		}
		drop := map[int]bool{}
		stored := false
		in := r.with(o, func() {
			switch kind {
			case "LoadOrStoreFunc":
				m.LoadOrStoreFunc(k, func() el { r.call(); stored = true; return el{int(o.A), k} })
			case "DeleteFunc":
				m.DeleteFunc(func(k int, v el) bool {
					r.call()
					if (v.id+int(o.A))%3 == 0 {
						drop[k] = true
						return true
					}
					return false
				})
			case "Range":
				m.Range(func(k int, v el) bool { r.call(); return true })
			case "EqualFunc":
				m.EqualFunc(other, r.equal)
			}
		})
		if r.s.Violation() != nil {
			return
		}
		if stored {
			want = append(want, el{int(o.A), k})
		}
		got := content()
		if in || kind != "DeleteFunc" || true {
			var keep []el
			for _, e := range want {
				if !drop[e.id] {
					keep = append(keep, e)
				}
			}
			r.conserved(o, o.Kind, keep, got)
		}
		if r.s.Violation() != nil {
			return
		}
		if m.Len() != len(got) {
			r.s.Fail("broken", "%s: Len %d, %d elements", o.Kind, m.Len(), len(got))
			return
		}
	}
}

func (r *cbRun) runVisit() {
	in := r.fill(int(r.w.Cfg["n"]))
	st := set.New[int]()
	lm := lhashmap.New[int, el]()
	rg := ring.New[el](len(in))
	var want []el
	for _, e := range in {
		st.Push(e.id)
		lm.Store(e.id, e)
		rg.Value = e
		rg = rg.Next()
	}
	read := func() (s, l, g []el) {
		st.Range(func(x int) bool { s = append(s, el{0, x}); return true })
		sort.Slice(s, func(i, j int) bool { return s[i].id < s[j].id })
		lm.Range(func(k int, v el) bool { l = append(l, v); return true })
		rg.Do(func(v el) { g = append(g, v) })
		return
	}
	_ = want
	s0, l0, g0 := read()
	for _, o := range r.w.Ops {
		kind := []string{"set.Range", "lhashmap.Range", "ring.Do"}[int(o.D)%3]
		o.Kind = kind
		r.with(o, func() {
			switch kind {
			case "set.Range":
				st.Range(func(int) bool { r.call(); return true })
			case "lhashmap.Range":
				lm.Range(func(int, el) bool { r.call(); return true })
			case "ring.Do":
				rg.Do(func(el) { r.call() })
			}
		})
		if r.s.Violation() != nil {
			return
		}
		s1, l1, g1 := read()
		if !r.same(o, kind, s0, s1) || !r.same(o, kind, l0, l1) || !r.same(o, kind, g0, g1) {
			return
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C16",
		Faulty: func(string) bool { return true },
		Gen: func(r *sim.Rand, deep bool) *Work {
			w := &Work{Cfg: map[string]int64{}}
			w.Cfg["kind"] = int64([]int{0, 0, 1, 1, 1, 2, 2, 3, 4}[r.Intn(9)])
			n := r.Intn(16)
			if r.Intn(4) == 0 {
				n = r.Intn(60)
			}
			if deep && r.Intn(6) == 0 {
				n = r.Intn(200)
			}
			if r.Intn(150) == 0 {
				n = 60 + r.Intn(1000)
			}
			w.Cfg["n"] = int64(n)
			w.Cfg["content"] = int64(r.Intn(1 << 30))
			for i := 1 + r.Intn(6); i > 0; i-- {
				o := Op{ID: i, Kind: "call", A: int64(r.Intn(1 << 20)), D: int64(r.Intn(1 << 16)), C: int64(r.Intn(5))}
				switch r.Intn(4) {
				case 0:
					o.B = int64(r.Intn(4))
				case 1:
					o.B = int64(r.Intn(2*n + 2))
				case 2:
					o.B = int64(r.Intn(5*n + 4))
				default:
					o.B = int64(r.Intn((2+bits.Len(uint(n)))*n + 4))
				}
				w.Ops = append(w.Ops, o)
			}
			w.Cfg["tasks"], w.Cfg["phases"] = 1, 1
			w.Strat = stratFor(r, 1000)
			w.Strat.MaxSteps = 3000000
			w.Strat.PStall = 0 // one task
			return w
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			r := &cbRun{s: s, w: w, h: h, left: -1}
			switch w.Cfg["kind"] {
			case 0:
				r.runHeap()
			case 1:
				r.runVec()
			case 2:
				r.runList()
			case 3:
				r.runMap()
			case 4:
				r.runVisit()
			}
		},
		Rule:  "random contents (0-60 elements, rarely up to 1060; sorted, reversed, many equal, random) on which 1-6 operations with user functions run, each with a panic or goroutine exit injected at a seeded call of the function; afterwards the elements are compared with those before (order too, where nothing may move), the structure is walked and a final clean operation must work; non-trivial when an injected fault fired",
		Real:  []string{"heap", "vec", "dllist", "genmap", "set", "lhashmap", "ring", "golang.org/x/exp/{maps,slices}"},
		Stub:  []string{"user comparators, predicates and visitors (generated, failing)", "map iteration order (simulated)"},
		Notes: []string{"vec.CompactFunc and the callback-free methods are outside the statement"},
	})
}
