package main

import (
	"fmt"
	"sort"
	"strings"

	"zz.test/repo/dllist"
	"zz.test/repo/genmap"
	"zz.test/repo/hashring"
	"zz.test/repo/heap"
	"zz.test/repo/lhashmap"
	"zz.test/repo/pqueue"
	"zz.test/repo/ring"
	"zz.test/repo/set"
	"zz.test/repo/tree"
	"zz.test/repo/vec"
	"zz.test/sim"
)

// C15: a container that was built and is then only queried, by many tasks.

// roSubject is one built container: queries by number, and its content.
type roSubject struct {
	name    string
	queries []roQuery
	content func() string
}

type roQuery struct {
	name string
	do   func(a, b int) string
}

func sorted[T any](l []T) string {
	var o []string
	for _, x := range l {
		o = append(o, fmt.Sprint(x))
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

type roRec struct {
	a int
	b string
}

// content of n elements drawn from a small domain
func roInts(r *sim.Rand, n int, ord bool) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = r.Intn(9)
	}
	if ord {
		sort.Ints(l)
	}
	return l
}

func roVec[T any](name string, conv func(int) T, in []int, conf ...vec.VecConf[T]) *roSubject {
	v := vec.New(conf...)
	o := vec.New(conf...)
	for i, x := range in {
		v.Push(conv(x))
		if i%3 != 1 {
			o.Push(conv(x))
		}
	}
	same := vec.New(conf...)
	for _, x := range in {
		same.Push(conv(x))
	}
	raw := func(v *vec.Vec[T]) string { return fmt.Sprint(v.Slice()) }
	s := &roSubject{name: "vec/" + name, content: func() string { return raw(v) + raw(o) + raw(same) }}
	q := func(name string, f func(a, b int) any) {
		s.queries = append(s.queries, roQuery{name, func(a, b int) string { return fmt.Sprint(f(a, b)) }})
	}
	n := len(in)
	at := func(a int) int {
		if n == 0 {
			return 0
		}
		return a % n
	}
	q("Len", func(a, b int) any { return v.Len() })
	q("IsEmpty", func(a, b int) any { return v.IsEmpty() })
	q("Get", func(a, b int) any { e, ok := v.Get(a%12 - 1); return fmt.Sprint(e, ok) })
	q("Search", func(a, b int) any { return v.Search(conv(a % 10)) })
	q("SearchFunc", func(a, b int) any {
		return v.SearchFunc(func(x T) bool { return fmt.Sprint(x) == fmt.Sprint(conv(a%10)) })
	})
	q("SearchAll", func(a, b int) any { return v.SearchAll(conv(a % 10)) })
	q("SearchAllFunc", func(a, b int) any {
		return v.SearchAllFunc(func(x T) bool { return fmt.Sprint(x) == fmt.Sprint(conv(a%10)) })
	})
	q("BinarySearch", func(a, b int) any { i, ok := v.BinarySearch(conv(a % 10)); return fmt.Sprint(i, ok) })
	q("First", func(a, b int) any { e, ok := v.First(); return fmt.Sprint(e, ok) })
	q("Last", func(a, b int) any { e, ok := v.Last(); return fmt.Sprint(e, ok) })
	q("Range", func(a, b int) any {
		var l []T
		v.Range(func(i int, x T) bool { l = append(l, x); return i < a%12 })
		return l
	})
	q("SliceCut", func(a, b int) any { return v.SliceCut(a%8-1, b%10) })
	q("Slice", func(a, b int) any { return v.Slice() })
	q("Less", func(a, b int) any { return v.Less(at(a), at(b)) })
	q("Equal", func(a, b int) any { return v.Equal(at(a), at(b)) })
	q("CmpLess", func(a, b int) any { return v.CmpLess(conv(a%10), conv(b%10)) })
	q("CmpEqual", func(a, b int) any { return v.CmpEqual(conv(a%10), conv(b%10)) })
	q("Clone", func(a, b int) any { return raw(v.Clone()) })
	q("Clone and change the clone", func(a, b int) any {
		c := v.Clone()
		c.Set(at(a), conv(b%10))
		c.Push(conv(a % 10))
		c.Sort()
		return raw(c)
	})
	q("CloneToSlice", func(a, b int) any {
		l := v.CloneToSlice()
		if len(l) > 0 {
			l[at(a)] = conv(b % 10)
		}
		return append(l, conv(a%10))
	})
	q("Compare", func(a, b int) any { return v.Compare(*o) })
	q("Compare with an equal vec", func(a, b int) any { return v.Compare(*same) })
	q("Contains", func(a, b int) any { return v.Contains(conv(a % 10)) })
	q("ContainsFunc", func(a, b int) any {
		return v.ContainsFunc(func(x T) bool { return fmt.Sprint(x) == fmt.Sprint(conv(a%10)) })
	})
	q("EqualVec", func(a, b int) any { return v.EqualVec(*o) })
	q("EqualVec of an equal vec", func(a, b int) any { return v.EqualVec(*same) })
	q("EqualSlice", func(a, b int) any { return v.EqualSlice(same.Slice()) })
	q("IsSorted", func(a, b int) any { return v.IsSorted() })
	q("Max", func(a, b int) any { return v.Max() })
	q("Min", func(a, b int) any { return v.Min() })
	return s
}

func roList(r *sim.Rand, in []int, zero bool) *roSubject {
	l := dllist.New[int]()
	if zero {
		l = &dllist.Dllist[int]{}
	}
	for i, x := range in {
		if i%2 == 0 {
			l.PushBack(x)
		} else {
			l.PushFront(x)
		}
	}
	s := &roSubject{name: "dllist", content: func() string {
		var f, b []int
		for e := l.Front(); e != nil; e = e.Next() {
			f = append(f, e.Value)
		}
		for e := l.Back(); e != nil; e = e.Prev() {
			b = append(b, e.Value)
		}
		return fmt.Sprint(f, b, l.Len())
	}}
	q := func(name string, f func(a, b int) any) {
		s.queries = append(s.queries, roQuery{name, func(a, b int) string { return fmt.Sprint(f(a, b)) }})
	}
	val := func(e *dllist.Element[int]) any {
		if e == nil {
			return nil
		}
		return e.Value
	}
	q("Len", func(a, b int) any { return l.Len() })
	q("Get", func(a, b int) any { return val(l.Get(a%12 - 1)) })
	q("Front", func(a, b int) any { return val(l.Front()) })
	q("Back", func(a, b int) any { return val(l.Back()) })
	q("Slice", func(a, b int) any { return l.Slice() })
	q("Range", func(a, b int) any {
		var o []int
		all := l.Range(func(e *dllist.Element[int]) bool { o = append(o, e.Value); return len(o) < a%12+1 })
		return fmt.Sprint(o, all)
	})
	q("Element.Range", func(a, b int) any {
		var o []int
		if e := l.Get(a % 12); e != nil {
			e.Range(func(e *dllist.Element[int]) bool { o = append(o, e.Value); return len(o) < b%12+1 })
		}
		return o
	})
	q("walk", func(a, b int) any {
		var o []int
		for e := l.Back(); e != nil; e = e.Prev() {
			o = append(o, e.Value)
		}
		return o
	})
	q("PushBackList onto a private list", func(a, b int) any {
		p := dllist.New[int]()
		p.PushBack(a)
		p.PushBackList(l)
		p.Get(p.Len() / 2).Remove()
		return p.Slice()
	})
	q("PushFrontList onto a private list", func(a, b int) any {
		p := dllist.New[int]()
		p.PushBack(a)
		p.PushFrontList(l)
		return p.Slice()
	})
	return s
}

func roSet(r *sim.Rand, in []int) *roSubject {
	a1, a2 := set.New[int](), set.New[int]()
	for i, x := range in {
		a1.Push(x)
		if i%3 != 0 {
			a2.Push(x + i%2)
		}
	}
	s := &roSubject{name: "set", content: func() string { return sorted(a1.Slice()) + "|" + sorted(a2.Slice()) }}
	q := func(name string, f func(a, b int) any) {
		s.queries = append(s.queries, roQuery{name, func(a, b int) string { return fmt.Sprint(f(a, b)) }})
	}
	q("Len", func(a, b int) any { return a1.Len() })
	q("IsEmpty", func(a, b int) any { return a1.IsEmpty() })
	q("Slice", func(a, b int) any { return sorted(a1.Slice()) })
	q("Contain", func(a, b int) any { return a1.Contain(a % 10) })
	q("Clone", func(a, b int) any { c := a1.Clone(); c.Push(a); c.Remove(b % 10); return sorted(c.Slice()) })
	q("Range", func(a, b int) any {
		var l []int
		a1.Range(func(x int) bool { l = append(l, x); return true })
		return sorted(l)
	})
	q("Equal", func(a, b int) any { return a1.Equal(a2) })
	q("IsSubSet", func(a, b int) any { return a1.IsSubSet(a2) })
	q("IsSupperSet", func(a, b int) any { return a1.IsSupperSet(a2) })
	q("Difference", func(a, b int) any { c := a1.Difference(a2); c.Push(a); return sorted(c.Slice()) })
	q("SymmetricDifference", func(a, b int) any { c := a1.SymmetricDifference(a2); c.Push(a); return sorted(c.Slice()) })
	q("Intersection", func(a, b int) any { c := a1.Intersection(a2); c.Push(a); return sorted(c.Slice()) })
	q("Union", func(a, b int) any { c := a1.Union(a2); c.Push(a); return sorted(c.Slice()) })
	q("Union of none", func(a, b int) any { c := a1.Union(); c.Push(a); return sorted(c.Slice()) })
	q("CopyFrom into a private set", func(a, b int) any { c := set.New[int]().CopyFrom(a1); c.Push(a); return sorted(c.Slice()) })
	return s
}

func roMap(r *sim.Rand, in []int) *roSubject {
	m, m2 := genmap.New[int, string](), genmap.New[int, string]()
	for i, x := range in {
		m.Store(x, fmt.Sprint("v", i))
		m2.Store(x, fmt.Sprint("v", i))
	}
	if len(in) > 3 {
		m2.Delete(in[0])
	}
	pairs := func(m map[int]string) string {
		var l []string
		for k, v := range m {
			l = append(l, fmt.Sprint(k, "=", v))
		}
		return sorted(l)
	}
	s := &roSubject{name: "genmap", content: func() string { return pairs(m) + "|" + pairs(m2) }}
	q := func(name string, f func(a, b int) any) {
		s.queries = append(s.queries, roQuery{name, func(a, b int) string { return fmt.Sprint(f(a, b)) }})
	}
	q("Len", func(a, b int) any { return m.Len() })
	q("Load", func(a, b int) any { v, ok := m.Load(a % 10); return fmt.Sprint(v, ok) })
	q("Clone", func(a, b int) any { c := m.Clone(); c.Store(a, "x"); c.Delete(b % 10); return pairs(c) })
	q("Keys", func(a, b int) any { return sorted(m.Keys()) })
	q("Values", func(a, b int) any { return sorted(m.Values()) })
	q("Range", func(a, b int) any {
		var l []string
		ok := m.Range(func(k int, v string) bool { l = append(l, fmt.Sprint(k, "=", v)); return true })
		return fmt.Sprint(sorted(l), ok)
	})
	q("EqualFunc", func(a, b int) any { return m.EqualFunc(m2, func(x, y string) bool { return x == y }) })
	q("CopyTo a private map", func(a, b int) any { c := genmap.New[int, string](); m.CopyTo(c); c.Store(a, "x"); return pairs(c) })
	q("CopyToRaw a private map", func(a, b int) any { c := map[int]string{}; m.CopyToRaw(c); c[a] = "x"; return pairs(c) })
	q("CopyFrom into a private map", func(a, b int) any { c := genmap.New[int, string]().CopyFrom(m); c.Store(a, "x"); return pairs(c) })
	q("CopyFromRaw into a private map", func(a, b int) any {
		c := genmap.New[int, string]().CopyFromRaw(m.Map())
		c.Store(a, "x")
		return pairs(c)
	})
	return s
}

func roTree(r *sim.Rand, in []int) *roSubject {
	if len(in) == 0 {
		in = []int{1}
	}
	var nodes []*tree.Node[int]
	var root *tree.Node[int]
	if r.Intn(2) == 0 {
		root = tree.BuildTree(in)
	} else { // irregular
		for i, x := range in {
			n := tree.NewNode(x)
			if i == 0 {
				root = n
			} else {
				for {
					p := nodes[r.Intn(len(nodes))]
					if p.Left == nil && r.Intn(2) == 0 {
						p.SetLeft(n)
						break
					} else if p.Right == nil {
						p.SetRight(n)
						break
					}
				}
			}
			nodes = append(nodes, n)
		}
	}
	nodes = nil
	var walk func(n *tree.Node[int])
	walk = func(n *tree.Node[int]) {
		if n != nil {
			nodes = append(nodes, n)
			walk(n.Left)
			walk(n.Right)
		}
	}
	walk(root)
	num := map[*tree.Node[int]]int{nil: -1}
	for i, n := range nodes {
		num[n] = i
	}
	s := &roSubject{name: "tree", content: func() string {
		var b strings.Builder
		for _, n := range nodes {
			fmt.Fprintf(&b, "%d:%d<%d>%d^%d ", num[n], n.Val, num[n.Left], num[n.Right], num[n.Parent])
		}
		return b.String()
	}}
	at := func(a int) *tree.Node[int] { return nodes[a%len(nodes)] }
	q := func(name string, f func(n, m *tree.Node[int]) any) {
		s.queries = append(s.queries, roQuery{name, func(a, b int) string { return fmt.Sprint(f(at(a), at(b))) }})
	}
	ids := func(l []*tree.Node[int]) []int {
		var o []int
		for _, n := range l {
			o = append(o, num[n])
		}
		return o
	}
	type N = *tree.Node[int]
	q("DrawTree", func(n, m N) any { return n.DrawTree() })
	q("TraversalDFS", func(n, m N) any { return ids(n.TraversalDFS()) })
	q("TraversalBFS", func(n, m N) any { return ids(n.TraversalBFS()) })
	q("MaxDepth", func(n, m N) any { return n.MaxDepth() })
	q("Layer", func(n, m N) any { return n.Layer() })
	q("Sibling", func(n, m N) any { return num[n.Sibling()] })
	q("Uncle", func(n, m N) any { return num[n.Uncle()] })
	q("Grandparent", func(n, m N) any { return num[n.Grandparent()] })
	q("predicates", func(n, m N) any {
		return []bool{n.IsLeaf(), n.IsRoot(), n.IsLeft(), n.IsRight(), n.HasLeft(), n.HasRight(), n.HasChild(), n.HasBothChild(), n.HasParent(), n.HasSibling(), n.HasUncle(), n.HasGrandparent()}
	})
	q("relations", func(n, m N) any {
		return []bool{n.IsLeftRelation(m), n.IsRightRelation(m), n.IsChildRelation(m), n.IsUncleRelation(m), n.IsSiblingRelation(m), n.IsGrandparentRelation(m), n.IsAncestorRelation(m), n.IsDescendantRelation(m)}
	})
	return s
}

func roRing(r *sim.Rand, in []int) *roSubject {
	if len(in) == 0 {
		in = []int{4}
	}
	g := ring.New[int](len(in))
	for _, x := range in {
		g.Value = x
		g = g.Next()
	}
	s := &roSubject{name: "ring"}
	all := func() string {
		var l []int
		g.Do(func(x int) { l = append(l, x) })
		return fmt.Sprint(l)
	}
	s.content = all
	q := func(name string, f func(a, b int) any) {
		s.queries = append(s.queries, roQuery{name, func(a, b int) string { return fmt.Sprint(f(a, b)) }})
	}
	q("Len", func(a, b int) any { return g.Len() })
	q("Do", func(a, b int) any { return all() })
	q("Next", func(a, b int) any { return g.Next().Value })
	q("Prev", func(a, b int) any { return g.Prev().Value })
	q("Move", func(a, b int) any { return g.Move(a%9 - 4).Value })
	q("Move and Len", func(a, b int) any { return g.Move(b%9 - 4).Len() })
	return s
}

func roHash(r *sim.Rand, in []int) *roSubject {
	h := hashring.New[string](1 + r.Intn(4))
	for _, x := range in {
		h.AddNodes(fmt.Sprint("node", x))
	}
	s := &roSubject{name: "hashring"}
	s.content = func() string {
		var l []string
		for i := 0; i < 30; i++ {
			l = append(l, h.GetNode(fmt.Sprint("key", i)))
		}
		return fmt.Sprint(l)
	}
	for k := 0; k < 3; k++ {
		s.queries = append(s.queries, roQuery{"GetNode", func(a, b int) string { return h.GetNode(fmt.Sprint([]string{"key", "node", ""}[k], a%20)) }})
	}
	return s
}

func roHeap(r *sim.Rand, in []int) *roSubject {
	var mn heap.MinHeap[int]
	var mx heap.MaxHeap[int]
	pq, pm := pqueue.NewMinPriorityQueue[string](), pqueue.NewMaxPriorityQueue[string]()
	for _, x := range in {
		heap.Push[int](&mn, x)
		heap.Push[int](&mx, x)
		pq.Push(x, fmt.Sprint(x))
		pm.Push(x, fmt.Sprint(x))
	}
	s := &roSubject{name: "heap", content: func() string { return fmt.Sprint([]int(mn), []int(mx), pq.Len(), pm.Len()) }}
	n := max(len(in), 1)
	q := func(name string, f func(a, b int) any) {
		s.queries = append(s.queries, roQuery{name, func(a, b int) string { return fmt.Sprint(f(a, b)) }})
	}
	q("MinHeap.Len", func(a, b int) any { return mn.Len() })
	q("MaxHeap.Len", func(a, b int) any { return mx.Len() })
	q("MinHeap.Less", func(a, b int) any { return mn.Less(a%n, b%n) })
	q("MaxHeap.Less", func(a, b int) any { return mx.Less(a%n, b%n) })
	q("PQueue.Len", func(a, b int) any { return fmt.Sprint(pq.Len(), pm.Len()) })
	return s
}

func roLMap(r *sim.Rand, in []int) *roSubject {
	m := lhashmap.New[int, string]()
	for i, x := range in {
		m.Store(x, fmt.Sprint("v", i))
	}
	s := &roSubject{name: "lhashmap"}
	all := func(stop int) string {
		var l []string
		m.Range(func(k int, v string) bool { l = append(l, fmt.Sprint(k, "=", v)); return len(l) <= stop })
		return fmt.Sprint(l)
	}
	s.content = func() string { return all(1000) }
	s.queries = []roQuery{
		{"Len", func(a, b int) string { return fmt.Sprint(m.Len()) }},
		{"Range", func(a, b int) string { return all(a % 12) }},
	}
	return s
}

func roBuild(kind int, seed uint64, n int) *roSubject {
	r := sim.NewRand(seed)
	in := roInts(r, n, r.Intn(2) == 0)
	switch kind {
	case 0:
		return roVec("int", func(i int) int { return i }, in)
	case 1:
		return roVec("string", func(i int) string { return fmt.Sprint("s", i) }, in)
	case 2:
		return roVec("uint8", func(i int) uint8 { return uint8(i) }, in)
	case 3:
		return roVec("float64", func(i int) float64 { return float64(i) / 2 }, in)
	case 4:
		return roVec("struct", func(i int) roRec { return roRec{i, fmt.Sprint(i)} }, in,
			vec.WithCmpLess(func(x, y roRec) bool { return x.a < y.a }), vec.WithCmpEqual(func(x, y roRec) bool { return x == y }))
	case 5, 6:
		return roList(r, in, kind == 6)
	case 7:
		return roSet(r, in)
	case 8:
		return roMap(r, in)
	case 9:
		return roTree(r, in)
	case 10:
		return roRing(r, in)
	case 11:
		return roHash(r, in)
	case 12:
		return roHeap(r, in)
	}
	return roLMap(r, in)
}

const roKindsN = 14

func runReaders(s *sim.Sim, w *Work, h *Hist) {
	kind, seed, n := int(w.Cfg["kind"]), uint64(w.Cfg["content"]), int(w.Cfg["n"])
	shared := roBuild(kind, seed, n)
	before := roBuild(kind, seed, n).content()
	// each query alone, each on a container of its own
	want := map[int]string{}
	for _, o := range w.Ops {
		c := roBuild(kind, seed, n)
		q := c.queries[int(o.A)%len(c.queries)]
		pv, pan := guard(func() { want[o.ID] = q.do(int(o.B), int(o.C)) })
		if pan {
			want[o.ID] = "panic: " + fmt.Sprint(pv)
		}
	}
	active := 0
	runPhase(s, w, 0, func(task int, o Op) {
		if s.Violation() != nil {
			return
		}
		q := shared.queries[int(o.A)%len(shared.queries)]
		active++
		if active > 1 {
			h.nontriv = true
		}
		var got string
		inv := s.Seq()
		pv, pan := guard(func() { got = q.do(int(o.B), int(o.C)) })
		active--
		if pan {
			got = "panic: " + fmt.Sprint(pv)
		}
		h.checks++
		if h.on {
			h.logf("[%d-%d] task %d %s.%s(%d,%d) -> %s", inv, s.Seq(), task, shared.name, q.name, o.B, o.C, got)
		}
		if got != want[o.ID] {
			s.Fail("result", "%s.%s(%d,%d) returned %s next to other readers, %s alone", shared.name, q.name, o.B, o.C, got, want[o.ID])
		}
	})
	if s.Violation() != nil {
		return
	}
	h.checks++
	if after := shared.content(); after != before {
		s.Fail("content", "%s changed under read-only calls: %s became %s", shared.name, before, after)
	}
}

func init() {
	register(&Prop{
		ID: "C15",
		Gen: func(r *sim.Rand, deep bool) *Work {
			w := &Work{Cfg: map[string]int64{}, Race: true}
			w.Cfg["kind"] = int64(r.Intn(roKindsN))
			w.Cfg["content"] = int64(r.Intn(1 << 30))
			w.Cfg["n"] = int64(r.Intn(9))
			switch x := r.Intn(300); {
			case x == 0:
				w.Cfg["n"] = int64(40 + r.Intn(300))
			case x < 20 || deep && x < 75:
				w.Cfg["n"] = int64(r.Intn(40))
			}
			nt := 2 + r.Intn(2)
			w.Cfg["tasks"] = int64(nt)
			w.Cfg["phases"] = 1
			id := 0
			for t := 0; t < nt; t++ {
				for i := 1 + r.Intn(4); i > 0; i-- {
					id++
					w.Ops = append(w.Ops, Op{ID: id, Task: t, Kind: "query", A: int64(r.Intn(1 << 16)), B: int64(r.Intn(1 << 10)), C: int64(r.Intn(1 << 10))})
				}
			}
			w.Strat = stratFor(r, 300)
			w.Strat.MaxSteps = 2000000
			return w
		},
		Run:   runReaders,
		Rule:  "one container (vector of five element types, list, set, map, tree, ring, hash ring, heaps and queues, linked hash map) with random content (usually up to 8 elements, up to 340) queried by 2-3 tasks through every read-only method under a seeded scheduler with happens-before tracking; every result is compared with the same query on a container of its own, and the content afterwards with the content built; non-trivial when queries of different tasks overlapped",
		Real:  []string{"vec", "dllist", "set", "genmap", "tree", "ring", "hashring", "heap", "pqueue", "lhashmap", "golang.org/x/exp/{maps,slices}"},
		Stub:  []string{"goroutine scheduling (simulated)", "map iteration order (simulated)"},
		Notes: []string{"excluded: lookups that reorder by contract (linked hash map Load), and the zero-value ring, which its first use initialises"},
	})
}
