package main

import (
	"context"
	"fmt"
	"time"

	"zz.test/repo/dllist"
	"zz.test/repo/genmap"
	"zz.test/repo/hashring"
	"zz.test/repo/heap"
	"zz.test/repo/lhashmap"
	"zz.test/repo/pqueue"
	"zz.test/repo/ring"
	"zz.test/repo/rwmap"
	"zz.test/repo/set"
	"zz.test/repo/synccache"
	"zz.test/repo/tree"
	"zz.test/repo/vec"
	"zz.test/sim"
)

// C19: separate containers, and containers derived from one another as copies, used by one task
// each. Every task must see what it sees when it is the only one.

type isoSubject struct {
	name    string
	do      func(op, a, b int) string
	content func() string
	close   func()
}

// isoSlice is a slice handed out as a copy, written to by its holder.
func isoSlice[T any](l []T, conv func(int) T, how string) *isoSubject {
	s := &isoSubject{name: how}
	s.content = func() string { return fmt.Sprint(l) }
	s.do = func(op, a, b int) string {
		switch {
		case op%3 == 0 || len(l) == 0:
			l = append(l, conv(a%10))
		case op%3 == 1:
			l[a%len(l)] = conv(b % 10)
		default:
			l = l[:a%len(l)]
		}
		return s.content()
	}
	return s
}

func isoVec[T any](name string, conv func(int) T, lessDesc func(a, b T) bool, r *sim.Rand, n, parts int, conf ...vec.VecConf[T]) []*isoSubject {
	mk := func(v *vec.Vec[T], how string) *isoSubject {
		s := &isoSubject{name: "vec/" + name + " (" + how + ")"}
		s.content = func() string { return fmt.Sprint(v.Slice()) }
		at := func(a int) int {
			if v.Len() == 0 {
				return 0
			}
			return a % v.Len()
		}
		s.do = func(op, a, b int) string {
			switch op % 26 {
			case 0, 1:
				v.Push(conv(a % 10))
			case 2:
				v.Push(conv(a%10), conv(b%10), conv(1))
			case 3:
				e, ok := v.Pop()
				return fmt.Sprint(e, ok)
			case 4:
				e, ok := v.Remove(at(a))
				return fmt.Sprint(e, ok)
			case 5:
				return fmt.Sprint(v.Set(at(a), conv(b%10)))
			case 6:
				v.Swap(at(a), at(b))
			case 7:
				i, j := at(a), at(b)
				if i > j {
					i, j = j, i
				}
				v.Delete(i, j)
			case 8:
				v.Insert(at(a), conv(b%10))
			case 9:
				i, j := at(a), at(b)
				if i > j {
					i, j = j, i
				}
				v.Replace(i, j, conv(b%10), conv(a%10))
			case 10:
				v.Reverse()
			case 11:
				v.Sort()
			case 12:
				v.SortStable()
			case 13:
				v.Sort()
				v.Compact()
			case 14:
				v.Clear()
			case 15:
				v.Grow(a % 20)
			case 16:
				v.Clip()
			case 17:
				v.SetCmpLess(lessDesc)
			case 18:
				return fmt.Sprint(v.Search(conv(a%10)), v.SearchAll(conv(b%10)))
			case 19:
				v.Sort()
				i, ok := v.BinarySearch(conv(a % 10))
				return fmt.Sprint(i, ok, v.IsSorted())
			case 20:
				return fmt.Sprint(v.Contains(conv(a % 10)))
			case 21:
				c := v.Clone()
				v = v.SplitOff(at(a))
				return fmt.Sprint(c.Slice())
			case 22:
				t := v.SplitOff(at(a))
				t.Push(conv(b % 10))
				return fmt.Sprint(t.Slice())
			case 23:
				c := v.Clone().Reverse()
				return fmt.Sprint(v.Compare(*c), v.EqualVec(*c))
			case 24:
				i, j := at(a), at(b)
				if i > j {
					i, j = j, i
				}
				v.Cut(i, j)
			case 25:
				if v.Len() > 0 {
					return fmt.Sprint(v.Max(), v.Min())
				}
			}
			return s.content()
		}
		return s
	}
	o := vec.New(conf...)
	for i := 0; i < n; i++ {
		o.Push(conv(r.Intn(9)))
	}
	if r.Intn(3) == 0 {
		o.Grow(r.Intn(10))
	}
	if r.Intn(3) == 0 {
		o.SetCmpLess(lessDesc)
	}
	l := []*isoSubject{mk(o, "original")}
	for len(l) < parts {
		switch r.Intn(6) {
		case 5:
			l = append(l, isoSlice(o.CloneToSlice(), conv, "slice from vec.CloneToSlice"))
		case 0, 1:
			l = append(l, mk(o.Clone(), "clone"))
		case 2:
			i := o.Len()
			if i > 0 {
				i = r.Intn(i + 1)
			}
			l = append(l, mk(o.SplitOff(i), "split off"))
		case 3:
			c := vec.New(conf...)
			c.Push(o.CloneToSlice()...)
			l = append(l, mk(c, "built from CloneToSlice"))
		case 4:
			c := vec.New(conf...)
			for i := 0; i < n; i++ {
				c.Push(conv(r.Intn(9)))
			}
			l = append(l, mk(c, "separate"))
		}
	}
	return l
}

func isoList(r *sim.Rand, n, parts int) []*isoSubject {
	mk := func(l *dllist.Dllist[int], how string) *isoSubject {
		s := &isoSubject{name: "dllist (" + how + ")"}
		s.content = func() string {
			var f, b []int
			for e := l.Front(); e != nil; e = e.Next() {
				f = append(f, e.Value)
			}
			for e := l.Back(); e != nil; e = e.Prev() {
				b = append(b, e.Value)
			}
			return fmt.Sprint(f, b, l.Len())
		}
		at := func(a int) *dllist.Element[int] {
			if l.Len() == 0 {
				return nil
			}
			return l.Get(a % l.Len())
		}
		s.do = func(op, a, b int) string {
			x, y := at(a), at(b)
			if x == nil && op%12 > 3 {
				op = 0
			}
			switch op % 12 {
			case 0:
				l.PushFront(a % 10)
			case 1:
				l.PushBack(b % 10)
			case 2:
				l.Sort(func(x, y int) bool { return x < y })
			case 3:
				l.Sort(func(x, y int) bool { return x > y })
			case 4:
				l.Remove(x)
			case 5:
				x.Remove()
			case 6:
				l.InsertBefore(b%10, x)
			case 7:
				l.InsertAfter(b%10, x)
			case 8:
				l.MoveToFront(x)
				l.MoveToBack(y)
			case 9:
				if x != y {
					l.Swap(x, y)
				}
			case 10:
				if a%4 == 0 {
					l.Clear()
				} else {
					l.PushFrontList(l)
				}
			case 11:
				o := l.Slice()
				o[0] = -7
			}
			return s.content()
		}
		return s
	}
	o := dllist.New[int]()
	for i := 0; i < n; i++ {
		o.PushBack(r.Intn(9))
	}
	l := []*isoSubject{mk(o, "original")}
	for len(l) < parts {
		c := dllist.New[int]()
		switch r.Intn(4) {
		case 3:
			l = append(l, isoSlice(o.Slice(), func(i int) int { return i }, "slice from dllist.Slice"))
		case 0:
			c.PushBackList(o)
			l = append(l, mk(c, "copied by PushBackList"))
		case 1:
			c.PushFrontList(o)
			l = append(l, mk(c, "copied by PushFrontList"))
		case 2:
			for i := 0; i < n; i++ {
				c.PushFront(r.Intn(9))
			}
			l = append(l, mk(c, "separate"))
		}
	}
	return l
}

func isoSet(r *sim.Rand, n, parts int) []*isoSubject {
	mk := func(t set.Set[int], how string) *isoSubject {
		s := &isoSubject{name: "set (" + how + ")"}
		s.content = func() string { return sorted(t.Slice()) }
		s.do = func(op, a, b int) string {
			o := set.New[int]().Push(a%10, b%10)
			switch op % 12 {
			case 0:
				t.Push(a%10, b%10)
			case 1:
				return fmt.Sprint(t.Insert(a % 10))
			case 2:
				return fmt.Sprint(t.Remove(a % 10))
			case 3:
				if a%4 == 0 {
					t.Clear()
				}
			case 4:
				t.CopyFrom(o)
			case 5:
				return fmt.Sprint(t.ContainAndRemove(a%10), t.Contain(b%10))
			case 6:
				t = t.Union(o)
			case 7:
				t = t.Difference(o)
			case 8:
				t = t.SymmetricDifference(o)
			case 9:
				return sorted(t.Intersection(o).Slice())
			case 10:
				return fmt.Sprint(t.IsSubSet(o), t.Equal(o), t.Len())
			case 11:
				t = t.Clone()
			}
			return s.content()
		}
		return s
	}
	o := set.New[int]()
	for i := 0; i < n; i++ {
		o.Push(r.Intn(9))
	}
	e := set.New[int]()
	l := []*isoSubject{mk(o, "original")}
	for len(l) < parts {
		switch r.Intn(8) {
		case 0, 1:
			l = append(l, mk(o.Clone(), "clone"))
		case 2:
			l = append(l, mk(o.Union(), "union of one"))
		case 3:
			l = append(l, mk(o.Union(e), "union with the empty set"))
		case 4:
			l = append(l, mk(e.Union(o), "union"))
		case 5:
			l = append(l, mk(o.Difference(e), "difference from the empty set"))
		case 6:
			l = append(l, mk(o.Intersection(o), "intersection with itself"))
		case 7:
			l = append(l, mk(set.New[int]().CopyFrom(o), "copied by CopyFrom"))
		}
		if r.Intn(4) == 0 && len(l) < parts {
			l = append(l, mk(o.SymmetricDifference(e), "symmetric difference with the empty set"))
		}
	}
	return l
}

func isoMap(r *sim.Rand, n, parts int) []*isoSubject {
	type M = genmap.GenMap[int, string]
	pairs := func(m map[int]string) string {
		var l []string
		for k, v := range m {
			l = append(l, fmt.Sprint(k, "=", v))
		}
		return sorted(l)
	}
	mk := func(m M, how string) *isoSubject {
		s := &isoSubject{name: "genmap (" + how + ")"}
		s.content = func() string { return pairs(m) }
		s.do = func(op, a, b int) string {
			v := fmt.Sprint("w", b%10)
			switch op % 12 {
			case 0, 1:
				m.Store(a%10, v)
			case 2:
				m.Delete(a % 10)
			case 3:
				_, l := m.LoadOrStore(a%10, v)
				return fmt.Sprint(l)
			case 4:
				x, l := m.LoadOrStoreFunc(a%10, func() string { return v })
				return fmt.Sprint(x, l)
			case 5:
				x, l := m.LoadAndDelete(a % 10)
				return fmt.Sprint(x, l)
			case 6:
				x, l := m.LoadAndStore(a%10, v)
				return fmt.Sprint(x, l)
			case 7:
				if a%4 == 0 {
					m.Clear()
				}
			case 8:
				m.CopyFrom(genmap.New[int, string]().Store(a%10, v))
			case 9:
				m.DeleteFunc(func(k int, _ string) bool { return k%2 == a%2 })
			case 10:
				m = m.Clone()
			case 11:
				return sorted(m.Keys()) + sorted(m.Values())
			}
			return s.content()
		}
		return s
	}
	o := genmap.New[int, string]()
	for i := 0; i < n; i++ {
		o.Store(r.Intn(9), fmt.Sprint("v", i))
	}
	l := []*isoSubject{mk(o, "original")}
	for len(l) < parts {
		c := genmap.New[int, string]()
		switch r.Intn(5) {
		case 0, 1:
			l = append(l, mk(o.Clone(), "clone"))
		case 2:
			o.CopyTo(c)
			l = append(l, mk(c, "copied by CopyTo"))
		case 3:
			l = append(l, mk(c.CopyFrom(o), "copied by CopyFrom"))
		case 4:
			raw := map[int]string{}
			o.CopyToRaw(raw)
			l = append(l, mk(genmap.From(raw), "copied by CopyToRaw"))
		}
	}
	return l
}

func isoTree(r *sim.Rand, n, parts int) []*isoSubject {
	in := roInts(r, n+1, false)
	mk := func() *isoSubject {
		root := tree.BuildTree(in)
		s := &isoSubject{name: "tree (built from the same slice)"}
		vals := func(l []*tree.Node[int]) []int {
			var o []int
			for _, x := range l {
				o = append(o, x.Val)
			}
			return o
		}
		s.content = func() string { return fmt.Sprint(vals(root.TraversalBFS()), vals(root.TraversalDFS())) }
		s.do = func(op, a, b int) string {
			l := root.TraversalBFS()
			x := l[a%len(l)]
			switch op % 6 {
			case 0:
				x.SetLeft(tree.NewNode(b % 10))
			case 1:
				x.SetRight(tree.NewNode(b % 10))
			case 2:
				x.Val = b % 10
			case 3:
				return fmt.Sprint(root.DrawTree(), root.MaxDepth(), x.Layer())
			case 4:
				if x.Parent != nil {
					return fmt.Sprint(x.IsLeft(), x.HasUncle(), x.HasSibling())
				}
			case 5:
				return fmt.Sprint(vals(x.TraversalBFS()), vals(x.TraversalDFS()))
			}
			return s.content()
		}
		return s
	}
	var l []*isoSubject
	for len(l) < parts {
		l = append(l, mk())
	}
	return l
}

func isoRing(r *sim.Rand, n, parts int) []*isoSubject {
	mk := func(g *ring.Ring[int], how string) *isoSubject {
		s := &isoSubject{name: "ring (" + how + ")"}
		s.content = func() string {
			var f, b []int
			g.Do(func(x int) { f = append(f, x) })
			p := g
			for i := g.Len(); i > 0; i-- {
				b = append(b, p.Value)
				p = p.Prev()
			}
			return fmt.Sprint(f, b)
		}
		s.do = func(op, a, b int) string {
			switch op % 5 {
			case 0:
				g.Value = a % 10
			case 1:
				g = g.Move(a%7 - 3)
			case 2:
				x := ring.New[int](1 + a%3)
				x.Value = b % 10
				g.Link(x)
			case 3:
				if g.Len() > 1 {
					g.Unlink(a % g.Len())
				}
			case 4:
				return fmt.Sprint(g.Len(), g.Next().Value, g.Prev().Value)
			}
			return s.content()
		}
		return s
	}
	fill := func(n int) *ring.Ring[int] {
		g := ring.New[int](n)
		for i := 0; i < n; i++ {
			g.Value = r.Intn(9)
			g = g.Next()
		}
		return g
	}
	var l []*isoSubject
	for len(l) < parts {
		g := fill(n + 2)
		l = append(l, mk(g, "original"))
		if len(l) < parts && r.Intn(2) == 0 {
			l = append(l, mk(g.Unlink(1+r.Intn(n+1)), "unlinked part"))
		}
	}
	return l
}

func isoHash(r *sim.Rand, n, parts int) []*isoSubject {
	var l []*isoSubject
	for len(l) < parts {
		h := hashring.New[string](1 + r.Intn(3))
		for i := 0; i < n; i++ {
			h.AddNodes(fmt.Sprint("n", r.Intn(9)))
		}
		s := &isoSubject{name: "hashring (separate)"}
		s.content = func() string {
			var o []string
			for i := 0; i < 8; i++ {
				o = append(o, h.GetNode(fmt.Sprint("key", i)))
			}
			return fmt.Sprint(o)
		}
		s.do = func(op, a, b int) string {
			switch op % 5 {
			case 0:
				h.AddNodes(fmt.Sprint("n", a%9), fmt.Sprint("n", b%9))
			case 1:
				h.RemoveNodes(fmt.Sprint("n", a%9))
			case 2:
				h.ResetNodes(fmt.Sprint("n", a%9), fmt.Sprint("n", b%9))
			default:
				return h.GetNode(fmt.Sprint("key", a))
			}
			return s.content()
		}
		l = append(l, s)
	}
	return l
}

func isoHeap(r *sim.Rand, n, parts int) []*isoSubject {
	var l []*isoSubject
	for len(l) < parts {
		s := &isoSubject{name: "heap (separate)"}
		var mn heap.MinHeap[int]
		var mx heap.MaxHeap[int]
		for i := 0; i < n; i++ {
			heap.Push[int](&mn, r.Intn(9))
			heap.Push[int](&mx, r.Intn(9))
		}
		s.content = func() string { return fmt.Sprint([]int(mn), []int(mx)) }
		s.do = func(op, a, b int) string {
			switch op % 6 {
			case 0:
				heap.Push[int](&mn, a%10)
			case 1:
				heap.Push[int](&mx, a%10)
			case 2:
				if mn.Len() > 0 {
					return fmt.Sprint(heap.Pop[int](&mn))
				}
			case 3:
				if mx.Len() > 0 {
					return fmt.Sprint(heap.Pop[int](&mx))
				}
			case 4:
				if mn.Len() > 0 {
					return fmt.Sprint(heap.Remove[int](&mn, a%mn.Len()))
				}
			case 5:
				if mx.Len() > 0 {
					mx[a%mx.Len()] = b % 10
					heap.Fix[int](&mx, a%mx.Len())
				}
			}
			return s.content()
		}
		l = append(l, s)
	}
	return l
}

func isoQueue(r *sim.Rand, n, parts int) []*isoSubject {
	var l []*isoSubject
	for len(l) < parts {
		s := &isoSubject{name: "pqueue (separate)"}
		q := pqueue.NewMinPriorityQueue[string]()
		if r.Intn(2) == 0 {
			q = pqueue.NewMaxPriorityQueue[string]()
		}
		for i := 0; i < n; i++ {
			q.Push(r.Intn(9), fmt.Sprint("v", i))
		}
		s.content = func() string {
			var o []string
			for q.Len() > 0 {
				p, v := q.Pop()
				o = append(o, fmt.Sprint(p, v))
			}
			return fmt.Sprint(o)
		}
		s.do = func(op, a, b int) string {
			if op%2 == 0 || q.Len() == 0 {
				q.Push(a%10, fmt.Sprint("w", b%10))
				return fmt.Sprint(q.Len())
			}
			p, v := q.Pop()
			return fmt.Sprint(p, v)
		}
		l = append(l, s)
	}
	return l
}

func isoLMap(r *sim.Rand, n, parts int) []*isoSubject {
	var l []*isoSubject
	for len(l) < parts {
		s := &isoSubject{name: "lhashmap (separate)"}
		m := lhashmap.New[int, string]()
		if r.Intn(2) == 0 {
			m = lhashmap.New(lhashmap.WithCap[int, string](4))
		}
		for i := 0; i < n; i++ {
			m.Store(r.Intn(9), fmt.Sprint("v", i))
		}
		s.content = func() string {
			var o []string
			m.Range(func(k int, v string) bool { o = append(o, fmt.Sprint(k, "=", v)); return true })
			return fmt.Sprint(o, m.Len())
		}
		s.do = func(op, a, b int) string {
			switch op % 4 {
			case 0:
				m.Store(a%10, fmt.Sprint("w", b%10))
			case 1:
				v, ok := m.Load(a % 10)
				return fmt.Sprint(v, ok)
			case 2:
				m.Remove(a % 10)
			case 3:
				if a%4 == 0 {
					m.Clear()
				}
			}
			return s.content()
		}
		l = append(l, s)
	}
	return l
}

func isoRW(r *sim.Rand, n, parts int) []*isoSubject {
	var l []*isoSubject
	for len(l) < parts {
		s := &isoSubject{name: "rwmap (separate)"}
		m := new(rwmap.RWMap[int, int])
		for i := 0; i < n; i++ {
			m.Store(r.Intn(9), i)
		}
		s.content = func() string {
			var o []string
			m.Range(func(k, v int) bool { o = append(o, fmt.Sprint(k, "=", v)); return true })
			return sorted(o) + fmt.Sprint(" ", m.Len())
		}
		s.do = func(op, a, b int) string {
			k := a % 10
			switch op % 9 {
			case 0:
				m.Store(k, b)
			case 1:
				v, ok := m.Load(k)
				return fmt.Sprint(v, ok)
			case 2:
				v, ok := m.LoadOrStore(k, b)
				return fmt.Sprint(v, ok)
			case 3:
				v, ok := m.LoadAndDelete(k)
				return fmt.Sprint(v, ok)
			case 4:
				m.Delete(k)
			case 5:
				v, ok := m.Swap(k, b)
				return fmt.Sprint(v, ok)
			case 6:
				v, _ := m.Load(k)
				return fmt.Sprint(m.CompareAndSwap(k, v, b), m.CompareAndDelete(k, b))
			case 7:
				if b%4 == 0 {
					m.Clear()
				}
			}
			return s.content()
		}
		l = append(l, s)
	}
	return l
}

func isoRefresh(variant int, r *sim.Rand, n, parts int) []*isoSubject {
	var l []*isoSubject
	ctx := context.Background()
	for len(l) < parts {
		id := int64(len(l) + 1)
		s := &isoSubject{name: []string{"refreshcache0", "refreshcache1", "refreshcache"}[variant] + " (separate)"}
		maxAge, errAge := time.Duration(-1), time.Duration(0)
		if r.Intn(3) == 0 {
			maxAge = 0
		}
		if r.Intn(2) == 0 {
			errAge = 1000000 * time.Hour
		}
		runs, clears := int64(0), int64(0)
		var seen []string
		note := func(what string, fid int, args []int64, old *int64) {
			o := "none"
			if old != nil {
				o = fmt.Sprint(*old)
			}
			seen = append(seen, fmt.Sprint(what, fid, args, " old ", o))
		}
		f := rcFn{
			run: func(fid int, _ context.Context, args []int64, old func() *int64) (int64, error) {
				runs++
				note("run", fid, args, old())
				if (runs+id)%4 == 0 {
					return 0, fmt.Errorf("e%d.%d", id, runs)
				}
				return id*1000 + runs, nil
			},
			clr: func(fid int, _ context.Context, args []int64, old func() *int64) error {
				clears++
				note("clear", fid, args, old())
				if (clears+id)%3 == 0 {
					return fmt.Errorf("c%d.%d", id, clears)
				}
				return nil
			},
		}
		data := r.Intn(2) == 0
		c := mkRC(variant, data, maxAge, errAge, f, codec[int64]{func(x int64) int64 { return x }, func(x int64) int64 { return x }})
		s.content = func() string {
			o := c.Observe()
			return fmt.Sprint(o.val, o.err, o.last != 0, o.lastErr != 0, o.maxAge, o.errAge, seen)
		}
		s.do = func(op, a, b int) string {
			fid, args := a%3, []int64{int64(b % 7)}
			if variant == 0 {
				args = nil
			}
			switch op % 7 {
			case 0, 1, 2:
				v, err := c.Get(ctx, fid, args)
				return fmt.Sprint(v, err)
			case 3:
				v, err := c.Refresh(ctx, fid, args)
				return fmt.Sprint(v, err)
			case 4:
				return fmt.Sprint(c.Clear(ctx, fid, args))
			case 5:
				if !data {
					c.SetRefresh(fid)
					c.SetClear(a%4 - 1)
				}
			}
			return s.content()
		}
		l = append(l, s)
	}
	return l
}

func isoCache(r *sim.Rand, n, parts int) []*isoSubject {
	var l []*isoSubject
	const life = 800000 * time.Hour
	for len(l) < parts {
		s := &isoSubject{name: "synccache (separate)"}
		var gone []int
		c := synccache.NewSyncCache(time.Second, synccache.WithDeletedCallback[int, int](func(v int) { gone = append(gone, v) }))
		id := len(l) * 1000
		for i := 0; i < n; i++ {
			c.Store(r.Intn(9), id+i, life)
		}
		s.close = c.Close
		s.content = func() string {
			var o []string
			c.Range(func(k int, e *synccache.Entry[int]) bool { o = append(o, fmt.Sprint(k, "=", e.Value())); return true })
			return sorted(o) + " gone " + sorted(gone)
		}
		s.do = func(op, a, b int) string {
			k := a % 10
			switch op % 9 {
			case 0, 1:
				c.Store(k, id+b, life)
			case 2:
				e, ok := c.Load(k)
				if !ok {
					return "none"
				}
				e.AddExpiration(time.Hour)
				return fmt.Sprint(e.Value(), e.IsExpired())
			case 3:
				e, ok := c.LoadOrStore(k, id+b, life)
				return fmt.Sprint(e.Value(), ok)
			case 4:
				e, ok := c.LoadAndDelete(k)
				if ok {
					return fmt.Sprint(e.Value()) + " gone " + sorted(gone)
				}
				return "none"
			case 5:
				c.Delete(k)
			case 6:
				return fmt.Sprint(c.CompareValueAndDelete(k, id+b))
			case 7:
				if e, ok := c.Load(k); ok {
					return fmt.Sprint(c.CompareAndDelete(k, e), c.CompareAndDelete(k, e))
				}
			case 8:
				if a%4 == 0 {
					c.Clear()
				} else if a%4 == 1 {
					c.Close()
					c.Start()
				}
			}
			return s.content()
		}
		l = append(l, s)
	}
	return l
}

const isoKindsN = 18

func isoBuild(kind int, seed uint64, n, parts int) []*isoSubject {
	r := sim.NewRand(seed)
	switch kind {
	case 0, 1:
		return isoVec("int", func(i int) int { return i }, func(a, b int) bool { return a > b }, r, n, parts)
	case 2:
		return isoVec("string", func(i int) string { return fmt.Sprint("s", i) }, func(a, b string) bool { return a > b }, r, n, parts)
	case 3:
		return isoVec("struct", func(i int) roRec { return roRec{i, fmt.Sprint(i)} }, func(a, b roRec) bool { return a.a > b.a }, r, n, parts,
			vec.WithCmpLess(func(x, y roRec) bool { return x.a < y.a }), vec.WithCmpEqual(func(x, y roRec) bool { return x == y }))
	case 4, 5:
		return isoList(r, n, parts)
	case 6:
		return isoSet(r, n, parts)
	case 7:
		return isoMap(r, n, parts)
	case 8:
		return isoTree(r, n, parts)
	case 9:
		return isoRing(r, n, parts)
	case 10:
		return isoHash(r, n, parts)
	case 11:
		return isoHeap(r, n, parts)
	case 12:
		return isoQueue(r, n, parts)
	case 13:
		return isoLMap(r, n, parts)
	case 14:
		return isoRW(r, n, parts)
	case 15, 16:
		return isoRefresh(r.Intn(3), r, n, parts)
	}
	return isoCache(r, n, parts)
}

func runIsolate(s *sim.Sim, w *Work, h *Hist) {
	kind, seed, n, parts := int(w.Cfg["kind"]), uint64(w.Cfg["content"]), int(w.Cfg["n"]), int(w.Cfg["tasks"])
	step := func(sub *isoSubject, o Op) (got string) {
		pv, pan := guard(func() { got = sub.do(int(o.A), int(o.B), int(o.C)) })
		if pan {
			got = "panic: " + fmt.Sprint(pv)
		}
		return
	}
	end := func(l []*isoSubject) {
		for _, x := range l {
			if x.close != nil {
				x.close()
			}
		}
	}
	// each task alone, on a family of its own
	want, last := map[int]string{}, make([]string, parts)
	for t := 0; t < parts; t++ {
		l := isoBuild(kind, seed, n, parts)
		for _, o := range w.Ops {
			if o.Task == t {
				want[o.ID] = step(l[t], o)
			}
		}
		last[t] = l[t].content()
		end(l)
	}
	l := isoBuild(kind, seed, n, parts)
	active := 0
	runPhase(s, w, 0, func(task int, o Op) {
		if s.Violation() != nil {
			return
		}
		sub := l[task]
		active++
		if active > 1 {
			h.nontriv = true
		}
		inv := s.Seq()
		got := step(sub, o)
		active--
		h.checks++
		if h.on {
			h.logf("[%d-%d] task %d on its own %s: op %d(%d,%d) -> %s", inv, s.Seq(), task, sub.name, o.A, o.B, o.C, got)
		}
		if got != want[o.ID] {
			s.Fail("result", "task %d alone used %s; op %d(%d,%d) gave %s while other tasks used other containers, %s when it ran alone", task, sub.name, o.A, o.B, o.C, got, want[o.ID])
		}
	})
	if s.Violation() != nil {
		return
	}
	for t, sub := range l {
		h.checks++
		if c := sub.content(); c != last[t] {
			s.Fail("content", "%s, used by task %d alone, ended as %s; without the other tasks, as %s", sub.name, t, c, last[t])
			return
		}
	}
	end(l)
}

func init() {
	register(&Prop{
		ID: "C19",
		Gen: func(r *sim.Rand, deep bool) *Work {
			w := &Work{Cfg: map[string]int64{}, Race: true}
			w.Cfg["kind"] = int64(r.Intn(isoKindsN))
			w.Cfg["content"] = int64(r.Intn(1 << 30))
			w.Cfg["n"] = int64(r.Intn(9))
			switch x := r.Intn(400); {
			case x == 0:
				w.Cfg["n"] = int64(40 + r.Intn(300))
			case x < 50:
				w.Cfg["n"] = int64(r.Intn(40))
			}
			nt := 2 + r.Intn(2)
			w.Cfg["tasks"] = int64(nt)
			w.Cfg["phases"] = 1
			id := 0
			for t := 0; t < nt; t++ {
				for i := 1 + r.Intn(6); i > 0; i-- {
					id++
					w.Ops = append(w.Ops, Op{ID: id, Task: t, Kind: "use", A: int64(r.Intn(1 << 16)), B: int64(r.Intn(1 << 10)), C: int64(r.Intn(1 << 10))})
				}
			}
			w.Strat = stratFor(r, 400)
			w.Strat.MaxSteps = 2000000
			return w
		},
		Run:   runIsolate,
		Rule:  "2-3 containers of one of 15 kinds (usually up to 8 elements, up to 340), separate or derived from one another as copies (clones, split-off vectors, unlinked rings, set algebra results, copied lists and maps), each used by one task through its mutating and reading methods under a seeded scheduler with happens-before tracking; every result and the final content are compared with the same calls without the other tasks; non-trivial when calls of different tasks overlapped",
		Real:  []string{"vec", "dllist", "set", "genmap", "tree", "ring", "hashring", "heap", "pqueue", "lhashmap", "rwmap", "synccache", "refreshcache", "refreshcache0", "refreshcache1", "golang.org/x/exp/{maps,slices}"},
		Stub:  []string{"goroutine scheduling, locks, atomics (simulated)", "clock (simulated)", "map iteration order (simulated)"},
		Notes: []string{"excluded: results that are views by contract (vec Slice, SliceCut, Cut; genmap Map, From)"},
	})
}
