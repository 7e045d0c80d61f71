package main

import (
	"fmt"
	"sort"
	"strings"

	"zz.test/repo/hashring"
	"zz.test/sim"
)

// C14: several routers hold a ring each. Membership changes reach them in
// different orders, batched, duplicated, interleaved with restarts. Relations
// only: agreement, membership, minimal movement; the hash itself is not
// specified.

type hrAd interface {
	Add(ns []int)
	Remove(ns []int)
	Reset(ns []int)
	Get(k int) int // -1: the zero value, -2: something that is no name of ours
	Name(i int) string
}

type hrT[N int | string | uint8 | float64 | int64] struct {
	h    *hashring.HashRing[N]
	name []N
	idx  map[N]int
}

func (a *hrT[N]) conv(ns []int) []N {
	var o []N
	for _, i := range ns {
		o = append(o, a.name[i])
	}
	return o
}
func (a *hrT[N]) Add(ns []int)    { a.h.AddNodes(a.conv(ns)...) }
func (a *hrT[N]) Remove(ns []int) { a.h.RemoveNodes(a.conv(ns)...) }
func (a *hrT[N]) Reset(ns []int)  { a.h.ResetNodes(a.conv(ns)...) }
func (a *hrT[N]) Get(k int) int {
	n := a.h.GetNode(a.name[k])
	if i, ok := a.idx[n]; ok {
		return i
	}
	var z N
	if n == z {
		return -1
	}
	return -2
}
func (a *hrT[N]) Name(i int) string { return fmt.Sprint(a.name[i]) }

func hrNew[N int | string | uint8 | float64 | int64](replicas int, names []N) hrAd {
	a := &hrT[N]{h: hashring.New[N](replicas), name: names, idx: map[N]int{}}
	for i, n := range names {
		a.idx[n] = i
	}
	return a
}

// names whose virtual points collide under CRC-32 (pairs), and plain ones
var hrColl = []string{
	"plumless", "buckeroo", "codding", "gnu", "exhibiters", "schlager",
	"wlkffsvo", "okxxbftd", "keafupzd", "hgjpogkb", "fvzcbbdq", "ikynimeh", "voqbdnpo", "ybazfgef", "jvmiaglm", "wbkwjyex",
	"awium", "iynipri", "zymau", "eeskuhw", "ilvbpgn", "cwygfg", "lgwypaf", "sjeemysnu", "jcfvk", "vdfhpf", "ultvqqafe", "iaxkdft",
}
var hrCollInt = []int64{9067299349, 2388463359, 2726937336, 3662799226, 7372136578, 2539948602, 8372573214, 9294165645, 6560123387, 7165741974, 5819382164, 2509208310, 9648049788, 6201934649}

// hrPool draws the universe of a run: members come from the first half, keys
// from all of it.
func hrPool(typ int, seed uint64, hrNames int) (newRing func(replicas int) hrAd) {
	r := sim.NewRand(seed)
	switch typ {
	case 1:
		seen := map[int64]bool{}
		var ns []int64
		for len(ns) < hrNames {
			var c []int64
			if r.Intn(3) > 0 {
				i := r.Intn(len(hrCollInt)/2) * 2
				c = hrCollInt[i : i+2]
			} else {
				c = []int64{int64(r.Intn(1000))}
				if r.Intn(4) == 0 {
					c[0] = -c[0]
				}
			}
			for _, n := range c {
				if !seen[n] && len(ns) < hrNames {
					seen[n] = true
					ns = append(ns, n)
				}
			}
		}
		return func(rep int) hrAd { return hrNew(rep, ns) }
	case 2:
		var ns []uint8
		for i := 0; i < hrNames; i++ {
			ns = append(ns, uint8(i*(240/hrNames)+r.Intn(240/hrNames)))
		}
		return func(rep int) hrAd { return hrNew(rep, ns) }
	case 3:
		var ns []float64
		for i := 0; i < hrNames; i++ {
			ns = append(ns, float64(i*10+r.Intn(10))/8)
		}
		return func(rep int) hrAd { return hrNew(rep, ns) }
	}
	seen := map[string]bool{}
	var ns []string
	for len(ns) < hrNames {
		var c []string
		switch r.Intn(5) {
		case 4:
			c = []string{strings.Repeat("long-", 4<<r.Intn(5)) + fmt.Sprint(r.Intn(100))}
		case 0, 1:
			i := r.Intn(len(hrColl)/2) * 2
			c = hrColl[i : i+2]
		case 2:
			c = []string{fmt.Sprintf("node-%d", r.Intn(100))}
		case 3:
			c = []string{[]string{"", "-", "a", "a-0", "a-1", "a-1-0", "0", "\x00", "ä", "node", "node-"}[r.Intn(11)]}
		}
		for _, n := range c {
			if !seen[n] && len(ns) < hrNames {
				seen[n] = true
				ns = append(ns, n)
			}
		}
	}
	// collided pairs may straddle members and keys
	if r.Intn(2) == 0 {
		for i := len(ns) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ns[i], ns[j] = ns[j], ns[i]
		}
	}
	return func(rep int) hrAd { return hrNew(rep, ns) }
}

type hrRouter struct {
	id   int
	ring hrAd
	set  map[int]bool
}

func setStr(ad hrAd, m map[int]bool) string {
	var l []string
	for i := range m {
		l = append(l, ad.Name(i))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, ",") + "}"
}

func members(m map[int]bool) []int {
	var l []int
	for i := range m {
		l = append(l, i)
	}
	sort.Ints(l)
	return l
}

func runRing(s *sim.Sim, w *Work, h *Hist) {
	hrNames := int(w.Cfg["names"])
	mk := hrPool(int(w.Cfg["type"]), uint64(w.Cfg["pool"]), hrNames)
	rep := int(w.Cfg["replicas"])
	var rs []*hrRouter
	nr := int(w.Cfg["tasks"])
	for i := 0; i < nr; i++ {
		rs = append(rs, &hrRouter{id: i, ring: mk(rep), set: map[int]bool{}})
	}
	table := func(a hrAd) []int {
		t := make([]int, hrNames)
		for k := range t {
			t[k] = a.Get(k)
		}
		return t
	}
	// what a ring freshly built with the same members answers
	fresh := map[string][]int{}
	freshOf := func(m map[int]bool) []int {
		key := fmt.Sprint(members(m))
		if t, ok := fresh[key]; ok {
			return t
		}
		a := mk(rep)
		a.Add(members(m))
		t := table(a)
		fresh[key] = t
		return t
	}
	verify := func(r *hrRouter, what string) []int {
		h.checks++
		t := table(r.ring)
		for k, n := range t {
			// the zero value may itself be a member
			if len(r.set) == 0 {
				if n != -1 && (n < 0 || !zeroName(r.ring, n)) {
					s.Fail("not-member", "router %d after %s has no members but routes key %q to %s", r.id, what, r.ring.Name(k), nameOf(r.ring, n))
					return t
				}
				continue
			}
			if n < 0 || !r.set[n] {
				s.Fail("not-member", "router %d after %s has members %s but routes key %q to %s", r.id, what, setStr(r.ring, r.set), r.ring.Name(k), nameOf(r.ring, n))
				return t
			}
		}
		f := freshOf(r.set)
		for k := range t {
			if t[k] != f[k] {
				s.Fail("disagree", "router %d after %s has members %s and routes key %q to %s; a ring built afresh with these members routes it to %s", r.id, what, setStr(r.ring, r.set), r.ring.Name(k), nameOf(r.ring, t[k]), nameOf(r.ring, f[k]))
				return t
			}
		}
		return t
	}
	for ph := 0; ph < w.phases(); ph++ {
		runPhase(s, w, ph, func(task int, o Op) {
			if s.Violation() != nil {
				return
			}
			r := rs[task]
			before := table(r.ring)
			old := map[int]bool{}
			for i := range r.set {
				old[i] = true
			}
			var ns []int
			rr := sim.NewRand(uint64(o.D))
			for i := 0; i < hrNames; i++ {
				if o.A&(1<<i) != 0 {
					ns = append(ns, i)
				}
			}
			for i := len(ns) - 1; i > 0; i-- { // reordered
				j := rr.Intn(i + 1)
				ns[i], ns[j] = ns[j], ns[i]
			}
			if o.C%2 == 1 && len(ns) > 0 { // duplicated
				ns = append(ns, ns[rr.Intn(len(ns))])
				s.Fault("membership update duplicated")
			}
			what := fmt.Sprintf("%s(%s)", o.Kind, o.names(r.ring, ns))
			switch o.Kind {
			case "add":
				if o.C&2 != 0 { // split into single deliveries
					for _, n := range ns {
						r.ring.Add([]int{n})
						sim.Point("delivery")
					}
				} else {
					r.ring.Add(ns)
				}
				for _, n := range ns {
					r.set[n] = true
				}
			case "remove":
				if o.C&2 != 0 {
					for _, n := range ns {
						r.ring.Remove([]int{n})
						sim.Point("delivery")
					}
				} else {
					r.ring.Remove(ns)
				}
				for _, n := range ns {
					delete(r.set, n)
				}
			case "reset":
				r.ring.Reset(ns)
				r.set = map[int]bool{}
				for _, n := range ns {
					r.set[n] = true
				}
			case "restart": // crash: only the member list survives, in whatever order it was saved
				s.Fault("router restarted")
				l := members(r.set)
				for i := len(l) - 1; i > 0; i-- {
					j := rr.Intn(i + 1)
					l[i], l[j] = l[j], l[i]
				}
				r.ring = mk(rep)
				if o.C&2 != 0 {
					for _, n := range l {
						r.ring.Add([]int{n})
					}
				} else {
					r.ring.Add(l)
				}
			}
			if h.on {
				h.logf("[%d] router %d: %s -> members %s", s.Seq(), r.id, what, setStr(r.ring, r.set))
			}
			after := verify(r, what)
			if s.Violation() != nil {
				return
			}
			if len(old) > 0 && len(r.set) > 0 {
				for k := range after {
					if before[k] == after[k] {
						continue
					}
					s.Probe("keys moved")
					// a key moves away from a removed node or to a new one
					if old[before[k]] && r.set[before[k]] && old[after[k]] {
						s.Fail("movement", "router %d: %s changed members from %s to %s and moved key %q from %s to %s, both members before and after", r.id, what, setStr(r.ring, old), setStr(r.ring, r.set), r.ring.Name(k), nameOf(r.ring, before[k]), nameOf(r.ring, after[k]))
						return
					}
				}
			}
			if len(r.set) >= 2 {
				h.nontriv = true
			}
		})
		if s.Violation() != nil {
			return
		}
		// converge every router to one member set along different paths
		target := map[int]bool{}
		for i := 0; i < hrNames/2; i++ {
			if (w.Cfg["target"]>>(ph*13%40))&(1<<i) != 0 {
				target[i] = true
			}
		}
		var tabs [][]int
		for _, r := range rs {
			var add, del []int
			for _, n := range members(target) {
				if !r.set[n] {
					add = append(add, n)
				}
			}
			for _, n := range members(r.set) {
				if !target[n] {
					del = append(del, n)
				}
			}
			if r.id%2 == 0 {
				r.ring.Add(add)
				r.ring.Remove(del)
			} else {
				for i := len(del) - 1; i >= 0; i-- {
					r.ring.Remove([]int{del[i]})
				}
				for i := len(add) - 1; i >= 0; i-- {
					r.ring.Add([]int{add[i]})
				}
			}
			r.set = map[int]bool{}
			for n := range target {
				r.set[n] = true
			}
			tabs = append(tabs, verify(r, "converging"))
			if s.Violation() != nil {
				return
			}
			h.checks++
			for k := range tabs[0] {
				if tabs[r.id][k] != tabs[0][k] {
					s.Fail("disagree", "routers 0 and %d, both with members %s, route key %q to %s and %s", r.id, setStr(r.ring, target), r.ring.Name(k), nameOf(r.ring, tabs[0][k]), nameOf(r.ring, tabs[r.id][k]))
					return
				}
			}
		}
	}
}

// runSpread: with many replicas no member is left without keys, however the
// membership came about.
func runSpread(s *sim.Sim, w *Work, h *Hist) {
	rr := sim.NewRand(uint64(w.Cfg["pool"]))
	base, form := rr.Intn(1000000), rr.Intn(5)
	long := strings.Repeat("rack.", 5<<rr.Intn(6))
	prefix := "key-"
	if rr.Intn(4) == 0 {
		prefix = "/" + long + "/key-"
	}
	name := func(i int) string {
		switch form {
		case 0:
			return fmt.Sprintf("node-%d", base+i)
		case 1:
			return fmt.Sprintf("10.0.%d.%d:8080", base%256, i)
		case 2:
			return fmt.Sprint(base + i)
		case 3:
			return fmt.Sprintf("%s%d", long, base+i)
		}
		return fmt.Sprintf("host%c.example", 'a'+i)
	}
	ring := hashring.New[string](int(w.Cfg["replicas"]))
	in := map[int]bool{}
	for _, o := range w.Ops {
		for i := 0; i < 10; i++ {
			if o.A&(1<<i) == 0 {
				continue
			}
			if o.Kind == "remove" {
				ring.RemoveNodes(name(i))
				delete(in, i)
			} else {
				ring.AddNodes(name(i))
				in[i] = true
			}
		}
	}
	got := map[string]int{}
	for k := 0; k < 100*len(in); k++ {
		got[ring.GetNode(fmt.Sprint(prefix, rr.U64()))]++
	}
	h.checks++
	for _, i := range members(in) {
		if got[name(i)] == 0 {
			s.Fail("no-keys", "a ring of %d members with %d replicas each routes none of %d distinct keys to member %q", len(in), w.Cfg["replicas"], 100*len(in), name(i))
			return
		}
	}
	h.nontriv = len(in) >= 2
}

func (o Op) names(ad hrAd, ns []int) string {
	var l []string
	for _, n := range ns {
		l = append(l, ad.Name(n))
	}
	return strings.Join(l, " ")
}

func zeroName(ad hrAd, n int) bool {
	x := ad.Name(n)
	return x == "" || x == "0"
}

func nameOf(ad hrAd, n int) string {
	switch n {
	case -1:
		return "the zero value"
	case -2:
		return "an unknown node"
	}
	return fmt.Sprintf("%q", ad.Name(n))
}

func init() {
	register(&Prop{
		ID: "C14",
		Gen: func(r *sim.Rand, deep bool) *Work {
			w := &Work{Cfg: map[string]int64{}}
			w.Cfg["tasks"] = int64(2 + r.Intn(2))
			w.Cfg["type"] = int64([]int{0, 0, 0, 1, 1, 2, 3}[r.Intn(7)])
			w.Cfg["pool"] = int64(r.Intn(1 << 30))
			w.Cfg["replicas"] = int64([]int{1, 1, 2, 3, 5, 10}[r.Intn(6)])
			hrNames := 24
			if r.Intn(80) == 0 { // a deployment of realistic size
				hrNames = 26 + 2*r.Intn(18)
				w.Cfg["replicas"] = int64(1 + r.Intn(200))
			}
			w.Cfg["names"] = int64(hrNames)
			w.Cfg["target"] = int64(r.U64() >> 2)
			id := 0
			phases := 1 + r.Intn(2)
			if deep {
				phases = 1 + r.Intn(4)
			}
			if r.Intn(120) == 0 {
				w.Cfg["spread"] = 1
				w.Cfg["replicas"] = int64(50 + r.Intn(100))
				for i := 1 + r.Intn(3); i > 0; i-- {
					id++
					w.Ops = append(w.Ops, Op{ID: id, Kind: []string{"add", "add", "remove"}[r.Intn(3)], A: int64(r.U64() & 1023)})
				}
				w.Cfg["phases"] = 1
				w.Strat = stratFor(r, 20000)
				w.Strat.MaxSteps = 20000000
				return w
			}
			dense := r.Intn(3)
			for ph := 0; ph < phases; ph++ {
				for t := 0; t < int(w.Cfg["tasks"]); t++ {
					for i := 1 + r.Intn(4); i > 0; i-- {
						id++
						o := Op{ID: id, Phase: ph, Task: t, Kind: []string{"add", "add", "add", "remove", "remove", "reset", "restart"}[r.Intn(7)]}
						for n := 0; n < hrNames/2; n++ {
							if r.Intn(2+2*dense) == 0 {
								o.A |= 1 << n
							}
						}
						if r.Intn(3) == 0 {
							o.A = 1 << r.Intn(hrNames/2)
						}
						if r.Intn(12) == 0 {
							o.A = 0
						}
						o.C = int64(r.Intn(4))
						o.D = int64(r.Intn(1 << 20))
						w.Ops = append(w.Ops, o)
					}
				}
			}
			w.Cfg["phases"] = int64(phases)
			w.Strat = stratFor(r, 20000)
			w.Strat.MaxSteps = 2000000
			w.Strat.PMap = []float64{0, 0.5, 1, 1}[r.Intn(4)]
			return w
		},
		Run: func(s *sim.Sim, w *Work, h *Hist) {
			if w.Cfg["spread"] == 1 {
				runSpread(s, w, h)
				return
			}
			runRing(s, w, h)
		},
		Rule:  "2-3 simulated routers, each with its own ring; membership updates reach them reordered, batched or split, duplicated, with removals of non-members, resets and restarts from a shuffled member list (usually up to 12 members with up to 10 replicas, 1 run in 80 up to 30 with up to 200), while the simulator permutes every map iteration; after every update at least 24 keys (members, non-members, names whose virtual points collide) are routed and compared with a ring built afresh, with the table before the update, and between routers; 1 run in 120 routes hundreds of keys through a ring of up to 10 members with 50-149 replicas and looks at every member's share; non-trivial when a ring with at least two members was checked",
		Real:  []string{"hashring", "set", "vec", "golang.org/x/exp/{maps,slices}"},
		Stub:  []string{"map iteration order (simulated)", "membership feed (generated)"},
		Notes: []string{"the hash function is not specified: only agreement, membership, minimal movement and that nobody is left without keys are"},
	})
}
