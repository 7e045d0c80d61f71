package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"zz.test/sim"
)

// Op is one generated operation of a workload.
type Op struct {
	ID    int    `json:"id"`
	Phase int    `json:"phase"`
	Task  int    `json:"task"`
	Kind  string `json:"kind"`
	Key   int    `json:"key"`
	A     int64  `json:"a,omitempty"`
	B     int64  `json:"b,omitempty"`
	C     int64  `json:"c,omitempty"`
	D     int64  `json:"d,omitempty"`
}

func (o Op) String() string {
	return fmt.Sprintf("#%d p%d t%d %s k%d %d %d %d %d", o.ID, o.Phase, o.Task, o.Kind, o.Key, o.A, o.B, o.C, o.D)
}

// Work is a generated case: configuration, operations, schedule and fault mix.
type Work struct {
	Cfg   map[string]int64 `json:"cfg"`
	Ops   []Op             `json:"ops"`
	Strat sim.Strategy     `json:"strategy"`
	Race  bool             `json:"race"`
}

// Prop is one property's workload generator and checker.
type Prop struct {
	ID    string
	Gen   func(r *sim.Rand, deep bool) *Work
	Run   func(s *sim.Sim, w *Work, h *Hist)
	Rule  string // evidence: what makes a case non-trivial
	Real  []string
	Stub  []string
	Notes []string
	Only  string // the violation class this property is judged by (empty: all)
	// Faulty classes are this property's business only when the minimised
	// execution still contains an injected panic or goroutine exit.
	Faulty func(class string) bool
	// Simplify removes the fault from an operation, if it has one.
	Simplify func(o *Op) bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Hist collects the readable history and per-run outcome.
type Hist struct {
	on        bool
	lines     []string
	inconcl   bool
	checks    int64
	nontriv   bool
	overlaps  int64
	lastInter uint64
}

func (h *Hist) logf(format string, a ...any) {
	if h.on {
		h.lines = append(h.lines, fmt.Sprintf(format, a...))
	}
}

// Outcome of one simulated execution.
type Outcome struct {
	Viol    *sim.Violation
	Hash    uint64
	Choices []sim.Choice
	Stats   sim.Stats
	Hist    *Hist
	Trace   []string
}

func runWork(p *Prop, w *Work, seed uint64, replay bool, log []sim.Choice, trace bool) *Outcome {
	h := &Hist{on: trace}
	s := sim.Run(sim.Options{Seed: seed, Strat: w.Strat, Replay: replay, Log: log, Race: w.Race, Trace: trace}, func(s *sim.Sim) {
		p.Run(s, w, h)
	})
	v := s.Violation()
	if v != nil && p.Only != "" && v.Class != p.Only {
		v = nil // another property's business
	}
	return &Outcome{Viol: v, Hash: s.Hash(), Choices: s.Choices(), Stats: s.Stats, Hist: h, Trace: s.TraceLines()}
}

func mix(a uint64, s string, i uint64) uint64 {
	h := a*0x9E3779B97F4A7C15 + 0x1234567
	for _, c := range []byte(s) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	h ^= i * 0xD6E8FEB86659FD93
	h ^= h >> 32
	h *= 0xD6E8FEB86659FD93
	h ^= h >> 29
	return h
}

func genWork(p *Prop, seed uint64, deep bool) *Work {
	w := p.Gen(sim.NewRand(seed^0xABCDEF), deep)
	return w
}

// ---------------------------------------------------------------- replay files

type Replay struct {
	Property  string         `json:"property"`
	Violation *sim.Violation `json:"violation"`
	BaseSeed  uint64         `json:"verif_seed"`
	Index     uint64         `json:"run_index"`
	Seed      uint64         `json:"seed"`
	Mode      string         `json:"mode"` // "choices": schedule below; "seed": regenerate from the seed
	Tier      string         `json:"tier,omitempty"`
	Hash      string         `json:"execution_hash"`
	Work      *Work          `json:"workload"`
	Choices   []sim.Choice   `json:"schedule_and_faults"`
	Original  map[string]int `json:"before_minimisation"`
	History   []string       `json:"history"`
	Trace     []string       `json:"trace"`
}

func (r *Replay) execute(trace bool) *Outcome {
	p := props[r.Property]
	return runWork(p, r.Work, r.Seed, r.Mode == "choices", r.Choices, trace)
}

// minimise shrinks operations, then choices, while the same class of
// violation persists.
func minimise(p *Prop, w *Work, seed uint64, o *Outcome, deadline time.Time) (*Work, []sim.Choice, bool) {
	class := o.Viol.Class
	try := func(w *Work, c []sim.Choice) *Outcome {
		r := runWork(p, w, seed, true, c, false)
		if r.Viol != nil && r.Viol.Class == class {
			return r
		}
		return nil
	}
	cur, ch := *w, o.Choices
	r := try(&cur, ch)
	if r == nil {
		return w, nil, false
	}
	ch = r.Choices
	late := func() bool { return time.Now().After(deadline) }
	if p.Simplify != nil {
		for i := range cur.Ops {
			c2 := cur
			c2.Ops = append([]Op{}, cur.Ops...)
			if p.Simplify(&c2.Ops[i]) {
				if r := try(&c2, ch); r != nil {
					cur, ch = c2, r.Choices
				}
			}
		}
	}
	for round := 0; round < 4 && !late(); round++ {
		before := len(cur.Ops) + len(ch)
		for n := len(cur.Ops) / 2; n >= 1 && !late(); n /= 2 {
			for i := 0; i+n <= len(cur.Ops) && !late(); {
				c2 := cur
				c2.Ops = append(append([]Op{}, cur.Ops[:i]...), cur.Ops[i+n:]...)
				if r := try(&c2, ch); r != nil {
					cur, ch = c2, r.Choices
				} else {
					i += n
				}
			}
		}
		for n := len(ch) / 2; n >= 1 && !late(); n /= 2 {
			for i := 0; i+n <= len(ch) && !late(); {
				c2 := append(append([]sim.Choice{}, ch[:i]...), ch[i+n:]...)
				if r := try(&cur, c2); r != nil && len(r.Choices) < len(ch) {
					ch = r.Choices
				} else {
					i += n
				}
			}
		}
		if len(cur.Ops)+len(ch) == before {
			break
		}
	}
	return &cur, ch, true
}

// faulted tells whether the execution contained an injected panic or exit.
func (o *Outcome) faulted() bool {
	for k, n := range o.Stats.Faults {
		if n > 0 && (strings.Contains(k, "panic") || strings.Contains(k, "exit")) {
			return true
		}
	}
	return false
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// ---------------------------------------------------------------- execution helpers

// byTask groups a phase's operations per task, in order.
func (w *Work) phase(n int) (tasks [][]Op) {
	nt := int(w.Cfg["tasks"])
	tasks = make([][]Op, nt)
	for _, o := range w.Ops {
		if o.Phase == n {
			tasks[o.Task%nt] = append(tasks[o.Task%nt], o)
		}
	}
	return
}

func (w *Work) phases() int {
	n := 0
	for _, o := range w.Ops {
		if o.Phase+1 > n {
			n = o.Phase + 1
		}
	}
	if m := int(w.Cfg["phases"]); m > n {
		n = m
	}
	return n
}

// runPhase runs one phase's tasks concurrently and waits for them.
func runPhase(s *sim.Sim, w *Work, n int, do func(task int, o Op), empty ...func(task int)) {
	var ts []*sim.Task
	for i, ops := range w.phase(n) {
		i, ops := i, ops
		if len(ops) == 0 {
			for _, f := range empty {
				f(i)
			}
		}
		ts = append(ts, s.Spawn(fmt.Sprintf("t%d", i), func() {
			for _, o := range ops {
				s.SetOp(o.ID)
				sim.Point("begin")
				do(i, o)
			}
			s.SetOp(-2000 - n*100 - i)
		}))
	}
	s.SetOp(-3000 - n)
	for _, t := range ts {
		s.Join(t)
	}
	s.SetOp(-4000 - n)
}

// guard runs f, returning a recovered panic value.
func guard(f func()) (pan any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			pan = recover()
		}
	}()
	f()
	panicked = false
	return
}

// Injected panics panic with whatever user code may panic with.
type injected struct{ n int }
type injErr struct{ injected }
type injRT struct{ injected }

func (injErr) Error() string { return "injected error" }
func (injRT) Error() string  { return "injected runtime error" }
func (injRT) RuntimeError()  {}

func injectPanic(n int) {
	switch n % 7 {
	case 1:
		panic(injErr{injected{n}})
	case 2:
		panic(&injErr{injected{n}})
	case 3:
		panic(injRT{injected{n}})
	case 4:
		panic("injected")
	case 5:
		panic(nil)
	}
	panic(injected{n})
}

func wasInjected(pv any) bool {
	switch pv := pv.(type) {
	case injected, injErr, *injErr, injRT, *runtime.PanicNilError:
		return true
	case string:
		return pv == "injected"
	}
	return false
}

// pickW draws an index by weight.
func pickW(r *sim.Rand, w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return 0
	}
	n := r.Intn(t)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

// swarm draws a weight vector in which each kind may be switched off.
func swarm(r *sim.Rand, base []int) []int {
	for {
		o := make([]int, len(base))
		t := 0
		for i, b := range base {
			switch r.Intn(4) {
			case 0:
			case 1:
				o[i] = b
			case 2:
				o[i] = b * 3
			case 3:
				o[i] = (b + 1) / 2
			}
			t += o[i]
		}
		if t > 0 {
			return o
		}
	}
}

func stratFor(r *sim.Rand, horizon int) sim.Strategy {
	st := sim.Strategy{MaxSteps: 6000}
	switch r.Intn(10) {
	case 0, 1, 2:
		st.Kind = 1
		st.Changes = 1 + r.Intn(5)
		st.Horizon = horizon
	case 3:
		st.Kind = 2
		st.PStall = 0.02 + 0.1*r.Float()
	default:
		st.Kind = 0
		st.PSwitch = []float64{0.03, 0.08, 0.15, 0.3, 0.5, 0.8}[r.Intn(6)]
	}
	if r.Intn(4) == 0 && st.PStall == 0 {
		st.PStall = []float64{0.003, 0.01, 0.03}[r.Intn(3)]
	}
	st.PMap = []float64{0, 0.5, 1}[r.Intn(3)]
	return st
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
