// Package sim is a deterministic simulator for in-process concurrency: real
// goroutines run one at a time (a single baton), every point at which another
// task could run, the clock could move or a fault could fire is a decision
// taken from one seeded stream, recorded, and replayable.
package sim

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"unsafe"
)

// ---------------------------------------------------------------- PRNG

// Rand is splitmix64; every random choice of a run derives from one seed.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Float() float64        { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Chance(p float64) bool { return r.Float() < p }

// ---------------------------------------------------------------- choices

// Kinds of recorded choices.
const (
	KSwitch = 's' // value: id of the task to run next, plus one
	KTime   = 't' // value: nanoseconds added to the clock (negative: backward step)
	KStall  = 'x' // value: number of steps the task is frozen for
	KMap    = 'm' // value: seed of a map iteration order
	KFault  = 'f' // value: index chosen at a fault or value site
	KSelect = 'c' // value: which ready case
)

// Choice is one non-default decision, keyed by where it was taken so that the
// removal of unrelated operations or choices leaves it meaningful.
type Choice struct {
	Op   int    `json:"op"`   // operation (or background task) in progress
	Step int    `json:"step"` // decision point number within that operation
	Kind string `json:"kind"`
	Val  int64  `json:"val"`
}

type ckey struct {
	op, step int
	kind     byte
}

// ---------------------------------------------------------------- config

// Strategy is the schedule/fault mix of one run (swarm: drawn per run).
type Strategy struct {
	Kind     int     `json:"kind"` // 0 random walk, 1 priority (PCT-like), 2 run to completion
	PSwitch  float64 `json:"p_switch"`
	Changes  int     `json:"changes"`   // PCT priority change points
	Horizon  int     `json:"horizon"`   // steps over which they are spread
	PTime    float64 `json:"p_time"`    // clock moves at a step
	PBack    float64 `json:"p_back"`    // share of them that step backward
	Leaps    []int64 `json:"leaps"`     // interesting durations (ns)
	PStall   float64 `json:"p_stall"`   // freeze the running task
	PMap     float64 `json:"p_map"`     // permute a map iteration
	PFault   float64 `json:"p_fault"`   // take a non-default alternative at a fault site
	MaxSteps int     `json:"max_steps"` // budget under the adversarial schedule
}

type Options struct {
	Seed   uint64
	Strat  Strategy
	Replay bool
	Log    []Choice // choices to replay
	Race   bool     // track happens-before and report races
	Trace  bool     // keep a step trace
}

// ---------------------------------------------------------------- tasks

type Task struct {
	ID      int
	Name    string
	Work    bool // workload task (as opposed to a goroutine the library started)
	wake    chan struct{}
	done    bool
	blocked bool
	ready   func() bool
	why     string
	Op      int
	step    int
	vc      VC
	dying   bool
	prio    uint64
	stall   int // frozen until this step count
	joinVC  VC
	panicv  any
	hasPan  bool
	daemon  bool
	actFrom uint64 // a library goroutine: since when it has been at work
}

// Violation ends a run.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type timer struct {
	at   int64
	id   uint64
	fire func()
	dead bool
	bg   bool
}

type clockPt struct {
	seq uint64
	t   int64
}

type Sim struct {
	opt              Options
	rng              *Rand
	tasks            []*Task
	cur              *Task
	seq              uint64
	steps            int
	now              int64
	clock            []clockPt
	active           [][2]uint64 // when goroutines of the library were at work
	timers           []*timer
	tid              uint64
	log              []Choice
	rep              map[ckey]int64
	viol             *Violation
	over             bool
	ended            chan struct{}
	fair             bool
	fairEnd          int
	fairAt, fairNext int
	trace            []string
	hash             uint64
	change           map[int]bool
	lowPrio          uint64
	forced           int // clock jumps since a workload task last ran

	shadow map[unsafe.Pointer]*cell
	atoms  map[unsafe.Pointer]*VC
	ids    map[any]int
	chans  map[unsafe.Pointer]*chanState
	mapW   map[unsafe.Pointer]*cell

	Stats Stats
}

type Stats struct {
	Steps, Switches, Preempts, Stalls int64
	LeapsFwd, LeapsBack, TimerJumps   int64
	MapShuffles, Selects, Spawns      int64
	Blocks                            int64
	SimMillis                         int64
	Faults                            map[string]int64
	Probes                            map[string]int64
}

// S is the running simulation; nil outside a run. Exactly one task runs at a
// time, so it needs no lock.
var S *Sim

const Epoch = int64(1_700_000_000_000_000_000) // clock origin, ns since 1970

var resets []func()

// RegisterReset is called by the generated code of instrumented packages: f
// re-evaluates the package's variables.
func RegisterReset(f func()) { resets = append(resets, f) }

// ---------------------------------------------------------------- run

// Run executes main as the first workload task and returns when it finishes or
// the run is cut short by a violation.
func Run(opt Options, main func(*Sim)) *Sim {
	s := &Sim{opt: opt, rng: NewRand(opt.Seed), now: Epoch, ended: make(chan struct{}, 1)}
	s.Stats.Faults = map[string]int64{}
	s.Stats.Probes = map[string]int64{}
	s.hash = 1469598103934665603
	if opt.Strat.MaxSteps == 0 {
		s.opt.Strat.MaxSteps = 20000
	}
	s.clock = append(s.clock, clockPt{0, s.now})
	if opt.Replay {
		s.rep = make(map[ckey]int64, len(opt.Log))
		for _, c := range opt.Log {
			s.rep[ckey{c.Op, c.Step, c.Kind[0]}] = c.Val
		}
	}
	if opt.Race {
		s.shadow = map[unsafe.Pointer]*cell{}
		s.atoms = map[unsafe.Pointer]*VC{}
		s.mapW = map[unsafe.Pointer]*cell{}
	}
	if opt.Strat.Kind == 1 {
		s.change = map[int]bool{}
		for i := 0; i < opt.Strat.Changes; i++ {
			s.change[s.rng.Intn(opt.Strat.Horizon+1)] = true
		}
		s.lowPrio = 1 << 20
	}
	S = s
	t := s.newTask("main", true)
	t.daemon = false
	s.cur = t
	go s.taskBody(t, func() {
		for _, f := range resets { // package variables start afresh
			f()
		}
		main(s)
	})
	t.wake <- struct{}{}
	<-s.ended
	s.over = true
	// unwind whatever is still parked
	for _, t := range s.tasks {
		if !t.done {
			t.dying = true
			s.cur = t
			t.wake <- struct{}{}
			<-s.ended
		}
	}
	s.Stats.Steps = int64(s.steps)
	s.Stats.SimMillis = (s.now - Epoch) / 1_000_000
	S = nil
	return s
}

func (s *Sim) Violation() *Violation { return s.viol }
func (s *Sim) Choices() []Choice     { return s.log }
func (s *Sim) Hash() uint64          { return s.hash }
func (s *Sim) TraceLines() []string  { return s.trace }
func (s *Sim) Steps() int            { return s.steps }

// Fail records a violation (the first one wins).
func (s *Sim) Fail(class, format string, args ...any) {
	if s.viol == nil {
		msg := fmt.Sprintf(format, args...)
		if len(msg) > 3000 {
			msg = msg[:2000] + " ... " + msg[len(msg)-900:]
		}
		s.viol = &Violation{class, msg}
	}
}

// FailNow records a violation and ends the run.
func (s *Sim) FailNow(class, format string, args ...any) {
	s.Fail(class, format, args...)
	s.stop()
}

func (s *Sim) stop() {
	if s.over || s.cur.dying {
		return
	}
	s.cur.dying = true
	runtime.Goexit()
}

func (s *Sim) newTask(name string, work bool) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Work: work, wake: make(chan struct{}, 1), daemon: !work}
	t.Op = -1000 - t.ID
	t.actFrom = s.seq
	s.tasks = append(s.tasks, t)
	if s.opt.Strat.Kind == 1 {
		t.prio = 1<<32 + s.rng.U64()>>33
	}
	if s.opt.Race {
		t.vc = make(VC, t.ID+1)
		if s.cur != nil {
			t.vc.join(s.cur.vc)
			s.cur.vc.inc(s.cur.ID)
		}
		t.vc.inc(t.ID)
	}
	return t
}

func (s *Sim) taskBody(t *Task, f func()) {
	<-t.wake
	normal := false
	defer func() {
		if r := recover(); r != nil && !normal && !t.dying {
			t.panicv, t.hasPan = r, true
		}
		if t.dying || s.over {
			t.done = true
			s.ended <- struct{}{}
			return
		}
		t.done = true
		t.dying = true
		if t.daemon {
			s.active = append(s.active, [2]uint64{t.actFrom, s.seq})
		}
		if t.hasPan {
			if t.Work {
				s.Fail("panic", "task %s panicked: %v", t.Name, t.panicv)
			} else {
				s.Fail("panic-bg", "goroutine started by the library panicked: %v", t.panicv)
			}
			s.ended <- struct{}{}
			return
		}
		if t.ID == 0 {
			s.ended <- struct{}{}
			return
		}
		s.handoff(t)
	}()
	if t.dying {
		return
	}
	f()
	normal = true
}

// handoff passes the baton from a finished task.
func (s *Sim) handoff(t *Task) {
	n := s.pick(t)
	if n == nil {
		s.ended <- struct{}{}
		return
	}
	s.resume(n)
}

func (s *Sim) resume(n *Task) {
	s.cur = n
	s.Stats.Switches++
	s.mix(uint64(n.ID)<<32 | uint64(uint32(n.Op))<<8 | uint64(uint8(n.step)))
	n.wake <- struct{}{}
}

func (s *Sim) mix(v uint64) {
	s.hash = (s.hash ^ v) * 1099511628211
	s.hash ^= s.hash >> 29
}

// Go starts a task.
func (s *Sim) spawn(name string, work bool, f func()) *Task {
	s.Stats.Spawns++
	t := s.newTask(name, work)
	go s.taskBody(t, f)
	return t
}

// Go implements the go statement of instrumented code.
func Go(f func()) {
	s := S
	if s == nil || s.cur.dying {
		return // before the run (the start-up code is run again inside it) or after
	}
	s.spawn("goroutine", false, f)
	Point("go")
}

// Spawn starts a workload task.
func (s *Sim) Spawn(name string, f func()) *Task { return s.spawn(name, true, f) }

// Join blocks until t has finished.
func (s *Sim) Join(t *Task) {
	if !t.done {
		Block("join", func() bool { return t.done })
	}
	if s.opt.Race {
		s.cur.vc.join(t.vc)
	}
}

func (s *Sim) Cur() *Task { return s.cur }

// SetOp marks the operation the current task is performing: decisions are
// keyed by it.
func (s *Sim) SetOp(op int) { s.cur.Op, s.cur.step = op, 0 }

// GetOp/RestoreOp let nested operations be keyed separately.
func (s *Sim) GetOp() (int, int)      { return s.cur.Op, s.cur.step }
func (s *Sim) RestoreOp(op, step int) { s.cur.Op, s.cur.step = op, step }

// ---------------------------------------------------------------- decisions

func (s *Sim) record(kind byte, val int64) {
	s.log = append(s.log, Choice{s.cur.Op, s.cur.step, string(rune(kind)), val})
	s.mix(uint64(kind)<<56 ^ uint64(val) ^ uint64(uint32(s.cur.Op))<<20)
}

func (s *Sim) replayed(kind byte) (int64, bool) {
	v, ok := s.rep[ckey{s.cur.Op, s.cur.step, kind}]
	return v, ok
}

// Choose takes a decision among n alternatives at a named site; 0 is the
// default. In search mode a non-default alternative is taken with probability
// PFault (or p when p > 0).
func (s *Sim) Choose(site string, n int, p float64) int {
	if n <= 1 || s.cur.dying {
		return 0
	}
	s.cur.step++
	if s.opt.Replay {
		if v, ok := s.replayed(KFault); ok && v < int64(n) {
			s.record(KFault, v)
			s.Stats.Faults[site]++
			return int(v)
		}
		return 0
	}
	if s.fair {
		return 0
	}
	if p <= 0 {
		p = s.opt.Strat.PFault
	}
	if !s.rng.Chance(p) {
		return 0
	}
	v := 1 + s.rng.Intn(n-1)
	s.record(KFault, int64(v))
	s.Stats.Faults[site]++
	return v
}

// ChooseVal draws a value in [0,n) uniformly; 0 is the default.
func (s *Sim) ChooseVal(site string, n int) int { return s.Choose(site, n, float64(n-1)/float64(n)) }

// Probe counts that a rare condition was reached.
func (s *Sim) Probe(name string) { s.Stats.Probes[name]++ }

// Fault counts an injected fault.
func (s *Sim) Fault(name string) { s.Stats.Faults[name]++ }

// Point is a place where another task may run, the clock may move or the task
// may be frozen.
func Point(what string) {
	s := S
	if s == nil {
		return
	}
	t := s.cur
	if t.dying {
		return
	}
	s.steps++
	s.seq++
	t.step++
	if s.opt.Trace {
		s.tracef("%s", what)
	}
	s.checkBudget()
	st := &s.opt.Strat
	if s.fair {
		// deterministic round robin, no faults, a clock that creeps on
		if s.steps-s.fairAt > 1000 {
			s.fairAt = s.steps
			s.moveTo(s.now + 1_000_000)
		}
		if s.steps >= s.fairNext {
			s.fairNext = s.steps + 3 + int(NewRand(uint64(s.steps)).U64()%40)
			if n := s.defaultNext(t); n != nil && n != t {
				s.Stats.Preempts++
				s.switchTo(n)
			}
		}
		return
	}
	if s.opt.Replay {
		if v, ok := s.replayed(KTime); ok {
			s.record(KTime, v)
			s.advance(v)
		}
		if v, ok := s.replayed(KStall); ok {
			s.record(KStall, v)
			s.Stats.Stalls++
			t.stall = s.steps + int(v)
		}
		if v, ok := s.replayed(KSwitch); ok {
			if n := s.byID(int(v) - 1); n != nil && n != t && s.runnable(n) {
				s.record(KSwitch, v)
				s.Stats.Preempts++
				s.switchTo(n)
			}
		}
		return
	}
	if st.PTime > 0 && s.rng.Chance(st.PTime) {
		d := s.leap()
		s.record(KTime, d)
		s.advance(d)
	}
	if st.PStall > 0 && s.rng.Chance(st.PStall) {
		n := 1 + s.rng.Intn(400)
		s.record(KStall, int64(n))
		s.Stats.Stalls++
		t.stall = s.steps + n
		s.preemptRandom(t)
		return
	}
	switch st.Kind {
	case 0:
		if s.rng.Float() < st.PSwitch {
			s.preemptRandom(t)
		}
	case 1:
		if s.change[s.steps] {
			s.lowPrio--
			t.prio = s.lowPrio
		}
		if n := s.maxPrio(); n != nil && n != t {
			s.record(KSwitch, int64(n.ID)+1)
			s.Stats.Preempts++
			s.switchTo(n)
		}
	}
}

// ClockPoint precedes a reading of the clock: after whatever the others did
// meanwhile the clock may move once more, just before it is read.
func ClockPoint(what string) {
	Point(what)
	s := S
	if s == nil {
		return
	}
	t := s.cur
	if t.dying || s.fair {
		return
	}
	t.step++
	if s.opt.Replay {
		if v, ok := s.replayed(KTime); ok {
			s.record(KTime, v)
			s.advance(v)
		}
		return
	}
	if p := min(8*s.opt.Strat.PTime, 0.3); p > 0 && s.rng.Chance(p) {
		d := s.leap()
		s.record(KTime, d)
		s.advance(d)
	}
}

// Tick counts work inside loops that contain no other decision point.
func Tick() {
	s := S
	if s == nil || s.cur.dying {
		return
	}
	s.steps++
	s.checkBudget()
}

func (s *Sim) checkBudget() {
	if s.steps < s.opt.Strat.MaxSteps {
		return
	}
	if !s.fair {
		// adversary's budget used up: from here on a fair scheduler without
		// faults must finish the run
		s.fair = true
		s.fairEnd = s.steps + 20*s.opt.Strat.MaxSteps
		for _, t := range s.tasks {
			t.stall = 0
		}
		return
	}
	if s.steps > s.fairEnd {
		s.FailNow("no-progress", "operations still incomplete after %d steps under a fair schedule without faults: %s", s.steps, s.where())
	}
}

func (s *Sim) where() string {
	var b strings.Builder
	for _, t := range s.tasks {
		if t.done {
			continue
		}
		st := "runnable"
		if t.blocked {
			st = "blocked on " + t.why
		}
		fmt.Fprintf(&b, "[%s op=%d %s] ", t.Name, t.Op, st)
	}
	return b.String()
}

func (s *Sim) leap() int64 {
	st := &s.opt.Strat
	var d int64
	if len(st.Leaps) > 0 && s.rng.Chance(0.8) {
		d = st.Leaps[s.rng.Intn(len(st.Leaps))]
		switch s.rng.Intn(4) {
		case 0:
			d++
		case 1:
			d--
		case 2:
			d += int64(s.rng.Intn(2_000_000)) - 1_000_000
		}
		if d < 0 {
			d = 0
		}
	} else {
		d = int64(s.rng.Intn(1_000_000))
	}
	if d > 0 && s.now-Epoch > 20*365*24*3600*1e9 {
		d %= 10_000_000_000 // decades have passed: no more long leaps
	}
	if st.PBack > 0 && s.rng.Chance(st.PBack) {
		d = -d
	}
	return d
}

func (s *Sim) byID(id int) *Task {
	if id < 0 || id >= len(s.tasks) {
		return nil
	}
	return s.tasks[id]
}

func (s *Sim) runnable(t *Task) bool {
	if t.done {
		return false
	}
	if t.stall > s.steps {
		return false
	}
	if t.blocked {
		return t.ready()
	}
	return true
}

func (s *Sim) preemptRandom(t *Task) {
	n := s.randRunnable(t)
	if n == nil || n == t {
		return
	}
	s.record(KSwitch, int64(n.ID)+1)
	s.Stats.Preempts++
	s.switchTo(n)
}

func (s *Sim) randRunnable(not *Task) *Task {
	var buf [24]*Task
	c := buf[:0]
	for _, t := range s.tasks {
		if t != not && s.runnable(t) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[s.rng.Intn(len(c))]
}

func (s *Sim) maxPrio() *Task {
	var best *Task
	for _, t := range s.tasks {
		if s.runnable(t) && (best == nil || t.prio > best.prio) {
			best = t
		}
	}
	return best
}

// switchTo parks the current task (still runnable) and runs n.
func (s *Sim) switchTo(n *Task) {
	t := s.cur
	s.resume(n)
	s.park(t)
}

func (s *Sim) park(t *Task) {
	<-t.wake
	if t.dying {
		runtime.Goexit()
	}
	if t.Work {
		s.forced = 0
	}
}

// pick chooses the next task when the current one cannot continue. nil means
// the run is over (a deadlock has been recorded).
func (s *Sim) pick(t *Task) *Task {
	t.step++
	for {
		s.steps++
		s.seq++
		if s.fair {
			// round robin below
		} else if s.opt.Replay {
			if v, ok := s.replayed(KSwitch); ok {
				if n := s.byID(int(v) - 1); n != nil && s.runnable(n) {
					s.record(KSwitch, v)
					return n
				}
			}
		} else {
			var n *Task
			if s.opt.Strat.Kind == 1 {
				n = s.maxPrio()
			} else if s.opt.Strat.Kind == 2 {
				n = nil
			} else {
				n = s.randRunnable(nil)
			}
			if n != nil {
				if n != s.defaultNext(t) {
					s.record(KSwitch, int64(n.ID)+1)
				}
				return n
			}
		}
		if n := s.defaultNext(t); n != nil {
			return n
		}
		// nobody can run: release frozen tasks first, then move the clock
		stalled := false
		for _, u := range s.tasks {
			if !u.done && u.stall > s.steps {
				u.stall = 0
				stalled = true
			}
		}
		if stalled {
			continue
		}
		if s.forced > 200 && (!s.sleeper() || s.forced > 1_000_000) || !s.nextTimer() {
			s.Fail("deadlock", "no task can proceed: %s", s.where())
			return nil
		}
		s.forced++
	}
}

// sleeper reports that a workload task waits for its own timer.
func (s *Sim) sleeper() bool {
	for _, t := range s.tasks {
		if t.Work && !t.done && t.blocked && t.why == "sleep" {
			return true
		}
	}
	return false
}

func (s *Sim) defaultNext(t *Task) *Task {
	n := len(s.tasks)
	for i := 1; i <= n; i++ {
		u := s.tasks[(t.ID+i)%n]
		if s.runnable(u) {
			return u
		}
	}
	return nil
}

// Block parks the current task until ready() holds.
func Block(why string, ready func() bool) {
	s := S
	if s == nil {
		panic("sim: blocking operation outside a simulation: " + why)
	}
	t := s.cur
	if t.dying {
		return
	}
	if ready() {
		return
	}
	s.Stats.Blocks++
	t.blocked, t.ready, t.why = true, ready, why
	if s.opt.Trace {
		s.tracef("blocked: %s", why)
	}
	idle := t.daemon && why == "channel"
	if idle {
		s.active = append(s.active, [2]uint64{t.actFrom, s.seq})
		t.actFrom = math.MaxUint64
	}
	n := s.pick(t)
	if n == nil {
		s.stop()
	}
	if n != t {
		s.resume(n)
		s.park(t)
	}
	t.blocked, t.ready = false, nil
	if idle {
		t.actFrom = s.seq
	}
	if t.Work {
		s.forced = 0
	}
}

// ---------------------------------------------------------------- events and clock

// Seq returns a fresh event number.
func (s *Sim) Seq() uint64 { s.seq++; return s.seq }

// Now is the simulated clock.
func Now() int64 {
	if S == nil {
		return Epoch
	}
	return S.now
}

func (s *Sim) Clock() int64 { return s.now }

func (s *Sim) advance(d int64) {
	if d < 0 {
		s.Stats.LeapsBack++
		s.now += d
		s.seq++
		s.clock = append(s.clock, clockPt{s.seq, s.now})
		return
	}
	s.Stats.LeapsFwd++
	s.moveTo(s.now + d)
}

func (s *Sim) moveTo(to int64) {
	if to-s.now > 600_000_000_000 {
		// A long way: the machine was suspended. The clock has moved on when the
		// timers that were due fire, once each.
		s.now = to
		s.seq++
		s.clock = append(s.clock, clockPt{s.seq, s.now})
	}
	for {
		var best *timer
		for _, t := range s.timers {
			if !t.dead && t.at <= to && (best == nil || t.at < best.at || t.at == best.at && t.id < best.id) {
				best = t
			}
		}
		if best == nil {
			break
		}
		if best.at > s.now {
			s.now = best.at
			s.seq++
			s.clock = append(s.clock, clockPt{s.seq, s.now})
		}
		s.fireTimer(best)
	}
	if to > s.now {
		s.now = to
		s.seq++
		s.clock = append(s.clock, clockPt{s.seq, s.now})
	}
}

func (s *Sim) fireTimer(t *timer) {
	t.dead = true
	for i, u := range s.timers {
		if u == t {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			break
		}
	}
	t.fire()
}

func (s *Sim) nextTimer() bool {
	var best *timer
	for _, t := range s.timers {
		if !t.dead && (best == nil || t.at < best.at || t.at == best.at && t.id < best.id) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	s.Stats.TimerJumps++
	if best.at > s.now {
		s.moveTo(best.at)
	} else {
		s.fireTimer(best)
	}
	return true
}

// AddTimer arms a timer; fire runs in scheduler context and must not block.
func (s *Sim) AddTimer(at int64, fire func()) *timer {
	s.tid++
	t := &timer{at: at, id: s.tid, fire: fire}
	s.timers = append(s.timers, t)
	return t
}

// StopTimer reports whether the timer was still armed.
func (s *Sim) StopTimer(t *timer) bool {
	if t == nil || t.dead {
		return false
	}
	t.dead = true
	for i, u := range s.timers {
		if u == t {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			break
		}
	}
	return true
}

type Timer = timer

// Sleep parks the current task for d of simulated time.
func Sleep(d int64) {
	s := S
	if s == nil || s.cur.dying {
		return
	}
	Point("sleep")
	if d <= 0 {
		return
	}
	fired := false
	s.AddTimer(s.now+d, func() { fired = true })
	Block("sleep", func() bool { return fired })
}

// ClockRange returns the least and greatest clock readings in [from,to].
func (s *Sim) ClockRange(from, to uint64) (lo, hi int64) {
	i := sort.Search(len(s.clock), func(i int) bool { return s.clock[i].seq > from })
	if i > 0 {
		i--
	}
	lo, hi = s.clock[i].t, s.clock[i].t
	for ; i < len(s.clock) && s.clock[i].seq <= to; i++ {
		if s.clock[i].t < lo {
			lo = s.clock[i].t
		}
		if s.clock[i].t > hi {
			hi = s.clock[i].t
		}
	}
	return
}

// ActiveUntil returns when the last of the library's goroutines that were at
// work (not waiting for a channel) somewhere in [from,to] came to rest.
func (s *Sim) ActiveUntil(from, to uint64) (end uint64) {
	for _, a := range s.active {
		if a[0] <= to && a[1] >= from {
			end = max(end, a[1])
		}
	}
	for _, t := range s.tasks {
		if t.daemon && !t.done && t.actFrom <= to {
			return math.MaxUint64
		}
	}
	return
}

// ClockAt returns the clock reading in force at seq.
func (s *Sim) ClockAt(seq uint64) int64 {
	i := sort.Search(len(s.clock), func(i int) bool { return s.clock[i].seq > seq })
	if i > 0 {
		i--
	}
	return s.clock[i].t
}

// ClockPoints calls f for each clock value in force somewhere in [from,to].
func (s *Sim) ClockPoints(from, to uint64, f func(seq uint64, t int64)) {
	i := sort.Search(len(s.clock), func(i int) bool { return s.clock[i].seq > from })
	if i > 0 {
		i--
	}
	for ; i < len(s.clock) && s.clock[i].seq <= to; i++ {
		q := s.clock[i].seq
		if q < from {
			q = from
		}
		f(q, s.clock[i].t)
	}
}

// Calm stops all adversarial choices: fair scheduling, no faults, no leaps.
func (s *Sim) Calm() {
	s.fair = true
	if s.fairEnd == 0 || s.fairEnd < s.steps+20*s.opt.Strat.MaxSteps {
		s.fairEnd = s.steps + 20*s.opt.Strat.MaxSteps
	}
	for _, t := range s.tasks {
		t.stall = 0
	}
	if s.opt.Strat.MaxSteps > s.steps {
		s.opt.Strat.MaxSteps = s.steps
	}
}

func (s *Sim) tracef(format string, args ...any) {
	if len(s.trace) > 4000 {
		return
	}
	s.trace = append(s.trace, fmt.Sprintf("#%d t=%s %s op=%d.%d %s%s", s.seq, fmtDur(s.now-Epoch), s.cur.Name, s.cur.Op, s.cur.step, fmt.Sprintf(format, args...), caller()))
}

// Note adds a line to the trace when one is kept.
func (s *Sim) Note(format string, args ...any) {
	if s.opt.Trace && !s.cur.dying {
		s.tracef(format, args...)
	}
}

func fmtDur(d int64) string { return fmt.Sprintf("%d.%06dms", d/1e6, d%1e6) }

func caller() string {
	var pcs [12]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if i := strings.Index(f.File, "/repo/"); i >= 0 {
			fn := f.Function
			if j := strings.LastIndex(fn, "/"); j >= 0 {
				fn = fn[j+1:]
			}
			return " @" + fn
		}
		if !more {
			return ""
		}
	}
}
