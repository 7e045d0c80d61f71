package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"zz.test/sim"
)

var (
	mode    = flag.String("mode", "check", "check, worker, replay, gen")
	propID  = flag.String("prop", "", "property")
	tier    = flag.String("tier", "quick", "quick or thorough")
	seedF   = flag.Uint64("seed", 1, "VERIF_SEED")
	budget  = flag.Duration("budget", 20*time.Second, "search time")
	maxRuns = flag.Uint64("maxruns", 0, "stop after this many runs (0: time only)")
	workers = flag.Int("workers", 8, "worker processes")
	worker  = flag.Int("worker", 0, "worker number")
	scratch = flag.String("scratch", "", "scratch directory")
	verif   = flag.String("verif", "/verif", "where replays and evidence go")
	file    = flag.String("file", "", "replay file")
	index   = flag.Int64("index", -1, "worker: execute this run only")
	level   = flag.Int("level", 2, "instrumentation level of this binary")
	verbose = flag.Bool("v", false, "verbose")
)

type wresult struct {
	Worker       int
	Runs         uint64
	Steps        int64
	Hashes       uint64
	NonTrivial   uint64
	Inconclusive uint64
	Checks       int64
	Stats        sim.Stats
	Rechecked    uint64
	Cross        map[uint64]string // index -> execution hash
	Samples      []json.RawMessage
	Replay       string
	Viol         *sim.Violation
	Error        string
	Strats       map[string]int64
	Unrelated    uint64   // violations that need none of this property's faults
	Mismatch     []string // executions that did not repeat exactly
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	switch *mode {
	case "check":
		os.Exit(check())
	case "worker":
		work()
	case "replay":
		os.Exit(replayFile())
	case "twice": // debugging: one run index executed repeatedly, traces compared
		os.Exit(twice())
	}
}

func addStats(d *sim.Stats, s *sim.Stats) {
	d.Steps += s.Steps
	d.Switches += s.Switches
	d.Preempts += s.Preempts
	d.Stalls += s.Stalls
	d.LeapsFwd += s.LeapsFwd
	d.LeapsBack += s.LeapsBack
	d.TimerJumps += s.TimerJumps
	d.MapShuffles += s.MapShuffles
	d.Selects += s.Selects
	d.Spawns += s.Spawns
	d.Blocks += s.Blocks
	d.SimMillis += s.SimMillis
	if d.Faults == nil {
		d.Faults, d.Probes = map[string]int64{}, map[string]int64{}
	}
	for k, v := range s.Faults {
		d.Faults[k] += v
	}
	for k, v := range s.Probes {
		d.Probes[k] += v
	}
}

func work() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	p := props[*propID]
	res := &wresult{Worker: *worker, Cross: map[uint64]string{}, Strats: map[string]int64{}}
	deadline := time.Now().Add(*budget)
	deep := *tier == "thorough"
	hashes := map[uint64]struct{}{}
	all := map[uint64]struct{}{}
	// a watchdog for executions that leave the simulator's control
	progress := make(chan struct{}, 1)
	go func() {
		idle := 0
		for {
			time.Sleep(time.Second)
			select {
			case <-progress:
				idle = 0
			default:
				if idle++; idle > 75 {
					fmt.Fprintln(os.Stderr, "worker: a simulated run does not return; giving up")
					os.Exit(4)
				}
			}
		}
	}()
	finish := func() {
		res.Hashes = uint64(len(all))
		res.NonTrivial = uint64(len(hashes))
		if *scratch != "" {
			var b bytes.Buffer
			for h := range all {
				binary.Write(&b, binary.LittleEndian, h)
			}
			os.WriteFile(filepath.Join(*scratch, fmt.Sprintf("all.%d", *worker)), b.Bytes(), 0o644)
			b.Reset()
			for h := range hashes {
				binary.Write(&b, binary.LittleEndian, h)
			}
			os.WriteFile(filepath.Join(*scratch, fmt.Sprintf("nontriv.%d", *worker)), b.Bytes(), 0o644)
		}
		b, _ := json.Marshal(res)
		fmt.Printf("RESULT %s\n", b)
		os.Exit(0)
	}
	one := func(i uint64) (*Work, uint64, *Outcome) {
		seed := mix(*seedF, *propID, i)
		w := genWork(p, seed, deep)
		return w, seed, runWork(p, w, seed, false, nil, false)
	}
	if *index >= 0 { // a single run, to see whether it ends the process again
		one(uint64(*index))
		os.Exit(0)
	}
	// runs of the neighbouring worker, repeated here: determinism across processes
	for k := 0; k < 6; k++ {
		i := uint64((*worker+1)%*workers) + uint64(k*13)*uint64(*workers)
		_, _, o := one(i)
		res.Cross[i] = fmt.Sprintf("%x", o.Hash)
	}
	var curFile *os.File // the run in progress, should it end the process
	var curBuf [8]byte
	if *scratch != "" && *index < 0 {
		curFile, _ = os.Create(filepath.Join(*scratch, fmt.Sprintf("cur.%d", *worker)))
	}
	for i := uint64(*worker); ; i += uint64(*workers) {
		if time.Now().After(deadline) || *maxRuns > 0 && i >= *maxRuns {
			break
		}
		select {
		case progress <- struct{}{}:
		default:
		}
		if curFile != nil {
			binary.LittleEndian.PutUint64(curBuf[:], i)
			curFile.WriteAt(curBuf[:], 0)
		}
		w, seed, o := one(i)
		res.Runs++
		res.Checks += o.Hist.checks
		addStats(&res.Stats, &o.Stats)
		res.Strats[fmt.Sprintf("kind%d", w.Strat.Kind)]++
		if o.Hist.inconcl {
			res.Inconclusive++
		}
		k := uint64(*worker)
		if (i-k)/uint64(*workers) < 80 && ((i-k)/uint64(*workers))%13 == 0 && (i-k)/uint64(*workers) < 6*13 {
			res.Cross[i] = fmt.Sprintf("%x", o.Hash)
		}
		if len(all) < 3_000_000 {
			all[o.Hash] = struct{}{}
			if o.Hist.nontriv {
				hashes[o.Hash] = struct{}{}
			}
		}
		if res.Runs%97 == 1 || o.Viol != nil { // the same seed again, exactly
			_, _, o2 := one(i)
			res.Rechecked++
			if o2.Hash != o.Hash || (o.Viol == nil) != (o2.Viol == nil) || o.Viol != nil && *o.Viol != *o2.Viol {
				res.Mismatch = append(res.Mismatch, fmt.Sprintf("run %d seed %d: hash %x/%x violation %v/%v", i, seed, o.Hash, o2.Hash, o.Viol, o2.Viol))
				continue // only what repeats exactly is reported
			}
			if o3 := runWork(p, w, seed, true, o.Choices, false); o3.Hash != o.Hash { // and from its recorded choices
				res.Mismatch = append(res.Mismatch, fmt.Sprintf("run %d seed %d: replayed from its choices: hash %x/%x violation %v/%v", i, seed, o.Hash, o3.Hash, o.Viol, o3.Viol))
			}
		}
		if len(res.Samples) < 2 && o.Viol == nil && res.Runs%50 == 3 {
			o3 := runWork(p, w, seed, false, nil, true)
			hs := o3.Hist.lines
			if len(hs) > 40 {
				hs = hs[:40]
			}
			b, _ := json.Marshal(map[string]any{"run_index": i, "seed": seed, "strategy": w.Strat, "cfg": w.Cfg, "operations": len(w.Ops), "choices": len(o3.Choices), "steps": o3.Stats.Steps, "history": hs})
			res.Samples = append(res.Samples, b)
		}
		if o.Viol != nil && p.Faulty != nil && p.Faulty(o.Viol.Class) && !o.faulted() {
			res.Unrelated++ // no fault was involved: another property's business
			continue
		}
		if o.Viol != nil {
			res.Viol = o.Viol
			rp := &Replay{Property: p.ID, BaseSeed: *seedF, Index: i, Seed: seed}
			rp.Original = map[string]int{"operations": len(w.Ops), "choices": len(o.Choices)}
			mw, mc, ok := minimise(p, w, seed, o, time.Now().Add(25*time.Second))
			if ok {
				rp.Mode, rp.Work, rp.Choices = "choices", mw, mc
			} else {
				rp.Mode, rp.Work, rp.Choices = "seed", w, nil
			}
			plain := rp.execute(false)
			if plain.Viol == nil || plain.Viol.Class != o.Viol.Class {
				rp.Mode, rp.Work, rp.Choices = "seed", w, nil
				plain = rp.execute(false)
			}
			if plain.Viol != nil && p.Faulty != nil && p.Faulty(plain.Viol.Class) && !plain.faulted() {
				res.Unrelated++
				res.Viol = nil
				continue
			}
			if plain.Viol == nil {
				res.Mismatch = append(res.Mismatch, fmt.Sprintf("run %d seed %d: violation %v does not replay", i, seed, o.Viol))
				res.Viol = nil
				continue
			}
			fmt.Printf("FOUND %d\n", i)
			os.Stdout.Sync()
			rp.Violation = plain.Viol
			rp.Hash = fmt.Sprintf("%x", plain.Hash)
			fo := rp.execute(true)
			rp.History = fo.Hist.lines
			rp.Trace = fo.Trace
			if len(rp.Trace) > 1500 {
				rp.Trace = rp.Trace[:1500]
			}
			dir := filepath.Join(*verif, "replays")
			os.MkdirAll(dir, 0o755)
			res.Replay = filepath.Join(dir, fmt.Sprintf("%s-s%d-i%d.json", p.ID, *seedF, i))
			if err := writeJSON(res.Replay, rp); err != nil {
				res.Error = err.Error()
			}
			finish()
		}
	}
	finish()
}

func twice() int {
	runtime.GOMAXPROCS(1)
	p := props[*propID]
	seed := mix(*seedF, *propID, *maxRuns)
	var first *Outcome
	for k := 0; k < 200; k++ {
		o := runWork(p, genWork(p, seed, *tier == "thorough"), seed, false, nil, true)
		if first == nil {
			first = o
			defer func() {
				o := runWork(p, genWork(p, seed, *tier == "thorough"), seed, true, first.Choices, true)
				fmt.Printf("replayed from its choices: hash %x steps %d violation %v\n", o.Hash, o.Stats.Steps, o.Viol)
				for i := range o.Trace {
					if i >= len(first.Trace) || o.Trace[i] != first.Trace[i] {
						for j := max(0, i-25); j < i+3 && j < len(o.Trace) && j < len(first.Trace); j++ {
							fmt.Println("A", first.Trace[j])
							fmt.Println("B", o.Trace[j])
						}
						break
					}
				}
			}()
			fmt.Printf("hash %x steps %d violation %v\n", o.Hash, o.Stats.Steps, o.Viol)
			continue
		}
		if o.Hash != first.Hash {
			fmt.Printf("attempt %d differs: %x\n", k, o.Hash)
			for i := range o.Trace {
				if i >= len(first.Trace) || o.Trace[i] != first.Trace[i] {
					for j := max(0, i-5); j < i+3 && j < len(o.Trace) && j < len(first.Trace); j++ {
						fmt.Println("A", first.Trace[j])
						fmt.Println("B", o.Trace[j])
					}
					break
				}
			}
			return 1
		}
	}
	return 0
}

func replayFile() int {
	b, err := os.ReadFile(*file)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Println(err)
		return 3
	}
	if props[r.Property] == nil {
		fmt.Println("unknown property", r.Property)
		return 3
	}
	if c := r.Violation.Class; c == "crash" || c == "hang" {
		self, _ := os.Executable()
		if got := single(self, r.Property, r.Tier, r.BaseSeed, r.Index); got != map[string]int{"crash": 2, "hang": 4}[c] {
			fmt.Println("NOT REPRODUCED: the process ended with code", got)
			return 0
		}
		fmt.Printf("REPRODUCED class=%s identical_execution=true\n%s\nVIOLATION property=%s replay=%s\n", c, r.Violation.Msg, r.Property, *file)
		return 1
	}
	runtime.GOMAXPROCS(1)
	o := r.execute(false)
	if o.Viol == nil {
		fmt.Println("NOT REPRODUCED: the property held on this schedule")
		return 0
	}
	if *verbose {
		o2 := r.execute(true)
		for _, l := range o2.Trace {
			fmt.Println("  ", l)
		}
		for _, l := range o2.Hist.lines {
			fmt.Println("  ", l)
		}
	}
	same := fmt.Sprintf("%x", o.Hash) == r.Hash
	fmt.Printf("REPRODUCED class=%s identical_execution=%v\n%s\n", o.Viol.Class, same, o.Viol.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *file)
	return 1
}

func check() int {
	start := time.Now()
	p := props[*propID]
	if p == nil {
		fmt.Println("unknown property", *propID)
		return 3
	}
	self, _ := os.Executable()
	type proc struct {
		cmd   *exec.Cmd
		res   *wresult
		err   string
		code  int
		first string
	}
	procs := make([]*proc, *workers)
	var mu sync.Mutex
	var wg sync.WaitGroup
	found := false
	killOthers := func(except int) {
		for i, q := range procs {
			if i != except && q != nil && q.cmd.Process != nil && q.res == nil {
				q.cmd.Process.Kill()
			}
		}
	}
	for i := 0; i < *workers; i++ {
		cmd := exec.Command(self, "-mode", "worker", "-prop", *propID, "-tier", *tier, "-seed", fmt.Sprint(*seedF), "-budget", budget.String(),
			"-workers", fmt.Sprint(*workers), "-worker", fmt.Sprint(i), "-scratch", *scratch, "-verif", *verif, "-maxruns", fmt.Sprint(*maxRuns))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		out, err := cmd.StdoutPipe()
		if err != nil {
			fmt.Println(err)
			return 3
		}
		q := &proc{cmd: cmd}
		procs[i] = q
		if err := cmd.Start(); err != nil {
			fmt.Println(err)
			return 3
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sc := bufio.NewScanner(out)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				l := sc.Text()
				if strings.HasPrefix(l, "FOUND ") {
					mu.Lock()
					if !found {
						found = true
						killOthers(i)
					}
					mu.Unlock()
				}
				if strings.HasPrefix(l, "RESULT ") {
					r := &wresult{}
					if err := json.Unmarshal([]byte(l[7:]), r); err != nil {
						q.err = err.Error()
					}
					mu.Lock()
					q.res = r
					mu.Unlock()
				}
			}
			if err := cmd.Wait(); err != nil && q.res == nil {
				q.err = fmt.Sprintf("worker %d: %v: %s", i, err, tail(eb.String()))
				q.code = cmd.ProcessState.ExitCode()
				q.first = head(eb.String())
			}
		}(i)
	}
	wg.Wait()
	tot := &wresult{Cross: map[uint64]string{}, Strats: map[string]int64{}}
	var errs, mism []string
	var samples []json.RawMessage
	var viol *wresult
	for i, q := range procs {
		if q.res == nil {
			if found {
				continue
			}
			if viol == nil && p.Only == "" {
				viol = crashed(p, self, i, q.code, q.first)
			}
			if viol == nil {
				errs = append(errs, q.err)
			}
			continue
		}
		r := q.res
		if r.Error != "" {
			errs = append(errs, r.Error)
		}
		mism = append(mism, r.Mismatch...)
		tot.Runs += r.Runs
		tot.Inconclusive += r.Inconclusive
		tot.Checks += r.Checks
		tot.Unrelated += r.Unrelated
		tot.Rechecked += r.Rechecked
		addStats(&tot.Stats, &r.Stats)
		for k, v := range r.Strats {
			tot.Strats[k] += v
		}
		for i, h := range r.Cross {
			if old, ok := tot.Cross[i]; ok && old != h {
				mism = append(mism, fmt.Sprintf("across processes: run %d: %s/%s", i, old, h))
			}
			tot.Cross[i] = h
		}
		samples = append(samples, r.Samples...)
		if r.Viol != nil && r.Replay != "" && viol == nil {
			viol = r
		}
	}
	distinct := func(prefix string) int {
		m := map[uint64]struct{}{}
		for i := range procs {
			b, _ := os.ReadFile(filepath.Join(*scratch, fmt.Sprintf("%s.%d", prefix, i)))
			for len(b) >= 8 {
				m[binary.LittleEndian.Uint64(b)] = struct{}{}
				b = b[8:]
			}
		}
		return len(m)
	}
	allD, ntD := distinct("all"), distinct("nontriv")
	if len(samples) > 4 {
		samples = samples[:4]
	}
	wall := time.Since(start).Seconds()
	faults := map[string]int64{
		"preemptions at arbitrary points":         tot.Stats.Preempts,
		"task stalls (frozen up to 400 steps)":    tot.Stats.Stalls,
		"clock leaps forward":                     tot.Stats.LeapsFwd,
		"clock steps backward":                    tot.Stats.LeapsBack,
		"map iteration orders permuted":           tot.Stats.MapShuffles,
		"timer-driven clock jumps (all idle)":     tot.Stats.TimerJumps,
		"blocking waits entered":                  tot.Stats.Blocks,
		"select case order chosen (when present)": tot.Stats.Selects,
	}
	for k, v := range tot.Stats.Faults {
		faults["injected: "+k] = v
	}
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": *seedF, "level": "exploration", "wall_s": wall, "violations": nviol,
		"coverage": map[string]any{
			"evaluations":         tot.Runs,
			"distinct_nontrivial": ntD,
			"rule":                p.Rule,
			"samples":             samples,
			"simulated_runs":      tot.Runs,
			"seeds_per_hour":      int64(float64(tot.Runs) / wall * 3600),
			"simulated_seconds":   float64(tot.Stats.SimMillis) / 1e3,
			"scheduler_steps":     tot.Stats.Steps,
			"context_switches":    tot.Stats.Switches,
			"tasks_started":       tot.Stats.Spawns,
			"distinct_executions": map[string]any{"count": allD, "measure": "64-bit hash over the sequence of (task resumed, operation, decision point) and every recorded choice"},
			"faults_injected":     faults,
			"probes":              tot.Stats.Probes,
			"oracle_evaluations":  tot.Checks,
			"inconclusive_runs":   tot.Inconclusive,
			"other_properties":    tot.Unrelated,
			"strategies":          tot.Strats,
			"determinism":         map[string]any{"same_seed_reruns": tot.Rechecked, "cross_process_reruns": len(tot.Cross), "mismatches": len(mism)},
			"real_code":           p.Real,
			"stubs":               p.Stub,
			"workers":             *workers,
		},
		"assumptions": append([]string{
			"instrumentation of /repo's current sources preserves their semantics (locks, atomics, channels, clocks, maps are replaced by simulated ones; plain shared accesses become visible)",
			"sampling, not enumeration: a clean run is evidence for the explored schedules and faults only",
		}, p.Notes...),
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := writeJSON(filepath.Join(*verif, "evidence", p.ID+".json"), ev); err != nil {
		errs = append(errs, err.Error())
	}
	fmt.Printf("%s %s seed=%d: %d simulated runs (%d distinct executions, %d distinct non-trivial), %d oracle evaluations, %d inconclusive, %.0f simulated s, %.1f s wall\n",
		p.ID, *tier, *seedF, tot.Runs, allD, ntD, tot.Checks, tot.Inconclusive, float64(tot.Stats.SimMillis)/1e3, wall)
	var fk []string
	for k := range tot.Stats.Probes {
		fk = append(fk, k)
	}
	sort.Strings(fk)
	for _, k := range fk {
		fmt.Printf("  probe %-40s %d\n", k, tot.Stats.Probes[k])
	}
	for _, k := range sortedKeys(faults) {
		if faults[k] > 0 {
			fmt.Printf("  fault %-40s %d\n", k, faults[k])
		}
	}
	for i, m := range mism {
		if i < 5 {
			fmt.Println("WARNING: an execution did not repeat exactly:", m)
		}
	}
	if viol != nil {
		// the replay must reproduce in a fresh process
		for k := 0; k < 2; k++ {
			cmd := exec.Command(self, "-mode", "replay", "-file", viol.Replay)
			out, _ := cmd.CombinedOutput()
			if cmd.ProcessState.ExitCode() != 1 || !strings.Contains(string(out), "identical_execution=true") {
				fmt.Printf("ERROR: replay did not reproduce: %s\n", tail(string(out)))
				return 3
			}
		}
		b, _ := os.ReadFile(viol.Replay)
		rp := &Replay{}
		json.Unmarshal(b, rp)
		fmt.Printf("class=%s: %s\n", rp.Violation.Class, rp.Violation.Msg)
		fmt.Printf("minimised: %d operations, %d choices (from %d, %d); run index %d\n", len(rp.Work.Ops), len(rp.Choices), rp.Original["operations"], rp.Original["choices"], rp.Index)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, viol.Replay)
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Println("ERROR:", e)
		}
		return 3
	}
	if tot.Runs == 0 {
		fmt.Println("ERROR: no runs")
		return 3
	}
	return 0
}

// crashed decides whether a worker that ended without a result did so because
// a simulated run ended the process (a fatal error such as unbounded recursion)
// or never returned; the run is repeated alone to find out.
func crashed(p *Prop, self string, worker, code int, first string) *wresult {
	b, err := os.ReadFile(filepath.Join(*scratch, fmt.Sprintf("cur.%d", worker)))
	if err != nil || len(b) < 8 || code != 2 && code != 4 {
		return nil
	}
	i := binary.LittleEndian.Uint64(b)
	if single(self, p.ID, *tier, *seedF, i) != code {
		return nil
	}
	seed := mix(*seedF, p.ID, i)
	w := genWork(p, seed, *tier == "thorough")
	class, msg := "crash", "the simulated run ends the process: "+first
	if code == 4 {
		class, msg = "hang", "the simulated run does not return"
	}
	rp := &Replay{Property: p.ID, BaseSeed: *seedF, Index: i, Seed: seed, Mode: "seed", Tier: *tier, Work: w,
		Violation: &sim.Violation{Class: class, Msg: msg}, Original: map[string]int{"operations": len(w.Ops)}}
	dir := filepath.Join(*verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-s%d-i%d.json", p.ID, *seedF, i))
	if writeJSON(path, rp) != nil {
		return nil
	}
	return &wresult{Viol: rp.Violation, Replay: path}
}

// single executes one run in a process of its own and returns the exit code.
func single(self, prop, tier string, seed, i uint64) int {
	cmd := exec.Command(self, "-mode", "worker", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-index", fmt.Sprint(i))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	cmd.Run()
	return cmd.ProcessState.ExitCode()
}

func head(s string) string {
	if i := strings.Index(s, "\n\n"); i > 0 {
		s = s[:i]
	}
	return strings.ReplaceAll(strings.TrimSpace(s[:min(len(s), 300)]), "\n", "; ")
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}
