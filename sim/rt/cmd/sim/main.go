//go:build go1.21

package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/asap2Go/calibrationReader/verifsim/gen"
	"github.com/asap2Go/calibrationReader/verifsim/simrt"
)

// Exit codes: 0 the property held, 1 violation, anything else trouble of the
// check itself.
const (
	exitOK      = 0
	exitViol    = 1
	exitTrouble = 3
)

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simulation: "+f+"\n", a...)
	os.Exit(exitTrouble)
}

// message is one line of a worker's report.
type message struct {
	T     string     `json:"t"` // start, viol, done, trouble, digest
	I     int        `json:"i,omitempty"`
	Msg   string     `json:"msg,omitempty"`
	File  string     `json:"file,omitempty"`
	Raw   string     `json:"raw,omitempty"`
	V     *Violation `json:"v,omitempty"`
	Stats *stats     `json:"stats,omitempty"`
}

type options struct {
	prop    string
	tier    string
	seed    uint64
	runs    int
	secs    float64
	from    int
	step    int
	replays string
	outFile string
	level   string
	only    int
	digests string
}

func main() {
	if len(os.Args) < 2 {
		fail("usage: sim check|worker|replay|one|bench ...")
	}
	mode := os.Args[1]
	var o options
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	fs.StringVar(&o.prop, "prop", "", "property")
	fs.StringVar(&o.tier, "tier", "quick", "tier")
	fs.Uint64Var(&o.seed, "seed", 1, "VERIF_SEED")
	fs.IntVar(&o.runs, "runs", 0, "number of runs (0: the tier's)")
	fs.Float64Var(&o.secs, "secs", 0, "wall-clock cap")
	fs.IntVar(&o.from, "from", 0, "")
	fs.IntVar(&o.step, "step", 1, "")
	fs.StringVar(&o.replays, "replays", "replays", "directory of replay files")
	fs.StringVar(&o.outFile, "evidence", "", "evidence file")
	fs.IntVar(&o.only, "i", -1, "one run only")
	fs.StringVar(&o.digests, "digests", "", "comma separated run numbers to digest")
	fs.Parse(os.Args[2:])
	switch mode {
	case "check":
		os.Exit(check(&o))
	case "worker":
		worker(&o)
	case "replay":
		if fs.NArg() != 1 {
			fail("replay wants one file")
		}
		os.Exit(replay(fs.Arg(0)))
	case "golden":
		loadCorpus()
		golden = nil
		makeGolden()
	default:
		fail("unknown mode %q", mode)
	}
}

// ---- worker --------------------------------------------------------------------

func setup() {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(1500 << 20)
	loadCorpus()
	learnSites()
	// What the generators use must not depend on the runs before: the caches of
	// reference results hold results of the code under test, which a run
	// computes anew in another process.
}

func scenarioOf(p *Property, seed uint64, i int) *Scenario {
	rs := newRng(seed, hashStr(p.id), uint64(i)).next()
	s := p.gen(newRng(rs))
	s.Prop = p.id
	s.RunSeed = rs
	q := newRng(rs, 77)
	often := 8
	switch p.id {
	case "C09", "C10", "C12", "C13":
		often = 20
	}
	if q.p(often) {
		s.rename(q)
	}
	switch p.id {
	case "C01", "C02", "C05", "C07":
		s.RO = q.p(20)
	}
	return s
}

func (s *Scenario) clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	n := &Scenario{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

// runDigest sums up everything observable about the runs of a scenario.
func runDigest(v *Violation, rs []*Run) string {
	var b strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&b, "%x %d %d %d %v %v;", r.Sim.Hash, r.Sim.Steps, r.Sim.Tasks, r.Sim.SimNS, r.Fired, len(r.Ops))
		for _, c := range r.Out {
			for _, o := range c {
				b.WriteString(o.res())
				b.WriteString(" ")
				b.WriteString(o.Err)
				b.WriteString("|")
			}
		}
	}
	if v != nil {
		b.WriteString(v.Class)
	}
	return fmt.Sprintf("%016x", hashStr(b.String()))
}

func worker(o *options) {
	p := properties[o.prop]
	if p == nil {
		fail("unknown property %q", o.prop)
	}
	out := bufio.NewWriter(os.Stdout)
	emit := func(m message) {
		b, err := json.Marshal(m)
		if err != nil {
			fail("%v", err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	setup()
	if o.digests != "" {
		for _, x := range strings.Split(o.digests, ",") {
			var i int
			fmt.Sscan(x, &i)
			v, rs := p.check(scenarioOf(p, o.seed, i))
			emit(message{T: "digest", I: i, Msg: runDigest(v, rs)})
		}
		return
	}
	st := newStats()
	deadline := time.Now().Add(time.Duration(o.secs * float64(time.Second)))
	var viols int
	for i := o.from; i < o.runs; i += o.step {
		if o.only >= 0 {
			i = o.only
		}
		if o.secs > 0 && time.Now().After(deadline) {
			st.Capped = 1
			break
		}
		emit(message{T: "start", I: i})
		if p.race {
			resetRaceLog()
		}
		s := scenarioOf(p, o.seed, i)
		// the check may change the scenario (C16); digests want it fresh
		v, rs := p.check(s)
		if refTrouble != "" {
			// the code under test misbehaves on the reference input itself
			st.RefTrouble++
			refTrouble = ""
		}
		st.add(s, rs, i)
		if i%61 == 7 && v == nil {
			w, rs2 := p.check(scenarioOf(p, o.seed, i))
			st.Reruns++
			if runDigest(v, rs) != runDigest(w, rs2) {
				st.Nondet++
			}
		}
		if i%997 < 8 && v == nil && len(st.Digests) < 4 {
			st.Digests[fmt.Sprint(i)] = runDigest(v, rs)
		}
		if v != nil {
			viols++
			file, raw, fv, err := minimise(p, s, v, rs, o.replays)
			if err != "" {
				emit(message{T: "trouble", I: i, Msg: err})
				os.Exit(exitTrouble)
			}
			if file == "" {
				// a race that was reported once: go on, a clearer one may come
				if st.Once == nil {
					st.Once = &message{T: "viol", I: i, File: raw, V: fv}
				}
				continue
			}
			emit(message{T: "viol", I: i, File: file, Raw: raw, V: fv})
			break
		}
		if o.only >= 0 {
			break
		}
	}
	emit(message{T: "done", Stats: st})
}

// ---- statistics ------------------------------------------------------------------

type stats struct {
	Runs       int               `json:"runs"`
	Execs      int               `json:"execs"`
	Steps      int64             `json:"steps"`
	SimNS      int64             `json:"sim_ns"`
	Tasks      int64             `json:"tasks"`
	Switches   int64             `json:"switches"`
	Preempts   int64             `json:"preempts"`
	Stalls     int64             `json:"stalls"`
	ClockJumps int64             `json:"clock_jumps"`
	Pauses     int64             `json:"pauses"`
	MaxLive    int               `json:"max_live"`
	Set        map[string]int    `json:"set"`
	Fired      map[string]int    `json:"fired"`
	Damage     map[string]int    `json:"damage"`
	Outcomes   map[string]int    `json:"outcomes"`
	CPUs       map[string]int    `json:"cpus"`
	Hashes     []uint64          `json:"hashes"`
	Samples    []interface{}     `json:"samples"`
	Reruns     int               `json:"reruns"`
	Nondet     int               `json:"nondet"`
	Digests    map[string]string `json:"digests"`
	Capped     int               `json:"capped"`
	RefTrouble int               `json:"ref_trouble"`
	Once       *message          `json:"once,omitempty"`
	seen       map[uint64]bool
}

func newStats() *stats {
	return &stats{Set: map[string]int{}, Fired: map[string]int{}, Damage: map[string]int{}, Outcomes: map[string]int{}, CPUs: map[string]int{}, Digests: map[string]string{}, seen: map[uint64]bool{}}
}

func (st *stats) add(s *Scenario, rs []*Run, i int) {
	st.Runs++
	st.CPUs[fmt.Sprint(s.NCPU)]++
	for _, f := range s.Files {
		n := f.Note
		if f.Dir {
			n = "directory in its place"
		}
		if n != "" {
			st.Damage[n]++
		}
	}
	for _, r := range rs {
		st.Execs++
		st.Steps += r.Sim.Steps
		st.SimNS += r.Sim.SimNS
		st.Tasks += int64(r.Sim.Tasks)
		st.Switches += r.Sim.Switches
		st.Preempts += r.Sim.Preempts
		st.Stalls += int64(r.Sim.Stalls)
		st.ClockJumps += int64(r.Sim.ClockJumps - r.Sim.Pauses)
		st.Pauses += int64(r.Sim.Pauses)
		if r.Sim.MaxLive > st.MaxLive {
			st.MaxLive = r.Sim.MaxLive
		}
		for k, f := range s.Faults {
			st.Set[f.Op+":"+f.Kind]++
			if k < len(r.Fired) && r.Fired[k] > 0 {
				st.Fired[f.Op+":"+f.Kind]++
			}
		}
		for c := range r.Out {
			for k := range r.Out[c] {
				op := s.Callers[c][k].Kind
				switch x := &r.Out[c][k]; {
				case !x.Done:
					op += " unfinished"
				case x.Failed:
					op += " error"
				default:
					op += " ok"
				}
				st.Outcomes[op]++
			}
		}
		// trivial: nothing ever overlapped
		if r.Sim.Tasks > 1 && r.Sim.Switches > 1 && !st.seen[r.Sim.Hash] {
			st.seen[r.Sim.Hash] = true
			st.Hashes = append(st.Hashes, r.Sim.Hash)
		}
	}
	if len(st.Samples) < 1 && len(rs) > 0 {
		var fl []string
		for _, f := range s.Files {
			fl = append(fl, fmt.Sprintf("%s: %d bytes, %s", f.Path, len(f.disk()), f.Note))
		}
		var outs []string
		for c := range rs[len(rs)-1].Out {
			for k := range rs[len(rs)-1].Out[c] {
				outs = append(outs, clip(descr(&rs[len(rs)-1].Out[c][k])))
			}
		}
		st.Samples = append(st.Samples, map[string]interface{}{
			"run": i, "run_seed": s.RunSeed, "files": fl, "callers": s.Callers, "faults": s.Faults, "ncpu": s.NCPU,
			"schedule": fmt.Sprintf("%+v", s.Strat), "steps": rs[0].Sim.Steps, "tasks": rs[0].Sim.Tasks, "switches": rs[0].Sim.Switches, "outcomes": outs,
		})
	}
}

func addMap(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func (st *stats) merge(x *stats) {
	st.Runs += x.Runs
	st.Execs += x.Execs
	st.Steps += x.Steps
	st.SimNS += x.SimNS
	st.Tasks += x.Tasks
	st.Switches += x.Switches
	st.Preempts += x.Preempts
	st.Stalls += x.Stalls
	st.ClockJumps += x.ClockJumps
	st.Pauses += x.Pauses
	if x.MaxLive > st.MaxLive {
		st.MaxLive = x.MaxLive
	}
	addMap(st.Set, x.Set)
	addMap(st.Fired, x.Fired)
	addMap(st.Damage, x.Damage)
	addMap(st.Outcomes, x.Outcomes)
	addMap(st.CPUs, x.CPUs)
	for _, h := range x.Hashes {
		st.seen[h] = true
	}
	if len(st.Samples) < 4 {
		st.Samples = append(st.Samples, x.Samples...)
	}
	st.Reruns += x.Reruns
	st.Nondet += x.Nondet
	st.Capped += x.Capped
	st.RefTrouble += x.RefTrouble
	if st.Once == nil {
		st.Once = x.Once
	}
	for k, v := range x.Digests {
		st.Digests[k] = v
	}
}

// ---- parent ----------------------------------------------------------------------

const runTimeout = 180 * time.Second // real time without a new run: something hangs

type wresult struct {
	last  int // run in progress
	stats *stats
	viol  *message
	msg   string // trouble
	crash bool
	hang  bool
	tail  string
	digs  map[int]string
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 40000 {
		t.b = append([]byte{}, t.b[:8000]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func spawn(args []string, stop <-chan struct{}) *wresult {
	r := &wresult{last: -1, digs: map[int]string{}}
	cmd := exec.Command(os.Args[0], append([]string{"worker"}, args...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var errb tailBuf
	cmd.Stderr = &errb
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		r.msg = err.Error()
		return r
	}
	runtime.LockOSThread() // Pdeathsig goes with the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		r.msg = err.Error()
		return r
	}
	lines := make(chan message, 64)
	go func() {
		defer close(lines)
		rd := bufio.NewReaderSize(pipe, 1<<20)
		for {
			l, err := rd.ReadBytes('\n')
			if len(l) > 0 {
				var m message
				if json.Unmarshal(l, &m) == nil {
					lines <- m
				}
			}
			if err != nil {
				if err != io.EOF {
					return
				}
				return
			}
		}
	}()
	tm := time.NewTimer(runTimeout)
	for {
		select {
		case m, ok := <-lines:
			if !ok {
				err := cmd.Wait()
				if err != nil && r.msg == "" && r.viol == nil {
					r.crash = true
					errb.mu.Lock()
					r.tail = string(errb.b)
					errb.mu.Unlock()
				}
				return r
			}
			if !tm.Stop() {
				select {
				case <-tm.C:
				default:
				}
			}
			tm.Reset(runTimeout)
			switch m.T {
			case "start":
				r.last = m.I
			case "viol":
				mm := m
				r.viol = &mm
			case "trouble":
				r.msg = m.Msg
			case "done":
				r.stats = m.Stats
			case "digest":
				r.digs[m.I] = m.Msg
			}
		case <-tm.C:
			cmd.Process.Kill()
			for range lines {
			}
			cmd.Wait()
			r.hang = true
			return r
		case <-stop:
			cmd.Process.Kill()
			for range lines {
			}
			cmd.Wait()
			return r
		}
	}
}

func check(o *options) int {
	p := properties[o.prop]
	if p == nil {
		fail("unknown property %q", o.prop)
	}
	t0 := time.Now()
	if o.runs == 0 {
		o.runs = p.quick
		if o.tier == "thorough" {
			o.runs = p.deep
		}
	}
	if o.secs == 0 {
		o.secs = 300
		if o.tier == "thorough" {
			o.secs = 780
		}
	}
	if p.race && !simrt.RaceEnabled {
		fail("%s needs the race build", p.id)
	}
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	if w < 1 {
		w = 1
	}
	fmt.Printf("property %s, tier %s, VERIF_SEED=%d, up to %d simulated runs in %d workers\n", p.id, o.tier, o.seed, o.runs, w)
	base := []string{"-prop", o.prop, "-tier", o.tier, "-seed", fmt.Sprint(o.seed), "-replays", o.replays, "-secs", fmt.Sprint(o.secs)}
	stop := make(chan struct{})
	var once sync.Once
	var mu sync.Mutex
	var all []*wresult
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := spawn(append(base, "-from", fmt.Sprint(k), "-step", fmt.Sprint(w), "-runs", fmt.Sprint(o.runs)), stop)
			mu.Lock()
			all = append(all, r)
			mu.Unlock()
			if r.viol != nil || r.crash || r.hang || r.msg != "" {
				once.Do(func() { close(stop) })
			}
		}()
	}
	wg.Wait()
	tot := newStats()
	var viol *message
	var bad *wresult
	for _, r := range all {
		if r.stats != nil {
			tot.merge(r.stats)
		}
		if r.viol != nil && (viol == nil || r.viol.I < viol.I) {
			viol = r.viol
		}
		if r.crash || r.hang || r.msg != "" {
			bad = r
		}
	}
	if viol == nil && bad != nil {
		// a worker died: does the run it was in do that by itself?
		if bad.last < 0 || bad.msg != "" {
			fail("worker trouble: %s\n%s", bad.msg, bad.tail)
		}
		q := spawn(append(base, "-from", fmt.Sprint(bad.last), "-i", fmt.Sprint(bad.last), "-runs", fmt.Sprint(bad.last+1)), nil)
		switch {
		case q.viol != nil:
			viol = q.viol
		case q.crash && bad.crash:
			cls, what := "crash", firstLine(q.tail)
			s := scenarioAlone(p, o.seed, bad.last)
			f := writeReplay(o.replays, &Replay{Property: p.id, Class: cls, Msg: what, Crash: true, Scenario: s}, "")
			viol = &message{I: bad.last, File: f, V: &Violation{cls, "the process died: " + what}}
		default:
			fail("a worker ended in run %d (crash=%v hang=%v, again: crash=%v hang=%v)\n%s", bad.last, bad.crash, bad.hang, q.crash, q.hang, bad.tail)
		}
	}
	code := exitOK
	nviol := 0
	if viol == nil && tot.Once != nil {
		viol = tot.Once
		nviol = 1
		fmt.Printf("run %d, VERIF_SEED=%d: %s: %s (the detector's report is in the replay file)\n", viol.I, o.seed, viol.V.Class, viol.V.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, viol.File)
		code = exitViol
	} else if viol != nil {
		// the replay file must reproduce it in a fresh process
		file := viol.File
		if c := tryReplay(file); c != exitViol {
			if viol.Raw != "" && tryReplay(viol.Raw) == exitViol {
				file = viol.Raw
			} else {
				fail("run %d violates %s (%s: %s) but its replay file %s does not reproduce it", viol.I, p.id, viol.V.Class, viol.V.Msg, file)
			}
		}
		nviol = 1
		fmt.Printf("run %d, VERIF_SEED=%d: %s: %s\n", viol.I, o.seed, viol.V.Class, viol.V.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, file)
		code = exitViol
	}
	// determinism: runs of the sample again, in another process
	cross, crossBad := 0, 0
	if code == exitOK && len(tot.Digests) > 0 {
		var ids []string
		for k := range tot.Digests {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		q := spawn(append(base, "-digests", strings.Join(ids, ",")), nil)
		for i, d := range q.digs {
			cross++
			if tot.Digests[fmt.Sprint(i)] != d {
				crossBad++
				fmt.Printf("note: run %d gives another event log in another process\n", i)
			}
		}
	}
	wall := time.Since(t0).Seconds()
	if o.outFile != "" {
		writeEvidence(o, p, tot, nviol, cross, crossBad, wall)
	}
	fmt.Printf("%d scenarios, %d executions, %d distinct interleavings, %.1f s; %d repeated in process (%d differ), %d in another process (%d differ)\n",
		tot.Runs, tot.Execs, len(tot.seen), wall, tot.Reruns, tot.Nondet, cross, crossBad)
	return code
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return ""
}

// scenarioAlone generates a scenario in this process.
func scenarioAlone(p *Property, seed uint64, i int) *Scenario {
	setup()
	return scenarioOf(p, seed, i)
}

func tryReplay(file string) int {
	cmd := exec.Command(os.Args[0], "replay", file)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	b, err := cmd.CombinedOutput()
	if err == nil {
		return exitOK
	}
	if e, ok := err.(*exec.ExitError); ok {
		if e.ExitCode() == exitViol {
			return exitViol
		}
		var r Replay
		if readReplay(file, &r) == nil && r.Crash && e.ExitCode() == 2 {
			return exitViol
		}
	}
	fmt.Fprintf(os.Stderr, "replay of %s: %v\n%s\n", file, err, b)
	return exitTrouble
}

func writeEvidence(o *options, p *Property, st *stats, nviol, cross, crossBad int, wall float64) {
	perHour := 0.0
	if wall > 0 {
		perHour = float64(st.Runs) / wall * 3600
	}
	st.Set["(clock jump)"] = int(st.ClockJumps)
	st.Set["(pause of the process)"] = int(st.Pauses)
	cov := map[string]interface{}{
		"evaluations":         st.Execs,
		"distinct_nontrivial": len(st.seen),
		"rule": "One evaluation is one simulated execution of a generated scenario (files, callers, processor count, faults, schedule strategy, all drawn from VERIF_SEED). " +
			"It is non-trivial if at least two simulated goroutines ran and control changed hands more than once; two are the same if the hash over the whole sequence of hand-overs (which goroutine, at which of its local steps) is equal.",
		"samples":                st.Samples,
		"seeds":                  st.Runs,
		"seeds_per_hour":         int(perHour),
		"simulated_seconds":      float64(st.SimNS) / 1e9,
		"scheduler_steps":        st.Steps,
		"goroutines_simulated":   st.Tasks,
		"context_switches":       st.Switches,
		"preemptions":            st.Preempts,
		"stalled_goroutines":     st.Stalls,
		"clock_jumps":            st.ClockJumps,
		"pauses_of_the_process":  st.Pauses,
		"most_goroutines_alive":  st.MaxLive,
		"io_faults_configured":   st.Set,
		"io_faults_fired_in_run": st.Fired,
		"content_and_damage":     st.Damage,
		"outcomes_of_calls":      st.Outcomes,
		"processor_counts":       st.CPUs,
		"stopped_by_time_cap":    st.Capped > 0,
		"determinism": map[string]int{
			"rerun_in_same_process": st.Reruns, "differing": st.Nondet, "rerun_in_other_process": cross, "other_process_differing": crossBad},
		"yield_sites": gen.NumSites,
		"real_code":   []string{"all of /repo's packages (rewritten at source level: goroutines, channels, sync, os, time, maps' iteration order go through the simulator)", "zerolog, strings, strconv, bufio and the rest of the standard library"},
		"stubs":       []string{"file system and console (in memory, with faults)", "clock", "goroutine scheduler, channels, mutexes and wait groups", "runtime.NumCPU"},
	}
	delete(st.Set, "(clock jump)")
	ev := map[string]interface{}{
		"property": p.id, "tier": o.tier, "seed": o.seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": []string{
			"A seeded sample of schedules and faults, not all of them.",
			"Preemption happens at statement granularity (between the statements of the rewritten source), memory is sequentially consistent; weaker behaviour is C11's business.",
			"zerolog's and the standard library's own internals run as one step unless they call back into simulated I/O.",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail("%v", err)
	}
	os.MkdirAll(filepath.Dir(o.outFile), 0o755)
	if err := os.WriteFile(o.outFile, append(b, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
}
