//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/asap2Go/calibrationReader/verifsim/simrt"
)

// Replay is a violation with everything needed to see it again.
type Replay struct {
	Property string    `json:"property"`
	Class    string    `json:"class"`
	Msg      string    `json:"violation"`
	Digest   string    `json:"digest,omitempty"` // of the event log
	Crash    bool      `json:"crash,omitempty"`  // the process itself dies
	Details  string    `json:"details,omitempty"`
	Shrunk   string    `json:"shrunk,omitempty"`
	Scenario *Scenario `json:"scenario"`
}

func writeReplay(dir string, r *Replay, suffix string) string {
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x%s.json", r.Property, r.Class, r.Scenario.RunSeed, suffix))
	f = strings.ReplaceAll(f, " ", "_")
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(f, append(b, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
	return f
}

func readReplay(file string, r *Replay) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, r)
}

func replay(file string) int {
	var r Replay
	if err := readReplay(file, &r); err != nil {
		fail("%v", err)
	}
	p := properties[r.Property]
	if p == nil || r.Scenario == nil {
		fail("%s is not a replay file", file)
	}
	if p.race && !simrt.RaceEnabled {
		fail("%s needs the race build", p.id)
	}
	setup()
	resetRaceLog()
	v, rs := p.check(r.Scenario.clone())
	for t := 0; v == nil && p.race && t < 200; t++ {
		// the execution is the same each time, but the detector keeps only the
		// latest few accesses to each word, chosen by a counter of its own
		v, rs = p.check(r.Scenario.clone())
	}
	if v == nil {
		fmt.Printf("not reproduced: %s holds on %s\n", p.id, file)
		return exitOK
	}
	fmt.Printf("%s: %s\n", v.Class, v.Msg)
	if t := raceText(); t != "" {
		fmt.Println(t)
	}
	if len(rs) > 0 && rs[len(rs)-1].Sim.PanicStack != "" {
		fmt.Println(rs[len(rs)-1].Sim.PanicStack)
	}
	if v.Class != r.Class {
		fmt.Printf("(recorded as %s)\n", r.Class)
	}
	if d := runDigest(v, rs); r.Digest != "" && d != r.Digest {
		fmt.Printf("note: the event log differs from the recorded one (%s, %s)\n", d, r.Digest)
	} else if r.Digest != "" {
		fmt.Println("event log identical to the recorded one")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, file)
	return exitViol
}

type shrinker struct {
	p     *Property
	class string
	best  *Scenario
	until time.Time
	tries int
	again int // repetitions of an execution (race detector)
	orig  *Scenario
}

// fails runs the check on a copy of s; it returns the violation if it is of
// the class sought.
func (m *shrinker) fails(s *Scenario) (*Violation, []*Run) {
	m.tries++
	for t := 0; t <= m.again; t++ {
		v, rs := m.p.check(s.clone())
		refTrouble = ""
		if v != nil && v.Class == m.class {
			return v, rs
		}
		if !m.p.race {
			break
		}
	}
	return nil, nil
}

func (m *shrinker) late() bool { return time.Now().After(m.until) }

// accept tries the candidate with the plain schedule first, then with the one
// it carries, then with the original strategy.
func (m *shrinker) accept(c *Scenario) bool {
	if m.late() {
		return false
	}
	if !c.Explic || len(c.Sched) > 0 {
		d := c.clone()
		d.Explic, d.Sched, d.Alt = true, nil, nil
		if v, _ := m.fails(d); v != nil {
			m.best = d
			return true
		}
	}
	if v, _ := m.fails(c); v != nil {
		m.best = c
		return true
	}
	if c.Explic && len(c.Sched) > 0 {
		d := c.clone()
		d.Explic, d.Sched = false, nil
		if v, _ := m.fails(d); v != nil {
			m.best = d
			return true
		}
	}
	return false
}

// ddmin removes parts of a list of n elements; build makes the candidate
// without the marked ones.
func (m *shrinker) ddmin(n int, build func(keep []bool) *Scenario, ok func(*Scenario) bool) {
	keep := make([]bool, n)
	for i := range keep {
		keep[i] = true
	}
	left := n
	for sz := (n + 1) / 2; sz >= 1 && !m.late(); {
		removed := false
		for i := 0; i < n && !m.late(); {
			// the next sz kept elements from i on
			k := append([]bool{}, keep...)
			j, c := i, 0
			for j < n && c < sz {
				if k[j] {
					k[j] = false
					c++
				}
				j++
			}
			if c == 0 {
				break
			}
			if s := build(k); s != nil && ok(s) {
				keep = k
				left -= c
				removed = true
			}
			i = j
		}
		if !removed || sz == 1 {
			if sz == 1 {
				break
			}
		}
		sz = sz / 2
		if sz > left {
			sz = left
		}
		if sz < 1 && left > 0 && removed {
			sz = 1
		}
	}
}

func minimise(p *Property, s *Scenario, v *Violation, rs []*Run, dir string) (file, raw string, fv *Violation, trouble string) {
	// s as it failed, by seed
	rawRep := &Replay{Property: p.id, Class: v.Class, Msg: v.Msg, Digest: "", Scenario: s.clone()}
	m := &shrinker{p: p, class: v.Class, until: time.Now().Add(45 * time.Second), orig: s.clone()}
	text := raceText()
	resetRaceLog()
	m.again = 60
	v2, rs2 := m.fails(s)
	m.again = 4
	if v2 == nil && p.race {
		// seen once: the detector's report is the evidence
		rawRep.Details = text
		return "", writeReplay(dir, rawRep, "-once"), v, ""
	}
	if v2 == nil {
		return "", "", nil, fmt.Sprintf("a violation (%s: %s) did not happen again when the scenario was repeated", v.Class, v.Msg)
	}
	rawRep.Digest = runDigest(v2, rs2)
	raw = writeReplay(dir, rawRep, "-full")
	m.best = s.clone()

	m.accept(s.clone()) // with the plain schedule
	m.shrinkCallers()
	m.shrinkFaults()
	m.shrinkCPUs()
	m.shrinkFiles()
	m.shrinkCallers()
	m.shrinkFaults()
	m.shrinkCPUs()
	m.shrinkSchedule()

	resetRaceLog()
	m.again = 60
	fv, frs := m.fails(m.best)
	if fv == nil {
		return raw, raw, v, ""
	}
	rep := &Replay{Property: p.id, Class: fv.Class, Msg: fv.Msg, Digest: runDigest(fv, frs), Details: raceText(), Scenario: m.best,
		Shrunk: fmt.Sprintf("from %d to %d bytes of files, from %d to %d calls, from %d to %d faults, schedule of %d entries, in %d tries", m.orig.size(), m.best.size(), m.orig.nops(), m.best.nops(), len(m.orig.Faults), len(m.best.Faults), len(m.best.Sched), m.tries)}
	if len(frs) > 0 {
		if st := frs[len(frs)-1].Sim.PanicStack; st != "" {
			rep.Details += st
		}
	}
	return writeReplay(dir, rep, ""), raw, fv, ""
}

func (m *shrinker) shrinkCallers() {
	n := 0
	b := m.best
	type ref struct{ c, i int }
	var refs []ref
	for c := range b.Callers {
		for i := range b.Callers[c] {
			refs = append(refs, ref{c, i})
			n++
		}
	}
	if n > 1 {
		m.ddmin(n, func(keep []bool) *Scenario {
			x := m.best.clone()
			any := false
			nc := make([][]Op, len(b.Callers))
			idx := map[ref]int{}
			for k, r := range refs {
				if keep[k] {
					any = true
					idx[r] = len(nc[r.c])
					nc[r.c] = append(nc[r.c], b.Callers[r.c][r.i])
				}
			}
			if !any {
				return nil
			}
			for c := range nc {
				for i := range nc[c] {
					o := &nc[c][i]
					if (o.Kind == "mut" || o.Kind == "get") && o.Ref < 1000 {
						j, ok := idx[ref{c, o.Ref}]
						if !ok {
							return nil
						}
						o.Ref = j
					}
				}
			}
			x.Callers = nil
			for _, c := range nc {
				if len(c) > 0 {
					x.Callers = append(x.Callers, c)
				}
			}
			return x
		}, m.accept)
	}
	// files nobody reads
	used := map[string]bool{}
	for _, ops := range append([][]Op{m.best.Setup}, m.best.Callers...) {
		for _, o := range ops {
			used[o.A], used[o.B] = true, true
		}
	}
	x := m.best.clone()
	x.Files = nil
	for _, f := range m.best.Files {
		if used[f.Path] {
			x.Files = append(x.Files, f)
		}
	}
	if len(x.Files) > 0 && len(x.Files) < len(m.best.Files) {
		m.accept(x)
	}
}

func (m *shrinker) shrinkFaults() {
	f := m.best.Faults
	if len(f) > 0 {
		m.ddmin(len(f), func(keep []bool) *Scenario {
			x := m.best.clone()
			x.Faults = nil
			for i := range f {
				if keep[i] {
					x.Faults = append(x.Faults, f[i])
				}
			}
			return x
		}, m.accept)
	}
	if len(m.best.Jumps) > 0 {
		x := m.best.clone()
		x.Jumps = nil
		m.accept(x)
	}
	if m.best.Level != "disabled" {
		x := m.best.clone()
		x.Level = "disabled"
		m.accept(x)
	}
}

func (m *shrinker) shrinkCPUs() {
	for _, n := range []int{1, 2, 3, 4, 6, 8} {
		if n >= m.best.NCPU {
			return
		}
		x := m.best.clone()
		x.NCPU = n
		if m.accept(x) {
			return
		}
	}
}

// shrinkFiles removes lines, and then words, of the files.
func (m *shrinker) shrinkFiles() {
	for k := range m.best.Files {
		if m.late() {
			return
		}
		f := m.best.Files[k]
		if f.Dir {
			continue
		}
		if f.Cut > 0 {
			// keep the cut at the same distance from the end
			continue
		}
		for _, sep := range []string{"\n", " "} {
			parts := strings.SplitAfter(m.best.Files[k].full(), sep)
			if sep == " " && len(parts) > 400 {
				continue
			}
			m.ddmin(len(parts), func(keep []bool) *Scenario {
				var b strings.Builder
				for i, l := range parts {
					if keep[i] {
						b.WriteString(l)
					}
				}
				x := m.best.clone()
				nf := mkFile(f.Path, b.String(), "shortened, was "+strings.TrimPrefix(f.Note, "shortened, was "))
				nf.Dir, nf.Cut = f.Dir, f.Cut
				x.Files[k] = nf
				return x
			}, m.accept)
		}
	}
}

// shrinkSchedule turns the schedule into an explicit one and drops entries.
func (m *shrinker) shrinkSchedule() {
	m.until = m.until.Add(15 * time.Second)
	b := m.best
	if !b.Explic {
		_, rs := m.fails(b)
		if len(rs) == 0 {
			return
		}
		x := b.clone()
		x.Explic, x.Alt = true, nil
		x.Sched = rs[len(rs)-1].Sim.Sched
		if v, _ := m.fails(x); v == nil {
			return
		}
		m.best = x
	}
	sched := m.best.Sched
	if len(sched) == 0 {
		return
	}
	m.ddmin(len(sched), func(keep []bool) *Scenario {
		x := m.best.clone()
		x.Sched = nil
		for i := range sched {
			if keep[i] {
				x.Sched = append(x.Sched, sched[i])
			}
		}
		return x
	}, func(x *Scenario) bool {
		if v, _ := m.fails(x); v != nil {
			m.best = x
			return true
		}
		return false
	})
}

// ---- race reports ----------------------------------------------------------------

// The detector writes to <log_path>.<pid>; the checks set log_path.
func raceLog() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			return fmt.Sprintf("%s.%d", strings.TrimPrefix(kv, "log_path="), os.Getpid())
		}
	}
	return ""
}

var raceMark int64

func resetRaceLog() {
	raceMark = 0
	if f := raceLog(); f != "" {
		if st, err := os.Stat(f); err == nil {
			raceMark = st.Size()
		}
	}
}

func raceText() string {
	f := raceLog()
	if f == "" {
		return ""
	}
	b, err := os.ReadFile(f)
	if err != nil || int64(len(b)) <= raceMark {
		return ""
	}
	b = b[raceMark:]
	if len(b) > 6000 {
		b = b[:6000]
	}
	return string(b)
}
