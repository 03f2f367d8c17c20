//go:build go1.21

package main

import (
	"encoding/base64"
	"io"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"

	calib "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/ihex32"
	"github.com/asap2Go/calibrationReader/srec19"
	"github.com/asap2Go/calibrationReader/verifsim/gen"
	"github.com/asap2Go/calibrationReader/verifsim/simos"
	"github.com/asap2Go/calibrationReader/verifsim/simrt"
	"github.com/asap2Go/calibrationReader/verifsim/simtime"
)

// File is one file of the simulated disk. Cut > 0: only the first Cut-1 bytes
// reached the disk.
type File struct {
	Path string `json:"path"`
	Text string `json:"text,omitempty"`
	B64  string `json:"b64,omitempty"`
	Dir  bool   `json:"dir,omitempty"`
	Cut  int    `json:"cut,omitempty"`
	Note string `json:"note,omitempty"` // how it was made
}

func (f File) full() string {
	if f.B64 != "" {
		b, _ := base64.StdEncoding.DecodeString(f.B64)
		return string(b)
	}
	return f.Text
}

func (f File) disk() string {
	s := f.full()
	if f.Cut > 0 && f.Cut-1 < len(s) {
		return s[:f.Cut-1]
	}
	return s
}

func mkFile(path, text, note string) File {
	if utf8.ValidString(text) {
		return File{Path: path, Text: text, Note: note}
	}
	return File{Path: path, B64: base64.StdEncoding.EncodeToString([]byte(text)), Note: note}
}

// Op is one call a caller makes.
//
//	a2l, hex, s19: read file A with that reader
//	cal:  read the calibration A (description), B (image)
//	get:  look identifier A up in the caller's (or caller From's) result Ref, module Mod
//	mut:  overwrite the caller's result Ref
//	put:  replace file A by file B
type Op struct {
	Kind string `json:"op"`
	A    string `json:"a,omitempty"`
	B    string `json:"b,omitempty"`
	Ref  int    `json:"ref,omitempty"`
	In   bool   `json:"in,omitempty"` // get: select the module in the caller's own calibration, not in a copy
	Mod  int    `json:"mod,omitempty"`
}

// Scenario is everything one simulated run depends on.
type Scenario struct {
	Prop    string             `json:"property"`
	RunSeed uint64             `json:"run_seed"`
	NCPU    int                `json:"ncpu"`
	RO      bool               `json:"read_only,omitempty"` // the files can not be opened for writing
	Level   string             `json:"log_level"`
	Cap     int                `json:"cap"`
	Files   []File             `json:"files"`
	Faults  []simos.Fault      `json:"faults,omitempty"`
	Setup   []Op               `json:"setup,omitempty"` // run before the callers, in one task
	Callers [][]Op             `json:"callers"`
	Jumps   []simrt.ClockJump  `json:"clock_jumps,omitempty"`
	Seed    uint64             `json:"sched_seed"`
	Strat   simrt.Strategy     `json:"strategy"`
	Explic  bool               `json:"explicit"` // schedule given by Sched
	Sched   []simrt.SchedEntry `json:"schedule,omitempty"`
	Alt     []AltSched         `json:"alternatives,omitempty"` // C16: further schedules of the same files
	Extra   map[string]string  `json:"extra,omitempty"`
}

// AltSched is one more schedule for the same files.
type AltSched struct {
	Seed  uint64         `json:"sched_seed"`
	Strat simrt.Strategy `json:"strategy"`
}

func (s *Scenario) file(path string) (File, bool) {
	for _, f := range s.Files {
		if f.Path == path {
			return f, true
		}
	}
	return File{}, false
}

// Outcome of one Op.
type Outcome struct {
	Done   bool
	Err    string
	Failed bool
	A2L    *a2l.A2L
	Hex    map[uint32]byte
	Cal    *calib.CalibrationData
	Objs   []interface{}
	Dig    string // of the result when the call returned
	DigA   string // of its description
	DigH   string // of its image
	// what the disk did to this call (single-caller scenarios only)
	faulted bool // an operation on a file failed
	soft    bool // only examining or closing failed
	logDead bool // creating a file failed
}

// digest of what the op returned, at this moment.
func (o *Outcome) digest() string {
	switch {
	case o.Cal != nil:
		a, h := o.digests()
		return sprintf("cal %s %d %s", a, o.Cal.ModuleIndex, h)
	case o.A2L != nil:
		a, _ := o.digests()
		return "a2l " + a
	case o.Objs != nil:
		return sprintf("objs %016x", hashStr(dumpAny(o.Objs)))
	default:
		return "hex " + hexDigest(o.Hex)
	}
}

func (o *Outcome) digests() (a, h string) {
	switch {
	case o.Cal != nil:
		return sprintf("%016x", hashStr(dumpAny(o.Cal.A2l))), hexDigest(o.Cal.Hex)
	case o.A2L != nil:
		return sprintf("%016x", hashStr(dumpAny(*o.A2L))), ""
	case o.Hex != nil:
		return "", hexDigest(o.Hex)
	}
	return "", ""
}

// setDig records what the call returned.
func (o *Outcome) setDig() {
	o.DigA, o.DigH = o.digests()
	switch {
	case o.Cal != nil:
		o.Dig = sprintf("cal %s %d %s", o.DigA, o.Cal.ModuleIndex, o.DigH)
	case o.A2L != nil:
		o.Dig = "a2l " + o.DigA
	case o.Objs != nil:
		o.Dig = o.digest()
	default:
		o.Dig = "hex " + o.DigH
	}
}

// res is the outcome as a value to compare: only whether it failed matters
// when it did.
func (o *Outcome) res() string {
	if !o.Done {
		return "not finished"
	}
	if o.Failed {
		return "error"
	}
	return o.Dig
}

// Run is the record of one execution.
type Run struct {
	Sim   simrt.Result
	Setup []Outcome
	Out   [][]Outcome
	Fired []int
	Ops   []simos.OpRec
	FDs   int
	Races int
}

type simWriter struct{}

func (simWriter) Write(b []byte) (int, error) { return userLog().Write(b) }

var userLogFile *simos.File

func userLog() io.Writer { return userLogFile }

// resetWorld puts the library, its dependencies and the simulated machine into
// the state of a fresh process.
func resetWorld(ncpu int, level string, files []simos.Input, faults []simos.Fault) {
	simrt.SetNumCPU(ncpu)
	simos.Reset(files, faults)
	userLogFile = simos.NewConsole("/dev/userlog")
	lv, err := zerolog.ParseLevel(level)
	if err != nil {
		lv = zerolog.Disabled
	}
	zerolog.SetGlobalLevel(lv)
	zerolog.TimeFieldFormat = time.RFC3339
	zerolog.TimestampFunc = simtime.Now
	zerolog.ErrorHandler = func(error) {}
	log.Logger = zerolog.New(simWriter{}).With().Timestamp().Logger()
	gen.ResetAll()
}

// runQuiet runs f alone, on one processor, on a disk that holds text as
// ref.a2l / ref.hex / ref.s19.
func runQuiet(text string, f func()) {
	in := []simos.Input{{Path: "ref.a2l", Data: []byte(text)}}
	resetWorld(1, "disabled", in, nil)
	r := simrt.Run(simrt.Config{Seed: 1, NCPU: 1, StepLimit: 20000000 + 3000*int64(len(text)), CapLimit: 64}, f)
	if r.Panic != "" || r.Deadlock || r.StepLimit {
		refTrouble = sprintf("reference run: panic=%q deadlock=%v steps=%v", r.Panic, r.Deadlock, r.StepLimit)
	}
}

var refTrouble string

func (s *Scenario) inputs() []simos.Input {
	var in []simos.Input
	for _, f := range s.Files {
		in = append(in, simos.Input{Path: f.Path, Data: []byte(f.disk()), Dir: f.Dir, RO: s.RO})
	}
	return in
}

func (s *Scenario) size() int {
	n := 0
	for _, f := range s.Files {
		n += len(f.disk())
	}
	return n
}

func (s *Scenario) nops() int {
	n := len(s.Setup)
	for _, c := range s.Callers {
		n += len(c)
	}
	return n
}

// execute runs the scenario once.
func (s *Scenario) execute() *Run {
	return s.executeWith(s.Seed, s.Strat, s.Explic, s.Sched)
}

func (s *Scenario) executeWith(seed uint64, st simrt.Strategy, explicit bool, sched []simrt.SchedEntry) *Run {
	resetWorld(s.NCPU, s.Level, s.inputs(), s.Faults)
	r := &Run{}
	r.Out = make([][]Outcome, len(s.Callers))
	for i := range s.Callers {
		r.Out[i] = make([]Outcome, len(s.Callers[i]))
	}
	cl := s.Cap
	if cl == 0 {
		cl = 256
	}
	limit := 20000000 + int64(s.nops())*3000*int64(s.size())
	cfg := simrt.Config{Seed: seed, Strat: st, Explicit: explicit, Sched: sched, NCPU: s.NCPU, StepLimit: limit, CapLimit: cl, ClockJump: s.Jumps}
	races := simrt.RaceErrors()
	if len(s.Setup) > 0 {
		r.Setup = make([]Outcome, len(s.Setup))
		c0 := cfg
		c0.Explicit, c0.Sched, c0.ClockJump = false, nil, nil
		c0.Strat = simrt.Strategy{}
		q := simrt.Run(c0, func() { s.caller(s.Setup, r.Setup, nil) })
		if q.Panic != "" || q.Deadlock || q.StepLimit {
			r.Sim = q
			return r
		}
		simos.ClearOps()
	}
	var roots []func()
	for i := range s.Callers {
		i := i
		roots = append(roots, func() { s.caller(s.Callers[i], r.Out[i], r.Setup) })
	}
	r.Sim = simrt.Run(cfg, roots...)
	r.Fired = simos.Fired()
	r.Ops = simos.Ops()
	r.FDs = simos.OpenFDs()
	r.Races = simrt.RaceErrors() - races
	return r
}

func (s *Scenario) caller(ops []Op, out []Outcome, setup []Outcome) {
	for i := range ops {
		o := &out[i]
		simrt.SyncPoint()
		h0, s0, c0 := simos.ErrCounts()
		s.perform(ops[i], o, out, setup)
		h1, s1, c1 := simos.ErrCounts()
		o.faulted = h1 > h0 || s1 > s0
		o.soft = h1 == h0 && s1 > s0
		o.logDead = c1 > c0
		o.Done = true
		simrt.SyncPoint()
	}
}

// rename moves the files of the scenario to paths of other shapes.
func (s *Scenario) rename(r *rng) {
	pre := pickOf(r, " ", "ü", "my data/", "100%_", "a+b&c/", "x%20", "~", "-", "dir with space/sub/", `C:\data\`, "./", "x/../", "/abs/path/", "../up/", "$HOME/", "A B.C.", "#", "'q'", "日本/", "v1.0/", ".", "..a", strings.Repeat("long", 40)+"/")
	suf := pickOf(r, "", "", "", " ", ".txt", ".bak", "x")
	images := map[string]bool{} // whose names tell their format
	for _, c := range append([][]Op{s.Setup}, s.Callers...) {
		for i := range c {
			if c[i].Kind == "cal" || c[i].Kind == "put" {
				images[c[i].B] = true
			}
		}
	}
	bare := r.p(25)    // names without a type
	folders := r.p(35) // names that are only different by their folders
	re := func(p string) string {
		if p == "" || p == "new.content" || p == "calibReader.log" || strings.HasPrefix(p, "/dev/") {
			return p
		}
		if bare && !images[p] {
			p = strings.ReplaceAll(p, ".", "")
		} else if i := strings.LastIndexByte(p, '.'); folders && i > 0 && !strings.Contains(p, "/") {
			p = p[:i] + "/same" + p[i:]
		}
		p = pre + p
		if kindOf(p) == "" && strings.HasSuffix(p, ".a2l") {
			p += suf
		}
		return p
	}
	for i := range s.Files {
		s.Files[i].Path = re(s.Files[i].Path)
	}
	for i := range s.Faults {
		s.Faults[i].Path = re(s.Faults[i].Path)
	}
	for _, c := range append([][]Op{s.Setup}, s.Callers...) {
		for i := range c {
			if isRead(c[i].Kind) || c[i].Kind == "put" {
				c[i].A, c[i].B = re(c[i].A), re(c[i].B)
			}
		}
	}
}

// target: results 0.. are the caller's own, 1000+k those of the set-up.
func target(ref int, own, setup []Outcome) *Outcome {
	if ref >= 1000 {
		if ref-1000 < len(setup) {
			return &setup[ref-1000]
		}
		return nil
	}
	if ref < len(own) {
		return &own[ref]
	}
	return nil
}

func (s *Scenario) perform(op Op, o *Outcome, own, setup []Outcome) {
	switch op.Kind {
	case "a2l":
		a, err := a2l.ParseFromFile(op.A)
		if err != nil {
			o.Failed, o.Err = true, err.Error()
			return
		}
		o.A2L = &a
		o.setDig()
	case "hex", "s19":
		var m map[uint32]byte
		var err error
		if op.Kind == "hex" {
			m, err = ihex32.ParseFromFile(op.A)
		} else {
			m, err = srec19.ParseFromFile(op.A)
		}
		if err != nil {
			o.Failed, o.Err = true, err.Error()
			return
		}
		if m == nil {
			m = map[uint32]byte{}
		}
		o.Hex = m
		o.setDig()
	case "cal":
		c, err := calib.ReadCalibration(op.A, op.B)
		if err != nil {
			o.Failed, o.Err = true, err.Error()
			return
		}
		o.Cal = &c
		o.setDig()
	case "get":
		t := target(op.Ref, own, setup)
		if t == nil || t.Cal == nil {
			o.Failed, o.Err = true, "no calibration to look in"
			return
		}
		cd := t.Cal
		if op.Mod >= len(cd.A2l.Project.Modules) && op.Ref < 1000 && !op.In {
			// the caller has written over it
			o.Failed, o.Err = true, "no module to look in"
			return
		}
		if op.In && op.Ref < 1000 {
			cd.ModuleIndex = uint8(op.Mod)
		} else if op.Mod > 0 {
			c := *cd
			c.ModuleIndex = uint8(op.Mod)
			cd = &c
		}
		o.Objs = cd.GetObjectByIdent(op.A)
		if o.Objs == nil {
			o.Objs = []interface{}{}
		}
		o.Dig = o.digest()
	case "mut":
		t := target(op.Ref, own, setup)
		if t == nil || t.Failed {
			return
		}
		switch {
		case t.Cal != nil:
			scramble(reflect.ValueOf(t.Cal), 0)
		case t.A2L != nil:
			scramble(reflect.ValueOf(t.A2L), 0)
		case t.Hex != nil:
			k := make([]uint32, 0, len(t.Hex))
			for a := range t.Hex {
				k = append(k, a)
			}
			for _, a := range k {
				if a%3 == 0 {
					delete(t.Hex, a)
				} else {
					t.Hex[a] ^= 0x5a
				}
			}
			t.Hex[0x7fffffff] = 1
		}
	case "put":
		f, ok := s.file(op.B)
		if ok {
			simos.Put(op.A, []byte(f.disk()))
		}
	}
}

// trouble names what must never happen in any run.
func (r *Run) trouble() string {
	switch {
	case r.Sim.Panic != "":
		return "panic: " + r.Sim.Panic
	case r.Sim.Deadlock:
		return "deadlock: " + strings.Join(r.Sim.Leaked, "; ")
	case r.Sim.StepLimit:
		return "no end within the step limit"
	case len(r.Sim.Leaked) > 0:
		return "goroutine left behind: " + strings.Join(r.Sim.Leaked, "; ")
	}
	return ""
}

// interrupted: the run ended before the calls did, so their outcomes mean
// nothing (that is C08's business, not that of the other properties).
func (r *Run) interrupted() bool {
	return r.Sim.Panic != "" || r.Sim.Deadlock || r.Sim.StepLimit
}
