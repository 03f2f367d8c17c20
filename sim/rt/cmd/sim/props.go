//go:build go1.21

package main

import (
	"path"
	"sort"
	"strings"

	"github.com/asap2Go/calibrationReader/verifsim/gen"
	"github.com/asap2Go/calibrationReader/verifsim/simos"
	"github.com/asap2Go/calibrationReader/verifsim/simrt"
)

// Violation of a property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func viol(class, f string, a ...interface{}) *Violation {
	return &Violation{class, sprintf(f, a...)}
}

// Property couples a generator of scenarios with the check of their runs.
type Property struct {
	id    string
	gen   func(r *rng) *Scenario
	check func(s *Scenario) (*Violation, []*Run)
	quick int // runs
	deep  int
	race  bool
}

var properties = map[string]*Property{}

func prop(p *Property) { properties[p.id] = p }

// ---- schedules ---------------------------------------------------------------

var hotList []int // executed sites, filled at start

func genStrat(r *rng) simrt.Strategy {
	var s simrt.Strategy
	switch k := r.n(100); {
	case k < 10:
		s.Pick = simrt.PickLow
	case k < 18:
		s.Pick = simrt.PickHigh
	case k < 26:
		s.Pick = simrt.PickFIFO
	case k < 34:
		s.Pick = simrt.PickRandom
	case k < 58:
		s.Pick = pickOf(r, simrt.PickRandom, simrt.PickRandom, simrt.PickFIFO, simrt.PickHigh)
		s.Mean = pickOf(r, 1, 3, 10, 40, 200, 1000, 5000)
	case k < 74:
		s.Pick = pickOf(r, simrt.PickRandom, simrt.PickRandom, simrt.PickFIFO, simrt.PickHigh)
		s.SyncP = pickOf(r, 10, 30, 60, 100)
	case k < 80:
		s.Pick = simrt.PickRandom
		s.SyncP = pickOf(r, 10, 50)
		s.Mean = pickOf(r, 20, 300)
	default:
		s.Pick = simrt.PickPrio
		s.SyncP = 100
		s.Changes = r.n(5)
		s.Horizon = pickOf(r, 300, 3000, 30000, 300000)
	}
	if r.p(18) {
		s.StarveP = pickOf(r, 10, 30, 60)
	}
	if len(hotList) > 0 && r.p(18) {
		for i := r.in(1, 3); i > 0; i-- {
			s.HotSites = append(s.HotSites, hotList[r.n(len(hotList))])
		}
		if r.p(50) {
			s.StallSkip = r.n(40)
		}
		if s.Pick == simrt.PickLow {
			s.Pick = simrt.PickRandom
		}
	}
	return s
}

func genNCPU(r *rng) int {
	if r.n(60) == 0 {
		return pickOf(r, 33, 65, 96, 128, 129, 256, 300)
	}
	return pickOf(r, 1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8, 12, 16, 16, 32, 64)
}

func newScenario(r *rng, id string) *Scenario {
	s := &Scenario{Prop: id, NCPU: genNCPU(r), Level: "disabled", Seed: r.next(), Strat: genStrat(r), Cap: pickOf(r, 4, 64, 1024)}
	if r.p(8) {
		s.Level = pickOf(r, "debug", "warn", "error")
	}
	if r.p(10) {
		at := int64(0)
		for i := r.in(1, 4); i > 0; i-- {
			at += int64(r.n(20000))
			j := simrt.ClockJump{At: at, By: int64(r.n(2000000)-1000000) * 1e6}
			if r.p(50) {
				j.By, j.Pause = pickOf(r, int64(1), 20, 90, 1800, 90000)*1e9, true
				at -= int64(r.n(19000))
			}
			s.Jumps = append(s.Jumps, j)
		}
	}
	return s
}

// learnSites collects the sites that ordinary workloads execute.
func learnSites() {
	simrt.SiteHits = make([]uint32, gen.NumSites+1)
	for i := 0; i < 10; i++ {
		r := newRng(4711, uint64(i))
		s := &Scenario{NCPU: 3, Level: "disabled", Cap: 64, Seed: 1}
		s.Strat = simrt.Strategy{Pick: simrt.PickLow, HotSites: []int{-9}}
		a := genA2L(r, a2lOpts{multi: 30})
		if i%3 == 1 {
			a, _ = damageA2L(r, a)
		}
		h, g := genIHex(r, hexOpts{small: true}), genS19(r, hexOpts{small: true})
		if i%3 == 2 {
			h, _ = damage(r, h)
			g, _ = damage(r, g)
		}
		s.Files = []File{mkFile("a.a2l", a, ""), mkFile("h.hex", h, ""), mkFile("h.s19", g, "")}
		s.Callers = [][]Op{{{Kind: "cal", A: "a.a2l", B: "h.hex"}, {Kind: "cal", A: "a.a2l", B: "h.s19"}, {Kind: "get", A: "obj_1"}, {Kind: "a2l", A: "a.a2l"}, {Kind: "a2l", A: "none"}}}
		s.execute()
	}
	for i, n := range simrt.SiteHits {
		if n > 0 && i > 0 && i < gen.NumSites {
			hotList = append(hotList, i)
		}
	}
	simrt.SiteHits = nil
}

// ---- alone runs ----------------------------------------------------------------

type aloneKey struct {
	op   string
	ncpu int
	a, b uint64
}

var aloneCache = map[aloneKey]Outcome{}

// alone is what op gives in a fresh process with this content on the disk.
func alone(op Op, ncpu int, files func(path string) (string, bool)) *Outcome {
	k := aloneKey{op: op.Kind + "|" + op.A + "|" + op.B, ncpu: ncpu}
	var in []simos.Input
	sz := 0
	for i, p := range []string{op.A, op.B} {
		if p == "" || op.Kind != "cal" && i == 1 {
			continue
		}
		t, ok := files(p)
		h := uint64(1)
		if ok {
			h = hashStr(t) ^ uint64(len(t))
			in = append(in, simos.Input{Path: p, Data: []byte(t)})
			sz += len(t)
		}
		if i == 0 {
			k.a = h
		} else {
			k.b = h
		}
	}
	if o, ok := aloneCache[k]; ok {
		return &o
	}
	if len(aloneCache) > 400 {
		aloneCache = map[aloneKey]Outcome{}
	}
	resetWorld(ncpu, "disabled", in, nil)
	var out [1]Outcome
	s := &Scenario{}
	q := simrt.Run(simrt.Config{Seed: 1, NCPU: ncpu, Explicit: true, StepLimit: 40000000 + 3000*int64(sz), CapLimit: 64},
		func() { s.caller([]Op{op}, out[:], nil) })
	o := out[0]
	if q.Panic != "" {
		o.Done = false
	}
	aloneCache[k] = o
	return &o
}

func (s *Scenario) diskOf(path string) (string, bool) {
	f, ok := s.file(path)
	if !ok || f.Dir {
		return "", false
	}
	return f.disk(), true
}

func isRead(k string) bool { return k == "a2l" || k == "hex" || k == "s19" || k == "cal" }

// notDone reports a call that did not return.
func notDone(r *Run) *Violation {
	if r.interrupted() {
		return viol("no-return", "a read did not return: %s", r.trouble())
	}
	return nil
}

// checkImage compares an image read with what the reference decoder says.
func checkImage(o *Outcome, v verdict, strictOK bool) *Violation {
	if o.Failed {
		if v.mustOK && strictOK {
			return viol("rejected", "a well-formed image file was rejected: %s", o.Err)
		}
		return nil
	}
	if v.mustErr {
		if v.collision {
			return viol("collision-accepted", "no error although an address is defined twice")
		}
		return viol("damage-accepted", "no error although the file is damaged (%s); %d bytes returned", v.why, len(o.Hex))
	}
	if v.maps == nil {
		return nil
	}
	if o.Dig != "" && o.digest() != o.Dig {
		return viol("wrong-image", "the image was not complete when the call returned")
	}
	for _, m := range v.maps {
		if sameImage(m, o.Hex) {
			return nil
		}
	}
	return viol("wrong-image", "image differs from the file: %s", diffImage(v.maps[0], o.Hex))
}

func decode(kind, text string) verdict {
	if kind == "hex" {
		return decodeIHex(text)
	}
	return decodeS19(text)
}

func genImage(r *rng, kind string, o hexOpts) string {
	if kind == "hex" {
		return genIHex(r, o)
	}
	return genS19(r, o)
}

func imgPath(kind string) string { return "image." + kind }

func imageProp(id, kind string, quick, deep int) {
	prop(&Property{id: id, quick: quick, deep: deep,
		gen: func(r *rng) *Scenario {
			s := newScenario(r, id)
			s.Files = []File{mkFile(imgPath(kind), genImage(r, kind, hexOpts{big: true}), "well-formed")}
			s.Callers = [][]Op{{{Kind: kind, A: imgPath(kind)}}}
			return s
		},
		check: func(s *Scenario) (*Violation, []*Run) {
			run := s.execute()
			rs := []*Run{run}
			if v := notDone(run); v != nil {
				return v, rs
			}
			f := s.Files[0]
			d := decode(s.Callers[0][0].Kind, f.disk())
			if !d.mustOK {
				return nil, rs
			}
			return checkImage(&run.Out[0][0], d, true), rs
		}})
}

func init() {
	imageProp("C01", "hex", 30000, 300000)
	imageProp("C02", "s19", 32000, 300000)

	prop(&Property{id: "C03", quick: 80000, deep: 400000,
		gen: func(r *rng) *Scenario {
			s := newScenario(r, "C03")
			kind := pickOf(r, "hex", "s19")
			t := genImage(r, kind, hexOpts{big: r.p(10)})
			d, note := damage(r, t)
			for r.p(10) {
				var n string
				d, n = damage(r, d)
				note += "," + n
			}
			s.Files = []File{mkFile(imgPath(kind), d, note)}
			s.Callers = [][]Op{{{Kind: kind, A: imgPath(kind)}}}
			return s
		},
		check: func(s *Scenario) (*Violation, []*Run) {
			run := s.execute()
			rs := []*Run{run}
			if v := notDone(run); v != nil {
				return v, rs
			}
			d := decode(s.Callers[0][0].Kind, s.Files[0].disk())
			if d.collision {
				return nil, rs
			}
			return checkImage(&run.Out[0][0], d, true), rs
		}})

	prop(&Property{id: "C04", quick: 60000, deep: 300000,
		gen: func(r *rng) *Scenario {
			s := newScenario(r, "C04")
			kind := pickOf(r, "hex", "s19")
			over := r.p(80)
			note := "no collision"
			if over {
				note = "collision"
			}
			s.Files = []File{mkFile(imgPath(kind), genImage(r, kind, hexOpts{big: r.p(30), overlap: over}), note)}
			s.Callers = [][]Op{{{Kind: kind, A: imgPath(kind)}}}
			return s
		},
		check: func(s *Scenario) (*Violation, []*Run) {
			run := s.execute()
			rs := []*Run{run}
			if v := notDone(run); v != nil {
				return v, rs
			}
			o := &run.Out[0][0]
			d := decode(s.Callers[0][0].Kind, s.Files[0].disk())
			if d.collision && !o.Failed {
				return viol("collision-accepted", "no error although an address is defined twice"), rs
			}
			if d.mustOK && o.Failed {
				return viol("rejected", "a file without collision was rejected: %s", o.Err), rs
			}
			return nil, rs
		}})

	prop(&Property{id: "C05", quick: 14000, deep: 200000,
		gen: func(r *rng) *Scenario {
			s := newScenario(r, "C05")
			s.Files = []File{mkFile("doc.a2l", genA2L(r, a2lOpts{big: true, multi: 12, shareIdent: r.p(30)}), "well-formed")}
			s.Callers = [][]Op{{{Kind: "a2l", A: "doc.a2l"}}}
			return s
		},
		check: func(s *Scenario) (*Violation, []*Run) {
			run := s.execute()
			rs := []*Run{run}
			if v := notDone(run); v != nil {
				return v, rs
			}
			jv, o := judgeA2L(s.Files[0].disk()), &run.Out[0][0]
			if jv.mustErr && o.Failed && s.Files[0].Note == "well-formed" {
				return viol("rejected", "a well-formed A2L file was rejected: %s (%s)", o.Err, jv.why), rs
			}
			return checkA2L(o, jv, true), rs
		}})

	prop(&Property{id: "C06", quick: 60000, deep: 300000,
		gen: func(r *rng) *Scenario {
			s := newScenario(r, "C06")
			o := a2lOpts{multi: 15, small: r.p(30)}
			if r.p(40) {
				t := genA2L(r, o)
				f := mkFile("doc.a2l", t, "truncated")
				f.Cut = 1 + r.n(len(f.full())+1)
				if r.p(20) { // in the last bytes
					f.Cut = 1 + len(f.full()) - r.n(minInt(40, len(f.full())))
				}
				s.Files = []File{f}
			} else {
				d, note := genBadA2L(r, o)
				s.Files = []File{mkFile("doc.a2l", d, note)}
			}
			s.Callers = [][]Op{{{Kind: "a2l", A: "doc.a2l"}}}
			return s
		},
		check: func(s *Scenario) (*Violation, []*Run) {
			run := s.execute()
			rs := []*Run{run}
			if v := notDone(run); v != nil {
				return v, rs
			}
			o := &run.Out[0][0]
			f := s.Files[0]
			if f.Cut > 0 && !o.Failed {
				full := judgeA2L(f.full())
				if full.mustOK {
					if d := diffViews(full.want, viewA2L(*o.A2L)); d != "" {
						return viol("truncation-accepted", "the file was cut after %d of %d bytes and read without error, with other content: %s", f.Cut-1, len(f.full()), d), rs
					}
				}
			}
			v := judgeA2L(f.disk())
			if v.mustErr && !o.Failed {
				return viol("broken-accepted", "no error although the file is broken: %s", v.why), rs
			}
			if v.mustOK && f.Cut == 0 {
				return checkA2L(o, v, false), rs
			}
			return nil, rs
		}})

	prop(&Property{id: "C07", quick: 45000, deep: 150000, gen: genC07, check: checkC07})
	prop(&Property{id: "C08", quick: 75000, deep: 400000, gen: genC08, check: checkC08})
	prop(&Property{id: "C09", quick: 20000, deep: 100000, gen: func(r *rng) *Scenario { return genConc(r, "C09") }, check: checkC09})
	prop(&Property{id: "C10", quick: 20000, deep: 100000, gen: genC10, check: checkC10})
	prop(&Property{id: "C11", quick: 10000, deep: 60000, race: true, gen: genC11, check: checkC11})
	prop(&Property{id: "C12", quick: 16000, deep: 100000, gen: genC12, check: checkC12})
	prop(&Property{id: "C13", quick: 28000, deep: 120000, gen: genC13, check: checkC13})
	prop(&Property{id: "C14", quick: 45000, deep: 150000, gen: genC14, check: checkC14})
	prop(&Property{id: "C15", quick: 50000, deep: 200000, gen: genC15, check: checkC15})
	prop(&Property{id: "C19", quick: 45000, deep: 300000, gen: genC19, check: checkC19})
	prop(&Property{id: "C16", quick: 25000, deep: 100000, gen: genC16, check: checkC16})
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func checkA2L(o *Outcome, v *a2lVerdict, strict bool) *Violation {
	if v.lost && strict {
		return viol("object-lost", "%s", v.why)
	}
	if !v.mustOK {
		return nil
	}
	if o.Failed {
		if strict {
			return viol("rejected", "a well-formed A2L file was rejected: %s", o.Err)
		}
		return nil
	}
	if o.digest() != o.Dig {
		return viol("wrong-content", "the content was not complete when the call returned")
	}
	if d := diffViews(v.want, viewA2L(*o.A2L)); d != "" {
		return viol("wrong-content", "%s", d)
	}
	return nil
}

// ---- C07 -----------------------------------------------------------------------

func someA2L(r *rng, bad int, o a2lOpts) (string, string) {
	if r.p(bad) {
		if r.p(15) {
			if g := garbage(r, "a2l"); !ambiguousA2L(g) {
				return g, "garbage"
			}
		}
		if d, n := genBadA2L(r, o); !ambiguousA2L(d) {
			return d, n
		}
	}
	return genA2L(r, o), "well-formed"
}

func someImage(r *rng, kind string, bad int, o hexOpts) (string, string) {
	t := genImage(r, kind, o)
	if r.p(bad) {
		if r.p(15) {
			return garbage(r, kind), "garbage"
		}
		return damage(r, t)
	}
	return t, "well-formed"
}

func genC07(r *rng) *Scenario {
	s := newScenario(r, "C07")
	a, n1 := someA2L(r, 25, a2lOpts{small: r.p(50), multi: 10})
	path := pickOf(r, "img.hex", "img.hex", "img.s19", "img.s19", "IMG.HEX", "data/flash.S19", "x.y.Hex", "build.hex/img.s19", "old.s19/new.HEX", "v1.bin/img.s19", "my.hex.d/sub/img.S19", "img.bin", "img", "img.mot", "imghex", "hex", "d.hex/s19", "img.s1", "img.he", "img.h86", "d.s19/x.srec",
		"img.hex.bak", "IMG.HEX.1", "v2.s19.old", "d/img.S19~", "img.hex_new")
	kind := kindOf(path)
	if kind == "" {
		kind = pickOf(r, "hex", "s19")
	}
	h, n2 := someImage(r, kind, 25, hexOpts{small: r.p(60)})
	if r.p(5) { // the other format under this name
		h = genImage(r, pickOf(r, "hex", "s19"), hexOpts{small: true})
		n2 = "any format"
	}
	s.Files = []File{mkFile("doc.a2l", a, n1), mkFile(path, h, n2)}
	op := Op{Kind: "cal", A: "doc.a2l", B: path}
	if r.p(8) {
		op.A = "missing.a2l"
	}
	if r.p(8) {
		op.B = pickOf(r, "missing.hex", "missing.s19", "missing.bin", "no/such/dir.hex/img.s19", "")
	}
	s.Callers = [][]Op{{op}}
	return s
}

// kindOf is the format an image's name stands for: the name without its folders
// holds ".hex" or ".s19", at its end or before something that was appended.
func kindOf(p string) string {
	l := strings.ToLower(path.Base(p))
	switch {
	case strings.Contains(l, ".hex"):
		return "hex"
	case strings.Contains(l, ".s19"):
		return "s19"
	}
	return ""
}

func checkC07(s *Scenario) (*Violation, []*Run) {
	run := s.execute()
	rs := []*Run{run}
	if v := notDone(run); v != nil {
		return v, rs
	}
	if s.ambiguous() {
		return nil, rs
	}
	return judgeCal(&run.Out[0][0], s.Callers[0][0], s.NCPU, s.diskOf), rs
}

// judgeCal compares a calibration with its two parts read alone.
func judgeCal(o *Outcome, op Op, ncpu int, disk func(string) (string, bool)) *Violation {
	a := alone(Op{Kind: "a2l", A: op.A}, ncpu, disk)
	k := kindOf(op.B)
	hFail := true
	var h *Outcome
	if k != "" {
		h = alone(Op{Kind: k, A: op.B}, ncpu, disk)
		hFail = h.Failed
	}
	switch {
	case a.Failed || hFail:
		if !o.Failed {
			return viol("part-lost", "no error although a part can not be read (description: %q, image: %v)", a.Err, hFail)
		}
	case o.Failed:
		return viol("rejected", "both parts can be read but the calibration is refused: %s", o.Err)
	default:
		if a.DigA != o.DigA && a.Dig == a.digest() && o.Dig != o.digest() || h.DigH != o.DigH && o.Dig != o.digest() {
			return viol("incomplete", "the calibration was not complete when the call returned")
		}
		if a.DigA != o.DigA {
			d := diffViews(viewA2L(*a.A2L), viewA2L(o.Cal.A2l))
			return viol("other-description", "the description differs from the file read alone: %s", d)
		}
		if h.DigH != o.DigH {
			return viol("other-image", "the image differs from the file read alone: %s", diffImage(h.Hex, o.Cal.Hex))
		}
	}
	// and with the reference readings
	if o.Failed {
		return nil
	}
	if t, ok := disk(op.B); ok && k != "" {
		if v := checkImage(&Outcome{Done: true, Hex: o.Cal.Hex}, decode(k, t), true); v != nil {
			return v
		}
	}
	if t, ok := disk(op.A); ok {
		v := judgeA2L(t)
		if v.mustErr {
			return viol("part-lost", "no error although the description is broken: %s", v.why)
		}
		if v.mustOK {
			if d := diffViews(v.want, viewA2L(o.Cal.A2l)); d != "" {
				return viol("other-description", "%s", d)
			}
		}
	}
	return nil
}

// ---- C08 -----------------------------------------------------------------------

func anyFault(r *rng, paths []string) simos.Fault {
	f := simos.Fault{Path: paths[r.n(len(paths))], Op: pickOf(r, "open", "read", "read", "stat", "close", "read"), Nth: 0}
	switch f.Op {
	case "open":
		f.Kind = pickOf(r, "ENOENT", "EACCES", "EMFILE", "EIO", "slow", "EPERM", "ENFILE", "ENOTDIR", "ELOOP", "ENAMETOOLONG", "ENOMEM", "ENXIO", "ESTALE")
	case "read":
		f.Kind = pickOf(r, "EIO", "EIO", "EISDIR", "short", "short", "slow", "ESTALE", "ETIMEDOUT", "ENOMEM", "EAGAIN", "EBADF")
		f.After = pickOf(r, 0, 1, r.n(50), r.n(4000))
		if f.Kind == "short" {
			f.After = pickOf(r, 1, 7, 100, 511)
		}
	default:
		f.Kind = pickOf(r, "EIO", "slow")
	}
	if f.Kind == "slow" {
		f.After = pickOf[int](r, 1, 100, 50000, 20e6, 600e6, 90000e6)
	}
	if r.p(40) {
		f.Times = 1
	}
	if r.p(20) {
		f.Nth = r.n(3)
	}
	return f
}

func logFault(r *rng) simos.Fault {
	f := simos.Fault{Path: pickOf(r, "calibReader.log", "/dev/stdout", "/dev/userlog"), Op: "write", Nth: pickOf(r, 0, 0, r.n(6)), Times: pickOf(r, 0, 0, 1)}
	f.Kind = pickOf(r, "ENOSPC", "EIO", "EPIPE", "short", "slow")
	if r.p(12) {
		f.Path, f.Kind = "calibReader.log", pickOf(r, "ENOSPC", "EIO")
		f.Op = pickOf(r, "sync", "close", "stat")
		return f
	}
	switch f.Kind {
	case "short":
		f.After = r.n(40)
	case "slow":
		f.After = pickOf[int](r, 1, 500, 100000, 40e6, 2000e6)
	}
	return f
}

// genLong: one process that reads many small files one after the other (or, as
// a crowd, all at the same time), a good part of which fail. The names are
// many, the contents few.
func genLong(r *rng, id string, crowd bool) *Scenario {
	s := newScenario(r, id)
	s.NCPU = pickOf(r, 1, 1, 2, 3)
	var as, hs []string
	tiny := func(f func() (string, string)) (t, n string) {
		for i := 0; i < 20; i++ {
			if t, n = f(); len(t) < 1200 {
				break
			}
		}
		return t, n
	}
	distinct, copies := r.in(1, 3), pickOf(r, 1, 1, 4, 12, 24)
	for i := 0; i < distinct; i++ {
		t, n := tiny(func() (string, string) { return someA2L(r, pickOf(r, 0, 50, 100), a2lOpts{small: true}) })
		for j := 0; j < copies; j++ {
			as = append(as, sprintf("d%d_%d.a2l", i, j))
			s.Files = append(s.Files, mkFile(as[len(as)-1], t, n))
		}
		k := pickOf(r, "hex", "s19")
		t, n = tiny(func() (string, string) { return someImage(r, k, pickOf(r, 0, 50, 100), hexOpts{small: true}) })
		for j := 0; j < copies; j++ {
			hs = append(hs, sprintf("i%d_%d.%s", i, j, k))
			s.Files = append(s.Files, mkFile(hs[len(hs)-1], t, n))
		}
	}
	as, hs = append(as, "missing.a2l"), append(hs, "missing.hex", "missing.s19")
	kind := r.n(5) // 4: all of them
	var ops []Op
	for i := pickOf(r, 40, 70, 70, 140, 140, 280); i > 0; i-- {
		k := kind
		if k == 4 || r.p(10) {
			k = r.n(4)
		}
		a, h := as[r.n(len(as))], hs[r.n(len(hs))]
		switch k {
		case 0, 1:
			ops = append(ops, Op{Kind: "a2l", A: a})
		case 2:
			ops = append(ops, Op{Kind: kindOf(h), A: h})
		default:
			ops = append(ops, Op{Kind: "cal", A: a, B: h})
		}
	}
	if crowd { // all at once
		for i := pickOf(r, 6, 10, 18, 34); i > 0; i-- {
			n := r.in(1, 2)
			if len(ops) < n {
				break
			}
			s.Callers, ops = append(s.Callers, ops[:n:n]), ops[n:]
		}
		return s
	}
	// files replaced on the way by another one, and read again
	for i := r.n(4); i > 0; i-- {
		at := r.in(1, len(ops)-1)
		o := ops[r.n(at)]
		dst, all := o.A, as
		if o.B != "" && r.p(50) {
			dst = o.B
		}
		if kindOf(dst) != "" {
			all = hs
		}
		src := all[r.n(len(all))]
		if _, ok := s.file(src); !ok || kindOf(src) != kindOf(dst) || strings.HasPrefix(dst, "missing") {
			continue
		}
		rest := append([]Op{}, ops[at:]...)
		ops = append(append(ops[:at:at], Op{Kind: "put", A: dst, B: src}), rest...)
		if o.Kind != "put" {
			ops = append(ops, o)
		}
	}
	s.Callers = [][]Op{ops}
	return s
}

func genC08(r *rng) *Scenario {
	if r.p(2) {
		return genLong(r, "C08", r.p(40))
	}
	s := newScenario(r, "C08")
	a, n1 := someA2L(r, 55, a2lOpts{small: r.p(50), multi: 20, big: true, twice: 10})
	h, n2 := someImage(r, "hex", 55, hexOpts{small: r.p(50), overlap: r.p(15)})
	g, n3 := someImage(r, "s19", 55, hexOpts{small: r.p(50), overlap: r.p(15)})
	s.Files = []File{mkFile("doc.a2l", a, n1), mkFile("image.hex", h, n2), mkFile("image.s19", g, n3)}
	if r.p(3) {
		s.Files[r.n(3)].Dir = true
	}
	nc := pickOf(r, 1, 1, 1, 2)
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := r.in(1, 2); i > 0; i-- {
			ops = append(ops, anyRead(r))
		}
		s.Callers = append(s.Callers, ops)
	}
	if r.p(45) {
		for i := r.in(1, 2); i > 0; i-- {
			s.Faults = append(s.Faults, anyFault(r, []string{"doc.a2l", "image.hex", "image.s19"}))
		}
	}
	if r.p(15) {
		s.Faults = append(s.Faults, logFault(r))
	}
	if r.p(3) {
		s.Faults = append(s.Faults, simos.Fault{Path: "calibReader.log", Op: "create", Kind: pickOf(r, "EACCES", "ENOENT", "EISDIR", "EMFILE"), Times: r.n(2)})
	}
	return s
}

func anyRead(r *rng) Op {
	switch r.n(6) {
	case 0, 1:
		return Op{Kind: "a2l", A: "doc.a2l"}
	case 2:
		return Op{Kind: "hex", A: "image.hex"}
	case 3:
		return Op{Kind: "s19", A: "image.s19"}
	default:
		return Op{Kind: "cal", A: "doc.a2l", B: pickOf(r, "image.hex", "image.s19")}
	}
}

func checkC08(s *Scenario) (*Violation, []*Run) {
	run := s.execute()
	rs := []*Run{run}
	if t := run.trouble(); t != "" {
		return viol(strings.SplitN(t, ":", 2)[0], "%s", t), rs
	}
	return nil, rs
}

// ---- C09 -----------------------------------------------------------------------

// genConc: several callers, each with a few reads of different files.
func genConc(r *rng, id string) *Scenario {
	if r.p(2) { // a crowd
		return genLong(r, id, true)
	}
	s := newScenario(r, id)
	s.NCPU = pickOf(r, 1, 2, 2, 3, 4, 8)
	na, nh := r.in(1, 3), r.in(1, 3)
	var as, hs []string
	for i := 0; i < na; i++ {
		t, n := someA2L(r, 20, a2lOpts{small: r.p(75), multi: 25})
		p := sprintf("d%d.a2l", i)
		as = append(as, p)
		s.Files = append(s.Files, mkFile(p, t, n))
	}
	for i := 0; i < nh; i++ {
		k := pickOf(r, "hex", "s19")
		t, n := someImage(r, k, 20, hexOpts{small: r.p(75)})
		p := sprintf("i%d.%s", i, k)
		hs = append(hs, p)
		s.Files = append(s.Files, mkFile(p, t, n))
	}
	nc := r.in(2, 4)
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := r.in(1, 2); i > 0; i-- {
			switch r.n(5) {
			case 0, 1:
				ops = append(ops, Op{Kind: "a2l", A: as[r.n(na)]})
			case 2:
				h := hs[r.n(nh)]
				ops = append(ops, Op{Kind: kindOf(h), A: h})
			default:
				a, h := as[r.n(na)], hs[r.n(nh)]
				if r.p(5) {
					a = "missing.a2l"
				}
				ops = append(ops, Op{Kind: "cal", A: a, B: h})
			}
		}
		s.Callers = append(s.Callers, ops)
	}
	return s
}

func checkC09(s *Scenario) (*Violation, []*Run) {
	run := s.execute()
	rs := []*Run{run}
	if v := notDone(run); v != nil {
		return v, rs
	}
	if s.ambiguous() {
		return nil, rs
	}
	for c := range s.Callers {
		for i, op := range s.Callers[c] {
			if !isRead(op.Kind) {
				continue
			}
			w, g := alone(op, s.NCPU, s.diskOf), &run.Out[c][i]
			if w.res() != g.res() {
				return viol("disturbed", "caller %d, call %d (%s %s %s): %s, but %s when it runs alone", c, i, op.Kind, op.A, op.B, descr(g), descr(w)), rs
			}
		}
	}
	return nil, rs
}

func descr(o *Outcome) string {
	switch {
	case !o.Done:
		return "does not return"
	case o.Failed:
		return "fails (" + clip(o.Err) + ")"
	}
	return "returns " + o.Dig
}

// ---- C10 -----------------------------------------------------------------------

func genC10(r *rng) *Scenario {
	if r.p(4) {
		return genLong(r, "C10", false)
	}
	s := genConc(r, "C10")
	// one caller, a longer history, files changing on the way
	var all []string
	for _, f := range s.Files {
		all = append(all, f.Path)
	}
	var ops []Op
	for _, c := range s.Callers {
		ops = append(ops, c...)
	}
	for i := r.in(1, 3); i > 0; i-- {
		ops = append(ops, ops[r.n(len(ops))])
	}
	if r.p(60) {
		// another content under the same name, once in a while of the same length
		p := all[r.n(len(all))]
		var t, n string
		if strings.HasSuffix(p, ".a2l") {
			t, n = someA2L(r, 25, a2lOpts{small: true, multi: 25})
		} else {
			t, n = someImage(r, kindOf(p), 25, hexOpts{small: true})
			if r.p(40) {
				t, n = sameLength(r, kindOf(p), s, p), "same length"
			}
		}
		s.Files = append(s.Files, mkFile("new.content", t, n))
		at := r.in(1, len(ops))
		rest := append([]Op{}, ops[at:]...)
		ops = append(ops[:at:at], Op{Kind: "put", A: p, B: "new.content"})
		ops = append(ops, rest...)
		for _, o := range ops[:at] {
			if o.A == p || o.B == p {
				ops = append(ops, o)
				break
			}
		}
	}
	if r.p(25) {
		f := anyFault(r, all)
		f.Times = 1
		s.Faults = append(s.Faults, f)
	}
	if r.p(8) { // a read that could not open its log file is part of the history
		s.Faults = append(s.Faults, simos.Fault{Path: "calibReader.log", Op: "create", Kind: pickOf(r, "EACCES", "ENOENT", "EISDIR", "EMFILE", "ENOSPC"), Times: r.in(1, 2)})
	} else if r.p(8) {
		f := logFault(r)
		f.Times = r.in(1, 3)
		s.Faults = append(s.Faults, f)
	}
	s.Callers = [][]Op{ops}
	return s
}

// sameLength returns another valid image with as many bytes as path has.
func sameLength(r *rng, kind string, s *Scenario, path string) string {
	f, _ := s.file(path)
	ls := strings.SplitAfter(f.disk(), "\n")
	for t := 0; t < 20 && len(ls) > 0; t++ {
		i := r.n(len(ls))
		l := strings.TrimRight(ls[i], "\r\n")
		o := 1
		if kind == "s19" {
			o = 2
		}
		if len(l) < 13 {
			continue
		}
		b, ok, _ := unhex(l[o:])
		if !ok || len(b) < 6 || kind == "hex" && b[3] != 0 || kind == "s19" && l[1] != '3' || kind == "s19" && len(b) < 7 {
			continue
		}
		k := len(b) - 2
		b[k]++
		b[k+1]--
		ls[i] = l[:o] + sprintf("%X", b) + ls[i][len(l):]
		break
	}
	return strings.Join(ls, "")
}

func checkC10(s *Scenario) (*Violation, []*Run) {
	run := s.execute()
	rs := []*Run{run}
	if v := notDone(run); v != nil {
		return v, rs
	}
	if s.ambiguous() {
		return nil, rs
	}
	disk := map[string]string{}
	for _, f := range s.Files {
		if f.Path != "new.content" && !f.Dir {
			disk[f.Path] = f.disk()
		}
	}
	get := func(p string) (string, bool) { t, ok := disk[p]; return t, ok }
	for c := range s.Callers {
		for i, op := range s.Callers[c] {
			if op.Kind == "put" {
				if f, ok := s.file(op.B); ok {
					disk[op.A] = f.disk()
				}
				continue
			}
			if !isRead(op.Kind) {
				continue
			}
			g := &run.Out[c][i]
			if g.faulted || g.logDead {
				continue
			}
			w := alone(op, s.NCPU, get)
			if w.res() != g.res() {
				return viol("history", "call %d (%s %s %s): %s, but %s in a fresh process", i, op.Kind, op.A, op.B, descr(g), descr(w)), rs
			}
		}
	}
	return nil, rs
}

// ---- C11 -----------------------------------------------------------------------

func genC11(r *rng) *Scenario {
	var s *Scenario
	switch k := r.n(100); {
	case k < 18:
		s = properties["C01"].gen(r)
	case k < 26:
		s = properties["C02"].gen(r)
	case k < 34:
		s = properties["C03"].gen(r)
	case k < 50:
		s = properties["C05"].gen(r)
	case k < 58:
		s = properties["C06"].gen(r)
	case k < 66:
		s = genC08(r)
	case k < 84:
		s = genConc(r, "C11")
	case k < 93:
		s = genC13(r)
	default:
		s = genC14(r)
	}
	s.Prop = "C11"
	if s.NCPU > 8 {
		s.NCPU = 8
	}
	for s.size() > 60000 { // the detector is slow
		s = genConc(r, "C11")
	}
	return s
}

func checkC11(s *Scenario) (*Violation, []*Run) {
	run := s.execute()
	rs := []*Run{run}
	if run.Races > 0 {
		return viol("data-race", "the race detector reported %d unsynchronised conflicting accesses", run.Races), rs
	}
	return nil, rs
}

// ---- C12 -----------------------------------------------------------------------

func genC12(r *rng) *Scenario {
	s := genConc(r, "C12")
	for c := range s.Callers {
		ops := s.Callers[c]
		n := len(ops)
		for k := r.in(0, 2); k > 0; k-- {
			ref := r.n(n)
			ops = append(ops, Op{Kind: "mut", Ref: ref}, ops[ref])
		}
		if r.p(30) {
			ops = append(ops, ops[r.n(n)])
		}
		if r.p(20) {
			for i, o := range ops[:n] {
				if o.Kind == "cal" {
					ops = append(ops, Op{Kind: "get", A: sprintf("obj_%d", r.n(24)), Ref: i})
					break
				}
			}
		}
		s.Callers[c] = ops
	}
	return s
}

func checkC12(s *Scenario) (*Violation, []*Run) {
	run := s.execute()
	rs := []*Run{run}
	if v := notDone(run); v != nil {
		return v, rs
	}
	if s.ambiguous() {
		return nil, rs
	}
	for c := range s.Callers {
		mut := map[int]bool{}
		for _, op := range s.Callers[c] {
			if op.Kind == "mut" {
				mut[op.Ref] = true
			}
		}
		// a lookup hands out parts of the calibration it looks in
		for i, op := range s.Callers[c] {
			if op.Kind == "get" && mut[op.Ref] {
				mut[i] = true
			}
		}
		for i, op := range s.Callers[c] {
			g := &run.Out[c][i]
			if !isRead(op.Kind) {
				continue
			}
			w := alone(op, s.NCPU, s.diskOf)
			if w.res() != g.res() {
				return viol("not-owned", "caller %d, call %d (%s %s %s): %s, but %s in a fresh process", c, i, op.Kind, op.A, op.B, descr(g), descr(w)), rs
			}
			if !g.Failed && !mut[i] {
				if d := g.digest(); d != g.Dig {
					return viol("changed", "caller %d, call %d (%s %s %s): the result changed after it was returned", c, i, op.Kind, op.A, op.B), rs
				}
			}
		}
	}
	return nil, rs
}

// ---- C13 -----------------------------------------------------------------------

var lookupFields = []string{"AxisPts", "Characteristics", "CompuMethods", "CompuTabs", "CompuVTabs", "CompuVTabRanges", "Functions", "Groups", "Measurements", "RecordLayouts", "ModPar.SystemConstants", "Units"}

func genC13(r *rng) *Scenario {
	s := newScenario(r, "C13")
	s.NCPU = pickOf(r, 1, 2, 4, 8)
	d := genA2LDoc(r, a2lOpts{shareIdent: r.p(80), multi: 40, rich: true, small: r.p(40)})
	s.Files = []File{mkFile("doc.a2l", renderA2L(r, d, genLayout(r)), "well-formed"), mkFile("image.s19", genS19(r, hexOpts{small: true}), "well-formed")}
	if r.p(50) {
		t, n := someA2L(r, 20, a2lOpts{small: true, multi: 20, shareIdent: true})
		s.Files = append(s.Files, mkFile("other.a2l", t, n))
	}
	s.Setup = []Op{{Kind: "cal", A: "doc.a2l", B: "image.s19"}}
	var names []string
	for _, m := range d.mods {
		for _, o := range m.objs {
			if o.name != "" {
				names = append(names, o.name)
			}
			if o.kind == "MOD_PAR" {
				for i, w := range o.words {
					if w == "SYSTEM_CONSTANT" && i+1 < len(o.words) {
						names = append(names, o.words[i+1])
					}
				}
			}
		}
	}
	for i := r.n(4); i > 0 && len(names) > 0; i-- {
		x := names[r.n(len(names))]
		names = append(names, pickOf(r, strings.ToUpper(x), strings.ToLower(x), strings.Title(x), x+"_", x[:len(x)-1], x+" ", " "+x, `"`+x+`"`))
	}
	names = append(names, "unknown_object", "", "obj_3", "obj_7")
	long := r.p(6)
	nc := r.in(1, 4)
	if r.p(2) {
		nc = pickOf(r, 9, 20, 40)
	}
	for c := nc; c > 0; c-- {
		var ops []Op
		ref, in := 1000, r.p(15)
		if in { // a calibration of its own, in which it selects the modules
			ops, ref = append(ops, Op{Kind: "cal", A: "doc.a2l", B: "image.s19"}), 0
		}
		n := r.in(1, 6)
		if long && nc < 5 {
			n = pickOf(r, 20, 80, 300)
		}
		for ; n > 0; n-- {
			ops = append(ops, Op{Kind: "get", A: names[r.n(len(names))], Ref: ref, Mod: pickMod(r, len(d.mods)), In: in})
			if long && r.p(10) {
				ops[len(ops)-1].A = sprintf("unknown_%d", r.n(1000))
			}
		}
		s.Callers = append(s.Callers, ops)
	}
	if len(s.Files) > 2 {
		ops := []Op{{Kind: pickOf(r, "a2l", "cal"), A: "other.a2l", B: "image.s19"}}
		if ops[0].Kind == "cal" { // lookups in this one, too
			for n := r.in(0, 8); n > 0; n-- {
				x := Op{Kind: "get", A: pickOf(r, names[r.n(len(names))], sprintf("obj_%d", r.n(24))), Mod: pickOf(r, 0, 0, 0, 1), In: true}
				ops = append(ops, x)
				if r.p(50) { // the same name in the first one
					x.Ref, x.In = 1000, false
					ops = append(ops, x)
				}
			}
		}
		s.Callers = append(s.Callers, ops)
	}
	return s
}

// pickMod: a module, once in a while one that is not there.
func pickMod(r *rng, n int) int {
	if n > 250 {
		return r.n(256) // as far as the index goes
	}
	if r.p(4) || n == 0 {
		return n + r.n(3)
	}
	return r.n(n)
}

func checkC13(s *Scenario) (*Violation, []*Run) {
	run := s.execute()
	rs := []*Run{run}
	if v := notDone(run); v != nil {
		return v, rs
	}
	v0 := judgeA2L(s.Files[0].disk())
	if !v0.mustOK || len(run.Setup) == 0 || run.Setup[0].Failed {
		return nil, rs
	}
	for c := range s.Callers {
		for i, op := range s.Callers[c] {
			if op.Kind != "get" {
				continue
			}
			v := v0
			if op.Ref < 1000 {
				if run.Out[c][op.Ref].Failed {
					continue
				}
				f, _ := s.file(s.Callers[c][op.Ref].A)
				if v = judgeA2L(f.disk()); !v.mustOK {
					continue
				}
			}
			var want, got []string
			for _, f := range lookupFields {
				if op.Mod >= len(v.want.mods) {
					break // no such module, no objects
				}
				if x, ok := v.want.mods[op.Mod].typed[f][op.A]; ok {
					want = append(want, x)
				}
			}
			for _, x := range run.Out[c][i].Objs {
				got = append(got, dumpTyped(x))
			}
			sort.Strings(want)
			sort.Strings(got)
			if strings.Join(want, "\n") != strings.Join(got, "\n") {
				return viol("lookup", "looking up %q in module %d gives %d objects %s, expected %d %s", op.A, op.Mod, len(got), clip(strings.Join(got, "|")), len(want), clip(strings.Join(want, "|"))), rs
			}
		}
	}
	return nil, rs
}

// ---- C14 -----------------------------------------------------------------------

func genC14(r *rng) *Scenario {
	s := newScenario(r, "C14")
	a, n1 := someA2L(r, 45, a2lOpts{small: r.p(80), multi: 15})
	k := pickOf(r, "hex", "s19")
	h, n2 := someImage(r, k, 45, hexOpts{small: true})
	s.Files = []File{mkFile("doc.a2l", a, n1), mkFile(imgPath(k), h, n2)}
	s.Level = pickOf(r, "debug", "info", "warn", "error", "disabled")
	nc := pickOf(r, 1, 1, 2)
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := r.in(1, 2); i > 0; i-- {
			switch r.n(5) {
			case 0:
				ops = append(ops, Op{Kind: "a2l", A: "doc.a2l"})
			case 1:
				ops = append(ops, Op{Kind: k, A: imgPath(k)})
			default:
				ops = append(ops, Op{Kind: "cal", A: "doc.a2l", B: imgPath(k)})
			}
		}
		s.Callers = append(s.Callers, ops)
	}
	if r.p(25) {
		s.Faults = append(s.Faults, simos.Fault{Path: "calibReader.log", Op: "create", Kind: pickOf(r, "EACCES", "EPERM", "ENOENT", "ENOSPC", "EROFS", "EMFILE", "ENFILE", "EISDIR", "ENOTDIR", "ETXTBSY", "EIO"), Times: pickOf(r, 0, 1)})
	}
	for i := r.in(1, 3); i > 0; i-- {
		s.Faults = append(s.Faults, logFault(r))
	}
	return s
}

func checkC14(s *Scenario) (*Violation, []*Run) {
	run := s.execute()
	rs := []*Run{run}
	if v := notDone(run); v != nil {
		return v, rs
	}
	if s.ambiguous() {
		return nil, rs
	}
	calFailed, calWouldFail := 0, 0
	for c := range s.Callers {
		for i, op := range s.Callers[c] {
			g := &run.Out[c][i]
			if !isRead(op.Kind) {
				continue
			}
			w := alone(op, s.NCPU, s.diskOf)
			if op.Kind == "cal" && w.Failed {
				calWouldFail++
			}
			if op.Kind == "cal" && len(s.Callers) == 1 && g.logDead {
				if !g.Failed {
					return viol("log-ignored", "the log file could not be created and the calibration was read without error"), rs
				}
				if len(s.Callers[0]) == 1 {
					for _, x := range run.Ops {
						if x.Path == op.A || x.Path == op.B {
							return viol("log-late", "the log file could not be created and %s was read all the same", x.Path), rs
						}
					}
				}
				continue
			}
			if op.Kind == "cal" && len(s.Callers) > 1 && logCreateFault(s) {
				// which of the overlapping calls the fault struck is not known
				if !g.Failed && logCreateFaultAlways(s) {
					return viol("log-ignored", "the log file could never be created and the calibration was read without error"), rs
				}
				if g.Failed {
					calFailed++
					continue
				}
			}
			if w.res() != g.res() {
				return viol("log-trouble", "caller %d, call %d (%s): %s, but %s when logging works", c, i, op.Kind, descr(g), descr(w)), rs
			}
		}
	}
	if len(s.Callers) > 1 && calWouldFail == 0 && calFailed == 0 {
		for k, f := range s.Faults {
			if f.Op == "create" && k < len(run.Fired) && run.Fired[k] > 0 {
				return viol("log-ignored", "the log file could not be created once and all calibrations were read without error"), rs
			}
		}
	}
	return nil, rs
}

func logCreateFault(s *Scenario) bool {
	for _, f := range s.Faults {
		if f.Op == "create" {
			return true
		}
	}
	return false
}

// logCreateFaultAlways: the log file can never be created.
func logCreateFaultAlways(s *Scenario) bool {
	for _, f := range s.Faults {
		if f.Op == "create" && f.Times == 0 && f.Nth == 0 {
			return true
		}
	}
	return false
}

// ---- C15 -----------------------------------------------------------------------

func genC15(r *rng) *Scenario {
	s := newScenario(r, "C15")
	a, n1 := someA2L(r, 5, a2lOpts{small: r.p(60), multi: 15})
	h, n2 := someImage(r, "hex", 5, hexOpts{small: r.p(60)})
	g, n3 := someImage(r, "s19", 5, hexOpts{small: r.p(60)})
	s.Files = []File{mkFile("doc.a2l", a, n1), mkFile("image.hex", h, n2), mkFile("image.s19", g, n3)}
	op := anyRead(r)
	ops := []Op{op}
	paths := []string{op.A}
	if op.B != "" {
		paths = append(paths, op.B)
	}
	p := paths[r.n(len(paths))]
	f := anyFault(r, []string{p})
	f.Nth = 0
	if f.Op == "read" && f.Kind != "short" && f.Kind != "slow" {
		l := 0
		if x, ok := s.file(p); ok {
			l = len(x.disk())
		}
		f.After = pickOf(r, 0, 1, r.n(l+1), r.n(l+1), r.n(l+1), l, lineEnd(r, s, p), lineEnd(r, s, p))
	}
	s.Faults = []simos.Fault{f}
	switch r.n(12) {
	case 0: // missing
		s.Faults = nil
		var keep []File
		for _, x := range s.Files {
			if x.Path != p {
				keep = append(keep, x)
			}
		}
		s.Files = keep
	case 1: // a directory
		s.Faults = nil
		for i := range s.Files {
			if s.Files[i].Path == p {
				s.Files[i].Dir = true
			}
		}
	case 2, 3:
		s.Faults = append(s.Faults, anyFault(r, paths))
	}
	if r.p(40) { // once the fault is over, the same read works
		for i := range s.Faults {
			s.Faults[i].Times = 1
		}
		ops = append(ops, op)
		if r.p(30) {
			ops = append(ops, anyRead(r))
		}
	}
	s.Callers = [][]Op{ops}
	return s
}

// lineEnd is an offset right behind some line of the file.
func lineEnd(r *rng, s *Scenario, p string) int {
	f, ok := s.file(p)
	if !ok {
		return 0
	}
	t := f.disk()
	if len(t) == 0 {
		return 0
	}
	i := r.n(len(t))
	if e := strings.IndexByte(t[i:], '\n'); e >= 0 {
		return i + e + 1
	}
	return len(t)
}

func checkC15(s *Scenario) (*Violation, []*Run) {
	run := s.execute()
	rs := []*Run{run}
	if v := notDone(run); v != nil {
		return v, rs
	}
	if s.ambiguous() {
		return nil, rs
	}
	for c := range s.Callers {
		for i, op := range s.Callers[c] {
			g := &run.Out[c][i]
			if !isRead(op.Kind) {
				continue
			}
			if g.faulted && !g.soft {
				if !g.Failed {
					return viol("fault-ignored", "call %d (%s %s %s): opening or reading a file failed and the read returned no error", i, op.Kind, op.A, op.B), rs
				}
				continue
			}
			for k, p := range []string{op.A, op.B} {
				if _, ok := s.diskOf(p); !ok && !g.Failed && (k == 0 || op.Kind == "cal") {
					return viol("missing-ignored", "call %d (%s %s %s): %s is not there and the read returned no error", i, op.Kind, op.A, op.B, p), rs
				}
			}
			w := alone(op, s.NCPU, s.diskOf)
			if g.soft && g.Failed {
				continue // examining or closing the file failed: an error is fine
			}
			if w.res() != g.res() {
				return viol("fault-changed", "call %d (%s %s %s): %s, but %s without the fault", i, op.Kind, op.A, op.B, descr(g), descr(w)), rs
			}
		}
	}
	return nil, rs
}

// ---- C16 -----------------------------------------------------------------------

func genC16(r *rng) *Scenario {
	s := newScenario(r, "C16")
	a, n1 := uniqueA2L(r)
	h, n2 := someImage(r, "hex", 50, hexOpts{small: r.p(30), overlap: r.p(15)})
	g, n3 := someImage(r, "s19", 50, hexOpts{small: r.p(30), overlap: r.p(15)})
	s.Files = []File{mkFile("doc.a2l", a, n1), mkFile("image.hex", h, n2), mkFile("image.s19", g, n3)}
	op := anyRead(r)
	s.Callers = [][]Op{{op}}
	var keep []File
	for _, f := range s.Files {
		if f.Path == op.A || f.Path == op.B {
			keep = append(keep, f)
		}
	}
	s.Files = keep
	for i := 0; i < 3; i++ {
		s.Alt = append(s.Alt, AltSched{r.next(), genStrat(r)})
	}
	return s
}

// uniqueA2L: any content, as long as no identifier is used twice for a kind.
func uniqueA2L(r *rng) (string, string) {
	return someA2L(r, 55, a2lOpts{small: r.p(40), multi: 15})
}

var ambigCache = map[string]bool{}

// ambiguousA2L: some kind has two objects of the same identifier (or none) in
// a module, so that which of them is kept is left open.
func ambiguousA2L(t string) bool {
	if !strings.Contains(t, "begin") {
		return false
	}
	if a, ok := ambigCache[t]; ok {
		return a
	}
	if len(ambigCache) > 64 {
		ambigCache = map[string]bool{}
	}
	a := ambiguousA2L1(t)
	ambigCache[t] = a
	return a
}

func ambiguousA2L1(t string) bool {
	w, odd, open := lexA2L(t)
	if odd == "" && !open {
		d, broken, odd2 := readStruct(w)
		if odd2 == "" {
			if broken != "" {
				return false // an error in any case
			}
			for _, m := range d.mods {
				var l [][2]string
				for _, o := range m.objs {
					l = append(l, [2]string{o.kind, o.name})
				}
				if !uniqueIdents(l) {
					return true
				}
			}
			return false
		}
	}
	// not a document: as loosely as possible
	for _, ws := range [][]string{w, strings.Fields(t)} {
		var l [][2]string
		for i, x := range ws {
			if strings.Contains(x, "begin") && i+1 < len(ws) && moduleKinds[ws[i+1]] {
				n := ""
				if i+2 < len(ws) {
					n = ws[i+2]
				}
				l = append(l, [2]string{ws[i+1], n})
			}
		}
		if !uniqueIdents(l) {
			return true
		}
	}
	return false
}

func uniqueIdents(l [][2]string) bool {
	seen := map[string]bool{}
	count := map[string]int{}
	nameless := map[string]bool{}
	for _, x := range l {
		k, n := x[0], x[1]
		count[k]++
		if n == "" || n[0] == '"' || n[0] == '/' || allUpper(n) {
			nameless[k] = true
		}
		id := k + " " + n
		if singleKinds[k] {
			id = k
		}
		if seen[id] {
			return false
		}
		seen[id] = true
	}
	for k := range nameless {
		if count[k] > 1 {
			return false
		}
	}
	return true
}

// allUpper: looks like a keyword.
func allUpper(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i]; !(c >= 'A' && c <= 'Z' || c == '_' || c >= '0' && c <= '9') {
			return false
		}
	}
	return strings.Trim(s, "0123456789") != "" && !strings.Contains(s, "__")
}

// ambiguous: the description leaves open what is read.
func (s *Scenario) ambiguous() bool {
	for _, f := range s.Files {
		if !f.Dir && ambiguousA2L(f.disk()) {
			return true
		}
	}
	return false
}

func checkC16(s *Scenario) (*Violation, []*Run) {
	base := s.executeWith(1, simrt.Strategy{}, true, nil)
	rs := []*Run{base}
	if v := notDone(base); v != nil {
		return v, rs
	}
	if s.ambiguous() {
		return nil, rs
	}
	try := func(r *Run) *Violation {
		rs = append(rs, r)
		if v := notDone(r); v != nil {
			return v
		}
		for c := range s.Callers {
			for i, op := range s.Callers[c] {
				w, g := &base.Out[c][i], &r.Out[c][i]
				if w.res() != g.res() {
					return viol("schedule", "%s %s %s: %s on this schedule and %s on the plain one", op.Kind, op.A, op.B, descr(g), descr(w))
				}
			}
		}
		return nil
	}
	if v := try(s.execute()); v != nil {
		return v, rs
	}
	for _, a := range s.Alt {
		if v := try(s.executeWith(a.Seed, a.Strat, false, nil)); v != nil {
			s.Seed, s.Strat = a.Seed, a.Strat
			s.Alt = nil
			return v, rs
		}
	}
	return nil, rs
}

// ---- C19 -----------------------------------------------------------------------

func genC19(r *rng) *Scenario {
	var s *Scenario
	switch r.n(5) {
	case 0:
		s = genC15(r)
	case 1:
		s = genC14(r)
	case 2:
		s = genConc(r, "C19")
	default:
		s = genC08(r)
	}
	s.Prop = "C19"
	if len(s.Callers) == 1 && r.p(15) { // the log file is there already
		s.Files = append(s.Files, mkFile("calibReader.log", "an old log\n", "log"))
	}
	return s
}

func checkC19(s *Scenario) (*Violation, []*Run) {
	run := s.execute()
	rs := []*Run{run}
	if run.interrupted() || len(run.Sim.Leaked) > 0 {
		return nil, rs // C08's business
	}
	open := map[string]int{}
	for _, x := range run.Ops {
		if strings.HasSuffix(x.Path, "calibReader.log") {
			continue
		}
		switch x.Op {
		case "opened":
			open[x.Path]++
		case "closed":
			open[x.Path]--
		case "made", "emptied", "written", "truncated", "renamed", "removed", "chmod":
			return viol("file-"+x.Op, "%s was %s", x.Path, x.Op), rs
		}
	}
	var ps []string
	for p, n := range open {
		if n > 0 {
			ps = append(ps, p)
		}
	}
	if len(ps) > 0 {
		sort.Strings(ps)
		return viol("left-open", "%s is still open (%d times) after all calls have returned", ps[0], open[ps[0]]), rs
	}
	return nil, rs
}
