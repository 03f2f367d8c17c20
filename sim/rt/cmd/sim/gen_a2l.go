//go:build go1.21

package main

import (
	_ "embed"
	"encoding/json"
	"strconv"
	"strings"
)

//go:embed corpus/keywords.a2l
var corpusText string

//go:embed corpus/extra.a2l
var extraText string

// goldenText lists, per object of the corpus, the values a reader finds in it.
//
//go:embed corpus/golden.json
var goldenText []byte

// goldenObj: the values, and the fields they are in.
type goldenObj struct {
	Values []string    `json:"v"`
	Places [][2]string `json:"p"`
	Junk   []int       `json:"e,omitempty"` // words that are converted: junk in their place is an error
	Bad    []badWord   `json:"b,omitempty"` // numbers that do not fit there
	Free   []freeWord  `json:"n,omitempty"` // words that may be replaced
}

// badWord: the words of numPool in mask M are an error in the place of word J.
type badWord struct {
	J int    `json:"j"`
	M uint32 `json:"m"`
}

// freeWord: word J may be replaced by the words of the pool in mask M, and is
// then found at place P with nothing else changed.
type freeWord struct {
	J int    `json:"j"`
	P string `json:"p"`
	M uint32 `json:"m"`
}

var numPool = []string{"7", "-3", "0", "255", "300", "65535", "70000", "2147483648", "4294967295", "0x8000ABCD", "0xFFFFFFFF", "3.25",
	"-1e-3", "1.5E+20", "-2147483648", "18446744073709551615", "0.1", "-40000", "128", "-32769", "0x1f"}

var wordPool = []string{"q", "Ident_With.Dots[12]", "lower_UPPER_Mix", "_x9", "a_rather_long_identifier_" + strings.Repeat("that_goes_on_", 20) + "to_its_end"}

var inNumPool = func() map[string]bool {
	m := map[string]bool{}
	for _, x := range numPool {
		m[x] = true
	}
	return m
}()

func looksNumber(w string) bool {
	_, e1 := strconv.ParseFloat(w, 64)
	_, e2 := strconv.ParseInt(w, 0, 64)
	return e1 == nil || e2 == nil
}

func freePool(w string) []string {
	if looksNumber(w) {
		return numPool
	}
	return wordPool
}

// freeAt returns the substitution if word j of the template may be w.
func (g *goldenObj) freeAt(t *tmpl, j int, w string) *freeWord {
	for i := range g.Free {
		if g.Free[i].J != j {
			continue
		}
		for k, x := range freePool(t.words[j]) {
			if x == w && g.Free[i].M>>uint(k)&1 == 1 {
				return &g.Free[i]
			}
		}
	}
	return nil
}

// knownPlaces are the fields any object of the corpus has a value in.
var knownPlaces = map[string]bool{}

func placeForm(p string) string {
	ss := strings.Split(p, "/")
	for i, s := range ss {
		if strings.HasPrefix(s, "[") || strings.HasPrefix(s, "{") {
			ss[i] = s[:1]
		}
	}
	return strings.Join(ss, "/")
}

var golden = map[string]goldenObj{}

// tmpl is one object of the corpus, as words; the identifier stands at words[2].
type tmpl struct {
	kind  string
	words []string
	g     goldenObj
	known bool // g is
}

var (
	tmpls   = map[string][]tmpl{}
	kinds   []string // in order of first appearance
	corpusN int
)

func loadCorpus() {
	if err := json.Unmarshal(goldenText, &golden); err != nil {
		panic(err)
	}
	for _, g := range golden {
		for _, p := range g.Places {
			knownPlaces[placeForm(p[0])] = true
		}
	}
	var mods []a2lMod
	for _, c := range []string{corpusText, extraText} {
		w, _, _ := lexA2L(c)
		d, broken, _ := readStruct(w)
		if broken != "" || len(d.mods) == 0 {
			panic("corpus: " + broken)
		}
		mods = append(mods, d.mods...)
	}
	for _, m := range mods {
		for _, o := range m.objs {
			ws, _, _ := lexA2L(o.text)
			if len(ws) > 700 && o.kind != "A2ML" {
				continue
			}
			if tmpls[o.kind] == nil {
				kinds = append(kinds, o.kind)
			}
			tmpls[o.kind] = append(tmpls[o.kind], tmpl{kind: o.kind, words: ws})
			corpusN++
		}
	}
	// a small interface description, next to the large one
	small := `/begin A2ML block "IF_DATA" taggedunion if_data { "XCP" struct { uint; uint; }; "CAN EXT" struct { char[101]; }; }; /end A2ML`
	ws, _, _ := lexA2L(small)
	a := tmpl{kind: "A2ML", words: ws}
	tmpls["A2ML"] = append(tmpls["A2ML"][:0:0], append([]tmpl{a, a, a, a, a, a, a}, tmpls["A2ML"]...)...)
	for _, l := range tmpls {
		for i := range l {
			l[i].g, l[i].known = golden[goldenKey(&l[i])]
		}
	}
}

// shortest returns the smallest template of a kind.
func shortest(kind string) tmpl {
	l := tmpls[kind]
	b := l[0]
	for _, t := range l {
		if len(t.words) < len(b.words) {
			b = t
		}
	}
	return b
}

var stringPool = []string{
	`""`, `"a"`, `"plain text"`, `"with, comma; and = signs"`, `"http://host/path"`, `"a /* no comment */ b"`,
	`"// not a comment"`, `"/begin CHARACTERISTIC fake"`, `"/end MODULE"`, `"/begin MODULE"`, `"it's"`, `"100 %"`, `"grad/s"`, `"*/"`, `"/*"`,
	`"long text that goes on and on, with many words in it so that it may well be spread over lines"`, `"a ""quoted"" word"`, `"esc \" quote"`, `"m/s"`, `"%3.1"`,
	`"a"`, `"Grad °C und µs, groß"`, "\"\xb0C in Latin-1 \xb5\"", `"tab	in it"`, `"  blanks   at   will "`, `"; # ' & < > | ~ @"`, `"0x1F 12 -3.5"`, `"MODULE"`, `"a*b/c"`,
	`"""all quoted"""`, `"ends in ""this"""`, `"""x"" y"`, `" "`, `"/begin"`, `"/end"`, `"a // b /* c"`, `"x */ y"`, `"C:\\dir\\"`, `"a \\\\\" b"`, `"\""`, `"\"x\""`, `"//"`, `"/*/"`, `"\\\\"`, `"a
two  lines"`,
}

func isNumber(s string) bool {
	if s == "" {
		return false
	}
	d := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= '0' && c <= '9' {
			d = true
			continue
		}
		if (c == '-' || c == '+') && i == 0 || c == '.' {
			continue
		}
		return false
	}
	return d
}

// instantiate makes an object from a template: own identifier, and by variant
// other texts and numbers where a parameter is free text.
func instantiate(t tmpl, name string, variant int) []string {
	w := append([]string{}, t.words...)
	if !singleKinds[t.kind] && len(w) > 2 {
		w[2] = name
	}
	if variant == 0 || t.kind == "A2ML" {
		return w
	}
	r := newRng(hashStr(t.kind), uint64(variant), uint64(len(w)))
	for i := 3; i+2 < len(w); i++ {
		if w[i][0] == '"' && w[i] != `""` && r.p(25) {
			if t.kind == "MOD_PAR" {
				continue // names of system constants live here
			}
			w[i] = stringPool[r.n(len(stringPool))]
		}
	}
	if variant >= freeVariant {
		g := t.g
		for _, f := range g.Free {
			if r.p(60) {
				continue
			}
			l := freePool(t.words[f.J])
			if k := r.n(len(l)); f.M>>uint(k)&1 == 1 {
				w[f.J] = l[k]
			}
		}
	}
	return w
}

const freeVariant = 6 // variants from here on have other numbers and references

type gobj struct {
	kind  string
	name  string
	words []string
}

type gmod struct {
	name, long string
	objs       []gobj
}

type gdoc struct {
	head []string
	proj []string // name, long identifier, header block
	mods []gmod
}

type a2lOpts struct {
	big, small bool
	shareIdent bool // same identifier for several kinds
	multi      int  // percent chance of several modules
	twice      int  // percent chance of blocks given several times that should be there once
	rich       bool // lookups: kinds that are searched
}

var lookupKinds = strings.Fields("AXIS_PTS CHARACTERISTIC COMPU_METHOD COMPU_TAB COMPU_VTAB COMPU_VTAB_RANGE FUNCTION GROUP MEASUREMENT RECORD_LAYOUT UNIT")

func genA2LDoc(r *rng, o a2lOpts) gdoc {
	var d gdoc
	if r.p(90) {
		d.head = strings.Fields("ASAP2_VERSION 1 71")
		if r.p(40) {
			d.head = append(d.head, strings.Fields("A2ML_VERSION 1 31")...)
		}
	}
	d.proj = []string{"Project_" + string(rune('A'+r.n(4))), pickOf(r, `""`, `"a project"`, `"p // q"`)}
	if r.p(60) {
		h := `/begin HEADER "head" VERSION "V1.7.1" PROJECT_NO P2016_09 /end HEADER`
		ws, _, _ := lexA2L(h)
		d.proj = append(d.proj, ws...)
	}
	nm := 1
	if r.p(o.multi) {
		nm = r.in(2, 4)
		if r.p(10) {
			nm = r.in(5, 14)
			if r.p(10) {
				nm = r.in(250, 258)
			}
			o.small = true
		}
	}
	for m := 0; m < nm; m++ {
		d.mods = append(d.mods, genModule(r, o, m))
	}
	if o.big && r.n(400) == 0 {
		// one text longer than any line buffer
		m := d.mods[r.n(len(d.mods))]
		if len(m.objs) > 0 {
			b := m.objs[r.n(len(m.objs))]
			for i := 3; i+2 < len(b.words); i++ {
				if w := b.words[i]; w[0] == '"' && w != `""` && b.kind != "MOD_PAR" && b.kind != "A2ML" {
					b.words[i] = `"` + strings.Repeat(pickOf(r, "longtext", "long text ", "0123456789abcdef "), 9000) + `z"`
					break
				}
			}
		}
	}
	return d
}

func genModule(r *rng, o a2lOpts, mi int) gmod {
	m := gmod{name: sprintf("Mod%d", mi), long: pickOf(r, `""`, `"module text"`, `"/begin UNIT not"`)}
	var n int
	switch k := r.n(100); {
	case o.small:
		n = r.in(0, 6)
	case k < 5:
		n = r.n(2)
	case k < 45:
		n = r.in(1, 10)
	case k < 85:
		n = r.in(5, 50)
	default:
		n = r.in(30, 160)
	}
	used := map[string]bool{}
	name := func(kind string) string {
		for t := 0; ; t++ {
			var s string
			k := 24
			if t > 20 {
				k = 100000
			}
			if o.shareIdent {
				switch r.n(12) {
				case 0:
					s = sprintf("%s_%d", pickOf(r, "Obj", "OBJ", "oBJ"), r.n(k))
				case 1:
					s = sprintf("obj_%d%s", r.n(k), pickOf(r, ".sub", "[2]", "_", "0"))
				default:
					s = sprintf("obj_%d", r.n(k))
				}
			} else {
				switch r.n(10) {
				case 2:
					s = sprintf("n%d_%s", r.n(k), kind)
				case 3:
					s = sprintf("n%d_%s%s", r.n(k), strings.ToLower(kind), pickOf(r, "_", "0", ".a", "[1][2]", "x"))
				case 4:
					s = sprintf("%s_%d", strings.Repeat("verylongname", r.in(1, 30)), r.n(k))
				case 5:
					s = sprintf("%s%d", pickOf(r, "_", "a", "Z.", "x_y.z_"), r.n(k))
				case 0:
					s = sprintf("%s.x[%d].y", strings.ToLower(kind), r.n(k))
				case 1:
					s = sprintf("%s__%d", kind, r.n(k))
				default:
					s = sprintf("n%d_%s", r.n(k), strings.ToLower(kind))
				}
			}
			if !used[kind+" "+s] {
				used[kind+" "+s] = true
				return s
			}
		}
	}
	addKind := func(k string, short bool) {
		if singleKinds[k] {
			if used[k] {
				return
			}
			used[k] = true
		}
		l := tmpls[k]
		t := l[r.n(len(l))]
		if k == "A2ML" && o.small {
			t = l[0]
		}
		if short {
			t = shortest(k)
		}
		v := 0
		if r.p(40) {
			v = r.n(12)
		}
		nm := ""
		if !singleKinds[k] {
			nm = name(k)
		}
		ws := instantiate(t, nm, v)
		if !o.small && !short {
			ws = lengthen(r, k, ws)
		}
		m.objs = append(m.objs, gobj{k, nm, ws})
	}
	if o.big && r.p(3) {
		// many small objects of one kind: more than any queue holds
		k := kinds[r.n(len(kinds))]
		for singleKinds[k] {
			k = kinds[r.n(len(kinds))]
		}
		c := pickOf(r, 130, 260, 1100, 1600)
		if k != "MEASUREMENT" && k != "CHARACTERISTIC" && k != "FUNCTION" && c > 260 && r.p(70) {
			c = 260
		}
		if r.p(3) {
			c = 10500
		}
		t := shortest(k)
		for i := 0; i < c; i++ {
			nm := sprintf("many_%d", i)
			used[k+" "+nm] = true
			m.objs = append(m.objs, gobj{k, nm, instantiate(t, nm, 0)})
		}
		if n > 10 {
			n = 10
		}
	}
	style := r.n(4)
	for i := 0; i < n; i++ {
		switch {
		case o.rich && r.p(80):
			addKind(lookupKinds[r.n(len(lookupKinds))], r.p(50))
		case style == 0: // as real files: mostly characteristics and measurements
			if r.p(70) {
				addKind(pickOf(r, "CHARACTERISTIC", "MEASUREMENT", "AXIS_PTS", "COMPU_METHOD"), r.p(20))
			} else {
				addKind(kinds[r.n(len(kinds))], r.p(20))
			}
		case style == 1: // short objects
			addKind(kinds[r.n(len(kinds))], true)
		default:
			addKind(kinds[r.n(len(kinds))], r.p(20))
		}
	}
	if o.rich && !used["MOD_PAR"] && r.p(70) {
		addKind("MOD_PAR", false)
	}
	if r.p(o.twice) {
		k := kinds[r.n(len(kinds))]
		for !singleKinds[k] {
			k = kinds[r.n(len(kinds))]
		}
		for i := pickOf(r, 2, 3, 5, 30); i > 0; i-- {
			at := r.n(len(m.objs) + 1)
			x := gobj{k, "", instantiate(shortest(k), "", 0)}
			m.objs = append(m.objs[:at:at], append([]gobj{x}, m.objs[at:]...)...)
		}
	}
	return m
}

// listBlocks are the blocks that hold any number of names.
var listBlocks = map[string]bool{"REF_CHARACTERISTIC": true, "REF_MEASUREMENT": true, "DEF_CHARACTERISTIC": true,
	"IN_MEASUREMENT": true, "OUT_MEASUREMENT": true, "LOC_MEASUREMENT": true, "SUB_FUNCTION": true, "SUB_GROUP": true,
	"FUNCTION_LIST": true, "REF_GROUP": true, "TRANSFORMER_IN_OBJECTS": true, "TRANSFORMER_OUT_OBJECTS": true, "MAP_LIST": true}

const listed = "li_" // names that were added to a list

// lengthen adds names to a list, or blocks within blocks to interface data.
func lengthen(r *rng, kind string, ws []string) []string {
	if kind == "IF_DATA" && len(ws) > 4 && r.p(15) {
		n := r.in(2, 14)
		if r.p(5) {
			n = pickOf(r, 40, 300)
		}
		var a, e []string
		for i := 0; i < n; i++ {
			a = append(a, "/begin", sprintf("DEEP%d", i), sprintf("%d", i))
			e = append([]string{"/end", sprintf("DEEP%d", i)}, e...)
		}
		k := len(ws) - 2
		return append(append(append(append([]string{}, ws[:k]...), a...), e...), ws[k:]...)
	}
	if !r.p(10) {
		return ws
	}
	var at []int
	for i := 1; i < len(ws); i++ {
		if ws[i-1] == "/end" && listBlocks[ws[i]] {
			at = append(at, i-1)
		}
	}
	if len(at) == 0 {
		return ws
	}
	k := at[r.n(len(at))]
	n := pickOf(r, 1, 2, r.in(3, 40), r.in(3, 40), r.in(250, 300))
	if r.p(12) {
		n = r.in(1000, 1100)
	}
	out := append([]string{}, ws[:k]...)
	for i := 0; i < n; i++ {
		out = append(out, sprintf("%s%d", listed, i))
	}
	return append(out, ws[k:]...)
}

// shorten takes the names out again that lengthen put in, if they are all there.
func shorten(ws []string) ([]string, int) {
	a := -1
	for i, w := range ws {
		if strings.HasPrefix(w, listed) {
			a = i
			break
		}
	}
	if a < 0 {
		return ws, 0
	}
	n := 0
	for a+n < len(ws) && ws[a+n] == sprintf("%s%d", listed, n) {
		n++
	}
	if e := a + n; n == 0 || e+1 >= len(ws) || ws[e] != "/end" || !listBlocks[ws[e+1]] {
		return ws, 0
	}
	return append(append([]string{}, ws[:a]...), ws[a+n:]...), n
}

type layout struct {
	style    int // 0 parameter lines, 1 random, 2 one line, 3 a word per line, 4 object per line
	comments int // percent between words
	multiln  bool
	strBreak bool
	kwBreak  bool
	glue     bool // comments without blanks around them
	eol      string
	indent   string
}

func genLayout(r *rng) layout {
	l := layout{style: pickOf(r, 0, 0, 0, 1, 1, 2, 3, 4), eol: pickOf(r, "\n", "\r\n"), indent: pickOf(r, "", "  ", "\t")}
	if r.p(40) {
		l.comments = pickOf(r, 1, 2, 10)
	}
	l.multiln = r.p(40)
	l.strBreak = r.p(15)
	l.kwBreak = r.p(15)
	l.glue = l.comments > 0 && r.p(35)
	return l
}

var commentPool = []string{"note", "/begin CHARACTERISTIC x", "/end MODULE", `"open`, "it's 100 %", "a, b; c", "====", "/begin", "MEASUREMENT", "// nested", "/end PROJECT", `say "hi"`}

type renderer struct {
	r *rng
	l layout
	b strings.Builder
}

// renderA2L writes the document out.
func renderA2L(r *rng, d gdoc, l layout) string {
	p := &renderer{r: r, l: l}
	if r.p(20) {
		p.b.WriteString("\ufeff")
	}
	p.words(d.head, true)
	p.nl()
	front := p.b.Len()
	p.words(append([]string{"/begin", "PROJECT"}, d.proj...), false)
	p.nl()
	for _, m := range d.mods {
		p.words([]string{"/begin", "MODULE", m.name, m.long}, true)
		p.nl()
		for _, o := range m.objs {
			p.words(o.words, false)
			p.nl()
			if r.p(5) {
				p.nl()
			}
		}
		p.words([]string{"/end", "MODULE"}, true)
		p.nl()
	}
	p.words([]string{"/end", "PROJECT"}, true)
	switch r.n(4) {
	case 0:
		p.b.WriteString(l.eol)
	case 1:
		p.b.WriteString(l.eol + "\t " + l.eol)
	case 2:
		if l.comments > 0 {
			p.b.WriteString(l.eol + "/* the end */" + l.eol)
		}
	}
	return fill(r, p.b.String(), front)
}

// fill makes the text a length that matters to buffers: a multiple of a block,
// one less or more, or more than a megabyte.
func fill(r *rng, s string, front int) string {
	n := 0
	if r.n(400) == 0 {
		n = r.in(1<<20, 5<<19)
	} else if r.p(6) {
		b := pickOf(r, 512, 4096, 4096, 8192, 32768, 65536)
		n = (len(s)/b+1)*b + pickOf(r, 0, 0, 0, 0, 1, -1)
		for n < len(s)+12 {
			n += b
		}
	} else {
		return s
	}
	n -= len(s)
	if n < 12 {
		return s
	}
	var pad string
	if r.p(50) && n < 9000 {
		pad = strings.Repeat(pickOf(r, " ", "\n", "\t"), n)
	} else {
		b := []byte("/* " + strings.Repeat("x", n-7) + " */\n")
		for i := 60; i+60 < n; i += 997 {
			b[i] = ' '
		}
		pad = string(b)
	}
	if r.p(50) {
		return s[:front] + pad + s[front:]
	}
	if strings.HasPrefix(pad, "/*") && !strings.HasSuffix(s, "\n") {
		pad = "\n" + pad[:len(pad)-1]
	}
	return s + pad
}

func (p *renderer) nl() {
	if p.l.style == 2 {
		p.b.WriteString(" ")
		return
	}
	p.b.WriteString(p.l.eol)
}

func (p *renderer) sep(after string, oneLine bool) string {
	r := p.r
	switch p.l.style {
	case 0:
		if oneLine {
			return " "
		}
		if r.p(35) {
			return p.l.eol + p.l.indent
		}
		return " "
	case 1:
		if r.n(300) == 0 {
			return pickOf(r, "\f", "\v", "\f"+p.l.eol, p.l.eol+"\f", "\t\v", strings.Repeat(" ", 300), strings.Repeat(p.l.eol, 40))
		}
		return pickOf(r, " ", "  ", "\t", p.l.eol, p.l.eol+p.l.eol, " "+p.l.eol+"\t", " ")
	case 3:
		return p.l.eol
	}
	return " "
}

func (p *renderer) comment() {
	r := p.r
	c := commentPool[r.n(len(commentPool))]
	switch {
	case p.l.style != 2 && r.p(30):
		p.b.WriteString(pickOf(r, "// ", "// ", "//", "///", "//* ", "//-- /* ") + c + p.l.eol)
	case r.p(20): // shapes of comments in one word, or with one
		if p.l.style != 2 && p.l.multiln && r.p(50) {
			bar := pickOf(r, "", "*", "***", "////////", "------", "=", "http://x.y/z")
			p.b.WriteString("/*" + bar + p.l.eol)
			for i := r.n(4); i > 0; i-- {
				p.b.WriteString(pickOf(r, "", " * ", "* ", "\t", "// ", "/* ") + commentPool[r.n(len(commentPool))] + pickOf(r, "", " ", p.l.eol) + p.l.eol)
			}
			p.b.WriteString(pickOf(r, "", " ", p.l.indent, "***", "//////// ", " =") + "*/" + p.l.eol)
			return
		}
		p.b.WriteString(pickOf(r, "/**/", "/***/", "/*x*/", "/* */", "/*\"*/", "/*-- \" --*/", "/*http://x.y/z */", "/*////////*/", "/* // */", "/* /* */", "/*/begin*/", "/*\t*/", "/*a b*/") + " ")
	case p.l.multiln && p.l.style != 2:
		p.b.WriteString("/* " + c)
		for i := r.n(4); i >= 0; i-- {
			p.b.WriteString(p.l.eol + p.l.indent + commentPool[r.n(len(commentPool))])
		}
		p.b.WriteString(pickOf(r, " ", " ", p.l.eol, p.l.eol+p.l.indent) + "*/" + pickOf(r, " ", p.l.eol))
	default:
		if strings.Contains(c, "*/") {
			c = ""
		}
		p.b.WriteString("/* " + c + " */ ")
	}
}

func (p *renderer) words(ws []string, oneLine bool) {
	r := p.r
	kw := false
	for i, w := range ws {
		if p.l.comments > 0 && !kw && r.p(p.l.comments) {
			p.comment()
		}
		if w[0] == '"' && p.l.strBreak && r.p(20) && p.l.style != 2 {
			// a line end inside a string, at a blank
			if k := strings.IndexByte(w, ' '); k > 0 && !strings.Contains(w, "\\") {
				w = w[:k] + p.l.eol + w[k+1:]
			}
		}
		p.b.WriteString(w)
		kw = w == "/begin" || w == "/end"
		if i+1 == len(ws) {
			break
		}
		if p.l.glue && r.p(4) {
			c := pickOf(r, "/*c*/", "/* a b */", "/**/", "/*\"*/", "/* /begin UNIT */", " /*c*/", "/*c*/ ", "/*/*/", "/*/ x */", "/***/", "/*//*/", "/*c*/ /*d*/", "/*c*//*d*/")
			if p.l.style != 2 && r.p(40) {
				c = pickOf(r, "//c", "// a b", "//", "//\"", "///*", "//*/", " //c", "/*c*///d", "/*"+p.l.eol+"*/", "/*c"+p.l.eol+"d*/", "/* // "+p.l.eol+" \" */")
				if !strings.HasSuffix(c, "*/") || strings.HasPrefix(c, "//") {
					c += p.l.eol
				}
			}
			p.b.WriteString(c)
			continue
		}
		if kw {
			if p.l.kwBreak && r.p(10) && p.l.style != 2 {
				p.b.WriteString(p.l.eol)
			} else {
				p.b.WriteString(" ")
			}
			continue
		}
		p.b.WriteString(p.sep(w, oneLine))
	}
}

func genA2L(r *rng, o a2lOpts) string { return renderA2L(r, genA2LDoc(r, o), genLayout(r)) }

// damageA2L breaks the stored text.
func damageA2L(r *rng, s string) (string, string) {
	if len(s) < 4 {
		return "", "emptied"
	}
	lines := strings.SplitAfter(s, "\n")
	occ := func(sub string) int { // random occurrence
		n := strings.Count(s, sub)
		if n == 0 {
			return -1
		}
		k := r.n(n)
		p := 0
		for ; ; k-- {
			q := strings.Index(s[p:], sub)
			if k == 0 {
				return p + q
			}
			p += q + len(sub)
		}
	}
	switch k := r.n(11); k {
	case 0, 1:
		return s[:r.n(len(s))], "truncated"
	case 2: // bytes lost
		p := r.n(len(s))
		n := r.size(400)
		if p+n > len(s) {
			n = len(s) - p
		}
		return s[:p] + s[p+n:], "lost-bytes"
	case 3: // lines lost
		p := r.n(len(lines))
		n := r.size(6)
		if p+n > len(lines) {
			n = len(lines) - p
		}
		return strings.Join(lines[:p], "") + strings.Join(lines[p+n:], ""), "lost-lines"
	case 4: // lines repeated
		p := r.n(len(lines))
		n := r.size(6)
		if p+n > len(lines) {
			n = len(lines) - p
		}
		return strings.Join(lines[:p+n], "") + strings.Join(lines[p:], ""), "repeated-lines"
	case 5, 6: // an end is lost
		if p := occ("/end "); p >= 0 {
			e := p + 5
			for e < len(s) && !isSpace(s[e]) {
				e++
			}
			return s[:p] + s[e:], "lost-end"
		}
		return s[:len(s)/2], "truncated"
	case 7: // a begin is lost
		if p := occ("/begin "); p >= 0 {
			e := p + 7
			for e < len(s) && !isSpace(s[e]) {
				e++
			}
			return s[:p] + s[e:], "lost-begin"
		}
		return s[:len(s)/2], "truncated"
	case 8: // a number that is none
		w := strings.Fields(s)
		var c []string
		for _, x := range w {
			if isNumber(x) {
				c = append(c, x)
			}
		}
		if len(c) > 0 {
			x := c[r.n(len(c))]
			if p := occ(" " + x + " "); p >= 0 {
				return s[:p+1] + junkPool[r.n(len(junkPool))] + s[p+1+len(x):], "bad-number"
			}
		}
		return s[:len(s)*2/3], "truncated"
	case 9: // a keyword is torn
		if p := occ(pickOf(r, "/begin ", "/end ")); p >= 0 {
			return s[:p+1] + s[p+2:], "torn-keyword"
		}
		return s[:len(s)/3], "truncated"
	default: // a block repeated
		p := r.n(len(s))
		n := r.size(300)
		if p+n > len(s) {
			n = len(s) - p
		}
		return s[:p+n] + s[p:], "repeated-bytes"
	}
}

// garbage is content of any kind.
func garbage(r *rng, kind string) string {
	switch r.n(6) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("\n", r.n(50))
	case 2:
		b := make([]byte, r.n(2000))
		for i := range b {
			b[i] = byte(r.next())
		}
		return string(b)
	case 3:
		b := make([]byte, r.n(1500))
		al := ":S0123456789ABCDEF\r\n \t/\"*begind"
		for i := range b {
			b[i] = al[r.n(len(al))]
		}
		return string(b)
	case 4:
		w := []string{"/begin", "/end", "MODULE", "PROJECT", "CHARACTERISTIC", "UNIT", `"`, `""`, "/*", "*/", "//", "x", "1", "-1.5", "\n", "IF_DATA", "MEASUREMENT", "A2ML", "GROUP", "FUNCTION", "/", "RECORD_LAYOUT", "MOD_PAR", "ANNOTATION", "MATRIX_DIM"}
		var b strings.Builder
		for i := r.n(300); i > 0; i-- {
			b.WriteString(w[r.n(len(w))])
			b.WriteString(pickOf(r, " ", " ", "\n"))
		}
		return b.String()
	}
	var b strings.Builder
	for i := r.n(60); i > 0; i-- {
		b.WriteString(pickOf(r, ":10000000", ":020000040000FA", ":00000001FF", "S30500000000FA", "S3", ":", "S7", "0", "\r", "ZZ"))
		b.WriteString(pickOf(r, "\n", "\r\n", ""))
	}
	return b.String()
}

var junkPool = []string{"xyz", "1x2", "--3", "0xZZ"}

func isJunk(w string) bool {
	for _, x := range junkPool {
		if x == w {
			return true
		}
	}
	return false
}

// enumWords are the values of the enumerations of the standard.
var enumWords = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`ABSOLUTE ALTERNATE_CURVES ALTERNATE_WITH_X ALTERNATE_WITH_Y ASCII A_INT64 A_UINT64 BIG_ENDIAN BYTE
		CALIBRATION CALIBRATION_VARIABLES CODE COLUMN_DIR COM_AXIS CUBE_4 CUBE_5 CUBOID CURVE CURVE_AXIS DATA DERIVED DIFFERENCE
		DIRECT EEPROM EPROM EXCLUDE_FROM_FLASH EXTENDED_SI EXTERN FIX_AXIS FLASH FLOAT16_IEEE FLOAT32_IEEE FLOAT64_IEEE FORM
		IDENTICAL INDEX_DECR INDEX_INCR INTERN LINEAR LITTLE_ENDIAN LONG MAP MONOTONOUS MON_DECREASE MON_INCREASE MSB_FIRST
		MSB_FIRST_MSW_LAST MSB_LAST MSB_LAST_MSW_FIRST NOT_IN_ECU NOT_IN_MCD_SYSTEM NOT_MON NO_CALIBRATION NUMERIC
		OFFLINE_CALIBRATION OFFLINE_DATA ON_CHANGE ON_USER_REQUEST PBYTE PLONG PLONGLONG PRG_CODE PRG_DATA PRG_RESERVED PWORD
		RAM RAT_FUNC REGISTER RES_AXIS ROM ROW_DIR SBYTE SERAM SLONG STD_AXIS STRICT_DECREASE STRICT_INCREASE STRICT_MON SWORD
		TAB_INTP TAB_NOINTP TAB_VERB UBYTE ULONG UTF16 UTF32 UTF8 UWORD VALUE VAL_BLK VARIABLES WORD`) {
		m[w] = true
	}
	return m
}()

// bad tells that w in the place of word j of the template is an error.
func (g *goldenObj) bad(j int, w string) bool {
	if isJunk(w) {
		for _, e := range g.Junk {
			if e == j {
				return true
			}
		}
		return false
	}
	for _, b := range g.Bad {
		if b.J != j {
			continue
		}
		for n, x := range numPool {
			if x == w {
				return b.M>>uint(n)&1 == 1
			}
		}
	}
	return false
}

// isKeywordLike: a word in capitals that is no value of an enumeration.
func isKeywordLike(w string) bool {
	if enumWords[w] || len(w) < 3 {
		return false
	}
	for i := 0; i < len(w); i++ {
		if c := w[i]; (c < 'A' || c > 'Z') && c != '_' && (c < '0' || c > '9' || i == 0) {
			return false
		}
	}
	return true
}

// misfits are all words of all templates that can be replaced by one that is an
// error, by the parameter they stand for.
var misfits [][]misfit

type misfit struct {
	t *tmpl
	j int
}

// badWordDoc is a document with one object in which one parameter can not be
// converted.
func badWordDoc(r *rng, o a2lOpts) (string, string) {
	if misfits == nil {
		at := map[string]int{}
		for _, k := range kinds {
			for i := range tmpls[k] {
				t := &tmpls[k][i]
				for _, j := range t.g.Junk {
					// the parameter: which keyword's, and the how manyth of it
					c := j - 1
					for c > 2 && !isKeywordLike(t.words[c]) {
						c--
					}
					id := sprintf("%s %s %d", k, t.words[c], j-c)
					if _, ok := at[id]; !ok {
						at[id] = len(misfits)
						misfits = append(misfits, nil)
					}
					misfits[at[id]] = append(misfits[at[id]], misfit{t, j})
				}
			}
		}
	}
	d := genA2LDoc(r, o)
	l := misfits[r.n(len(misfits))]
	x := l[r.n(len(l))]
	w := junkPool[r.n(len(junkPool))]
	if r.p(50) {
		var l []string
		for _, b := range x.t.g.Bad {
			for n := range numPool {
				if b.J == x.j && b.M>>uint(n)&1 == 1 {
					l = append(l, numPool[n])
				}
			}
		}
		if len(l) > 0 {
			w = l[r.n(len(l))]
		}
	}
	name := sprintf("misfit_%d", r.n(1000))
	ob := gobj{x.t.kind, name, instantiate(*x.t, name, 0)}
	ob.words[x.j] = w
	m := &d.mods[r.n(len(d.mods))]
	if singleKinds[ob.kind] {
		var l []gobj
		for _, y := range m.objs {
			if y.kind != ob.kind {
				l = append(l, y)
			}
		}
		m.objs = l
	}
	at := r.n(len(m.objs) + 1)
	rest := append([]gobj{ob}, m.objs[at:]...)
	m.objs = append(m.objs[:at:at], rest...)
	return renderA2L(r, d, genLayout(r)), "bad-word"
}

var alienPool = []string{"MAX_GRAD", "FNC_VALUES", "SYSTEM_CONSTANT", "ECU_ADDRESS", "DEFAULT_VALUE", "VAR_SEPARATOR", "READ_ONLY", "SI_EXPONENTS", "FORMULA_INV", "VIRTUAL"}

// damageDoc breaks one or several objects of the document.
func damageDoc(r *rng, d *gdoc) string {
	type at struct{ m, o int }
	by := map[string][]at{}
	var ks []string
	for m := range d.mods {
		for o := range d.mods[m].objs {
			k := d.mods[m].objs[o].kind
			if by[k] == nil {
				ks = append(ks, k)
			}
			by[k] = append(by[k], at{m, o})
		}
	}
	if len(ks) == 0 {
		return "well-formed"
	}
	n := 1
	if r.p(35) {
		n = r.in(2, 8)
	}
	note := ""
	for ; n > 0; n-- {
		l := by[ks[r.n(len(ks))]]
		p := l[r.n(len(l))]
		o := &d.mods[p.m].objs[p.o]
		if len(o.words) < 4 {
			continue
		}
		var nt string
		o.words, nt = damageObj(r, o.words)
		if note != "" {
			note += ","
		}
		note += o.kind + ":" + nt
	}
	return note
}

func damageObj(r *rng, words []string) ([]string, string) {
	w := append([]string{}, words...)
	if len(w) < 5 {
		return w[:len(w)-2], "lost-end"
	}
	cut := func(i, n int) []string { return append(w[:i:i], w[i+n:]...) }
	switch k := r.n(10); k {
	case 0, 1, 2:
		var c []int
		for i := 3; i+2 < len(w); i++ {
			if isNumber(w[i]) || enumWords[w[i]] {
				c = append(c, i)
			}
		}
		if len(c) > 0 {
			w[c[r.n(len(c))]] = junkPool[r.n(len(junkPool))]
			return w, "bad-number"
		}
		fallthrough
	case 3, 4:
		i := r.in(3, len(w)-2)
		if w[i-1] == "/begin" || w[i-1] == "/end" {
			i--
		}
		return append(append(w[:i:i], alienPool[r.n(len(alienPool))]), w[i:]...), "alien-keyword"
	case 5:
		var c []int
		for i := 3; i+2 < len(w); i++ {
			if w[i] == "/end" || w[i] == "/begin" {
				c = append(c, i)
			}
		}
		if len(c) > 0 {
			return cut(c[r.n(len(c))], 2), "lost-inner-keyword"
		}
		fallthrough
	case 6:
		return w[:len(w)-2], "lost-end"
	case 7:
		return w[:r.in(3, len(w)-1)], "lost-tail"
	case 8:
		i := r.in(3, len(w)-2)
		n := r.size(5)
		if i+n > len(w)-2 {
			n = len(w) - 2 - i
		}
		return cut(i, n), "lost-words"
	default:
		i := r.in(3, len(w)-2)
		n := r.size(5)
		if i+n > len(w)-2 {
			n = len(w) - 2 - i
		}
		return append(append(w[:i+n:i+n], words[i:i+n]...), w[i+n:]...), "repeated-words"
	}
}

// genBadA2L is a document with broken objects, or one broken as a text.
func genBadA2L(r *rng, o a2lOpts) (string, string) {
	if r.p(40) {
		if r.p(75) {
			o.small = true
		}
		return badWordDoc(r, o)
	}
	if r.p(45) {
		d := genA2LDoc(r, o)
		n := damageDoc(r, &d)
		return renderA2L(r, d, genLayout(r)), n
	}
	return damageA2L(r, genA2L(r, o))
}

// junkIn tells where the object differs from its template by junk that must be
// an error.
func junkIn(o a2lObj) string {
	w, _, _ := lexA2L(o.text)
	has := false
	for _, x := range w {
		has = has || isJunk(x) || inNumPool[x]
	}
	if !has {
		return ""
	}
	l := tmpls[o.kind]
next:
	for i := range l {
		if len(l[i].words) != len(w) {
			continue
		}
		var at []int
		for j := range w {
			a, b := l[i].words[j], w[j]
			switch {
			case a == b:
			case j == 2 && !singleKinds[o.kind]:
			case j > 2 && a[0] == '"' && b[0] == '"' && a != `""`:
			case isNumber(a) && isJunk(b) || l[i].g.bad(j, b):
				at = append(at, j)
			case l[i].g.freeAt(&l[i], j, b) != nil:
			default:
				continue next
			}
		}
		g := l[i].g
		for _, j := range at {
			if g.bad(j, w[j]) {
				return sprintf("%s %s has %s in the place of %s", o.kind, o.name, w[j], l[i].words[j])
			}
		}
		return ""
	}
	return ""
}

// templateOf finds the template an object was made from: the same words, up to
// its identifier and other texts; subst tells which words were replaced.
func templateOf(o a2lObj) (t *tmpl, words []string, subst []int) {
	w, _, _ := lexA2L(o.text)
	w, _ = shorten(w)
	l := tmpls[o.kind]
next:
	for i := range l {
		if len(l[i].words) != len(w) {
			continue
		}
		subst = nil
		for j := range w {
			a, b := l[i].words[j], w[j]
			switch {
			case a == b:
			case j == 2 && !singleKinds[o.kind]:
			case j > 2 && a[0] == '"' && b[0] == '"' && a != `""`:
				subst = append(subst, j)
			case l[i].g.freeAt(&l[i], j, b) != nil:
				subst = append(subst, j)
			default:
				continue next
			}
		}
		return &l[i], w, subst
	}
	return nil, nil, nil
}

func goldenKey(t *tmpl) string {
	return sprintf("%s %016x", t.kind, hashStr(strings.Join(t.words, " ")))
}

// conserved checks that the values read for an object made from a template are
// those the template's are known to have.
func conserved(o a2lObj, got map[string]int, places map[string]string) string {
	t, w, subst := templateOf(o)
	if t == nil {
		return ""
	}
	added := 0
	if strings.Contains(o.text, listed) {
		x, _, _ := lexA2L(o.text)
		_, added = shorten(x)
		for i := 0; i < added; i++ {
			if x := sprintf("%s%d", listed, i); got[x] != 1 {
				return sprintf("%s %s was read with %s %d times", o.kind, o.name, x, got[x])
			}
		}
	}
	g := t.g
	if !t.known {
		return ""
	}
	want := g.Values
	// texts that were replaced: follow those that are unmistakable
	gone := map[string]string{}
	moved := map[string]string{} // place -> value, for numbers and references
	for _, j := range subst {
		if f := g.freeAt(t, j, w[j]); f != nil {
			moved[f.P] = leafText(w[j])
			if moved[f.P] == "0" {
				moved[f.P] = ""
			}
			continue
		}
		old := leafText(t.words[j])
		if _, dup := gone[old]; dup {
			gone[old] = ""
			continue
		}
		gone[old] = leafText(w[j])
		for k, x := range t.words {
			if k != j && leafText(x) == old {
				gone[old] = ""
			}
		}
	}
	// values composed of several texts, one of which was replaced, are not followed
	word := map[string]bool{}
	for _, x := range t.words {
		word[leafText(x)] = true
	}
	for _, l := range want {
		for _, old := range sortedKeys(gone) {
			if !word[l] && old != "" && strings.Contains(l, old) {
				gone[l] = ""
			}
		}
	}
	left := map[string]int{}
	for k, n := range got {
		left[k] = n
	}
	named := singleKinds[o.kind] || len(t.words) < 3
	for _, l := range want {
		if len(moved) > 0 {
			break // the places tell
		}
		if !named && l == leafText(t.words[2]) {
			named = true
			l = leafText(w[2])
		}
		if n, ok := gone[l]; ok {
			if n == "" {
				continue
			}
			l = n
		}
		if left[l] == 0 {
			return sprintf("%s %s was read without its value %s", o.kind, o.name, clip(l))
		}
		left[l]--
	}
	if added > 0 {
		return ""
	}
	have := map[string]bool{}
	for _, p := range g.Places {
		have[p[0]] = true
		x := p[1]
		if n, ok := moved[p[0]]; ok {
			x = n
		} else if n, ok := gone[x]; ok {
			if n == "" {
				continue
			}
			x = n
		}
		y := places[p[0]]
		if y == x || !singleKinds[o.kind] && len(t.words) > 2 && x == leafText(t.words[2]) && y == leafText(w[2]) {
			continue
		}
		if placeExists(p[0]) {
			return sprintf("%s %s: %s is %q, not %q", o.kind, o.name, p[0], clip(y), clip(x))
		}
	}
	for at, x := range moved {
		if !have[at] && places[at] != x && placeExists(at) {
			return sprintf("%s %s: %s is %q, not %q", o.kind, o.name, at, clip(places[at]), clip(x))
		}
	}
	for _, at := range sortedKeys(places) {
		if _, ok := moved[at]; !ok && !have[at] && !strings.Contains(at, "{") && knownPlaces[placeForm(at)] {
			return sprintf("%s %s: %s is %q, which it does not have", o.kind, o.name, at, clip(places[at]))
		}
	}
	if len(subst) > 0 {
		return ""
	}
	in := map[string]bool{}
	for _, x := range w {
		in[leafText(x)] = true
	}
	for _, k := range sortedKeys(left) {
		if _, err := strconv.ParseFloat(k, 64); err == nil {
			continue
		}
		if left[k] > 0 && !in[k] && !knownExtra(want, k) {
			return sprintf("%s %s was read with the value %s, which it does not have", o.kind, o.name, clip(k))
		}
	}
	return ""
}

// knownExtra: a value composed of others.
func knownExtra(want []string, k string) bool {
	for _, x := range want {
		if x == k {
			return true
		}
	}
	return false
}
