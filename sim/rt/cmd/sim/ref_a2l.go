//go:build go1.21

package main

import (
	"encoding/json"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/asap2Go/calibrationReader/a2l"
)

// ---- lexer -----------------------------------------------------------------

func isSpace(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'
}

// lexA2L splits a text into words, strings included, comments dropped. odd is
// set if the text uses something the format leaves open (escapes
// outside strings); open if a string or comment does not end.
func lexA2L(s string) (words []string, odd string, open bool) {
	s = strings.TrimPrefix(s, "\ufeff")
	i := 0
	for i < len(s) {
		if isSpace(s[i]) {
			i++
			continue
		}
		if c := s[i]; c < 0x20 || c == 0x7f {
			odd = "control character"
		}
		if strings.HasPrefix(s[i:], "//") {
			e := strings.IndexByte(s[i:], '\n')
			if e < 0 {
				return
			}
			i += e
			continue
		}
		if strings.HasPrefix(s[i:], "/*") {
			e := strings.Index(s[i+2:], "*/")
			if e < 0 {
				open = true
				return
			}
			i += 2 + e + 2
			continue
		}
		// a word
		var b strings.Builder
		q := false
		for i < len(s) {
			c := s[i]
			if c >= 0x80 || c < 0x20 && !isSpace(c) {
				if !q {
					odd = "unusual character"
				} else if c < 0x20 {
					odd = "control character in a string"
				}
			}
			if c == '\\' {
				if !q {
					odd = "escape outside a string"
				}
				if i+1 >= len(s) || s[i+1] == '\n' || s[i+1] == '\r' || s[i+1] >= 0x80 || isSpace(s[i+1]) {
					odd = "dangling escape"
					b.WriteByte(c)
					i++
					continue
				}
				b.WriteString(s[i : i+2])
				i += 2
				continue
			}
			if c == '"' {
				q = !q
				b.WriteByte(c)
				i++
				continue
			}
			if isSpace(c) {
				if !q {
					break
				}
				for i < len(s) && isSpace(s[i]) {
					i++
				}
				b.WriteByte(' ')
				continue
			}
			if !q && c == '/' && i+1 < len(s) && (s[i+1] == '/' || s[i+1] == '*') {
				break
			}
			if !q && c == '*' && i+1 < len(s) && s[i+1] == '/' {
				odd = "end of a comment without its begin"
			}
			b.WriteByte(c)
			i++
		}
		if q {
			open = true
			return
		}
		words = append(words, b.String())
	}
	return
}

// ---- structure -------------------------------------------------------------

type a2lObj struct {
	kind string
	name string
	text string // the whole block, words separated by single blanks
}

type a2lMod struct {
	name, long string
	objs       []a2lObj
}

type a2lDoc struct {
	head []string // words before the project
	proj []string // words and blocks of the project that are not modules
	mods []a2lMod
}

var moduleKinds = map[string]bool{}

func init() {
	for _, k := range strings.Fields(`A2ML AXIS_PTS BLOB CHARACTERISTIC COMPU_METHOD COMPU_TAB COMPU_VTAB
		COMPU_VTAB_RANGE FRAME FUNCTION GROUP IF_DATA INSTANCE MEASUREMENT MOD_COMMON MOD_PAR RECORD_LAYOUT
		TRANSFORMER TYPEDEF_AXIS TYPEDEF_BLOB TYPEDEF_CHARACTERISTIC TYPEDEF_MEASUREMENT TYPEDEF_STRUCTURE
		UNIT USER_RIGHTS VARIANT_CODING`) {
		moduleKinds[k] = true
	}
}

var singleKinds = map[string]bool{"A2ML": true, "FRAME": true, "MOD_COMMON": true, "MOD_PAR": true, "VARIANT_CODING": true}

// readStruct cuts a word list into its blocks. broken: the block structure
// does not close; odd: it closes but is not what the format describes.
func readStruct(w []string) (d a2lDoc, broken, odd string) {
	type fr struct {
		kind  string
		start int
	}
	var st []fr
	var mod *a2lMod
	sawProject, afterProject := false, false
	for i := 0; i < len(w); i++ {
		x := w[i]
		if x != "/begin" && x != "/end" {
			if x[0] != '"' && (strings.Contains(x, "/begin") || strings.Contains(x, "/end")) {
				odd = "odd keyword " + x
			}
			switch {
			case len(st) == 0 && !afterProject:
				d.head = append(d.head, x)
			case len(st) == 0:
				odd = "text after the project"
			case len(st) == 1 && st[0].kind == "PROJECT":
				d.proj = append(d.proj, x)
			case len(st) == 2 && mod != nil:
				if len(mod.objs) == 0 && mod.name == "" {
					mod.name = x
				} else if len(mod.objs) == 0 && mod.long == "" {
					mod.long = x
				} else {
					odd = "stray word in a module"
				}
			}
			continue
		}
		if i+1 >= len(w) {
			return d, "keyword missing after " + x, odd
		}
		k := w[i+1]
		if k == "/begin" || k == "/end" || k[0] == '"' {
			odd = "no keyword after " + x
		}
		if x == "/begin" {
			if len(st) == 0 {
				if k != "PROJECT" || sawProject {
					odd = "block outside the project"
				}
				sawProject = true
			}
			if len(st) == 1 && k == "MODULE" {
				d.mods = append(d.mods, a2lMod{})
				mod = &d.mods[len(d.mods)-1]
			}
			if len(st) >= 2 && (k == "MODULE" || k == "PROJECT") {
				odd = "nested " + k
			}
			st = append(st, fr{k, i})
			i++
			continue
		}
		if len(st) == 0 || st[len(st)-1].kind != k {
			return d, "unexpected /end " + k, odd
		}
		f := st[len(st)-1]
		st = st[:len(st)-1]
		i++
		switch {
		case len(st) == 0:
			afterProject = true
		case len(st) == 1 && k == "MODULE":
			if mod.name == "" || mod.long == "" {
				odd = "module without name"
			}
			mod = nil
		case len(st) == 1:
			d.proj = append(d.proj, w[f.start:i+1]...)
		case len(st) == 2 && mod != nil:
			if mod.long == "" {
				odd = "module without description"
			}
			o := a2lObj{kind: k, text: strings.Join(w[f.start:i+1], " ")}
			if f.start+2 < i-1 {
				o.name = w[f.start+2]
			}
			mod.objs = append(mod.objs, o)
		}
	}
	if len(st) > 0 {
		return d, "block " + st[len(st)-1].kind + " does not end", odd
	}
	if !sawProject {
		return d, "no project", odd
	}
	return d, "", odd
}

// ---- views of a result -----------------------------------------------------

type modView struct {
	strs    map[string]string
	structs map[string]string
	maps    map[string]map[string]string
	typed   map[string]map[string]string // lookups: kind of object, with type
}

type a2lView struct {
	head string
	mods []modView
}

func viewModule(m a2l.Module) modView {
	mv := modView{map[string]string{}, map[string]string{}, map[string]map[string]string{}, map[string]map[string]string{}}
	v := reflect.ValueOf(m)
	for i := 0; i < v.NumField(); i++ {
		f, n := v.Field(i), v.Type().Field(i).Name
		switch f.Kind() {
		case reflect.String:
			mv.strs[n] = f.String()
		case reflect.Struct:
			if s := dumpVal(f); s != "{}" {
				mv.structs[n] = s
			}
			if sc := fieldByName(f, "SystemConstants"); sc.IsValid() && sc.Kind() == reflect.Map {
				mv.typed[n+".SystemConstants"] = mapView(sc, true)
			}
		case reflect.Map:
			if f.Len() > 0 {
				mv.maps[n] = mapView(f, false)
				mv.typed[n] = mapView(f, true)
			}
		}
	}
	return mv
}

func fieldByName(v reflect.Value, n string) reflect.Value {
	if v.Kind() != reflect.Struct {
		return reflect.Value{}
	}
	return v.FieldByName(n)
}

func mapView(f reflect.Value, typed bool) map[string]string {
	r := map[string]string{}
	for it := f.MapRange(); it.Next(); {
		k := it.Key()
		ks := dumpVal(k)
		if k.Kind() == reflect.String {
			ks = k.String()
		}
		e := it.Value()
		if typed {
			for e.Kind() == reflect.Pointer && !e.IsNil() {
				e = e.Elem()
			}
			r[ks] = e.Type().Name() + dumpVal(e)
		} else {
			r[ks] = dumpVal(e)
		}
	}
	return r
}

func viewA2L(a a2l.A2L) a2lView {
	var v a2lView
	for _, m := range a.Project.Modules {
		v.mods = append(v.mods, viewModule(m))
	}
	a.Project.Modules = nil
	v.head = dumpAny(a)
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// diffViews returns "" if got is what was expected.
func diffViews(want, got a2lView) string {
	if want.head != got.head {
		return "project header differs: want " + clip(want.head) + " got " + clip(got.head)
	}
	if len(want.mods) != len(got.mods) {
		return sprintf("%d modules expected, %d read", len(want.mods), len(got.mods))
	}
	for i := range want.mods {
		w, g := want.mods[i], got.mods[i]
		for _, k := range unionKeys(w.strs, g.strs) {
			if w.strs[k] != g.strs[k] {
				return sprintf("module %d field %s: want %s got %s", i, k, clip(w.strs[k]), clip(g.strs[k]))
			}
		}
		for _, k := range unionKeys(w.structs, g.structs) {
			if w.structs[k] != g.structs[k] {
				return sprintf("module %d %s: want %s got %s", i, k, clip(w.structs[k]), clip(g.structs[k]))
			}
		}
		for _, k := range unionKeys(w.maps, g.maps) {
			for _, n := range unionKeys(w.maps[k], g.maps[k]) {
				a, aok := w.maps[k][n]
				b, bok := g.maps[k][n]
				switch {
				case !bok:
					return sprintf("module %d %s: %q is lost", i, k, n)
				case !aok:
					return sprintf("module %d %s: %q is not in the module", i, k, n)
				case a != b:
					return sprintf("module %d %s: %q differs: want %s got %s", i, k, n, clip(a), clip(b))
				}
			}
		}
	}
	return ""
}

func unionKeys[V any](a, b map[string]V) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return sortedKeys(m)
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

// ---- reference: each object alone --------------------------------------------

// aloneDoc wraps words into a file on a single line with two modules: one
// line is never divided among workers, and two modules are read one after the
// other by one worker.
func aloneDoc(head, proj, mod string) string {
	return head + " /begin PROJECT " + proj + " /begin MODULE " + mod + " /end MODULE /begin MODULE verif_other \"x\" /end MODULE /end PROJECT"
}

type objRef struct {
	err    string
	field  string
	key    string
	val    string
	isMap  bool
	typed  map[string]map[string]string
	oddity string // the object alone is not read as one object
	leaves map[string]int
	places map[string]string // place in the module -> value
}

var (
	objCache  = map[string]*objRef{}
	headCache = map[string]*headRef{}
	nRefRuns  int64
)

type headRef struct {
	err  string
	lost string
	head string
	strs map[string]string
}

func readAlone(text string) (a2l.A2L, string) {
	nRefRuns++
	var a a2l.A2L
	var err error
	runQuiet(text, func() { a, err = a2l.ParseFromFile("ref.a2l") })
	if err != nil {
		return a, err.Error()
	}
	return a, ""
}

func refHead(head, proj, mod string) *headRef {
	k := head + "\x00" + proj + "\x00" + mod
	if r := headCache[k]; r != nil {
		return r
	}
	if len(headCache) > 20000 {
		headCache = map[string]*headRef{}
	}
	r := &headRef{}
	a, e := readAlone(aloneDoc(head, proj, mod))
	if e != "" {
		r.err = e
	} else {
		v := viewA2L(a)
		r.head = v.head
		if len(v.mods) != 2 {
			r.err = "reference document not read as two modules"
		} else {
			r.strs = v.mods[0].strs
			a.Project.Modules = a.Project.Modules[:1]
			c := map[string]int{}
			leaves(reflect.ValueOf(a), c, 0)
			ws, _, _ := lexA2L(head + " " + proj + " " + mod)
			for _, w := range ws {
				if l := leafText(w); l != "" && l != "0" && !allUpper(w) && w[0] != '/' && c[l] == 0 {
					r.lost = "the header is read without " + w
				}
			}
		}
	}
	headCache[k] = r
	return r
}

func refObj(o a2lObj) *objRef {
	if r := objCache[o.text]; r != nil {
		return r
	}
	if len(objCache) > 30000 {
		objCache = map[string]*objRef{}
	}
	r := &objRef{}
	a, e := readAlone(aloneDoc("ASAP2_VERSION 1 71", `verif_project "x"`, `verif_module "x" `+o.text))
	if e != "" {
		r.err = e
	} else {
		v := viewA2L(a)
		if len(v.mods) != 2 {
			r.oddity = sprintf("a file with this object alone and a second module is read as %d modules", len(v.mods))
		} else {
			m := v.mods[0]
			r.leaves = objLeaves(a.Project.Modules[0])
			r.places = objPlaces(a.Project.Modules[0])
			n := 0
			for f, d := range m.structs {
				r.field, r.val = f, d
				n++
			}
			for f, mm := range m.maps {
				for k, d := range mm {
					r.field, r.key, r.val, r.isMap = f, k, d, true
					n++
				}
			}
			r.typed = m.typed
			if n != 1 {
				r.oddity = sprintf("a file with this object alone is read as %d objects", n)
			} else if r.isMap && r.key != o.name {
				r.oddity = sprintf("a file with this object alone is read with an object %q", r.key)
			} else {
				r.oddity = conserved(o, r.leaves, r.places)
			}
		}
	}
	objCache[o.text] = r
	return r
}

// leafText is the value a word stands for.
func leafText(w string) string {
	if len(w) > 1 && w[0] == '"' {
		w = strings.Join(strings.Fields(strings.NewReplacer(`"`, "", `\`, "").Replace(w)), " ")
	}
	if f, err := strconv.ParseFloat(w, 64); err == nil {
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
	if n, err := strconv.ParseInt(w, 0, 64); err == nil {
		return strconv.FormatFloat(float64(n), 'g', -1, 64)
	}
	return w
}

// objLeaves counts the values in a module's objects.
func objLeaves(m a2l.Module) map[string]int {
	c := map[string]int{}
	v := reflect.ValueOf(m)
	for i := 0; i < v.NumField(); i++ {
		if k := v.Field(i).Kind(); k == reflect.Struct || k == reflect.Map {
			leaves(v.Field(i), c, 0)
		}
	}
	return c
}

func leaves(v reflect.Value, c map[string]int, depth int) {
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.String:
		if s := leafText(`"` + v.String() + `"`); s != "" {
			c[s]++
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() != 0 {
			c[strconv.FormatFloat(float64(v.Int()), 'g', -1, 64)]++
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() != 0 {
			c[strconv.FormatFloat(float64(v.Uint()), 'g', -1, 64)]++
		}
	case reflect.Float32, reflect.Float64:
		if v.Float() != 0 {
			c[strconv.FormatFloat(v.Float(), 'g', -1, 64)]++
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), c, depth+1)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if depth > 0 {
				leaves(it.Key(), c, depth+1)
			}
			leaves(it.Value(), c, depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), c, depth+1)
		}
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			leaves(v.Elem(), c, depth+1)
		}
	}
}

// objPlaces lists the values in a module's objects with the fields they are in.
// An object's own identifier as a key is written *.
func objPlaces(m a2l.Module) map[string]string {
	c := map[string]string{}
	v := reflect.ValueOf(m)
	for i := 0; i < v.NumField(); i++ {
		f, n := v.Field(i), v.Type().Field(i).Name
		switch f.Kind() {
		case reflect.Struct:
			places(f, n, c, 0)
		case reflect.Map:
			for it := f.MapRange(); it.Next(); {
				places(it.Value(), n+"/*", c, 1)
			}
		}
	}
	return c
}

func places(v reflect.Value, at string, c map[string]string, depth int) {
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.String:
		if s := leafText(`"` + v.String() + `"`); s != "" {
			c[at] = s
		}
	case reflect.Bool:
		if v.Bool() {
			c[at] = "true"
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() != 0 {
			c[at] = strconv.FormatFloat(float64(v.Int()), 'g', -1, 64)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() != 0 {
			c[at] = strconv.FormatFloat(float64(v.Uint()), 'g', -1, 64)
		}
	case reflect.Float32, reflect.Float64:
		if v.Float() != 0 {
			c[at] = strconv.FormatFloat(v.Float(), 'g', -1, 64)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() && f.Type.Kind() == reflect.Bool && strings.HasSuffix(f.Name, "Set") {
				continue // the parser's own bookkeeping
			}
			places(v.Field(i), at+"/"+f.Name, c, depth+1)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			places(it.Value(), at+"/{"+leafText(dumpVal(it.Key()))+"}", c, depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			places(v.Index(i), at+"/["+strconv.Itoa(i)+"]", c, depth+1)
		}
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			places(v.Elem(), at, c, depth+1)
		}
	}
}

// placeExists: the module still has such a field.
func placeExists(at string) bool {
	t := reflect.TypeOf(a2l.Module{})
	for _, s := range strings.Split(at, "/") {
		for t.Kind() == reflect.Pointer {
			t = t.Elem()
		}
		switch {
		case t.Kind() == reflect.Struct:
			f, ok := t.FieldByName(s)
			if !ok {
				return false
			}
			t = f.Type
		case t.Kind() == reflect.Map && (s == "*" || strings.HasPrefix(s, "{")):
			t = t.Elem()
		case (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && strings.HasPrefix(s, "["):
			t = t.Elem()
		default:
			return false
		}
	}
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Struct, reflect.Map, reflect.Slice, reflect.Array, reflect.Interface:
		return false
	}
	return true
}

// makeGolden prints the values of all objects of the corpus.
func makeGolden() {
	out := map[string]goldenObj{}
	for _, k := range kinds {
		for i := range tmpls[k] {
			t := &tmpls[k][i]
			o := a2lObj{kind: k, text: strings.Join(t.words, " ")}
			if len(t.words) > 2 {
				o.name = t.words[2]
			}
			r := refObj(o)
			if r.err != "" {
				os.Stderr.WriteString("REJECTED " + o.text + ": " + r.err + "\n")
				continue
			}
			var l []string
			for _, x := range sortedKeys(r.leaves) {
				for n := r.leaves[x]; n > 0; n-- {
					l = append(l, x)
				}
			}
			g := goldenObj{Values: l}
			for _, at := range sortedKeys(r.places) {
				g.Places = append(g.Places, [2]string{at, r.places[at]})
			}
			for j := 3; j+2 < len(t.words) && k != "A2ML" && k != "IF_DATA"; j++ {
				if !looksNumber(t.words[j]) && !enumWords[t.words[j]] {
					continue
				}
				read := func(x string) bool {
					w := append([]string{}, t.words...)
					w[j] = x
					_, e := readAlone(aloneDoc("ASAP2_VERSION 1 71", `verif_project "x"`, `verif_module "x" `+strings.Join(w, " ")))
					return e == ""
				}
				all := true
				for _, x := range junkPool {
					all = all && !read(x)
				}
				if !all {
					continue
				}
				g.Junk = append(g.Junk, j)
				b := badWord{J: j}
				for n, x := range numPool {
					// plain integers that are out of range, not other notations
					if _, e := strconv.ParseFloat(x, 64); e != nil || strings.ContainsAny(x, ".eExX") || !looksNumber(t.words[j]) {
						continue
					}
					if !read(x) {
						b.M |= 1 << uint(n)
					}
				}
				if b.M != 0 {
					g.Bad = append(g.Bad, b)
				}
			}
			for j := 3; j+2 < len(t.words) && k != "A2ML" && k != "IF_DATA"; j++ {
				if t.words[j][0] == '"' || t.words[j][0] == '/' || t.words[j-1][0] == '/' {
					continue
				}
				f := freeWord{J: j}
				var why []string
				for n, x := range freePool(t.words[j]) {
					w := append([]string{}, t.words...)
					w[j] = x
					a, e := readAlone(aloneDoc("ASAP2_VERSION 1 71", `verif_project "x"`, `verif_module "x" `+strings.Join(w, " ")))
					if e != "" || len(a.Project.Modules) != 2 {
						why = append(why, x+": "+e)
						continue
					}
					pl := objPlaces(a.Project.Modules[0])
					var ch []string
					for _, at := range unionKeys(pl, r.places) {
						if pl[at] != r.places[at] {
							ch = append(ch, at)
						}
					}
					lt := leafText(x)
					if lt == "0" {
						lt = ""
					}
					if len(ch) == 0 && leafText(x) == leafText(t.words[j]) {
						continue
					}
					if len(ch) != 1 || pl[ch[0]] != lt || f.P != "" && ch[0] != f.P {
						why = append(why, x+": changes "+strings.Join(ch, ","))
						continue
					}
					f.P = ch[0]
					f.M |= 1 << uint(n)
				}
				if looksNumber(t.words[j]) && f.M>>9&1 == 1 && f.M>>11&1 == 1 {
					// stored as it is written: only what an address may be
					f.M &= 1<<0 | 1<<3 | 1<<4 | 1<<5 | 1<<6 | 1<<7 | 1<<8 | 1<<9 | 1<<10 | 1<<18 | 1<<20
				}
				if f.P != "" {
					g.Free = append(g.Free, f)
				}
				if len(why) > 0 && looksNumber(t.words[j]) {
					os.Stderr.WriteString("FREE " + k + " word " + strconv.Itoa(j) + " " + t.words[j-1] + " " + t.words[j] + " at " + f.P + ": " + strings.Join(why, "; ") + "\n")
				}
			}
			out[goldenKey(t)] = g
			in := map[string]bool{}
			for _, w := range t.words {
				in[leafText(w)] = true
			}
			for x := range r.leaves {
				if !in[x] {
					os.Stderr.WriteString(k + " extra " + x + "\n")
				}
			}
			for _, w := range t.words[2:] {
				if r.leaves[leafText(w)] == 0 && leafText(w) != "0" && leafText(w) != "" && !allUpper(w) && w[0] != '/' {
					os.Stderr.WriteString(k + " missing " + w + "\n")
				}
			}
		}
	}
	os.Stdout.WriteString("{\n")
	ks := sortedKeys(out)
	for i, k := range ks {
		b, _ := json.Marshal(out[k])
		os.Stdout.WriteString(strconv.Quote(k) + ":" + string(b))
		if i+1 < len(ks) {
			os.Stdout.WriteString(",")
		}
		os.Stdout.WriteString("\n")
	}
	os.Stdout.WriteString("}\n")
}

// a2lVerdict: what reading this text must give.
type a2lVerdict struct {
	mustOK, mustErr bool
	why             string
	lost            bool // an object alone is not read as one object
	want            a2lView
}

var verdictCache = map[string]*a2lVerdict{}

func judgeA2L(text string) *a2lVerdict {
	if v := verdictCache[text]; v != nil {
		return v
	}
	if len(verdictCache) > 64 {
		verdictCache = map[string]*a2lVerdict{}
	}
	v := judgeA2L1(text)
	verdictCache[text] = v
	return v
}

func judgeA2L1(text string) *a2lVerdict {
	w, odd, open := lexA2L(text)
	if odd != "" {
		return &a2lVerdict{why: odd}
	}
	d, broken, odd := readStruct(w)
	if odd != "" {
		return &a2lVerdict{why: odd}
	}
	if broken != "" {
		return &a2lVerdict{mustErr: true, why: broken}
	}
	if open {
		return &a2lVerdict{why: "open string or comment after the end"}
	}
	if len(d.mods) == 0 {
		return &a2lVerdict{why: "no module"}
	}
	v := &a2lVerdict{mustOK: true}
	head, proj := strings.Join(d.head, " "), strings.Join(d.proj, " ")
	for mi, m := range d.mods {
		h := refHead(head, proj, m.name+" "+m.long)
		if h.err != "" {
			return &a2lVerdict{mustErr: true, why: "header: " + h.err}
		}
		if h.lost != "" {
			return &a2lVerdict{why: h.lost, lost: true}
		}
		if mi == 0 {
			v.want.head = h.head
		}
		mv := modView{h.strs, map[string]string{}, map[string]map[string]string{}, map[string]map[string]string{}}
		seen := map[string]bool{}
		for _, o := range m.objs {
			if !moduleKinds[o.kind] {
				return &a2lVerdict{why: "unknown object kind " + o.kind}
			}
			if strings.Contains(o.text, "/begin MODULE") || o.name == "" && o.kind != "A2ML" && !singleKinds[o.kind] {
				return &a2lVerdict{why: "object without name"}
			}
			id := o.kind
			if !singleKinds[o.kind] {
				id += " " + o.name
			}
			if seen[id] {
				return &a2lVerdict{why: "identifier not unique: " + id}
			}
			seen[id] = true
			if e := junkIn(o); e != "" {
				return &a2lVerdict{mustErr: true, why: e}
			}
			r := refObj(o)
			if r.err != "" {
				if t, _, _ := templateOf(o); t != nil {
					return &a2lVerdict{why: id + ": a well-formed object was rejected: " + r.err, lost: true}
				}
				return &a2lVerdict{mustErr: true, why: id + ": " + r.err}
			}
			if r.oddity != "" {
				t, _, _ := templateOf(o)
				return &a2lVerdict{why: id + ": " + r.oddity, lost: t != nil}
			}
			if r.isMap {
				if mv.maps[r.field] == nil {
					mv.maps[r.field] = map[string]string{}
				}
				if _, dup := mv.maps[r.field][r.key]; dup {
					return &a2lVerdict{why: "key not unique"}
				}
				mv.maps[r.field][r.key] = r.val
			} else {
				mv.structs[r.field] = r.val
			}
			for f, t := range r.typed {
				if mv.typed[f] == nil {
					mv.typed[f] = map[string]string{}
				}
				for k, x := range t {
					mv.typed[f][k] = x
				}
			}
		}
		v.want.mods = append(v.want.mods, mv)
	}
	return v
}
