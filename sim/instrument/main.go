// instrument copies the non-test Go sources of a repository into a scratch
// tree and rewrites every source of nondeterminism (goroutines, channels,
// sync, files, clocks, processor count, map iteration) so that it goes through
// the simulator runtime under <out>/verifsim. The rewriting is done by text
// insertion: lines and comments stay where they are.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repoDir = flag.String("repo", "/repo", "repository")
	outDir  = flag.String("out", "", "scratch tree")
	rtDir   = flag.String("rt", "", "directory with the simulator packages, copied to <out>/verifsim")
)

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(2)
}

type pkgInfo struct {
	dir, path, name string
	files           []string
	imports         []string
	export          string
}

func main() {
	flag.Parse()
	if *outDir == "" || *rtDir == "" {
		die("need -out and -rt")
	}
	mod := modulePath(filepath.Join(*repoDir, "go.mod"))
	exports := goList()
	var pkgs []*pkgInfo
	err := filepath.Walk(*repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != *repoDir && (b == "vendor" || b == "testdata" || strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_")) {
				return filepath.SkipDir
			}
			bp, err := build.ImportDir(p, 0)
			if err != nil {
				if _, ok := err.(*build.NoGoError); ok {
					return nil
				}
				return err
			}
			if len(bp.GoFiles) == 0 {
				return nil
			}
			rel, _ := filepath.Rel(*repoDir, p)
			ip := mod
			if rel != "." {
				ip = mod + "/" + filepath.ToSlash(rel)
			}
			pkgs = append(pkgs, &pkgInfo{dir: p, path: ip, name: bp.Name, files: bp.GoFiles, imports: bp.Imports})
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	pkgs = topo(pkgs)
	// copy vendor, go.mod, go.sum
	for _, f := range []string{"go.mod", "go.sum"} {
		copyFile(filepath.Join(*repoDir, f), filepath.Join(*outDir, f), true)
	}
	if _, err := os.Stat(filepath.Join(*repoDir, "vendor")); err == nil {
		copyTree(filepath.Join(*repoDir, "vendor"), filepath.Join(*outDir, "vendor"))
		noExit(filepath.Join(*outDir, "vendor"))
	}
	copyTree(*rtDir, filepath.Join(*outDir, "verifsim"))
	site := 1
	var sites []string
	for _, p := range pkgs {
		instrumentPkg(p, mod, exports, &site, &sites)
	}
	// reset of all packages
	var b bytes.Buffer
	b.WriteString("package gen\n\nimport (\n")
	n := 0
	for i, p := range pkgs {
		if p.name != "main" {
			fmt.Fprintf(&b, "\tp%d %q\n", i, p.path)
			n++
		}
	}
	b.WriteString(")\n\nfunc ResetAll() {\n")
	for i, p := range pkgs {
		if p.name != "main" {
			fmt.Fprintf(&b, "\tp%d.VerifReset()\n", i)
		}
	}
	fmt.Fprintf(&b, "}\n\nconst NumSites = %d\n\nvar Sites = [...]string{\n", site)
	b.WriteString("\t\"?\",\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n")
	writeFile(filepath.Join(*outDir, "verifsim", "gen", "gen.go"), b.Bytes())
	fmt.Printf("instrumented %d packages, %d yield sites\n", len(pkgs), site-1)
}

func modulePath(f string) string {
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "module ") {
			return strings.Trim(strings.TrimSpace(l[7:]), `"`)
		}
	}
	die("no module line in %s", f)
	return ""
}

func topo(ps []*pkgInfo) []*pkgInfo {
	by := map[string]*pkgInfo{}
	for _, p := range ps {
		by[p.path] = p
	}
	var out []*pkgInfo
	seen := map[string]bool{}
	var visit func(p *pkgInfo)
	visit = func(p *pkgInfo) {
		if seen[p.path] {
			return
		}
		seen[p.path] = true
		imps := append([]string(nil), p.imports...)
		sort.Strings(imps)
		for _, i := range imps {
			if q, ok := by[i]; ok {
				visit(q)
			}
		}
		out = append(out, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].path < ps[j].path })
	for _, p := range ps {
		visit(p)
	}
	return out
}

func goList() map[string]string {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export", "./...")
	cmd.Dir = *repoDir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	m := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var x struct{ ImportPath, Export string }
		if err := dec.Decode(&x); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		m[x.ImportPath] = x.Export
		// vendored packages are imported by their plain path
		if i := strings.LastIndex(x.ImportPath, "/vendor/"); i >= 0 {
			m[x.ImportPath[i+8:]] = x.Export
		}
	}
	return m
}

// ---------------------------------------------------------------- rewriting

type edit struct {
	pos, end int // offsets; pos==end is an insertion
	seq      int
	gen      func(w *bytes.Buffer)
}

type fileRW struct {
	src   []byte
	edits []*edit
	fset  *token.FileSet
	tf    *token.File
}

func (f *fileRW) off(p token.Pos) int { return f.tf.Offset(p) }

func (f *fileRW) insert(p token.Pos, s string) {
	f.edits = append(f.edits, &edit{f.off(p), f.off(p), len(f.edits), func(w *bytes.Buffer) { w.WriteString(s) }})
}

func (f *fileRW) replace(p, e token.Pos, gen func(w *bytes.Buffer)) {
	f.edits = append(f.edits, &edit{f.off(p), f.off(e), len(f.edits), gen})
}

// finish sorts: by start, insertions first, then longer replacements first
func (f *fileRW) sortEdits() {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		ai, bi := a.pos == a.end, b.pos == b.end
		if ai != bi {
			return ai
		}
		if !ai && a.end != b.end {
			return a.end > b.end
		}
		return a.seq < b.seq
	})
}

// emit writes src[from:to] with all edits that lie inside; skip is an edit
// being expanded (so that emitting its own range does not recurse).
func (f *fileRW) emit(w *bytes.Buffer, from, to int, skip *edit) {
	i := sort.Search(len(f.edits), func(i int) bool { return f.edits[i].pos >= from })
	cur := from
	passedSkip := skip == nil
	for ; i < len(f.edits); i++ {
		e := f.edits[i]
		if e.pos >= to && !(e.pos == to && e.pos == e.end && false) {
			break
		}
		if e == skip {
			passedSkip = true
			continue
		}
		if !passedSkip && skip != nil && e.pos <= skip.pos {
			// edits ordered before the expanded one at the same start were
			// already emitted by the caller
			if e.pos == skip.pos {
				continue
			}
		}
		if e.pos < cur || e.end > to {
			continue
		}
		w.Write(f.src[cur:e.pos])
		e.gen(w)
		cur = e.end
	}
	if cur < to {
		w.Write(f.src[cur:to])
	}
}

func (f *fileRW) node(w *bytes.Buffer, n ast.Node, skip *edit) {
	f.emit(w, f.off(n.Pos()), f.off(n.End()), skip)
}

var osFuncs = set("ReadFile", "Open", "OpenFile", "Create", "WriteFile", "File", "Stdout", "Stderr", "Stat", "Lstat", "Remove", "Exit", "MkdirAll", "Mkdir", "Rename", "Getwd", "CreateTemp", "RemoveAll", "TempDir", "NewFile", "Truncate", "Chdir", "MkdirTemp", "Chmod", "Chown", "Lchown", "Chtimes", "Link", "Symlink", "Readlink", "ReadDir", "SameFile", "Getpid", "DirFS")
var ioutilFuncs = set("ReadFile", "WriteFile", "TempFile", "TempDir")
var ioutilNames = map[string]string{"TempFile": "CreateTemp", "TempDir": "MkdirTemp"}
var filepathFuncs = set("Glob", "EvalSymlinks", "Abs")
var ioFuncs = set("Pipe", "PipeReader", "PipeWriter")
var randV2Funcs = set("Int", "IntN", "Int32", "Int32N", "Int64", "Int64N", "Uint", "UintN", "Uint32", "Uint32N", "Uint64", "Uint64N", "Float32", "Float64", "Perm", "Shuffle", "NormFloat64", "ExpFloat64")
var randFuncs = set("Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Uint32", "Uint64", "Float32", "Float64", "Perm", "Shuffle", "Seed", "Read", "NormFloat64", "ExpFloat64")
var timeFuncs = set("Now", "Since", "Until", "Sleep", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc", "Timer", "Ticker")
var contextFuncs = set("WithCancel", "WithCancelCause", "WithTimeout", "WithTimeoutCause", "WithDeadline", "WithDeadlineCause", "WithoutCancel", "Cause", "AfterFunc")
var runtimeFuncs = set("NumCPU", "GOMAXPROCS", "Gosched", "NumGoroutine", "Goexit")
var logFuncs = set("Fatal", "Fatalf", "Fatalln")
var fmtFuncs = set("Print", "Println", "Printf")

// core is the type that tells what can be done with a value: for a type
// parameter one of those in its type set.
func core(t types.Type) types.Type {
	p, ok := t.(*types.TypeParam)
	if !ok {
		return t.Underlying()
	}
	i, ok := p.Constraint().Underlying().(*types.Interface)
	if !ok {
		return t.Underlying()
	}
	for k := 0; k < i.NumEmbeddeds(); k++ {
		switch e := i.EmbeddedType(k).(type) {
		case *types.Union:
			if e.Len() > 0 {
				return core(e.Term(0).Type())
			}
		default:
			n, ok := e.Underlying().(*types.Interface)
			if !ok {
				return e.Underlying()
			}
			for j := 0; j < n.NumEmbeddeds(); j++ {
				if u, ok := n.EmbeddedType(j).(*types.Union); ok && u.Len() > 0 {
					return core(u.Term(0).Type())
				}
			}
		}
	}
	return t.Underlying()
}

func set(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

func instrumentPkg(p *pkgInfo, mod string, exports map[string]string, site *int, sites *[]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var rws []*fileRW
	for _, fn := range p.files {
		full := filepath.Join(p.dir, fn)
		src, err := os.ReadFile(full)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, full, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		rws = append(rws, &fileRW{src: src, fset: fset, tf: fset.File(af.Pos())})
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})}
	tp, err := conf.Check(p.path, fset, files, info)
	if err != nil {
		die("type check of %s: %v", p.path, err)
	}
	initOrder := info.InitOrder
	_ = initOrder
	scope := tp.Scope()

	// which file declares what initialiser; generated reset functions per file
	type gen struct{ body func(w *bytes.Buffer) }
	perFile := make([][]func(w *bytes.Buffer), len(files))
	var resetCalls []string
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return i
			}
		}
		return -1
	}
	initialised := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			initialised[v] = true
		}
	}
	// zero values first
	names := scope.Names()
	n := 0
	for _, nm := range names {
		v, ok := scope.Lookup(nm).(*types.Var)
		if !ok || nm == "_" {
			continue
		}
		fi := fileOf(v.Pos())
		fn := fmt.Sprintf("verifReset%d", n)
		n++
		nmc := nm
		perFile[fi] = append(perFile[fi], func(w *bytes.Buffer) {
			fmt.Fprintf(w, "func %s() { simrt.Zero(&%s) }\n", fn, nmc)
		})
		resetCalls = append(resetCalls, fn)
	}
	for _, in := range info.InitOrder {
		if len(in.Lhs) == 1 && in.Lhs[0].Name() == "_" {
			if tv := info.Types[in.Rhs]; tv.IsNil() || tv.Value != nil {
				continue
			}
		}
		fi := fileOf(in.Rhs.Pos())
		fn := fmt.Sprintf("verifReset%d", n)
		n++
		in := in
		rw := rws[fi]
		perFile[fi] = append(perFile[fi], func(w *bytes.Buffer) {
			fmt.Fprintf(w, "func %s() { ", fn)
			for i, v := range in.Lhs {
				if i > 0 {
					w.WriteString(", ")
				}
				w.WriteString(v.Name())
			}
			w.WriteString(" = ")
			rw.node(w, in.Rhs, nil)
			w.WriteString(" }\n")
		})
		resetCalls = append(resetCalls, fn)
	}
	ninit := 0
	for i, f := range files {
		rw := rws[i]
		r := &rewriter{rw: rw, info: info, file: f, site: site, sites: sites, fset: fset, repo: *repoDir, pkg: tp, uniq: new(int)}
		r.run()
		// init functions become callable
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" || fd.Body == nil {
				continue
			}
			nm := fmt.Sprintf("verifInit%d", ninit)
			ninit++
			rw.replace(fd.Name.Pos(), fd.Name.End(), func(w *bytes.Buffer) { w.WriteString(nm) })
			perFile[i] = append(perFile[i], func(w *bytes.Buffer) { fmt.Fprintf(w, "func init() { %s() }\n", nm) })
			resetCalls = append(resetCalls, nm)
		}
	}
	sim := mod + "/verifsim"
	for i, f := range files {
		rw := rws[i]
		// imports: right after the package clause
		rw.insert(f.Name.End(), fmt.Sprintf("; import simrt %q; import simos %q; import simtime %q", sim+"/simrt", sim+"/simos", sim+"/simtime"))
		var tail bytes.Buffer
		tail.WriteString("\nvar _ = simrt.Keep\nvar _ = simos.Keep\nvar _ = simtime.Keep\n")
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			nm := ""
			if im.Name != nil {
				nm = im.Name.Name
			}
			if nm == "_" || nm == "." {
				continue
			}
			use := func(def, member string) {
				if nm != "" {
					def = nm
				}
				fmt.Fprintf(&tail, "var _ = %s.%s\n", def, member)
			}
			switch path {
			case "sync":
				repl := fmt.Sprintf("sync %q", sim+"/simsync")
				if nm != "" {
					repl = fmt.Sprintf("%s %q", nm, sim+"/simsync")
				}
				rw.replace(im.Pos(), im.End(), func(w *bytes.Buffer) { w.WriteString(repl) })
			case "os":
				use("os", "ErrNotExist")
			case "io/ioutil":
				use("ioutil", "Discard")
			case "time":
				use("time", "Second")
			case "context":
				use("context", "Canceled")
			case "path/filepath":
				use("filepath", "Separator")
			case "math/rand":
				use("rand", "NewSource")
			case "math/rand/v2":
				use("rand", "NewPCG")
			case "io":
				use("io", "EOF")
			case "runtime":
				use("runtime", "GOOS")
			case "fmt":
				use("fmt", "Sprint")
			case "log":
				use("log", "Flags")
			}
		}
		rw.sortEdits()
		var out bytes.Buffer
		rw.emit(&out, 0, len(rw.src), nil)
		out.Write(tail.Bytes())
		for _, g := range perFile[i] {
			g(&out)
		}
		if i == 0 {
			out.WriteString("\n// VerifReset puts every package-level variable back to its initial value.\nfunc VerifReset() {\n")
			for _, c := range resetCalls {
				out.WriteString("\t" + c + "()\n")
			}
			out.WriteString("}\n")
		}
		rel, _ := filepath.Rel(*repoDir, p.dir)
		writeFile(filepath.Join(*outDir, rel, p.files[i]), out.Bytes())
	}
}

type rewriter struct {
	rw    *fileRW
	info  *types.Info
	file  *ast.File
	fset  *token.FileSet
	site  *int
	sites *[]string
	repo  string
	pkg   *types.Package
	uniq  *int
	// enclosing functions: position ranges of function literals/decls
	funcs []ast.Node
	// receive expressions handled by an enclosing construct
	done map[ast.Node]bool
}

func (r *rewriter) newSite(pos token.Pos) string {
	p := r.fset.Position(pos)
	rel, err := filepath.Rel(r.repo, p.Filename)
	if err != nil {
		rel = p.Filename
	}
	*r.sites = append(*r.sites, fmt.Sprintf("%s:%d", rel, p.Line))
	s := strconv.Itoa(*r.site)
	*r.site++
	return s
}

func (r *rewriter) id() int { *r.uniq++; return *r.uniq }

func (r *rewriter) run() {
	r.done = map[ast.Node]bool{}
	for _, d := range r.file.Decls {
		r.walk(d)
	}
}

func (r *rewriter) walk(n ast.Node) {
	if n == nil {
		return
	}
	switch x := n.(type) {
	case *ast.FuncDecl:
		if x.Body == nil {
			return
		}
		r.funcs = append(r.funcs, x)
		r.walkChildren(x)
		r.funcs = r.funcs[:len(r.funcs)-1]
		return
	case *ast.FuncLit:
		r.funcs = append(r.funcs, x)
		r.walkChildren(x)
		r.funcs = r.funcs[:len(r.funcs)-1]
		return
	case *ast.BlockStmt:
		r.stmts(x.List)
	case *ast.CaseClause:
		r.stmts(x.Body)
	case *ast.CommClause:
		r.stmts(x.Body)
	case *ast.ForStmt:
		if len(x.Body.List) == 0 {
			r.rw.insert(x.Body.Lbrace+1, " simrt.Y("+r.newSite(x.Body.Lbrace)+"); ")
		}
	case *ast.GoStmt:
		r.goStmt(x)
	case *ast.SendStmt:
		if !r.done[x] {
			e := &edit{}
			*e = edit{r.rw.off(x.Pos()), r.rw.off(x.End()), len(r.rw.edits), func(w *bytes.Buffer) {
				w.WriteString("simrt.SendTo(")
				r.rw.node(w, x.Chan, e)
				w.WriteString(")(")
				r.rw.node(w, x.Value, e)
				w.WriteString(")")
			}}
			r.rw.edits = append(r.rw.edits, e)
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW && !r.done[x] {
			fn := "Recv"
			if tv, ok := r.info.Types[x]; ok {
				if _, isT := tv.Type.(*types.Tuple); isT {
					fn = "Recv2"
				}
			}
			r.replNode(x, func(w *bytes.Buffer, e *edit) {
				w.WriteString("simrt." + fn + "(")
				r.rw.node(w, x.X, e)
				w.WriteString(")")
			})
		}
	case *ast.RangeStmt:
		r.rangeStmt(x)
	case *ast.SelectStmt:
		r.selectStmt(x)
	case *ast.CallExpr:
		r.call(x)
	case *ast.SelectorExpr:
		r.selector(x)
	}
	r.walkChildren(n)
}

// replNode registers a replacement of node x whose generator may emit parts of x
func (r *rewriter) replNode(x ast.Node, gen func(w *bytes.Buffer, e *edit)) {
	e := &edit{}
	*e = edit{r.rw.off(x.Pos()), r.rw.off(x.End()), len(r.rw.edits), func(w *bytes.Buffer) { gen(w, e) }}
	r.rw.edits = append(r.rw.edits, e)
}

func (r *rewriter) walkChildren(n ast.Node) {
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c == nil {
			return false
		}
		r.walk(c)
		return false
	})
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			continue
		case *ast.EmptyStmt:
			continue
		}
		r.rw.insert(s.Pos(), "simrt.Y("+r.newSite(s.Pos())+"); ")
		inner := s
		for {
			if l, ok := inner.(*ast.LabeledStmt); ok {
				inner = l.Stmt
				continue
			}
			break
		}
		switch x := inner.(type) {
		case *ast.IncDecStmt:
			if r.shared(x.X) {
				op := "+"
				if x.Tok == token.DEC {
					op = "-"
				}
				site := r.newSite(x.Pos())
				r.replNode(x, func(w *bytes.Buffer, e *edit) {
					r.rw.node(w, x.X, e)
					w.WriteString(" = simrt.V(" + site + ", ")
					r.rw.node(w, x.X, e)
					w.WriteString(") " + op + " 1")
				})
			}
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !r.shared(x.Lhs[0]) {
				break
			}
			tv, ok := r.info.Types[x.Rhs[0]]
			if !ok {
				break
			}
			if x.Tok == token.ASSIGN {
				if tv.Value != nil || tv.IsNil() || isUntyped(tv.Type) {
					break
				}
				if _, tup := tv.Type.(*types.Tuple); tup {
					break
				}
				site := r.newSite(x.Pos())
				rhs := x.Rhs[0]
				r.rw.insert(rhs.Pos(), "simrt.V("+site+", ")
				r.rw.insert(rhs.End(), ")")
			} else if x.Tok != token.DEFINE {
				op := strings.TrimSuffix(x.Tok.String(), "=")
				site := r.newSite(x.Pos())
				r.replNode(x, func(w *bytes.Buffer, e *edit) {
					r.rw.node(w, x.Lhs[0], e)
					w.WriteString(" = simrt.V(" + site + ", ")
					r.rw.node(w, x.Lhs[0], e)
					w.WriteString(") " + op + " (")
					r.rw.node(w, x.Rhs[0], e)
					w.WriteString(")")
				})
			}
		}
	}
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

// shared reports whether an assignable expression may denote memory another
// goroutine can see, and can be evaluated twice without effect.
func (r *rewriter) shared(x ast.Expr) bool {
	pure := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			pure = false
		case *ast.UnaryExpr:
			if n.(*ast.UnaryExpr).Op == token.ARROW {
				pure = false
			}
		}
		return pure
	})
	if !pure {
		return false
	}
	switch y := x.(type) {
	case *ast.ParenExpr:
		return r.shared(y.X)
	case *ast.Ident:
		if y.Name == "_" {
			return false
		}
		v, ok := r.info.ObjectOf(y).(*types.Var)
		if !ok {
			return false
		}
		if v.Parent() == r.pkg.Scope() {
			return true
		}
		if len(r.funcs) > 1 { // captured variable of an enclosing function
			in := r.funcs[len(r.funcs)-1]
			return !(in.Pos() <= v.Pos() && v.Pos() <= in.End())
		}
		return false
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}

func (r *rewriter) pkgOf(x ast.Expr) string {
	id, ok := x.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return ""
	}
	return pn.Imported().Path()
}

func (r *rewriter) selector(x *ast.SelectorExpr) {
	repl := ""
	switch r.pkgOf(x.X) {
	case "os":
		if osFuncs[x.Sel.Name] {
			repl = "simos"
		}
	case "io/ioutil":
		if ioutilFuncs[x.Sel.Name] {
			repl = "simos"
			if n := ioutilNames[x.Sel.Name]; n != "" {
				r.rw.replace(x.Sel.Pos(), x.Sel.End(), func(w *bytes.Buffer) { w.WriteString(n) })
			}
		}
	case "path/filepath":
		if filepathFuncs[x.Sel.Name] {
			repl = "simos"
		}
	case "io":
		if ioFuncs[x.Sel.Name] {
			repl = "simos"
		}
	case "math/rand/v2":
		if randV2Funcs[x.Sel.Name] {
			repl = "simos.Rand2()"
		}
	case "math/rand":
		if randFuncs[x.Sel.Name] {
			repl = "simos.Rand()"
		}
	case "fmt":
		if fmtFuncs[x.Sel.Name] {
			repl = "simos"
		}
	case "log":
		if logFuncs[x.Sel.Name] {
			repl = "simos"
		}
	case "time":
		if timeFuncs[x.Sel.Name] {
			repl = "simtime"
		}
	case "context":
		if contextFuncs[x.Sel.Name] {
			repl = "simtime"
			if x.Sel.Name == "AfterFunc" {
				r.rw.replace(x.Sel.Pos(), x.Sel.End(), func(w *bytes.Buffer) { w.WriteString("ContextAfterFunc") })
			}
		}
	case "runtime":
		if runtimeFuncs[x.Sel.Name] {
			repl = "simrt"
		}
	}
	if repl != "" {
		r.rw.replace(x.X.Pos(), x.X.End(), func(w *bytes.Buffer) { w.WriteString(repl) })
	}
}

func (r *rewriter) isBuiltin(x ast.Expr, name string) bool {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	id, ok := x.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) call(x *ast.CallExpr) {
	switch {
	case r.isBuiltin(x.Fun, "close"):
		r.rw.replace(x.Fun.Pos(), x.Fun.End(), func(w *bytes.Buffer) { w.WriteString("simrt.Close") })
	case r.isBuiltin(x.Fun, "make"):
		tv, ok := r.info.Types[x.Args[0]]
		if !ok {
			return
		}
		var arg ast.Expr
		switch core(tv.Type).(type) {
		case *types.Map:
			if len(x.Args) == 2 {
				arg = x.Args[1]
			}
		case *types.Slice:
			if len(x.Args) == 3 {
				if l, ok := r.info.Types[x.Args[1]]; ok && l.Value != nil && constant.Sign(l.Value) == 0 {
					arg = x.Args[2]
				}
			}
		}
		if arg != nil {
			a, ok := r.info.Types[arg]
			if ok && a.Value != nil && a.Value.Kind() != constant.Int {
				return
			}
			r.rw.insert(arg.Pos(), "simrt.Cap(")
			r.rw.insert(arg.End(), ")")
		}
	}
}

func (r *rewriter) goStmt(g *ast.GoStmt) {
	call := g.Call
	site := r.newSite(g.Pos())
	multi := false
	if len(call.Args) == 1 {
		if tv, ok := r.info.Types[call.Args[0]]; ok {
			_, multi = tv.Type.(*types.Tuple)
		}
	}
	// is the function expression to be inlined?
	inlineFun := false
	switch f := call.Fun.(type) {
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin:
			inlineFun = true
		}
	case *ast.SelectorExpr:
		if r.pkgOf(f.X) != "" {
			if _, ok := r.info.Uses[f.Sel].(*types.Func); ok {
				inlineFun = true
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		inlineFun = true
	}
	r.replNode(g, func(w *bytes.Buffer, e *edit) {
		if multi || r.isBuiltin(call.Fun, "close") || r.isBuiltin(call.Fun, "panic") || r.isBuiltin(call.Fun, "println") {
			w.WriteString("simrt.Go(" + site + ", func() { ")
			r.rw.node(w, call, e)
			w.WriteString(" })")
			return
		}
		w.WriteString("simrt.Go(" + site + ", func() func() { ")
		fn := ""
		if !inlineFun {
			w.WriteString("f_ := ")
			r.rw.node(w, call.Fun, e)
			w.WriteString("; ")
			fn = "f_"
		}
		names := make([]string, len(call.Args))
		for i, a := range call.Args {
			tv := r.info.Types[a]
			if tv.Value != nil || tv.IsNil() {
				continue
			}
			names[i] = fmt.Sprintf("a%d_", i)
			w.WriteString(names[i] + " := ")
			r.rw.node(w, a, e)
			w.WriteString("; ")
		}
		w.WriteString("return func() { ")
		if fn != "" {
			w.WriteString(fn)
		} else {
			r.rw.node(w, call.Fun, e)
		}
		w.WriteString("(")
		for i, a := range call.Args {
			if i > 0 {
				w.WriteString(", ")
			}
			if names[i] != "" {
				w.WriteString(names[i])
			} else {
				r.rw.node(w, a, e)
			}
		}
		if call.Ellipsis.IsValid() {
			w.WriteString("...")
		}
		w.WriteString(") } }())")
	})
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) {
	tv, ok := r.info.Types[x.X]
	if !ok {
		return
	}
	if len(x.Body.List) == 0 {
		r.rw.insert(x.Body.Lbrace+1, " simrt.Y("+r.newSite(x.Body.Lbrace)+"); ")
	}
	n := r.id()
	hdrStart, hdrEnd := x.For, x.Body.Lbrace
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch core(tv.Type).(type) {
	case *types.Chan:
		var pre string
		e := &edit{}
		*e = edit{r.rw.off(hdrStart), r.rw.off(hdrEnd), len(r.rw.edits), func(w *bytes.Buffer) {
			v := fmt.Sprintf("v%d_", n)
			if !blank(x.Key) && x.Tok == token.DEFINE {
				v = x.Key.(*ast.Ident).Name
			}
			fmt.Fprintf(w, "for c%d_, %s, ok%d_ := simrt.RangeInit(", n, v, n)
			r.rw.node(w, x.X, e)
			w.WriteString("); ; ")
			_ = pre
		}}
		r.rw.edits = append(r.rw.edits, e)
		e2 := &edit{}
		*e2 = edit{r.rw.off(x.Body.Lbrace + 1), r.rw.off(x.Body.Lbrace + 1), -1, func(w *bytes.Buffer) {
			v := fmt.Sprintf("v%d_", n)
			if !blank(x.Key) && x.Tok == token.DEFINE {
				v = x.Key.(*ast.Ident).Name
			}
			fmt.Fprintf(w, " if %s, ok%d_ = simrt.Recv2(c%d_); !ok%d_ { break }; ", v, n, n, n)
			if x.Tok == token.ASSIGN && !blank(x.Key) {
				r.rw.node(w, x.Key, nil)
				fmt.Fprintf(w, " = %s; ", v)
			}
			if v == fmt.Sprintf("v%d_", n) {
				fmt.Fprintf(w, "_ = %s; ", v)
			}
		}}
		r.rw.edits = append(r.rw.edits, e2)
	case *types.Map:
		e := &edit{}
		*e = edit{r.rw.off(hdrStart), r.rw.off(hdrEnd), len(r.rw.edits), func(w *bytes.Buffer) {
			fmt.Fprintf(w, "for it%d_ := simrt.MapRange(", n)
			r.rw.node(w, x.X, e)
			fmt.Fprintf(w, "); it%d_.Next(); ", n)
		}}
		r.rw.edits = append(r.rw.edits, e)
		e2 := &edit{}
		*e2 = edit{r.rw.off(x.Body.Lbrace + 1), r.rw.off(x.Body.Lbrace + 1), -1, func(w *bytes.Buffer) {
			var l, rr []string
			add := func(k ast.Expr, f string) {
				if !blank(k) {
					var b bytes.Buffer
					r.rw.node(&b, k, nil)
					l = append(l, b.String())
					rr = append(rr, fmt.Sprintf("it%d_.%s", n, f))
				}
			}
			add(x.Key, "K")
			add(x.Value, "V")
			if len(l) > 0 {
				fmt.Fprintf(w, " %s %s %s; ", strings.Join(l, ", "), x.Tok, strings.Join(rr, ", "))
			}
		}}
		r.rw.edits = append(r.rw.edits, e2)
	}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) {
	n := r.id()
	if len(x.Body.List) == 0 {
		r.replNode(x, func(w *bytes.Buffer, e *edit) { w.WriteString("for { simrt.BlockForever() }") })
		return
	}
	type cse struct {
		cc   *ast.CommClause
		send *ast.SendStmt
		recv *ast.UnaryExpr
		lhs  []ast.Expr
		tok  token.Token
	}
	var cs []cse
	hasDef := false
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		c := cse{cc: cc}
		switch y := cc.Comm.(type) {
		case nil:
			hasDef = true
		case *ast.SendStmt:
			c.send = y
			r.done[y] = true
		case *ast.ExprStmt:
			c.recv = unparen(y.X).(*ast.UnaryExpr)
		case *ast.AssignStmt:
			c.recv = unparen(y.Rhs[0]).(*ast.UnaryExpr)
			c.lhs, c.tok = y.Lhs, y.Tok
		}
		if c.recv != nil {
			r.done[c.recv] = true
		}
		cs = append(cs, c)
	}
	// header
	e := &edit{}
	*e = edit{r.rw.off(x.Select), r.rw.off(x.Body.Lbrace), len(r.rw.edits), func(w *bytes.Buffer) {
		w.WriteString("switch ")
		var l []string
		for i, c := range cs {
			if c.send != nil || c.recv != nil {
				l = append(l, fmt.Sprintf("s%d_%d_", n, i))
			}
		}
		if len(l) > 0 {
			w.WriteString(strings.Join(l, ", ") + " := ")
			k := 0
			for _, c := range cs {
				if c.send == nil && c.recv == nil {
					continue
				}
				if k > 0 {
					w.WriteString(", ")
				}
				k++
				if c.send != nil {
					w.WriteString("simrt.SCase(")
					r.rw.node(w, c.send.Chan, nil)
					w.WriteString(")(")
					r.rw.node(w, c.send.Value, nil)
					w.WriteString(")")
				} else {
					w.WriteString("simrt.RCase(")
					r.rw.node(w, c.recv.X, nil)
					w.WriteString(")")
				}
			}
			w.WriteString("; ")
		}
		fmt.Fprintf(w, "simrt.Select(%v", hasDef)
		for _, s := range l {
			w.WriteString(", " + s)
		}
		w.WriteString(") ")
	}}
	r.rw.edits = append(r.rw.edits, e)
	idx := 0
	for i, c := range cs {
		c := c
		i := i
		my := idx
		if c.send != nil || c.recv != nil {
			idx++
		} else {
			my = -1
		}
		last := i == len(cs)-1
		e := &edit{}
		*e = edit{r.rw.off(c.cc.Case), r.rw.off(c.cc.Colon + 1), len(r.rw.edits), func(w *bytes.Buffer) {
			if last {
				w.WriteString("default: ")
			} else {
				fmt.Fprintf(w, "case %d: ", my)
			}
			if c.recv != nil && len(c.lhs) > 0 {
				for j, l := range c.lhs {
					if j > 0 {
						w.WriteString(", ")
					}
					r.rw.node(w, l, nil)
				}
				fn := "Val"
				if len(c.lhs) == 2 {
					fn = "Val2"
				}
				fmt.Fprintf(w, " %s s%d_%d_.%s(); ", c.tok, n, i, fn)
			}
		}}
		r.rw.edits = append(r.rw.edits, e)
	}
}

func unparen(x ast.Expr) ast.Expr {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			return x
		}
		x = p.X
	}
}

// noExit makes vendored code panic where it would end the process.
func noExit(dir string) {
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil || !bytes.Contains(b, []byte("os.Exit(1)")) {
			return nil
		}
		ls := strings.Split(string(b), "\n")
		for i, l := range ls {
			if !strings.HasPrefix(strings.TrimSpace(l), "//") {
				ls[i] = strings.ReplaceAll(l, "os.Exit(1)", `func() { _ = os.Exit; panic("os.Exit(1) called") }()`)
			}
		}
		writeFile(p, []byte(strings.Join(ls, "\n")))
		return nil
	})
}

// ---------------------------------------------------------------- files

func writeFile(p string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("%v", err)
	}
}

func copyFile(a, b string, optional bool) {
	c, err := os.ReadFile(a)
	if err != nil {
		if optional && os.IsNotExist(err) {
			return
		}
		die("%v", err)
	}
	writeFile(b, c)
}

func copyTree(a, b string) {
	err := filepath.Walk(a, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(a, p)
		if fi.IsDir() {
			return nil
		}
		copyFile(p, filepath.Join(b, rel), false)
		return nil
	})
	if err != nil {
		die("%v", err)
	}
}
