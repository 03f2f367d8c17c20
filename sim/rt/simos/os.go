// Package simos replaces the file system and the console of the instrumented
// code by an in-memory one in which every operation can fail. Nothing here
// touches the real file system.
package simos

import (
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	rand2 "math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/asap2Go/calibrationReader/verifsim/simrt"
)

// Keep is referenced by every instrumented file.
var Keep int

// Fault is one injected failure. It applies to the operations Op on Path,
// from the Nth occurrence on, Times times (0: always).
type Fault struct {
	Path  string `json:"path"`
	Op    string `json:"op"`            // open stat read create write close
	Nth   int    `json:"nth,omitempty"` // occurrences to let pass first
	Times int    `json:"times,omitempty"`
	Kind  string `json:"kind"`            // ENOENT EACCES EMFILE EIO EISDIR ENOSPC EROFS EPIPE short slow
	After int    `json:"after,omitempty"` // read: bytes delivered before; short: bytes per call; slow: microseconds
}

// Input is a file of the simulated disk.
type Input struct {
	Path string
	Data []byte
	Dir  bool
	RO   bool // can not be opened for writing
}

type node struct {
	path string
	data []byte
	dir  bool
	ro   bool
	mod  int64
	own  bool // data belongs to this node only
}

type faultState struct {
	Fault
	seen  int
	fired int
}

// OpRec is one recorded file operation.
type OpRec struct {
	Op   string
	Path string
	Err  bool
}

var (
	nodes   []*node
	faults  []*faultState
	ops     []OpRec
	nops    int
	openFDs int
	Stdout  = &File{name: "/dev/stdout", n: &node{path: "/dev/stdout"}, console: true}
	Stderr  = &File{name: "/dev/stderr", n: &node{path: "/dev/stderr"}, console: true}
)

// Reset installs the disk and the faults of a run. Called by the host.
func Reset(in []Input, fl []Fault) {
	nodes = nil
	faults = nil
	cwd = "."
	for _, i := range in {
		nodes = append(nodes, &node{path: clean(i.Path), data: i.Data, dir: i.Dir, ro: i.RO})
	}
	for _, f := range fl {
		f := f
		if f.Path != "" {
			f.Path = clean(f.Path)
		}
		faults = append(faults, &faultState{Fault: f})
	}
	nops = 0
	openFDs = 0
	tmpNo = 0
	draws.s = 0
	Stdout.n = &node{path: "/dev/stdout"}
	Stderr.n = &node{path: "/dev/stderr"}
}

// Fired returns how often each fault fired.
func Fired() []int {
	r := make([]int, len(faults))
	for i, f := range faults {
		r[i] = f.fired
	}
	return r
}

// ErrCounts says what kinds of error faults have fired so far, as counts: hard
// (open, read), soft (stat, close), create.
//
//go:norace
func ErrCounts() (hard, soft, create int) {
	for i := 0; i < len(faults); i++ {
		f := faults[i]
		if same(f.Kind, "slow") || same(f.Kind, "short") {
			continue
		}
		if same(f.Path, "calibReader.log") && !same(f.Op, "create") {
			continue // trouble with the log is not trouble with an input
		}
		switch {
		case same(f.Op, "open"), same(f.Op, "read"):
			hard += f.fired
		case same(f.Op, "stat"), same(f.Op, "close"):
			soft += f.fired
		case same(f.Op, "create"):
			create += f.fired
		}
	}
	return
}

// Ops returns the recorded operations.
func Ops() []OpRec {
	r := make([]OpRec, nops)
	for i := range r {
		r[i] = ops[i]
	}
	return r
}

// ClearOps forgets the recorded operations.
func ClearOps() { nops = 0 }

// NewConsole makes a write-only device.
func NewConsole(path string) *File {
	return &File{name: path, n: &node{path: path}, console: true}
}

// Put replaces the content of a file, as another process would.
//
//go:norace
func Put(path string, data []byte) {
	p := clean(path)
	n := lookup(p)
	if n == nil {
		addNode(&node{path: p, data: data, mod: simrt.WallNow()})
		return
	}
	n.data, n.own = data, false
	n.mod = simrt.WallNow()
}

// OpenFDs is the number of files opened and not closed.
func OpenFDs() int { return openFDs }

// clean names a file in one way. Relative names are names of their own in the
// simulated file system; they begin at the folder /sim.
func clean(p string) string {
	if p == "" {
		return p
	}
	p = filepath.Clean(p)
	if !filepath.IsAbs(p) {
		if d := workDir(); d != "." {
			p = filepath.Join(d, p)
		}
	}
	if p == "/sim" {
		return "."
	}
	if strings.HasPrefix(p, "/sim/") {
		p = p[len("/sim/"):]
	}
	return p
}

var cwd = "."

//go:norace
func workDir() string { return cwd }

//go:norace
func setWorkDir(d string) { cwd = d }

//go:norace
func addFD(d int) { openFDs += d }

//go:norace
func note(op, path string, err error) {
	if nops == len(ops) {
		n := make([]OpRec, len(ops)*2+64)
		for i := 0; i < nops; i++ {
			n[i] = ops[i]
		}
		ops = n
	}
	ops[nops] = OpRec{op, path, err != nil}
	nops++
}

//go:norace
func same(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

//go:norace
func lookup(path string) *node {
	for i := 0; i < len(nodes); i++ {
		if same(nodes[i].path, path) {
			return nodes[i]
		}
	}
	return nil
}

//go:norace
func addNode(n *node) {
	nn := make([]*node, len(nodes)+1)
	for i := 0; i < len(nodes); i++ {
		nn[i] = nodes[i]
	}
	nn[len(nodes)] = n
	nodes = nn
}

// hit returns the fault that fires for this operation.
//
//go:norace
func hit(op, path string) *faultState {
	var r *faultState
	for i := 0; i < len(faults); i++ {
		f := faults[i]
		if !same(f.Op, op) || !same(f.Path, path) {
			continue
		}
		f.seen++
		if f.seen <= f.Nth || (f.Times > 0 && f.seen > f.Nth+f.Times) {
			continue
		}
		if r == nil {
			r = f
		}
	}
	return r
}

//go:norace
func (f *faultState) fire() { f.fired++ }

func errno(k string) error {
	switch k {
	case "ENOENT":
		return syscall.ENOENT
	case "EACCES":
		return syscall.EACCES
	case "EMFILE":
		return syscall.EMFILE
	case "EISDIR":
		return syscall.EISDIR
	case "ENOSPC":
		return syscall.ENOSPC
	case "EROFS":
		return syscall.EROFS
	case "EPIPE":
		return syscall.EPIPE
	case "EPERM":
		return syscall.EPERM
	case "ENFILE":
		return syscall.ENFILE
	case "ENOTDIR":
		return syscall.ENOTDIR
	case "ETXTBSY":
		return syscall.ETXTBSY
	case "ESTALE":
		return syscall.ESTALE
	case "ETIMEDOUT":
		return syscall.ETIMEDOUT
	case "ENOMEM":
		return syscall.ENOMEM
	case "ELOOP":
		return syscall.ELOOP
	case "ENAMETOOLONG":
		return syscall.ENAMETOOLONG
	case "ENODEV":
		return syscall.ENODEV
	case "EAGAIN":
		return syscall.EAGAIN
	case "EBADF":
		return syscall.EBADF
	case "ENXIO":
		return syscall.ENXIO
	}
	return syscall.EIO
}

// gate applies open/create/stat/close/write faults; slow ones park the task.
func gate(op, path string) error {
	if simrt.Active() {
		simrt.SyncPoint()
	}
	f := hit(op, path)
	if f == nil {
		return nil
	}
	switch f.Kind {
	case "short":
		return nil
	case "slow":
		f.fire()
		if simrt.Active() {
			simrt.Sleep(time.Duration(f.After) * time.Microsecond)
		}
		return nil
	}
	if op == "read" {
		return nil // handled with the byte position
	}
	f.fire()
	return errno(f.Kind)
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

// File replaces os.File.
type File struct {
	name    string
	n       *node
	off     int
	write   bool
	console bool
	closed  bool
	app     bool
	dirty   bool
}

func open(op, name string, flag int) (*File, error) {
	p := clean(name)
	if name == "" {
		note(op, p, syscall.ENOENT)
		return nil, perr("open", name, syscall.ENOENT)
	}
	if err := gate(op, p); err != nil {
		note(op, p, err)
		return nil, perr("open", name, err)
	}
	n := lookup(p)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			note(op, p, syscall.ENOENT)
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &node{path: p}
		addNode(n)
		note("made", p, nil)
	} else if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		note(op, p, syscall.EISDIR)
		return nil, perr("open", name, syscall.EISDIR)
	}
	if n.ro && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		note(op, p, syscall.EACCES)
		return nil, perr("open", name, syscall.EACCES)
	}
	if flag&os.O_TRUNC != 0 {
		note("emptied", p, nil)
		truncNode(n)
	}
	note(op, p, nil)
	note("opened", p, nil)
	addFD(1)
	return &File{name: name, n: n, write: flag&(os.O_WRONLY|os.O_RDWR) != 0, app: flag&os.O_APPEND != 0}, nil
}

//go:norace
func truncNode(n *node) { n.data, n.own = nil, false }

//go:norace
func nodeMod(n *node) int64 { return n.mod }

//go:norace
func nodeData(n *node) []byte { return n.data }

func Open(name string) (*File, error) { return open("open", name, os.O_RDONLY) }
func Create(name string) (*File, error) {
	return open("create", name, os.O_RDWR|os.O_CREATE|os.O_TRUNC)
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	return open(op, name, flag)
}
func NewFile(fd uintptr, name string) *File { return Stdout }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return ^uintptr(0) }

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, perr("read", f.name, os.ErrClosed)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if err := gate("read", f.n.path); err != nil {
		return 0, perr("read", f.name, err)
	}
	data := nodeData(f.n)
	limit := len(b)
	end := len(data)
	for i := 0; i < len(faults); i++ {
		q := faults[i]
		if !same(q.Op, "read") || !same(q.Path, f.n.path) {
			continue
		}
		switch q.Kind {
		case "short":
			if q.After > 0 && q.After < limit {
				limit = q.After
				q.fire()
			}
		case "slow":
		default:
			if q.After < end {
				end = q.After
			}
			if f.off >= end && q.After <= len(data) {
				q.fire()
				note("read", f.n.path, syscall.EIO)
				return 0, perr("read", f.name, errno(q.Kind))
			}
		}
	}
	if f.off >= len(data) {
		return 0, io.EOF
	}
	n := end - f.off
	if n > limit {
		n = limit
	}
	copy(b, data[f.off:f.off+n])
	f.off += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	g := *f
	g.off = int(off)
	t := 0
	for t < len(b) {
		n, err := g.Read(b[t:])
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(f.off)
	case io.SeekEnd:
		off += int64(len(nodeData(f.n)))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = int(off)
	return off, nil
}

// store puts b into the file at the file's position.
//
//go:norace
func (f *File) store(b []byte) {
	n := f.n
	n.mod = simrt.WallNow()
	if len(b) > 0 {
		f.wrote()
	}
	if f.console || len(b) == 0 {
		return
	}
	at := f.off
	if f.app {
		at = len(n.data)
	}
	need := at + len(b)
	if need > cap(n.data) || !n.own {
		nd := make([]byte, len(n.data), (len(n.data)+need)*2+64)
		for i := 0; i < len(n.data); i++ {
			nd[i] = n.data[i]
		}
		n.data, n.own = nd, true
	}
	if need > len(n.data) {
		n.data = n.data[:need]
	}
	for i := 0; i < len(b); i++ {
		n.data[at+i] = b[i]
	}
	f.off = need
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	path := f.n.path
	if simrt.Active() {
		simrt.SyncPoint()
	}
	if q := hit("write", path); q != nil {
		switch q.Kind {
		case "slow":
			q.fire()
			if simrt.Active() {
				simrt.Sleep(time.Duration(q.After) * time.Microsecond)
			}
		case "short":
			q.fire()
			n := q.After
			if n > len(b) {
				n = len(b)
			}
			f.store(b[:n])
			if n == len(b) {
				return n, nil
			}
			return n, perr("write", f.name, syscall.ENOSPC)
		default:
			q.fire()
			return 0, perr("write", f.name, errno(q.Kind))
		}
	}
	f.store(b)
	return len(b), nil
}

// wrote notes the first write to a file.
//
//go:norace
func (f *File) wrote() {
	if !f.console && !f.dirty {
		f.dirty = true
		note("written", f.n.path, nil)
	}
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	g := *f
	g.off = int(off)
	return g.Write(b)
}
func (f *File) Sync() error {
	if f.closed {
		return perr("sync", f.name, os.ErrClosed)
	}
	if err := gate("sync", f.n.path); err != nil {
		return perr("sync", f.name, err)
	}
	return nil
}
func (f *File) Truncate(n int64) error  { return Truncate(f.n.path, n) }
func (f *File) Chmod(fs.FileMode) error { note("chmod", f.n.path, nil); return nil }
func (f *File) Chown(u, g int) error    { note("chmod", f.n.path, nil); return nil }
func (f *File) Chdir() error            { return nil }
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	return ReadDir(f.n.path)
}
func (f *File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }
func (f *File) Stat() (fs.FileInfo, error) {
	if err := gate("stat", f.n.path); err != nil {
		return nil, perr("stat", f.name, err)
	}
	return info{f.n}, nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.console {
		return nil
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	addFD(-1)
	note("closed", f.n.path, nil)
	if err := gate("close", f.n.path); err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

type info struct{ n *node }

func (i info) Name() string { return filepath.Base(i.n.path) }
func (i info) Size() int64  { return int64(len(nodeData(i.n))) }
func (i info) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i info) ModTime() time.Time { return time.Unix(nodeMod(i.n)/1e9, 0) }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() interface{}   { return nil }

// ReadFile behaves as os.ReadFile: on a failing read it returns what it got
// and the error.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := 0
	if i, err := f.Stat(); err == nil {
		size = int(i.Size())
	}
	size++
	if size < 512 {
		size = 512
	}
	data := make([]byte, 0, size)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

func WriteFile(name string, b []byte, perm fs.FileMode) error {
	f, err := Create(name)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Stat(name string) (fs.FileInfo, error) {
	p := clean(name)
	if err := gate("stat", p); err != nil {
		return nil, perr("stat", name, err)
	}
	n := lookup(p)
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{n}, nil
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

//go:norace
func drop(p string) bool {
	for i := 0; i < len(nodes); i++ {
		if same(nodes[i].path, p) {
			nodes[i] = &node{path: "\x00removed"}
			return true
		}
	}
	return false
}

func Remove(name string) error {
	note("removed", clean(name), nil)
	if !drop(clean(name)) {
		return perr("remove", name, syscall.ENOENT)
	}
	return nil
}
func RemoveAll(name string) error {
	note("removed", clean(name), nil)
	drop(clean(name))
	return nil
}
func Truncate(name string, n int64) error {
	p := clean(name)
	note("truncated", p, nil)
	f := lookup(p)
	if f == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	cutNode(f, int(n))
	return nil
}

//go:norace
func cutNode(f *node, n int) {
	if n < len(f.data) {
		f.data, f.own = f.data[:n:n], false
	}
}
func Rename(a, b string) error {
	note("renamed", clean(a), nil)
	note("renamed", clean(b), nil)
	n := lookup(clean(a))
	if n == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	d := nodeData(n)
	drop(clean(b))
	addNode(&node{path: clean(b), data: d})
	drop(clean(a))
	return nil
}

// Mkdir makes a directory; directories the simulated files lie in exist.
func Mkdir(p string, m fs.FileMode) error {
	if isDir(clean(p)) || lookup(clean(p)) != nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	note("made", clean(p), nil)
	addNode(&node{path: clean(p), dir: true})
	return nil
}
func MkdirAll(p string, m fs.FileMode) error {
	if isDir(clean(p)) {
		return nil
	}
	return Mkdir(p, m)
}
func MkdirTemp(dir, pattern string) (string, error) {
	p := filepath.Join("/sim/tmp", dir, fmt.Sprint(pattern, nextTmp()))
	return p, Mkdir(p, 0o700)
}

//go:norace
func isDir(p string) bool {
	if p == "." || p == "/" || p == "/sim" || p == "/sim/tmp" {
		return true
	}
	for i := 0; i < len(nodes); i++ {
		q := nodes[i].path
		if len(q) > len(p) && q[len(p)] == '/' && same(q[:len(p)], p) || nodes[i].dir && same(q, p) {
			return true
		}
	}
	return false
}

func change(op, name string) error {
	note("chmod", clean(name), nil)
	if lookup(clean(name)) == nil && !isDir(clean(name)) {
		return perr(op, name, syscall.ENOENT)
	}
	return nil
}
func Chmod(name string, m fs.FileMode) error              { return change("chmod", name) }
func Chown(name string, u, g int) error                   { return change("chown", name) }
func Lchown(name string, u, g int) error                  { return change("lchown", name) }
func Chtimes(name string, a time.Time, m time.Time) error { return change("chtimes", name) }
func Link(a, b string) error {
	n := lookup(clean(a))
	if n == nil {
		return perr("link", a, syscall.ENOENT)
	}
	if lookup(clean(b)) != nil {
		return perr("link", b, syscall.EEXIST)
	}
	note("made", clean(b), nil)
	addNode(&node{path: clean(b), data: nodeData(n)})
	return nil
}
func Symlink(a, b string) error { return Link(a, b) }
func Readlink(name string) (string, error) {
	return "", perr("readlink", name, syscall.EINVAL)
}
func EvalSymlinks(name string) (string, error) {
	if _, err := Lstat(name); err != nil && !isDir(clean(name)) {
		return "", err
	}
	return clean(name), nil
}
func Abs(name string) (string, error) {
	if filepath.IsAbs(name) {
		return clean(name), nil
	}
	// relative names are names of their own in the simulated file system
	return clean(name), nil
}

type entry struct{ info }

func (e entry) Type() fs.FileMode          { return e.Mode().Type() }
func (e entry) Info() (fs.FileInfo, error) { return e.info, nil }

//go:norace
func children(p string) []*node {
	var r []*node
	for i := 0; i < len(nodes); i++ {
		if same(filepath.Dir(nodes[i].path), p) && nodes[i].path[0] != 0 {
			r = append(r, nodes[i])
		}
	}
	sort.Slice(r, func(a, b int) bool { return r[a].path < r[b].path })
	return r
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	if !isDir(clean(name)) {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var r []fs.DirEntry
	for _, n := range children(clean(name)) {
		r = append(r, entry{info{n}})
	}
	return r, nil
}

func Glob(pattern string) ([]string, error) {
	var r []string
	for _, n := range children(clean(filepath.Dir(pattern))) {
		ok, err := filepath.Match(clean(pattern), n.path)
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, n.path)
		}
	}
	return r, nil
}

func Chdir(d string) error {
	c := clean(d)
	if c != "." && !isDir(c) {
		return perr("chdir", d, syscall.ENOENT)
	}
	simrt.SyncPoint()
	setWorkDir(c)
	return nil
}

func Getwd() (string, error) {
	if d := workDir(); filepath.IsAbs(d) {
		return d, nil
	} else {
		return filepath.Join("/sim", d), nil
	}
}

// SameFile stands for os.SameFile.
func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)
	return ok && ok2 && x.n == y.n
}

func Getpid() int { return 4711 }

type dirFS string

func (d dirFS) name(n string) string { return filepath.Join(string(d), filepath.FromSlash(n)) }
func (d dirFS) Open(n string) (fs.File, error) {
	if !fs.ValidPath(n) {
		return nil, &fs.PathError{Op: "open", Path: n, Err: fs.ErrInvalid}
	}
	f, err := Open(d.name(n))
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) ReadFile(n string) ([]byte, error)       { return ReadFile(d.name(n)) }
func (d dirFS) Stat(n string) (fs.FileInfo, error)      { return Stat(d.name(n)) }
func (d dirFS) ReadDir(n string) ([]fs.DirEntry, error) { return ReadDir(d.name(n)) }

// DirFS stands for os.DirFS.
func DirFS(dir string) fs.FS { return dirFS(dir) }
func TempDir() string        { return "/sim/tmp" }

var tmpNo int

//go:norace
func nextTmp() int { tmpNo++; return tmpNo }

func CreateTemp(dir, pattern string) (*File, error) {
	return Create(filepath.Join("/sim/tmp", dir, fmt.Sprint(pattern, nextTmp())))
}

// Exit ends the process in the real world.
func Exit(code int) {
	s := fmt.Sprintf("os.Exit(%d) called", code)
	simrt.NoteExit(s)
	panic(s)
}

func Fatal(a ...interface{})            { Exit(1) }
func Fatalf(f string, a ...interface{}) { Exit(1) }
func Fatalln(a ...interface{})          { Exit(1) }

var _ sync.Locker

func Print(a ...interface{}) (int, error)   { return Stdout.Write([]byte(fmt.Sprint(a...))) }
func Println(a ...interface{}) (int, error) { return Stdout.Write([]byte(fmt.Sprintln(a...))) }
func Printf(f string, a ...interface{}) (int, error) {
	return Stdout.Write([]byte(fmt.Sprintf(f, a...)))
}

// draw replaces the process-wide random numbers: the same ones in every run.
type draw struct{ s uint64 }

//go:norace
func (d *draw) Uint64() uint64 {
	d.s += 0x9e3779b97f4a7c15
	z := d.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (d *draw) Int63() int64 { return int64(d.Uint64() >> 1) }
func (d *draw) Seed(int64)   {}

var draws = &draw{}
var drawn = rand.New(draws)

// Rand stands for the functions of math/rand.
func Rand() *rand.Rand { return drawn }

var drawn2 = rand2.New(draws)

// Rand2 stands for the functions of math/rand/v2.
func Rand2() *rand2.Rand { return drawn2 }
