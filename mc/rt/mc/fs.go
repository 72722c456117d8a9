package mc

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// The file system: shared by all processes of an execution, in memory. A process crash leaves it as it is.
type node struct {
	dir  bool
	kids map[string]*node
	data []byte
	mode fs.FileMode
	mod  int64
	obj  Obj
	gone bool
}

// Access is one entry of the access log.
type Access struct {
	Path string // cleaned, absolute
	Mut  bool
	Op   string
}

// FS is the file system of an execution.
type FS struct {
	root *node
	cwd  string
	Log  []Access
	log  bool
	tmpN int
}

const maxName = 255

func newFS(e *Exec) *FS {
	f := &FS{root: &node{dir: true, kids: map[string]*node{}, mode: 0755}, cwd: "/w"}
	f.root.kids["w"] = &node{dir: true, kids: map[string]*node{}, mode: 0755}
	f.root.kids["tmp"] = &node{dir: true, kids: map[string]*node{}, mode: 0777}
	return f
}

func (f *FS) abs(p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	return path.Clean(f.cwd + "/" + p)
}

// StartLog begins recording accesses.
func (f *FS) StartLog() { f.log = true; f.Log = nil }

// StartFSLog begins recording the accesses of the execution.
func StartFSLog() { x.FS.StartLog() }

// FSLog returns the accesses since StartFSLog.
func FSLog() []Access { return x.FS.Log }

func (f *FS) note(op, p string, mut bool) {
	if f.log {
		f.Log = append(f.Log, Access{f.abs(p), mut, op})
	}
}

// walk resolves p to its parent directory, last component and node. Symbolic links do not exist, so ".." is lexical
// except that every component before it must exist.
func (f *FS) walk(p string) (par *node, base string, n *node, err syscall.Errno) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if len(p) >= 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	full := p
	if !strings.HasPrefix(p, "/") {
		full = f.cwd + "/" + p
	}
	comps := strings.Split(full, "/")
	stack := []*node{f.root}
	names := []string{""}
	trailing := strings.HasSuffix(p, "/")
	last := -1
	for i, c := range comps {
		if c != "" && c != "." {
			last = i
		}
	}
	for i, c := range comps {
		if c == "" || c == "." {
			continue
		}
		cur := stack[len(stack)-1]
		if cur == nil {
			return nil, "", nil, syscall.ENOENT
		}
		if !cur.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			continue
		}
		if len(c) > maxName {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		k := cur.kids[c]
		if k == nil && i != last {
			return nil, "", nil, syscall.ENOENT
		}
		stack = append(stack, k)
		names = append(names, c)
	}
	n = stack[len(stack)-1]
	base = names[len(names)-1]
	if len(stack) > 1 {
		par = stack[len(stack)-2]
	}
	if n != nil && !n.dir && trailing {
		return nil, "", nil, syscall.ENOTDIR
	}
	return par, base, n, 0
}

func trimSlash(p string) string {
	if t := strings.TrimRight(p, "/"); t != "" {
		return t
	}
	return p
}

func perr(op, p string, e syscall.Errno) error { return &fs.PathError{Op: op, Path: p, Err: e} }

var fsGlobal = "filesystem"

// fsPoint is the scheduling point before a visible file system operation. Crash choices come before mutating ones.
// It returns the torn variant chosen for the operation (0: none; k>0: the process dies after part k of torn).
func fsPoint(op, p string, mut bool, torn int) int {
	if !live() {
		return 0
	}
	if dying() {
		return 0
	}
	x.point(opFS, op+" "+p, nil)
	x.FS.note(op, p, mut)
	if mut && x.crashOn && x.cur.proc != nil && x.cfg.Budget[ClsCrash] != 0 {
		n := 2
		if x.cfg.Torn > 0 && torn > 0 {
			n += torn
			if torn > x.cfg.Torn {
				n = 2 + x.cfg.Torn
			}
		}
		if x.budgetLeft(ClsCrash) {
			c := x.choose(ClsCrash, n, false, x.key(x.cur, true, 21))
			if x.killing {
				x.park(x.cur)
			}
			if c == 1 {
				crashNow("before " + op + " " + p)
			}
			if c > 1 {
				return c - 1
			}
		}
	}
	return 0
}

// fsFault decides whether the operation fails by choice (n>1: a write may also fail half done). 0: it does not.
func fsFault(op, p string, mut bool, n int) int {
	if !live() || dying() || x.faultOn == 0 || x.cur.proc == nil || x.cfg.Budget[ClsFault] == 0 || !mut && x.faultOn < 2 || !x.budgetLeft(ClsFault) {
		return 0
	}
	c := x.choose(ClsFault, n+1, false, x.key(x.cur, true, 22))
	if x.killing {
		x.park(x.cur)
	}
	if c > 0 {
		x.faults++
		x.tracef("FAULT %d %s %s", c, op, p)
		x.notes = append(x.notes, fmt.Sprintf("fault %d %s %s of %s", c, op, p, x.cur.proc.Name))
	}
	return c
}

func faultErr(mut bool) syscall.Errno {
	if mut {
		return syscall.ENOSPC
	}
	return syscall.EIO
}

func crashNow(where string) {
	x.crashes++
	x.mixData(0xdead)
	x.tracef("CRASH %s", where)
	x.notes = append(x.notes, "crash "+where+" of "+x.cur.proc.Name)
	x.cur.proc.Crashed = true
	x.die(x.cur.proc)
}

func fsTouch(k uint64, ns ...*node) {
	if !live() || dying() {
		return
	}
	var os []*Obj
	for _, n := range ns {
		if n != nil {
			os = append(os, &n.obj)
		}
	}
	x.touch(opFS, os...)
	x.mixData(k)
}

func fsTouchR(k uint64, ns ...*node) {
	if !live() || dying() {
		return
	}
	var os []*Obj
	for _, n := range ns {
		if n != nil {
			os = append(os, &n.obj)
		}
	}
	x.touchR(opFS, os...)
	x.mixData(k)
}

func fsys() *FS {
	if x == nil {
		return nil
	}
	return x.FS
}

// FSActive: file operations go to the in-memory file system (otherwise nothing is touched and they fail).
func FSActive() bool { return x != nil }

var errNoFS = errors.New("file system used outside an execution")

func noFS(op, p string) error { return &fs.PathError{Op: op, Path: p, Err: errNoFS} }

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// ReadFile, WriteFile, ... mirror package os.
func ReadFile(p string) ([]byte, error) {
	f := fsys()
	if f == nil {
		return nil, noFS("open", p)
	}
	fsPoint("open", p, false, 0)
	if fsFault("open", p, false, 1) != 0 {
		return nil, perr("open", p, faultErr(false))
	}
	par, _, n, e := f.walk(p)
	fsTouchR(1, par, n)
	if e != 0 {
		return nil, perr("open", p, e)
	}
	if n == nil {
		return nil, perr("open", p, syscall.ENOENT)
	}
	if n.dir {
		return nil, perr("read", p, syscall.EISDIR)
	}
	// open and read are two visible operations: the content may change in between
	fsPoint("read", p, false, 0)
	if fsFault("read", p, false, 1) != 0 {
		return nil, perr("read", p, faultErr(false))
	}
	fsTouchR(2, n)
	return clone(n.data), nil
}

func WriteFile(p string, b []byte, perm fs.FileMode) error {
	h, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(b)
	if e := h.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Mkdir(p string, perm fs.FileMode) error {
	f := fsys()
	if f == nil {
		return noFS("mkdir", p)
	}
	fsPoint("mkdir", p, true, 0)
	if fsFault("mkdir", p, true, 1) != 0 {
		return perr("mkdir", p, faultErr(true))
	}
	par, base, n, e := f.walk(trimSlash(p))
	fsTouch(3, par, n)
	if e != 0 {
		return perr("mkdir", p, e)
	}
	if n != nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	if par == nil || !par.dir {
		return perr("mkdir", p, syscall.ENOENT)
	}
	par.kids[base] = &node{dir: true, kids: map[string]*node{}, mode: perm, mod: x.now}
	return nil
}

func MkdirAll(p string, perm fs.FileMode) error {
	f := fsys()
	if f == nil {
		return noFS("mkdir", p)
	}
	if _, _, n, e := f.walk(p); e == 0 && n != nil {
		fsPoint("stat", p, false, 0)
		_, _, n, e = f.walk(p)
		fsTouchR(4, n)
		if e == 0 && n != nil {
			if n.dir {
				return nil
			}
			return perr("mkdir", p, syscall.ENOTDIR)
		}
	}
	// parents first
	q := strings.TrimRight(p, "/")
	if i := strings.LastIndexByte(q, '/'); i > 0 {
		if err := MkdirAll(q[:i], perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil {
		if _, _, n, e := f.walk(p); e == 0 && n != nil && n.dir {
			return nil
		}
	}
	return err
}

func Remove(p string) error {
	f := fsys()
	if f == nil {
		return noFS("remove", p)
	}
	fsPoint("remove", p, true, 0)
	if fsFault("remove", p, true, 1) != 0 {
		return perr("remove", p, faultErr(true))
	}
	par, base, n, e := f.walk(p)
	fsTouch(5, par, n)
	if e != 0 {
		return perr("remove", p, e)
	}
	if n == nil {
		return perr("remove", p, syscall.ENOENT)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", p, syscall.ENOTEMPTY)
	}
	if par == nil {
		return perr("remove", p, syscall.EBUSY)
	}
	delete(par.kids, base)
	n.gone = true
	return nil
}

func RemoveAll(p string) error {
	f := fsys()
	if f == nil {
		return noFS("unlinkat", p)
	}
	if strings.HasSuffix(p, ".") && (p == "." || strings.HasSuffix(p, "/.")) {
		return perr("RemoveAll", p, syscall.EINVAL)
	}
	p = trimSlash(p)
	_, _, n, e := f.walk(p)
	if e == 0 && n != nil && n.dir {
		var names []string
		for k := range n.kids {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if err := RemoveAll(p + "/" + k); err != nil {
				return err
			}
		}
	}
	err := Remove(p)
	if errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	return err
}

func Rename(from, to string) error {
	f := fsys()
	lerr := func(e error) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: e} }
	if f == nil {
		return lerr(errNoFS)
	}
	fsPoint("rename", from+" -> "+to, true, 0)
	f.fixRenameLog(from, to)
	if fsFault("rename", from+" -> "+to, true, 1) != 0 {
		return lerr(faultErr(true))
	}
	p1, b1, n1, e1 := f.walk(trimSlash(from))
	p2, b2, n2, e2 := f.walk(trimSlash(to))
	fsTouch(6, p1, n1, p2, n2)
	if e1 != 0 {
		return lerr(e1)
	}
	if e2 != 0 {
		return lerr(e2)
	}
	if n1 == nil || p2 == nil {
		return lerr(syscall.ENOENT)
	}
	if n2 != nil && n2.dir {
		if !n1.dir && strings.HasSuffix(from, "/") {
			return lerr(syscall.ENOTDIR)
		}
		return lerr(syscall.EEXIST) // os.Rename refuses to replace a directory
	}
	if n1.dir && inside(n1, p2) {
		return lerr(syscall.EINVAL)
	}
	if !n1.dir && (strings.HasSuffix(from, "/") || strings.HasSuffix(to, "/")) {
		return lerr(syscall.ENOTDIR)
	}
	if n1 == n2 {
		return nil
	}
	if n2 != nil && n1.dir {
		return lerr(syscall.ENOTDIR)
	}
	delete(p1.kids, b1)
	if n2 != nil {
		n2.gone = true
	}
	p2.kids[b2] = n1
	return nil
}

func (f *FS) fixRenameLog(from, to string) {
	if f.log && len(f.Log) > 0 {
		f.Log[len(f.Log)-1] = Access{f.abs(from), true, "rename from"}
		f.Log = append(f.Log, Access{f.abs(to), true, "rename to"})
	}
}

func inside(d, n *node) bool {
	if d == n {
		return true
	}
	for _, k := range d.kids {
		if k.dir && inside(k, n) {
			return true
		}
	}
	return false
}

// Link makes a hard link.
func Link(from, to string) error {
	f := fsys()
	lerr := func(e error) error { return &os.LinkError{Op: "link", Old: from, New: to, Err: e} }
	if f == nil {
		return lerr(errNoFS)
	}
	fsPoint("link", to, true, 0)
	if fsFault("link", to, true, 1) != 0 {
		return lerr(faultErr(true))
	}
	_, _, n1, e1 := f.walk(from)
	p2, b2, n2, e2 := f.walk(trimSlash(to))
	fsTouch(7, n1, p2, n2)
	if e1 != 0 {
		return lerr(e1)
	}
	if n1 == nil {
		return lerr(syscall.ENOENT)
	}
	if e2 != 0 {
		return lerr(e2)
	}
	if p2 == nil {
		return lerr(syscall.ENOENT)
	}
	if n2 != nil {
		return lerr(syscall.EEXIST)
	}
	if strings.HasSuffix(to, "/") {
		return lerr(syscall.ENOENT)
	}
	if n1.dir {
		return lerr(syscall.EPERM)
	}
	p2.kids[b2] = n1
	return nil
}

func Truncate(p string, size int64) error {
	f := fsys()
	if f == nil {
		return noFS("truncate", p)
	}
	fsPoint("truncate", p, true, 0)
	if fsFault("truncate", p, true, 1) != 0 {
		return perr("truncate", p, faultErr(true))
	}
	_, _, n, e := f.walk(p)
	fsTouch(8, n)
	if e != 0 {
		return perr("truncate", p, e)
	}
	if n == nil {
		return perr("truncate", p, syscall.ENOENT)
	}
	if n.dir {
		return perr("truncate", p, syscall.EISDIR)
	}
	n.resize(size)
	return nil
}

func (n *node) resize(size int64) {
	if int64(len(n.data)) >= size {
		n.data = n.data[:size:size]
	} else {
		n.data = append(clone(n.data), make([]byte, size-int64(len(n.data)))...)
	}
}

// FileInfo describes a file of the in-memory file system.
type FileInfo struct {
	name string
	size int64
	mode fs.FileMode
	mod  int64
	n    *node
}

func (i *FileInfo) Name() string       { return i.name }
func (i *FileInfo) Size() int64        { return i.size }
func (i *FileInfo) Mode() fs.FileMode  { return i.mode }
func (i *FileInfo) ModTime() time.Time { return Wall(i.mod) }
func (i *FileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i *FileInfo) Sys() any           { return nil }

// Same reports whether both describe one file.
func Same(a, b fs.FileInfo) bool {
	i, ok := a.(*FileInfo)
	j, ok2 := b.(*FileInfo)
	return ok && ok2 && i.n == j.n
}

// Epoch is where the virtual clock starts.
var Epoch = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

// Wall converts virtual ns to a time.
func Wall(now int64) time.Time { return Epoch.Add(time.Duration(now)) }

func info(name string, n *node) *FileInfo {
	m := n.mode.Perm()
	if n.dir {
		m |= fs.ModeDir
	}
	return &FileInfo{name: name, size: int64(len(n.data)), mode: m, mod: n.mod, n: n}
}

func Stat(p string) (fs.FileInfo, error) {
	f := fsys()
	if f == nil {
		return nil, noFS("stat", p)
	}
	fsPoint("stat", p, false, 0)
	if fsFault("stat", p, false, 1) != 0 {
		return nil, perr("stat", p, faultErr(false))
	}
	par, _, n, e := f.walk(p)
	fsTouchR(9, par, n)
	if e != 0 {
		return nil, perr("stat", p, e)
	}
	if n == nil {
		return nil, perr("stat", p, syscall.ENOENT)
	}
	return info(path.Base(p), n), nil
}

type dirEntry struct{ *FileInfo }

func (d dirEntry) Type() fs.FileMode          { return d.mode.Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return d.FileInfo, nil }

func ReadDir(p string) ([]fs.DirEntry, error) {
	f := fsys()
	if f == nil {
		return nil, noFS("open", p)
	}
	fsPoint("readdir", p, false, 0)
	if fsFault("readdir", p, false, 1) != 0 {
		return nil, perr("open", p, faultErr(false))
	}
	par, _, n, e := f.walk(p)
	fsTouchR(10, par, n)
	if e != 0 {
		return nil, perr("open", p, e)
	}
	if n == nil {
		return nil, perr("open", p, syscall.ENOENT)
	}
	if !n.dir {
		return nil, perr("fdopendir", p, syscall.ENOTDIR)
	}
	return n.list(), nil
}

func (n *node) list() []fs.DirEntry {
	var names []string
	for k := range n.kids {
		names = append(names, k)
	}
	sort.Strings(names)
	out := []fs.DirEntry{}
	for _, k := range names {
		out = append(out, dirEntry{info(k, n.kids[k])})
	}
	return out
}

// Chdir changes the working directory of the simulated processes.
func Chdir(p string) error {
	f := fsys()
	if f == nil {
		return noFS("chdir", p)
	}
	_, _, n, e := f.walk(p)
	if e != 0 {
		return perr("chdir", p, e)
	}
	if n == nil {
		return perr("chdir", p, syscall.ENOENT)
	}
	if !n.dir {
		return perr("chdir", p, syscall.ENOTDIR)
	}
	f.cwd = f.abs(p)
	return nil
}

func Getwd() (string, error) {
	if f := fsys(); f != nil {
		return f.cwd, nil
	}
	return "/", nil
}

// Chmod and Chtimes only check existence.
func Chmod(p string, m fs.FileMode) error {
	f := fsys()
	if f == nil {
		return noFS("chmod", p)
	}
	fsPoint("chmod", p, true, 0)
	_, _, n, e := f.walk(p)
	fsTouch(11, n)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return perr("chmod", p, e)
	}
	n.mode = m
	return nil
}

// File is an open file.
type File struct {
	name   string
	n      *node
	off    int64
	flag   int
	closed bool
	dirPos int
	proc   *Proc
	null   bool
}

func OpenFile(p string, flag int, perm fs.FileMode) (*File, error) {
	f := fsys()
	if f == nil {
		return nil, noFS("open", p)
	}
	mut := flag&(os.O_CREATE|os.O_TRUNC) != 0
	fsPoint("open", p, mut, 0)
	if fsFault("open", p, mut, 1) != 0 {
		return nil, perr("open", p, faultErr(mut))
	}
	slash := flag&os.O_CREATE != 0 && strings.HasSuffix(p, "/")
	q := p
	if slash {
		q = trimSlash(p)
	}
	par, base, n, e := f.walk(q)
	fsTouch(12, par, n)
	if e == 0 && slash && par != nil {
		e = syscall.EISDIR
	}
	if e != 0 {
		return nil, perr("open", p, e)
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if n == nil {
		if flag&os.O_CREATE == 0 || par == nil {
			return nil, perr("open", p, syscall.ENOENT)
		}
		n = &node{mode: perm, mod: now()}
		par.kids[base] = n
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", p, syscall.EEXIST)
		}
		if n.dir && (acc != os.O_RDONLY || flag&os.O_CREATE != 0) {
			return nil, perr("open", p, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && !n.dir {
			n.data = nil
			n.mod = now()
		}
	}
	return &File{name: p, n: n, flag: flag}, nil
}

func now() int64 {
	if x == nil {
		return 0
	}
	return x.now
}

func (h *File) chk(op string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return &fs.PathError{Op: op, Path: h.name, Err: fs.ErrClosed}
	}
	if h.null && op == "read" {
		return io.EOF
	}
	return nil
}

func (h *File) Name() string { return h.name }

func (h *File) writable() bool { return h.flag&(os.O_WRONLY|os.O_RDWR) != 0 }
func (h *File) readable() bool { return h.flag&os.O_WRONLY == 0 }

func (h *File) Write(b []byte) (int, error) {
	if err := h.chk("write"); err != nil {
		return 0, err
	}
	if h.null {
		return len(b), nil
	}
	if !h.writable() {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	torn := 0
	switch {
	case len(b) > 2:
		torn = 2
	case len(b) == 2:
		torn = 1
	}
	if len(b) == 0 {
		return 0, nil
	}
	v := fsPoint("write", h.name, true, torn)
	if v == 0 {
		n := 1
		if len(b) > 1 {
			n = 2
		}
		switch fsFault("write", h.name, true, n) {
		case 1:
			return 0, perr("write", h.name, faultErr(true))
		case 2:
			fsTouch(13, h.n)
			if h.flag&os.O_APPEND != 0 {
				h.off = int64(len(h.n.data))
			}
			h.n.put(h.off, b[:len(b)/2])
			h.off += int64(len(b) / 2)
			return len(b) / 2, perr("write", h.name, faultErr(true))
		}
	}
	fsTouch(13, h.n)
	if h.flag&os.O_APPEND != 0 {
		h.off = int64(len(h.n.data))
	}
	w := b
	if v == 1 {
		w = b[:len(b)/2]
	} else if v == 2 {
		w = b[:len(b)-1]
	}
	h.n.put(h.off, w)
	h.off += int64(len(w))
	if v > 0 {
		crashNow("in the middle of writing " + h.name)
	}
	return len(b), nil
}

func (n *node) put(off int64, b []byte) {
	end := off + int64(len(b))
	d := n.data
	if int64(len(d)) < end {
		nd := make([]byte, end)
		copy(nd, d)
		d = nd
	} else {
		d = clone(d)
	}
	copy(d[off:], b)
	n.data = d
	n.mod = now()
}

func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

func (h *File) WriteAt(b []byte, off int64) (int, error) {
	if err := h.chk("write"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "writeat", Path: h.name, Err: errors.New("negative offset")}
	}
	if h.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if h.null || len(b) == 0 {
		return len(b), nil
	}
	if !h.writable() {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	fsPoint("write", h.name, true, 0)
	if fsFault("write", h.name, true, 1) != 0 {
		return 0, perr("write", h.name, faultErr(true))
	}
	fsTouch(14, h.n)
	h.n.put(off, b)
	return len(b), nil
}

func (h *File) Read(b []byte) (int, error) {
	if err := h.chk("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if !h.readable() {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if h.n.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	fsPoint("read", h.name, false, 0)
	if fsFault("read", h.name, false, 1) != 0 {
		return 0, perr("read", h.name, faultErr(false))
	}
	fsTouchR(15, h.n)
	if h.off >= int64(len(h.n.data)) {
		return 0, io.EOF
	}
	k := copy(b, h.n.data[h.off:])
	h.off += int64(k)
	return k, nil
}

func (h *File) ReadAt(b []byte, off int64) (int, error) {
	if err := h.chk("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: h.name, Err: errors.New("negative offset")}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if !h.readable() {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if h.n.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	fsPoint("read", h.name, false, 0)
	if fsFault("read", h.name, false, 1) != 0 {
		return 0, perr("read", h.name, faultErr(false))
	}
	fsTouchR(16, h.n)
	if off >= int64(len(h.n.data)) {
		return 0, io.EOF
	}
	k := copy(b, h.n.data[off:])
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}

func (h *File) Seek(off int64, whence int) (int64, error) {
	if err := h.chk("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += h.off
	case 2:
		off += int64(len(h.n.data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = off
	return off, nil
}

func (h *File) Close() error {
	if err := h.chk("close"); err != nil {
		return err
	}
	h.closed = true
	return nil
}

func (h *File) Sync() error { return h.chk("sync") }

func (h *File) Truncate(size int64) error {
	if err := h.chk("truncate"); err != nil {
		return err
	}
	if h.null || h.n.dir || !h.writable() || size < 0 {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	fsPoint("truncate", h.name, true, 0)
	if fsFault("truncate", h.name, true, 1) != 0 {
		return perr("truncate", h.name, faultErr(true))
	}
	fsTouch(17, h.n)
	h.n.resize(size)
	return nil
}

func (h *File) Stat() (fs.FileInfo, error) {
	if err := h.chk("stat"); err != nil {
		return nil, err
	}
	fsPoint("stat", h.name, false, 0)
	fsTouchR(18, h.n)
	return info(path.Base(h.name), h.n), nil
}

func (h *File) Chmod(m fs.FileMode) error { return h.chk("chmod") }

func (h *File) ReadDir(k int) ([]fs.DirEntry, error) {
	if err := h.chk("readdir"); err != nil {
		return nil, err
	}
	if !h.n.dir {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	fsPoint("readdir", h.name, false, 0)
	if fsFault("readdir", h.name, false, 1) != 0 {
		return nil, perr("readdirent", h.name, faultErr(false))
	}
	fsTouchR(19, h.n)
	all := h.n.list()
	if h.dirPos > len(all) {
		h.dirPos = len(all)
	}
	rest := all[h.dirPos:]
	if k <= 0 {
		h.dirPos = len(all)
		return rest, nil
	}
	if len(rest) == 0 {
		return nil, io.EOF
	}
	if len(rest) > k {
		rest = rest[:k]
	}
	h.dirPos += len(rest)
	return rest, nil
}

func (h *File) Readdir(k int) ([]fs.FileInfo, error) {
	es, err := h.ReadDir(k)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func (h *File) Readdirnames(k int) ([]string, error) {
	es, err := h.ReadDir(k)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func (h *File) Fd() uintptr                 { return ^uintptr(0) }
func (h *File) SetDeadline(time.Time) error { return nil }
func (h *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if len(b) == 0 {
		return 0, err
	}
	n, werr := h.Write(b)
	if werr != nil {
		err = werr
	}
	return int64(n), err
}

// TempName makes a name for CreateTemp and MkdirTemp.
func TempName() string {
	f := fsys()
	f.tmpN++
	return UID()[:8]
}

// Tree returns the files below p ("path" -> content; directories end in "/"), read without being a visible operation.
func Tree(p string) map[string][]byte {
	out := map[string][]byte{}
	_, _, n, e := x.FS.walk(p)
	if e != 0 || n == nil {
		return out
	}
	var rec func(q string, n *node)
	rec = func(q string, n *node) {
		if n.dir {
			if q != "" {
				out[q+"/"] = nil
			}
			for k, c := range n.kids {
				if q == "" {
					rec(k, c)
				} else {
					rec(q+"/"+k, c)
				}
			}
			return
		}
		out[q] = n.data
	}
	rec("", n)
	return out
}

// PutFile sets a file without being a visible operation (harness only).
func PutFile(p string, b []byte) {
	par, base, n, e := x.FS.walk(p)
	if e != 0 || par == nil {
		panic("PutFile " + p)
	}
	if n == nil {
		n = &node{mode: 0644}
		par.kids[base] = n
	}
	n.data = clone(b)
}

// RemoveTree removes p and what is below it, without being a visible operation (harness only).
func RemoveTree(p string) {
	par, base, n, e := x.FS.walk(p)
	if e == 0 && par != nil && n != nil {
		delete(par.kids, base)
	}
}
