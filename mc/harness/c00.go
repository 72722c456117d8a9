package zzharness

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"zzmc/mc"
)

// Not a property: compares the in-memory file system the checks run on with the real one ("bash mc/selftest.sh").

func init() {
	prop = &Property{ID: "C00", Scns: c00,
		Rule: "Conformance of the in-memory file system: all sequences of two (three) operations from five trees, on it and in a scratch folder of the real file system: same results, same error numbers, same tree."}
}

type c00file interface {
	io.ReadWriteCloser
	io.ReaderAt
	io.WriterAt
	io.Seeker
	Truncate(int64) error
	Sync() error
	Stat() (os.FileInfo, error)
	WriteString(string) (int, error)
	ReadDir(int) ([]os.DirEntry, error)
}

// c00fs is one of the two file systems.
type c00fs struct {
	base      string
	readFile  func(string) ([]byte, error)
	writeFile func(string, []byte, os.FileMode) error
	mkdir     func(string, os.FileMode) error
	mkdirAll  func(string, os.FileMode) error
	remove    func(string) error
	removeAll func(string) error
	rename    func(string, string) error
	link      func(string, string) error
	truncate  func(string, int64) error
	stat      func(string) (os.FileInfo, error)
	readDir   func(string) ([]os.DirEntry, error)
	open      func(string, int, os.FileMode) (c00file, error)
}

func c00mem() *c00fs {
	return &c00fs{"/w/x", mc.ReadFile, mc.WriteFile, mc.Mkdir, mc.MkdirAll, mc.Remove, mc.RemoveAll, mc.Rename, mc.Link, mc.Truncate, mc.Stat, mc.ReadDir,
		func(p string, f int, m os.FileMode) (c00file, error) {
			h, err := mc.OpenFile(p, f, m)
			if err != nil {
				return nil, err
			}
			return h, nil
		}}
}

func c00real(base string) *c00fs {
	return &c00fs{base, os.ReadFile, os.WriteFile, os.Mkdir, os.MkdirAll, os.Remove, os.RemoveAll, os.Rename, os.Link, os.Truncate, os.Stat, os.ReadDir,
		func(p string, f int, m os.FileMode) (c00file, error) {
			h, err := os.OpenFile(p, f, m)
			if err != nil {
				return nil, err
			}
			return h, nil
		}}
}

func c00err(err error) string {
	var e syscall.Errno
	switch {
	case err == nil:
		return "ok"
	case errors.As(err, &e):
		return fmt.Sprintf("errno %d exist=%v notexist=%v", int(e), os.IsExist(err), os.IsNotExist(err))
	case errors.Is(err, io.EOF):
		return "EOF"
	case errors.Is(err, os.ErrClosed):
		return "closed"
	case errors.Is(err, os.ErrInvalid):
		return "invalid"
	}
	return "error"
}

type c00op struct {
	name string
	do   func(f *c00fs) string
}

var c00paths = []string{"a", "b", "d", "d/a", "d/e", "d/e/x", "a/x", "n/x", "d/../a", "a/", "d/"}

func c00list(l []os.DirEntry) string {
	var s []string
	for _, e := range l {
		s = append(s, fmt.Sprintf("%s:%v", e.Name(), e.IsDir()))
	}
	return strings.Join(s, ",")
}

func c00ops() []c00op {
	var ops []c00op
	add := func(name string, do func(f *c00fs) string) { ops = append(ops, c00op{name, do}) }
	for _, p := range c00paths {
		p := p
		j := func(f *c00fs) string { return f.base + "/" + p }
		add("write "+p, func(f *c00fs) string { return c00err(f.writeFile(j(f), []byte("new"), 0644)) })
		add("read "+p, func(f *c00fs) string {
			b, err := f.readFile(j(f))
			return fmt.Sprintf("%q %s", b, c00err(err))
		})
		add("mkdir "+p, func(f *c00fs) string { return c00err(f.mkdir(j(f), 0755)) })
		add("mkdirall "+p, func(f *c00fs) string { return c00err(f.mkdirAll(j(f), 0755)) })
		add("remove "+p, func(f *c00fs) string { return c00err(f.remove(j(f))) })
		add("removeall "+p, func(f *c00fs) string { return c00err(f.removeAll(j(f))) })
		add("stat "+p, func(f *c00fs) string {
			i, err := f.stat(j(f))
			if err != nil {
				return c00err(err)
			}
			n := i.Size()
			if i.IsDir() {
				n = 0
			}
			return fmt.Sprint(i.Name(), n, i.IsDir(), i.Mode().IsRegular())
		})
		add("readdir "+p, func(f *c00fs) string {
			l, err := f.readDir(j(f))
			return c00list(l) + c00err(err)
		})
		for _, n := range []int64{0, 2, 7} {
			n := n
			add(fmt.Sprint("truncate ", p, n), func(f *c00fs) string { return c00err(f.truncate(j(f), n)) })
		}
		for _, fl := range []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_TRUNC, os.O_WRONLY | os.O_CREATE | os.O_EXCL, os.O_RDWR | os.O_APPEND, os.O_WRONLY | os.O_TRUNC} {
			fl := fl
			add(fmt.Sprintf("open %s %x", p, fl), func(f *c00fs) string { return c00handle(f, j(f), fl, "") })
		}
		// the handle outlives its name
		for _, then := range []string{"remove", "rename", "write", "removeall"} {
			then := then
			add("open, "+then+" "+p, func(f *c00fs) string { return c00handle(f, j(f), os.O_RDWR, then) })
		}
	}
	for _, p := range []string{"a", "b", "d", "d/a", "d/e", "n/x", "a/x", "b/", "d/e/x"} {
		for _, q := range []string{"a", "b", "d", "d/a", "d/e", "n/x", "a/x", "b/", "d/e/x"} {
			p, q := p, q
			add("rename "+p+" "+q, func(f *c00fs) string { return c00err(f.rename(f.base+"/"+p, f.base+"/"+q)) })
			add("link "+p+" "+q, func(f *c00fs) string { return c00err(f.link(f.base+"/"+p, f.base+"/"+q)) })
		}
	}
	return ops
}

// c00handle opens a file, perhaps disturbs its name, and uses the handle in every way.
func c00handle(f *c00fs, p string, flags int, then string) string {
	h, err := f.open(p, flags, 0644)
	if err != nil {
		return c00err(err)
	}
	var out []string
	note := func(a ...any) { out = append(out, fmt.Sprint(a...)) }
	switch then {
	case "remove":
		note(c00err(f.remove(p)))
	case "removeall":
		note(c00err(f.removeAll(p)))
	case "rename":
		note(c00err(f.rename(p, f.base+"/zz")))
	case "write":
		note(c00err(f.writeFile(p, []byte("other content"), 0644)))
	}
	if i, err := h.Stat(); err != nil || i.IsDir() {
		note("dir", err)
		l, err := h.ReadDir(-1)
		sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
		if err != nil {
			note("fails")
		} else {
			note(c00list(l))
		}
		note(c00err(h.Close()))
		return strings.Join(out, ";")
	} else {
		note(i.Size())
	}
	b := make([]byte, 4)
	n, err := h.Read(b)
	note(n, c00err(err), string(b[:n]))
	n, err = h.Write([]byte("xy"))
	note(n, c00err(err))
	s, err := h.Seek(1, io.SeekStart)
	note(s, c00err(err))
	n, err = h.WriteString("Q")
	note(n, c00err(err))
	s, err = h.Seek(-1, io.SeekEnd)
	note(s, c00err(err))
	n, err = h.Read(b)
	note(n, c00err(err), string(b[:n]))
	n, err = h.Read(b)
	note(n, c00err(err))
	n, err = h.ReadAt(b, 1)
	note(n, c00err(err), string(b[:n]))
	if flags&os.O_APPEND == 0 {
		n, err = h.WriteAt([]byte("at"), 6)
		note(n, c00err(err))
	}
	note(c00err(h.Truncate(5)), c00err(h.Sync()))
	n, err = h.Write([]byte("end"))
	note(n, c00err(err))
	if i, err := h.Stat(); err == nil {
		note(i.Size())
	}
	note(c00err(h.Close()), c00err(h.Close()))
	_, err = h.Write([]byte("x"))
	note(c00err(err))
	return strings.Join(out, ";")
}

func c00tree(f *c00fs) string {
	var out []string
	var walk func(p string)
	walk = func(p string) {
		l, err := f.readDir(f.base + p)
		if err != nil {
			out = append(out, p+" "+c00err(err))
		}
		for _, e := range l {
			if e.IsDir() {
				out = append(out, p+"/"+e.Name()+"/")
				walk(p + "/" + e.Name())
			} else {
				b, err := f.readFile(f.base + p + "/" + e.Name())
				out = append(out, fmt.Sprintf("%s/%s=%q %s", p, e.Name(), b, c00err(err)))
			}
		}
	}
	walk("")
	return strings.Join(out, "\n")
}

func c00() []mc.Scenario {
	ops := c00ops()
	trees := [][]string{nil, {"a"}, {"d/", "d/a"}, {"a", "d/", "d/a", "d/e/"}, {"b", "d/", "d/e/", "d/e/x"}}
	scratch, err := os.MkdirTemp("", "zzconform")
	if err != nil {
		panic(err)
	}
	var out []mc.Scenario
	for first := range ops {
		first := first
		out = append(out, mc.Scenario{Name: fmt.Sprintf("files %d %s", first, ops[first].name), Body: func() {
			dir := filepath.Join(scratch, fmt.Sprint(os.Getpid(), "-", first))
			if err := os.RemoveAll(dir); err != nil {
				panic(err)
			}
			if err := os.MkdirAll(dir, 0755); err != nil {
				panic(err)
			}
			mc.MkdirAll("/w/x", 0755)
			both := []*c00fs{c00mem(), c00real(dir)}
			for _, p := range trees[mc.Choose(len(trees))] {
				for _, f := range both {
					if strings.HasSuffix(p, "/") {
						f.mkdir(f.base+"/"+p, 0755)
					} else {
						f.writeFile(f.base+"/"+p, []byte("old-"+p), 0644)
					}
				}
			}
			names := ""
			for i := 0; i < pick(2, 3); i++ {
				k := first
				if i > 0 {
					k = mc.Choose(len(ops))
				}
				names += ops[k].name + "; "
				a, b := ops[k].do(both[0]), ops[k].do(both[1])
				if a != b {
					mc.Failf("conform", "%s: in memory %q, really %q", names, a, b)
				}
			}
			if a, b := c00tree(both[0]), c00tree(both[1]); a != b {
				mc.Failf("conform", "%s: tree in memory\n%s\nreally\n%s", names, a, b)
			}
			os.RemoveAll(dir)
		}})
	}
	return out
}
