// Package os is what package os is replaced with: files live in the execution's own file system.
package os

import (
	"fmt"
	"io/fs"
	"os"
	"strings"
	"time"

	"zzmc/mc"
)

type File = mc.File

var (
	Stdin  = mc.NullFile("/dev/stdin")
	Stdout = mc.NullFile("/dev/stdout")
	Stderr = mc.NullFile("/dev/stderr")
)

func ReadFile(p string) ([]byte, error)                 { return mc.ReadFile(p) }
func WriteFile(p string, b []byte, m os.FileMode) error { return mc.WriteFile(p, b, m) }
func Mkdir(p string, m os.FileMode) error               { return mc.Mkdir(p, m) }
func MkdirAll(p string, m os.FileMode) error            { return mc.MkdirAll(p, m) }
func Remove(p string) error                             { return mc.Remove(p) }
func RemoveAll(p string) error                          { return mc.RemoveAll(p) }
func Rename(a, b string) error                          { return mc.Rename(a, b) }
func Link(a, b string) error                            { return mc.Link(a, b) }
func Truncate(p string, n int64) error                  { return mc.Truncate(p, n) }
func Stat(p string) (os.FileInfo, error)                { return mc.Stat(p) }
func Lstat(p string) (os.FileInfo, error)               { return mc.Stat(p) }
func ReadDir(p string) ([]os.DirEntry, error)           { return mc.ReadDir(p) }
func Chdir(p string) error                              { return mc.Chdir(p) }
func Getwd() (string, error)                            { return mc.Getwd() }
func Chmod(p string, m os.FileMode) error               { return mc.Chmod(p, m) }
func Chtimes(p string, a, b time.Time) error            { _, err := mc.Stat(p); return err }
func Chown(p string, a, b int) error                    { _, err := mc.Stat(p); return err }
func Symlink(a, b string) error {
	return &os.LinkError{Op: "symlink", Old: a, New: b, Err: os.ErrPermission}
}
func Readlink(p string) (string, error) {
	return "", &os.PathError{Op: "readlink", Path: p, Err: os.ErrInvalid}
}
func Open(p string) (*File, error)                            { return mc.OpenFile(p, os.O_RDONLY, 0) }
func Create(p string) (*File, error)                          { return mc.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }
func OpenFile(p string, fl int, m os.FileMode) (*File, error) { return mc.OpenFile(p, fl, m) }
func SameFile(a, b os.FileInfo) bool                          { return mc.Same(a, b) }
func TempDir() string                                         { return "/tmp" }
func UserHomeDir() (string, error)                            { return "/w", nil }
func Getpid() int                                             { return mc.Pid() }
func Exit(code int)                                           { mc.Exit(fmt.Sprintf("os.Exit(%d)", code), code == 0) }

func tempPath(dir, pat string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pat, ""
	if i := strings.LastIndexByte(pat, '*'); i >= 0 {
		pre, suf = pat[:i], pat[i+1:]
	}
	return dir + "/" + pre + mc.TempName() + suf
}

func CreateTemp(dir, pat string) (*File, error) {
	if strings.ContainsRune(pat, '/') {
		return nil, &os.PathError{Op: "createtemp", Path: pat, Err: os.ErrInvalid}
	}
	return mc.OpenFile(tempPath(dir, pat), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func MkdirTemp(dir, pat string) (string, error) {
	p := tempPath(dir, pat)
	return p, mc.Mkdir(p, 0700)
}

// DirFS is rooted in the execution's file system.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(n string) (fs.File, error) {
	if !fs.ValidPath(n) {
		return nil, &os.PathError{Op: "open", Path: n, Err: os.ErrInvalid}
	}
	return mc.OpenFile(string(d)+"/"+n, os.O_RDONLY, 0)
}
func (d dirFS) ReadFile(n string) ([]byte, error)       { return mc.ReadFile(string(d) + "/" + n) }
func (d dirFS) ReadDir(n string) ([]fs.DirEntry, error) { return mc.ReadDir(string(d) + "/" + n) }
func (d dirFS) Stat(n string) (fs.FileInfo, error)      { return mc.Stat(string(d) + "/" + n) }
