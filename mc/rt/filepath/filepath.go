// Package filepath is what path/filepath's functions that touch files are replaced with.
package filepath

import (
	"io/fs"
	"path"
	"path/filepath"
	"strings"

	"zzmc/mc"
)

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, _ := d.Info()
		return fn(p, i, err)
	})
}

type rootEntry struct{ fs.FileInfo }

func (r rootEntry) Type() fs.FileMode          { return r.Mode().Type() }
func (r rootEntry) Info() (fs.FileInfo, error) { return r.FileInfo, nil }

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := mc.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, rootEntry{i}, fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := mc.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == fs.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Glob(pat string) ([]string, error) {
	if _, err := filepath.Match(pat, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pat, `*?[\`) {
		if _, err := mc.Stat(pat); err != nil {
			return nil, nil
		}
		return []string{pat}, nil
	}
	dir, file := path.Split(pat)
	dir = strings.TrimSuffix(dir, "/")
	if dir == "" {
		dir = "."
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		es, err := mc.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := filepath.Match(file, e.Name()); ok {
				out = append(out, filepath.Join(d, e.Name()))
			}
		}
	}
	return out, nil
}

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := mc.Getwd()
	return filepath.Join(wd, p), err
}

func EvalSymlinks(p string) (string, error) {
	_, err := mc.Stat(p)
	return filepath.Clean(p), err
}
