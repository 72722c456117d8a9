// Package ioutil is what package io/ioutil is replaced with.
package ioutil

import (
	"io/fs"

	"zzmc/mc"
	zos "zzmc/os"
)

func ReadFile(p string) ([]byte, error)                 { return mc.ReadFile(p) }
func WriteFile(p string, b []byte, m fs.FileMode) error { return mc.WriteFile(p, b, m) }
func ReadDir(p string) ([]fs.FileInfo, error) {
	es, err := mc.ReadDir(p)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
func TempFile(dir, pat string) (*mc.File, error) { return zos.CreateTemp(dir, pat) }
func TempDir(dir, pat string) (string, error)    { return zos.MkdirTemp(dir, pat) }
