// Package gzip is what compress/gzip's constructors are replaced with: the same code with recycled state.
package gzip

import (
	"compress/gzip"
	"io"

	"zzmc/mc"
)

var (
	writers, usedW []*gzip.Writer
	readers, usedR []*gzip.Reader
)

func init() {
	mc.OnEnd(func() {
		writers = append(writers, usedW...)
		readers = append(readers, usedR...)
		usedW, usedR = usedW[:0], usedR[:0]
	})
}

// NewWriter: the compression level is of no consequence for what the data mean; a cheap one is used unless the
// scenario asks for the real one.
func NewWriter(w io.Writer) *gzip.Writer {
	if mc.RealCompression() {
		return gzip.NewWriter(w)
	}
	var z *gzip.Writer
	if n := len(writers); n > 0 {
		z = writers[n-1]
		writers = writers[:n-1]
		z.Reset(w)
	} else {
		z, _ = gzip.NewWriterLevel(w, gzip.NoCompression)
	}
	if mc.Live() {
		usedW = append(usedW, z)
	}
	return z
}

func NewReader(r io.Reader) (*gzip.Reader, error) {
	if n := len(readers); n > 0 && mc.Live() {
		z := readers[n-1]
		readers = readers[:n-1]
		if err := z.Reset(r); err != nil {
			readers = append(readers, z)
			return nil, err
		}
		usedR = append(usedR, z)
		return z, nil
	}
	z, err := gzip.NewReader(r)
	if err == nil && mc.Live() {
		usedR = append(usedR, z)
	}
	return z, err
}
