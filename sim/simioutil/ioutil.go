// Package simioutil stands in for io/ioutil.
package simioutil

import (
	"io"
	"io/fs"

	"wpkverif/simos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)       { return io.ReadAll(r) }
func ReadFile(p string) ([]byte, error)         { return simos.ReadFile(p) }
func NopCloser(r io.Reader) io.ReadCloser       { return io.NopCloser(r) }
func TempFile(d, p string) (*simos.File, error) { return simos.CreateTemp(d, p) }
func TempDir(d, p string) (string, error)       { return simos.MkdirTemp(d, p) }
func WriteFile(p string, b []byte, m fs.FileMode) error {
	return simos.WriteFile(p, b, m)
}
func ReadDir(p string) (r []fs.FileInfo, err error) {
	l, err := simos.ReadDir(p)
	for _, e := range l {
		fi, _ := e.Info()
		r = append(r, fi)
	}
	return r, err
}
