// Package ioutil is the simulated counterpart of io/ioutil.
package ioutil

import (
	"io"
	"io/fs"

	"verifsim/shim/os"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)      { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser      { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error)     { return os.ReadFile(name) }
func TempFile(dir, p string) (*os.File, error) { return os.CreateTemp(dir, p) }
func TempDir(dir, p string) (string, error)    { return os.MkdirTemp(dir, p) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := os.ReadDir(name)
	r := make([]fs.FileInfo, 0, len(l))
	for _, e := range l {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		r = append(r, i)
	}
	return r, err
}
