// Package os is the simulated counterpart of the standard package. No operation reaches the
// real file system, and no operation ends the real process.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/vsim"
)

// File is an open simulated file.
type File struct{ h *vsim.Handle }

var (
	Stdin  = &File{vsim.Terminal(3)}
	Stdout = &File{vsim.Terminal(1)}
	Stderr = &File{vsim.Terminal(2)}
	Args   = []string{"triangula"}
)

func Exit(code int) { vsim.Exit(code, "os.Exit") }

func d() *vsim.Disk {
	if vsim.TheDisk == nil {
		vsim.TheDisk = vsim.NewDisk()
	}
	return vsim.TheDisk
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := d().Open(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{h}, nil
}
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) bad() bool { return f == nil || f.h == nil }

func (f *File) Write(b []byte) (int, error) {
	if f.bad() {
		return 0, ErrInvalid
	}
	return f.h.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.bad() {
		return 0, ErrInvalid
	}
	return f.h.WriteAt(b, off)
}
func (f *File) Read(b []byte) (int, error) {
	if f.bad() {
		return 0, ErrInvalid
	}
	return f.h.Read(b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.bad() {
		return 0, ErrInvalid
	}
	return f.h.ReadAt(b, off)
}

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.bad() {
		return 0, ErrInvalid
	}
	return f.h.Seek(off, whence)
}
func (f *File) Sync() error {
	if f.bad() {
		return ErrInvalid
	}
	return f.h.Sync()
}
func (f *File) Close() error {
	if f.bad() {
		return ErrInvalid
	}
	return f.h.Close()
}
func (f *File) Truncate(size int64) error {
	if f.bad() {
		return ErrInvalid
	}
	return f.h.Truncate(size)
}
func (f *File) Name() string {
	switch f.h.FD() {
	case 1:
		return "/dev/stdout"
	case 2:
		return "/dev/stderr"
	case 3:
		return "/dev/stdin"
	}
	return f.h.Path()
}
func (f *File) Stat() (FileInfo, error) {
	if f.bad() {
		return nil, ErrInvalid
	}
	i, err := f.h.Stat()
	if err != nil {
		return nil, err
	}
	return i, nil
}
func (f *File) Chmod(m FileMode) error {
	if f.bad() {
		return ErrInvalid
	}
	return f.h.Chmod(m)
}
func (f *File) Chown(uid, gid int) error           { return nil }
func (f *File) Chdir() error                       { return nil }
func (f *File) Fd() uintptr                        { return 99 }
func (f *File) SetDeadline(t time.Time) error      { return real.ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return real.ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return real.ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) {
	return nil, errors.New("not available in the simulation")
}
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if f.bad() {
		return nil, ErrInvalid
	}
	l, err := f.h.ReadDir(n)
	r := make([]DirEntry, len(l))
	for i := range l {
		r[i] = l[i]
	}
	return r, err
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	if f.bad() {
		return nil, ErrInvalid
	}
	l, err := f.h.ReadDir(n)
	r := make([]FileInfo, len(l))
	for i := range l {
		r[i] = l[i]
	}
	return r, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	if f.bad() {
		return nil, ErrInvalid
	}
	l, err := f.h.ReadDir(n)
	r := make([]string, len(l))
	for i := range l {
		r[i] = l[i].Name()
	}
	return r, err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(onlyReader{f})
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

func Rename(from, to string) error {
	err := d().Rename(from, to)
	if err != nil {
		return &LinkError{Op: "rename", Old: from, New: to, Err: errors.Unwrap(err)}
	}
	return nil
}
func Link(from, to string) error    { return d().Link(from, to) }
func Symlink(from, to string) error { return &LinkError{"symlink", from, to, syscall.EPERM} }
func Readlink(name string) (string, error) {
	return "", &PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
}
func Remove(name string) error                  { return d().Remove(name) }
func RemoveAll(name string) error               { return d().RemoveAll(name) }
func Mkdir(name string, perm FileMode) error    { return d().Mkdir(name, perm) }
func MkdirAll(name string, perm FileMode) error { return d().MkdirAll(name, perm) }
func Chmod(name string, m FileMode) error       { _, err := d().Stat(name); return err }
func Chown(name string, uid, gid int) error     { return nil }
func Lchown(name string, uid, gid int) error    { return nil }
func Chtimes(name string, a, m time.Time) error { return nil }
func Chdir(dir string) error                    { return nil }
func Getwd() (string, error)                    { return vsim.WorkDir, nil }
func TempDir() string                           { return "/tmp" }
func UserHomeDir() (string, error)              { return "/work", nil }
func UserCacheDir() (string, error)             { return "/tmp", nil }
func UserConfigDir() (string, error)            { return "/tmp", nil }
func Executable() (string, error)               { return "/work/triangula", nil }
func Hostname() (string, error)                 { return "sim", nil }
func Getpid() int                               { return 4242 }
func Getppid() int                              { return 1 }
func Pipe() (r, w *File, err error)             { return nil, nil, syscall.EMFILE }
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}
func CopyFS(dir string, fsys fs.FS) error { return syscall.EPERM }
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	err = f.Truncate(size)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
func Stat(name string) (FileInfo, error) {
	i, err := d().Stat(name)
	if err != nil {
		return nil, err
	}
	return i, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*vsim.FileInfo)
	y, ok2 := b.(*vsim.FileInfo)
	return ok1 && ok2 && x.Same(y)
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	num := strconv.Itoa(d().TempName())
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return dir + "/" + pattern[:i] + num + pattern[i+1:]
	}
	return dir + "/" + pattern + num
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}
func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

type dirFS string

func (f dirFS) Open(name string) (fs.File, error) {
	x, err := Open(string(f) + "/" + name)
	if err != nil {
		return nil, err
	}
	return x, nil
}

func DirFS(dir string) fs.FS { return dirFS(dir) }
