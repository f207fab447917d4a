package vsim

import (
	"io"
	"io/fs"
	"path/filepath"
	"sort"
	"syscall"
	"time"
)

// Disk is a simulated file system: it keeps what the running system sees (the page cache
// and cached directory entries) apart from what a power loss leaves behind. Nothing here
// touches the real file system.
type Disk struct {
	names   map[string]*Inode // as the running system sees them
	durable map[string]*Inode // as on the platter
	journal []dirOp           // directory changes not yet durable, in order

	Capacity int64 // bytes, 0 = unlimited
	used     int64
	tmpSeq   int

	Faults  int64 // errors returned to the program because of an injected fault
	FaultOn map[string]int64
	Ops     int64 // mutating operations
	Log     []string
	KeepLog bool
	// OnFault, if set, is told about every injected error.
	OnFault func(op, path string)
	nInodes int
	Handles int // open files
}

// Inode is a file or directory.
type Inode struct {
	id     int
	dir    bool
	mode   fs.FileMode
	data   []byte
	synced []byte
	pend   []write
	lost   bool // a failed sync dropped pending writes
	nlink  int
	mtime  int64
}

type write struct {
	off   int64
	data  []byte
	trunc bool
	size  int64
}

type dirOp struct {
	kind  byte // 'l' link, 'u' unlink, 'r' rename
	path  string
	path2 string
	ino   *Inode
}

// TheDisk is the disk the simulated process uses.
var TheDisk *Disk

// NewDisk returns an empty disk with a root, a working directory and a temporary directory.
func NewDisk() *Disk {
	d := &Disk{names: map[string]*Inode{}, durable: map[string]*Inode{}, FaultOn: map[string]int64{}}
	for _, p := range []string{"/", "/work", "/tmp"} {
		n := &Inode{dir: true, mode: fs.ModeDir | 0755, id: d.nInodes}
		d.nInodes++
		d.names[p], d.durable[p] = n, n
	}
	return d
}

// WorkDir is the simulated working directory.
const WorkDir = "/work"

func clean(p string) string {
	if p == "" {
		return ""
	}
	if p[0] != '/' {
		p = WorkDir + "/" + p
	}
	return filepath.Clean(p)
}

// Put stores a file durably (harness use).
func (d *Disk) Put(path string, data []byte) {
	n := &Inode{mode: 0644, nlink: 1, id: d.nInodes}
	d.nInodes++
	n.data = append([]byte(nil), data...)
	n.synced = append([]byte(nil), data...)
	d.names[clean(path)], d.durable[clean(path)] = n, n
	d.used += int64(len(data))
}

// MkdirDurable makes a directory (harness use).
func (d *Disk) MkdirDurable(path string) {
	n := &Inode{dir: true, mode: fs.ModeDir | 0755, id: d.nInodes}
	d.nInodes++
	d.names[clean(path)], d.durable[clean(path)] = n, n
}

// Get returns a file as the running system sees it (harness use).
func (d *Disk) Get(path string) ([]byte, bool) {
	n := d.names[clean(path)]
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// Names lists all files as the running system sees them (harness use).
func (d *Disk) Names() []string {
	var r []string
	for k, n := range d.names {
		if !n.dir {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// Used is the number of bytes in use.
func (d *Disk) Used() int64 { return d.used }

func (w write) apply(b []byte) []byte {
	if w.trunc {
		for int64(len(b)) < w.size {
			b = append(b, 0)
		}
		return b[:w.size:w.size]
	}
	end := w.off + int64(len(w.data))
	for int64(len(b)) < end {
		b = append(b, 0)
	}
	copy(b[w.off:end], w.data)
	return b
}

// PowerLoss returns the disk as it is after losing power now. choose(n) picks one of n
// alternatives; alternative 0 always loses what is not durable.
func (d *Disk) PowerLoss(choose func(n int) int) *Disk {
	r := &Disk{names: map[string]*Inode{}, durable: map[string]*Inode{}, FaultOn: map[string]int64{}, Capacity: d.Capacity, tmpSeq: d.tmpSeq + 1000, nInodes: d.nInodes + 1}
	cur := map[string]*Inode{}
	for p, n := range d.durable {
		cur[p] = n
	}
	keep := choose(len(d.journal) + 1)
	for _, op := range d.journal[:keep] {
		op.applyTo(cur)
	}
	paths := make([]string, 0, len(cur))
	for p := range cur {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	done := map[*Inode]*Inode{}
	for _, p := range paths {
		n := cur[p]
		if c := done[n]; c != nil {
			r.names[p], r.durable[p] = c, c
			continue
		}
		c := &Inode{id: n.id, dir: n.dir, mode: n.mode, nlink: 1}
		b := append([]byte(nil), n.synced...)
		if !n.lost {
			for _, w := range n.pend {
				switch choose(3) {
				case 1:
					b = w.apply(b)
				case 2: // torn
					if w.trunc || len(w.data) == 0 {
						continue
					}
					w.data = w.data[:choose(len(w.data))]
					b = w.apply(b)
				}
			}
		}
		c.data = b
		c.synced = append([]byte(nil), b...)
		done[n] = c
		r.names[p], r.durable[p] = c, c
		r.used += int64(len(b))
	}
	return r
}

// Restarted returns the disk as a new process sees it after the old one was killed.
func (d *Disk) Restarted() *Disk {
	d.Faults, d.Handles = 0, 0
	d.FaultOn = map[string]int64{}
	return d
}

func (op dirOp) applyTo(m map[string]*Inode) {
	switch op.kind {
	case 'l':
		m[op.path] = op.ino
	case 'u':
		delete(m, op.path)
	case 'r':
		if n := m[op.path]; n != nil {
			delete(m, op.path)
			m[op.path2] = n
		}
	}
}

func perr(op, path string, e error) error { return &fs.PathError{Op: op, Path: path, Err: e} }

// begin is called before each operation; it returns an injected error.
func (d *Disk) begin(op, path string, mutating bool) error {
	if !Active() {
		return perr(op, path, syscall.EIO)
	}
	SyncPoint()
	Advance(20_000)
	if mutating {
		d.Ops++
		if d.KeepLog {
			d.Log = append(d.Log, op+" "+path)
		}
		if Draw(DrawPower, 2) == 1 {
			CrashNow("process stopped before " + op + " " + path)
		}
	}
	Note(uint64(len(op))<<8 ^ uint64(len(path)))
	if k := Draw(DrawDisk, 4); k != 0 {
		e := []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[k-1]
		if op == "read" || op == "sync" || op == "close" {
			e = syscall.EIO
		}
		d.fault(op, path)
		return perr(op, path, e)
	}
	return nil
}

func (d *Disk) fault(op, path string) {
	d.Faults++
	d.FaultOn[op]++
	if d.OnFault != nil {
		d.OnFault(op, path)
	}
}

// end is called after each mutating operation: the process may be stopped right there.
func (d *Disk) end(op, path string) {
	if Active() && Draw(DrawPower, 2) == 1 {
		CrashNow("process stopped after " + op + " " + path)
	}
}

func (d *Disk) parentOK(p string) bool {
	n := d.names[filepath.Dir(p)]
	return n != nil && n.dir
}

func (d *Disk) free(n *Inode) { d.used -= int64(len(n.data)) }

// Handle is an open file.
type Handle struct {
	d      *Disk
	ino    *Inode
	path   string
	pos    int64
	flag   int
	closed bool
	fd     int // 1, 2 for the terminal
	dirPos int
}

// Open flags, as in package os.
const (
	oWRONLY = syscall.O_WRONLY
	oRDWR   = syscall.O_RDWR
	oAPPEND = syscall.O_APPEND
	oCREATE = syscall.O_CREAT
	oEXCL   = syscall.O_EXCL
	oTRUNC  = syscall.O_TRUNC
	oSYNC   = syscall.O_SYNC
	oDSYNC  = syscall.O_DSYNC
)

// Open opens or creates a file.
func (d *Disk) Open(name string, flag int, perm fs.FileMode) (*Handle, error) {
	p := clean(name)
	mut := flag&(oCREATE|oTRUNC) != 0
	if err := d.begin("open", name, mut); err != nil {
		return nil, err
	}
	if p == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	n := d.names[p]
	if n == nil {
		if flag&oCREATE == 0 || !d.parentOK(p) {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &Inode{mode: perm, nlink: 1, id: d.nInodes}
		d.nInodes++
		d.names[p] = n
		d.journal = append(d.journal, dirOp{kind: 'l', path: p, ino: n})
	} else {
		if flag&oCREATE != 0 && flag&oEXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(oWRONLY|oRDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&oTRUNC != 0 && len(n.data) > 0 {
			d.truncate(n, 0)
		}
	}
	if mut {
		d.end("open", name)
	}
	d.Handles++
	return &Handle{d: d, ino: n, path: name, flag: flag}, nil
}

func (d *Disk) truncate(n *Inode, size int64) {
	w := write{trunc: true, size: size}
	d.used -= int64(len(n.data))
	n.data = append([]byte(nil), w.apply(append([]byte(nil), n.data...))...)
	d.used += int64(len(n.data))
	n.pend = append(n.pend, w)
	n.mtime = Wall()
}

// Terminal returns a handle on the simulated terminal.
func Terminal(fd int) *Handle { return &Handle{fd: fd} }

func (h *Handle) check(op string) error {
	if h.closed {
		return perr(op, h.path, fs.ErrClosed)
	}
	return nil
}

func (h *Handle) writeAt(b []byte, off int64) (int, error) {
	d := h.d
	n := h.ino
	if n.dir || h.flag&(oWRONLY|oRDWR) == 0 {
		return 0, perr("write", h.path, syscall.EBADF)
	}
	take := int64(len(b))
	var err error
	if ferr := d.begin("write", h.path, true); ferr != nil {
		err = ferr
		take = 0
		if len(b) > 1 { // a short write
			take = Draw(DrawTear, int64(len(b)))
		}
	}
	crash := false
	if err == nil && len(b) > 1 && Active() {
		if k := Draw(DrawPower, int64(len(b))); k != 0 {
			take = k
			crash = true
		}
	}
	if d.Capacity > 0 && d.used+off+take-int64(len(n.data)) > d.Capacity {
		room := d.Capacity - d.used + int64(len(n.data)) - off
		if room < 0 {
			room = 0
		}
		if room < take {
			take = room
			if err == nil {
				err = perr("write", h.path, syscall.ENOSPC)
				d.fault("write", h.path)
			}
		}
	}
	if take > 0 {
		w := write{off: off, data: append([]byte(nil), b[:take]...)}
		before := int64(len(n.data))
		n.data = w.apply(n.data)
		d.used += int64(len(n.data)) - before
		n.pend = append(n.pend, w)
		n.mtime = Wall()
		if h.flag&(oSYNC|oDSYNC) != 0 && err == nil && !crash && !n.lost {
			n.synced = append([]byte(nil), n.data...)
			n.pend = nil
		}
	}
	if crash {
		CrashNow("process stopped in the middle of write " + h.path)
	}
	if err == nil {
		d.end("write", h.path)
	}
	return int(take), err
}

func (h *Handle) Write(b []byte) (int, error) {
	if h.fd != 0 {
		return Output(h.fd, b)
	}
	if err := h.check("write"); err != nil {
		return 0, err
	}
	if h.flag&oAPPEND != 0 {
		h.pos = int64(len(h.ino.data))
	}
	k, err := h.writeAt(b, h.pos)
	h.pos += int64(k)
	return k, err
}

func (h *Handle) WriteAt(b []byte, off int64) (int, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	return h.writeAt(b, off)
}

func (h *Handle) Read(b []byte) (int, error) {
	k, err := h.ReadAt(b, h.pos)
	h.pos += int64(k)
	if k > 0 && err == io.EOF {
		err = nil
	}
	return k, err
}

func (h *Handle) ReadAt(b []byte, off int64) (int, error) {
	if h.fd != 0 {
		return 0, io.EOF
	}
	if err := h.check("read"); err != nil {
		return 0, err
	}
	if h.flag&oWRONLY != 0 {
		return 0, perr("read", h.path, syscall.EBADF)
	}
	if h.ino.dir {
		return 0, perr("read", h.path, syscall.EISDIR)
	}
	if err := h.d.begin("read", h.path, false); err != nil {
		return 0, err
	}
	if off >= int64(len(h.ino.data)) {
		return 0, io.EOF
	}
	k := copy(b, h.ino.data[off:])
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if h.fd != 0 {
		return 0, syscall.ESPIPE
	}
	if err := h.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += h.pos
	case 2:
		off += int64(len(h.ino.data))
	}
	if off < 0 {
		return 0, perr("seek", h.path, syscall.EINVAL)
	}
	h.pos = off
	return off, nil
}

// Sync makes the file's content durable; for a directory, its entries.
func (h *Handle) Sync() error {
	if h.fd != 0 {
		return nil
	}
	if err := h.check("sync"); err != nil {
		return err
	}
	d, n := h.d, h.ino
	if err := d.begin("sync", h.path, true); err != nil {
		if !n.dir && len(n.pend) > 0 {
			n.pend = nil // the kernel drops the dirty pages and reports the error once
			n.lost = true
		}
		return err
	}
	if n.dir {
		dir := clean(h.path)
		last := -1
		for i, op := range d.journal {
			if filepath.Dir(op.path) == dir || (op.kind == 'r' && filepath.Dir(op.path2) == dir) {
				last = i
			}
		}
		for _, op := range d.journal[:last+1] {
			op.applyTo(d.durable)
		}
		d.journal = append([]dirOp(nil), d.journal[last+1:]...)
	} else if !n.lost {
		n.synced = append([]byte(nil), n.data...)
		n.pend = nil
	} else { // only what was written since the failure reaches the platter
		b := n.synced
		for _, w := range n.pend {
			b = w.apply(b)
		}
		n.synced = append([]byte(nil), b...)
		n.pend = nil
	}
	d.end("sync", h.path)
	return nil
}

func (h *Handle) Truncate(size int64) error {
	if err := h.check("truncate"); err != nil {
		return err
	}
	if err := h.d.begin("truncate", h.path, true); err != nil {
		return err
	}
	h.d.truncate(h.ino, size)
	h.d.end("truncate", h.path)
	return nil
}

func (h *Handle) Close() error {
	if h.fd != 0 {
		return nil
	}
	if err := h.check("close"); err != nil {
		return err
	}
	h.closed = true
	h.d.Handles--
	if h.flag&(oWRONLY|oRDWR) == 0 {
		return nil
	}
	return h.d.begin("close", h.path, true)
}

func (h *Handle) Path() string { return h.path }
func (h *Handle) FD() int      { return h.fd }

// FileInfo describes a file.
type FileInfo struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
	ino   *Inode
}

func (f *FileInfo) Name() string               { return f.name }
func (f *FileInfo) Size() int64                { return f.size }
func (f *FileInfo) Mode() fs.FileMode          { return f.mode }
func (f *FileInfo) ModTime() time.Time         { return time.Unix(0, f.mtime) }
func (f *FileInfo) IsDir() bool                { return f.mode.IsDir() }
func (f *FileInfo) Sys() any                   { return nil }
func (f *FileInfo) Type() fs.FileMode          { return f.mode.Type() }
func (f *FileInfo) Info() (fs.FileInfo, error) { return f, nil }
func (f *FileInfo) Same(o *FileInfo) bool      { return f.ino == o.ino }

func info(p string, n *Inode) *FileInfo {
	return &FileInfo{filepath.Base(p), int64(len(n.data)), n.mode, n.mtime, n}
}

func (h *Handle) Stat() (*FileInfo, error) {
	if h.fd != 0 {
		return &FileInfo{name: "tty", mode: fs.ModeDevice | fs.ModeCharDevice}, nil
	}
	if err := h.check("stat"); err != nil {
		return nil, err
	}
	return info(clean(h.path), h.ino), nil
}

func (h *Handle) Chmod(m fs.FileMode) error {
	if h.fd == 0 {
		h.ino.mode = h.ino.mode&^fs.ModePerm | m&fs.ModePerm
	}
	return nil
}

// ReadDir lists directory entries.
func (h *Handle) ReadDir(n int) ([]*FileInfo, error) {
	if h.ino == nil || !h.ino.dir {
		return nil, perr("readdir", h.path, syscall.ENOTDIR)
	}
	all := h.d.List(clean(h.path))
	if h.dirPos > len(all) {
		h.dirPos = len(all)
	}
	all = all[h.dirPos:]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		if len(all) > n {
			all = all[:n]
		}
	}
	h.dirPos += len(all)
	return all, nil
}

// List lists a directory in name order.
func (d *Disk) List(dir string) []*FileInfo {
	var ps []string
	for p := range d.names {
		if p != dir && filepath.Dir(p) == dir {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	r := make([]*FileInfo, len(ps))
	for i, p := range ps {
		r[i] = info(p, d.names[p])
	}
	return r
}

func (d *Disk) Stat(name string) (*FileInfo, error) {
	if !Active() {
		return nil, perr("stat", name, syscall.EIO)
	}
	SyncPoint()
	p := clean(name)
	n := d.names[p]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info(p, n), nil
}

func (d *Disk) Rename(from, to string) error {
	mk := func(e error) error { return &linkError{"rename", from, to, e} }
	if err := d.begin("rename", to, true); err != nil {
		return mk(err.(*fs.PathError).Err)
	}
	a, b := clean(from), clean(to)
	n := d.names[a]
	if n == nil || !d.parentOK(b) {
		return mk(syscall.ENOENT)
	}
	if a == b {
		return nil
	}
	if o := d.names[b]; o != nil {
		if o.dir {
			return mk(syscall.EEXIST)
		}
		d.free(o)
	}
	if n.dir {
		return mk(syscall.EINVAL) // directories are not renamed in this simulation
	}
	delete(d.names, a)
	d.names[b] = n
	d.journal = append(d.journal, dirOp{kind: 'r', path: a, path2: b, ino: n})
	d.end("rename", to)
	return nil
}

type linkError struct {
	Op, Old, New string
	Err          error
}

func (e *linkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *linkError) Unwrap() error { return e.Err }

func (d *Disk) Link(from, to string) error {
	if err := d.begin("link", to, true); err != nil {
		return err
	}
	a, b := clean(from), clean(to)
	n := d.names[a]
	if n == nil || n.dir || !d.parentOK(b) {
		return &linkError{"link", from, to, syscall.ENOENT}
	}
	if d.names[b] != nil {
		return &linkError{"link", from, to, syscall.EEXIST}
	}
	d.names[b] = n
	d.journal = append(d.journal, dirOp{kind: 'l', path: b, ino: n})
	d.end("link", to)
	return nil
}

func (d *Disk) Remove(name string) error {
	if err := d.begin("remove", name, true); err != nil {
		return err
	}
	p := clean(name)
	n := d.names[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(d.List(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(d.names, p)
	if !n.dir {
		d.free(n)
	}
	d.journal = append(d.journal, dirOp{kind: 'u', path: p, ino: n})
	d.end("remove", name)
	return nil
}

func (d *Disk) RemoveAll(name string) error {
	p := clean(name)
	var ps []string
	for q := range d.names {
		if q == p || (len(q) > len(p) && q[:len(p)] == p && (p == "/" || q[len(p)] == '/')) {
			ps = append(ps, q)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(ps)))
	for _, q := range ps {
		if q == "/" {
			continue
		}
		if err := d.Remove(q); err != nil {
			return err
		}
	}
	return nil
}

func (d *Disk) Mkdir(name string, perm fs.FileMode) error {
	if err := d.begin("mkdir", name, true); err != nil {
		return err
	}
	p := clean(name)
	if d.names[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if !d.parentOK(p) {
		return perr("mkdir", name, syscall.ENOENT)
	}
	n := &Inode{dir: true, mode: fs.ModeDir | perm&fs.ModePerm, id: d.nInodes}
	d.nInodes++
	d.names[p] = n
	d.journal = append(d.journal, dirOp{kind: 'l', path: p, ino: n})
	d.end("mkdir", name)
	return nil
}

func (d *Disk) MkdirAll(name string, perm fs.FileMode) error {
	p := clean(name)
	if n := d.names[p]; n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if q := filepath.Dir(p); q != p {
		if err := d.MkdirAll(q, perm); err != nil {
			return err
		}
	}
	return d.Mkdir(p, perm)
}

// TempName returns a fresh number for temporary names.
func (d *Disk) TempName() int {
	d.tmpSeq++
	return 100000 + d.tmpSeq
}

// ---- terminal ----

// OutBuf is what the simulated process printed.
type OutLine struct {
	FD   int
	Text string
	At   int64
}

var (
	outBuf  []OutLine
	OnPrint func(fd int, s string)
)

// Output records terminal output.
//
//go:norace
func Output(fd int, b []byte) (int, error) {
	if Active() {
		SyncPoint()
		outBuf = append(outBuf, OutLine{fd, string(b), total})
		if OnPrint != nil {
			OnPrint(fd, string(b))
		}
	}
	return len(b), nil
}

// Printed is the terminal output of the current or last run.
func Printed() []OutLine { return outBuf }
