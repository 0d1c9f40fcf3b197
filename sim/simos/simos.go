//go:build go1.25

// Package simos stands in for the file functions of package os: an in-memory
// file system with injected faults, whose state after a crash at any point is
// available as an image.  While no file system is mounted, calls go to the
// real os.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/qiniu/uip/verifsim/rt"
)

// Fault is one injected failure.
type Fault struct {
	Op    string `json:"op"`              // create open read write close sync rename remove stat trunc
	N     int    `json:"n"`               // fires at the N-th call of that kind (from 1) ...
	Path  string `json:"path,omitempty"`  // ... on paths with this suffix, if given
	Err   string `json:"err,omitempty"`   // ENOSPC EIO EACCES EINTR EMFILE EISDIR ENOENT EDQUOT; "" for a pure short read
	Part  int    `json:"part,omitempty"`  // write: bytes that still reach the file; read: bytes returned first
	Stick bool   `json:"stick,omitempty"` // keeps failing from then on
	hits  int
}

// Crash kills the process at a file-system operation.
type Crash struct {
	At   int `json:"at"`   // before the At-th mutating operation (from 1)
	Part int `json:"part"` // of a write, bytes that still reach the file
	// PerMille is another way to say Part.
	PerMille int `json:"permille,omitempty"`
}

type inode struct {
	data []byte
	dir  bool
	mode fs.FileMode
	link string
	dev  fs.FileMode // a device or pipe: what was written since it was last opened

	dur   []byte // what a loss of power leaves for certain
	dirty bool   // data was written since
	bad   bool   // a failure was reported while writing what it holds

	mtime time.Time
}

// FS is a simulated file system.
type FS struct {
	nodes   map[string]*inode
	Faults  []*Fault
	Crash   *Crash
	Chunk   int // largest number of bytes one Read returns (0: no limit)
	WChunk  int // a Write reaches the file in pieces of that size (0: at once)
	chunks  rt.Rng
	muts    int
	Log     []string
	Watch   func()      // called before every mutating operation (observers)
	OnRead  func(n int) // called before the n-th read of a handle
	Open    int         // open handles
	OpSeen  map[string]int
	failed  map[string]bool // paths on which a failure was reported
	hurt    bool            // a fault was injected since ClearFailed
	whole   map[string]bool // paths whose latest read reached the end
	inWatch bool
	crashIn string
}

// CrashedIn is the kind of operation at which the process crashed.
func (f *FS) CrashedIn() string { return f.crashIn }

var cur *FS

// Fired counts injected faults by kind, for the whole process.
var Fired = map[string]int{}

// New makes an empty file system with one directory "/" and "/w".
func New() *FS {
	f := &FS{nodes: map[string]*inode{}, failed: map[string]bool{}, whole: map[string]bool{}, OpSeen: map[string]int{}}
	f.nodes["/"] = &inode{dir: true, mode: 0755}
	f.nodes["/w"] = &inode{dir: true, mode: 0755}
	f.nodes["/tmp"] = &inode{dir: true, mode: 0755}
	return f
}

// Mount makes f the file system of the process under test (nil: the real one).
func Mount(f *FS) { cur = f; env = nil; tmpN = 0 }

// Clone copies the state (not the faults).
func (f *FS) Clone() *FS {
	g := New()
	for k, v := range f.nodes {
		c := *v
		c.data = append([]byte(nil), v.data...)
		c.dur = append([]byte(nil), v.dur...)
		g.nodes[k] = &c
	}
	return g
}

// Put stores a file without going through the simulation.
func (f *FS) Put(name string, b []byte) {
	f.nodes[clean(name)] = &inode{data: append([]byte(nil), b...), dur: append([]byte(nil), b...), mode: 0644, mtime: rt.Peek()}
}

// Tainted tells whether a write, sync or close of what the file holds failed.
func (f *FS) Tainted(name string) bool {
	n, _, err := f.walk(name)
	return err == nil && n != nil && n.bad
}

// PowerLoss replaces what was not synced by what a disk may hold afterwards:
// each block new, old or zero, and either length. Names are durable in order.
func (f *FS) PowerLoss(seed uint64) {
	r := rt.NewRng(seed)
	var names []string
	for k := range f.nodes {
		names = append(names, k)
	}
	sort.Strings(names)
	done := map[*inode]bool{}
	for _, k := range names {
		n := f.nodes[k]
		if !n.dirty || n.dir || done[n] {
			continue
		}
		done[n] = true
		ln := len(n.data)
		switch r.U64() % 4 {
		case 0:
			ln = len(n.dur)
		case 1:
			if ln > 0 {
				ln = int(r.U64() % uint64(ln+1))
			}
		}
		out := make([]byte, ln)
		blk := []int{64, 512, 4096}[r.U64()%3]
		for o := 0; o < ln; o += blk {
			e := o + blk
			if e > ln {
				e = ln
			}
			switch r.U64() % 4 {
			case 0: // never written
				if o < len(n.dur) {
					copy(out[o:e], n.dur[o:])
				}
			case 1: // zeros
			default:
				if o < len(n.data) {
					copy(out[o:e], n.data[o:])
				}
			}
		}
		n.data, n.dirty = out, false
		Fired["power-loss"]++
	}
}

func (f *FS) Mkdir(name string)               { f.nodes[clean(name)] = &inode{dir: true, mode: 0755} }
func (f *FS) Link(name, target string)        { f.nodes[clean(name)] = &inode{link: target, mode: 0777} }
func (f *FS) Dev(name string, t fs.FileMode)  { f.nodes[clean(name)] = &inode{dev: t, mode: 0666} }

// IsDev tells whether there is a device or pipe.
func (f *FS) IsDev(name string) bool {
	n, _, err := f.walk(name)
	return err == nil && n != nil && n.dev != 0
}
func (f *FS) Delete(name string)              { delete(f.nodes, clean(name)) }
func (f *FS) SetMode(n string, m fs.FileMode) { f.nodes[clean(n)].mode = m }

// SetTime sets when a file was modified.
func (f *FS) SetTime(n string, t time.Time) { f.nodes[clean(n)].mtime = t }

// Time tells when a file was modified.
func (f *FS) Time(n string) (time.Time, bool) {
	x, _, err := f.walk(n)
	if err != nil || x == nil {
		return time.Time{}, false
	}
	return x.mtime, true
}

// Get reads a file without going through the simulation.
func (f *FS) Get(name string) ([]byte, bool) {
	n, _, err := f.walk(name)
	if err != nil || n == nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// Names lists all files.
func (f *FS) Names() []string {
	var r []string
	for k, n := range f.nodes {
		if !n.dir {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// Muts is the number of mutating operations so far.
func (f *FS) Muts() int { return f.muts }

// Failed tells whether a failure was reported on a path ending so.
func (f *FS) Failed(suffix string) bool {
	for k := range f.failed {
		if strings.HasSuffix(k, suffix) {
			return true
		}
	}
	return false
}

// Whole tells whether the latest read of the file ended at its end.
func (f *FS) Whole(name string) bool {
	_, p, _ := f.walk(name)
	return f.whole[p]
}

// AnyFailed tells whether any failure was reported.
func (f *FS) AnyFailed() bool { return len(f.failed) > 0 }

// Injected tells whether a fault was injected, as opposed to a failure which
// the state of the file system explains.
func (f *FS) Injected() bool { return f.hurt }

func (f *FS) ClearFailed() { f.failed, f.hurt = map[string]bool{}, false }

// The simulated file system is shared state of all tasks, like a kernel: the
// race detector is told that its calls do not race with each other.
var gate atomic.Int64

func fence() func() {
	gate.Add(1)
	return leave
}

func leave() { gate.Add(1) }

// Note counts a failure injected elsewhere.
func Note(k string) {
	gate.Add(1)
	Fired[k]++
	gate.Add(1)
}

func yield() {
	gate.Add(1)
	rt.Y(0)
	gate.Add(1)
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/w/" + p
	}
	return path.Clean(p)
}

func (f *FS) walk(name string) (*inode, string, error) {
	p := clean(name)
	for i := 0; i < 10; i++ {
		n := f.nodes[p]
		if n == nil {
			dir := f.nodes[path.Dir(p)]
			if dir == nil {
				return nil, p, syscall.ENOENT
			}
			if !dir.dir {
				return nil, p, syscall.ENOTDIR
			}
			return nil, p, nil
		}
		if n.link == "" {
			return n, p, nil
		}
		if strings.HasPrefix(n.link, "/") {
			p = path.Clean(n.link)
		} else {
			p = path.Join(path.Dir(p), n.link)
		}
	}
	return nil, p, syscall.ELOOP
}

var errnos = map[string]syscall.Errno{"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EACCES": syscall.EACCES,
	"EINTR": syscall.EINTR, "EMFILE": syscall.EMFILE, "EISDIR": syscall.EISDIR, "ENOENT": syscall.ENOENT,
	"EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "ENOMEM": syscall.ENOMEM, "EAGAIN": syscall.EAGAIN, "EPIPE": syscall.EPIPE}

// Errno maps a name to the error.
func Errno(s string) error {
	if e, ok := errnos[s]; ok {
		return e
	}
	return syscall.EIO
}

func dead() bool {
	p := rt.CurProc()
	return p != nil && p.Dead
}

// hit returns the fault that fires at this call, if any.
func (f *FS) hit(op, p string) *Fault {
	if f.inWatch {
		return nil
	}
	f.OpSeen[op]++
	for _, x := range f.Faults {
		if x.Op != op || (x.Path != "" && !strings.Contains(p, x.Path)) {
			continue
		}
		x.hits++
		if x.hits == x.N || (x.Stick && x.hits > x.N) {
			return x
		}
	}
	return nil
}

func (f *FS) fail(op, p, e string) error {
	Fired[op+":"+e]++
	f.failed[p], f.hurt = true, true
	if len(f.Log) < 200 {
		f.Log = append(f.Log, op+" "+p+" -> "+e)
	}
	return &fs.PathError{Op: op, Path: p, Err: Errno(e)}
}

// mut is called before every mutating operation; it may crash the process.
// It returns the number of bytes of the operation that still take effect.
func (f *FS) mut(op, p string, n int) int {
	if f.inWatch {
		return n
	}
	if f.Watch != nil {
		f.inWatch = true
		f.Watch()
		f.inWatch = false
	}
	f.muts++
	if len(f.Log) < 200 {
		f.Log = append(f.Log, fmt.Sprintf("%s %s %d", op, p, n))
	}
	if f.Crash != nil && f.muts == f.Crash.At {
		Fired["crash:"+op]++
		f.crashIn = op
		if p := f.Crash.PerMille; p > 0 {
			return n * p / 1000
		}
		if f.Crash.Part < n {
			return f.Crash.Part
		}
		return n
	}
	return -1
}

func (f *FS) crashed() bool { return f.Crash != nil && f.muts == f.Crash.At && !f.inWatch }

// File stands in for os.File.
type File struct {
	real   *os.File
	f      *FS
	n      *inode
	name   string
	path   string
	pos    int64
	flag   int
	closed bool
	reads  int
}

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC
)

var (
	Stdin  = &File{real: os.Stdin, name: "/dev/stdin"}
	Stdout = &File{real: os.Stdout, name: "/dev/stdout"}
	Stderr = &File{real: os.Stderr, name: "/dev/stderr"}
	Args   = []string{"sim"}
	env    map[string]string
	tmpN   int
)

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

var errDead = errors.New("process is gone")

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	defer fence()()
	f := cur
	if f == nil {
		r, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{real: r, name: name}, nil
	}
	if dead() {
		return nil, errDead
	}
	yield()
	n, p, err := f.walk(name)
	op := "open"
	if flag&(O_CREATE|O_TRUNC|O_WRONLY|O_RDWR) != 0 {
		op = "create"
	}
	if x := f.hit(op, p); x != nil && x.Err != "" {
		return nil, f.fail(op, p, x.Err)
	}
	if err != nil {
		f.failed[p] = true
		return nil, perr("open", name, err)
	}
	if n == nil {
		if flag&O_CREATE == 0 {
			f.failed[p] = true
			return nil, perr("open", name, syscall.ENOENT)
		}
		if d := f.nodes[path.Dir(p)]; d.mode&0200 == 0 {
			f.failed[p] = true
			return nil, perr("open", name, syscall.EACCES)
		}
		if k := f.mut("create", p, 0); k >= 0 && f.crashed() {
			rt.Die()
		}
		n = &inode{mode: perm & 0777 &^ 022, mtime: rt.Peek()}
		f.nodes[p] = n
	} else {
		if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(O_WRONLY|O_RDWR|O_CREATE) != 0 {
			f.failed[p] = true
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&(O_WRONLY|O_RDWR) != 0 && n.mode&0200 == 0 {
			f.failed[p] = true
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&3 != O_WRONLY && n.mode&0400 == 0 {
			f.failed[p] = true
			return nil, perr("open", name, syscall.EACCES)
		}
		if n.dev != 0 {
			if flag&(O_WRONLY|O_RDWR) != 0 {
				n.data, n.bad = nil, false
			}
		} else if flag&O_TRUNC != 0 && flag&(O_WRONLY|O_RDWR) != 0 {
			if k := f.mut("trunc", p, 0); k >= 0 && f.crashed() {
				rt.Die()
			}
			n.data, n.bad, n.dirty, n.mtime = nil, false, true, rt.Peek()
		}
	}
	f.Open++
	return &File{f: f, n: n, name: name, path: p, flag: flag}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}

func ReadFile(name string) ([]byte, error) {
	defer fence()()
	if cur == nil {
		return os.ReadFile(name)
	}
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	var b []byte
	buf := make([]byte, 1<<16)
	for {
		n, err := h.Read(buf)
		b = append(b, buf[:n]...)
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return b, err
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	defer fence()()
	if cur == nil {
		return os.WriteFile(name, data, perm)
	}
	h, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if err1 := h.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func (h *File) Name() string { return h.name }
func (h *File) Fd() uintptr {
	if h.real != nil {
		return h.real.Fd()
	}
	return 99
}

func (h *File) check(op string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return perr(op, h.name, os.ErrClosed)
	}
	if dead() {
		return errDead
	}
	return nil
}

func (h *File) readAt(b []byte, pos int64) (int, error) {
	f := h.f
	f.whole[h.path] = false
	if h.n.dir {
		f.failed[h.path] = true
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	yield()
	if f.OnRead != nil && !f.inWatch {
		f.OnRead(h.reads)
		h.reads++
	}
	lim := len(b)
	if f.Chunk > 0 && lim > f.Chunk && !f.inWatch {
		lim = f.Chunk
		Fired["short-read"]++
	}
	if x := f.hit("read", h.path); x != nil {
		if x.Err != "" {
			return 0, f.fail("read", h.path, x.Err)
		}
		if x.Part > 0 && x.Part < lim {
			lim = x.Part
			Fired["short-read"]++
		}
	}
	if pos >= int64(len(h.n.data)) {
		f.whole[h.path] = true
		return 0, io.EOF
	}
	return copy(b[:lim], h.n.data[pos:]), nil
}

func (h *File) Read(b []byte) (int, error) {
	defer fence()()
	if h.real != nil {
		return h.real.Read(b)
	}
	if err := h.check("read"); err != nil {
		return 0, err
	}
	n, err := h.readAt(b, h.pos)
	h.pos += int64(n)
	return n, err
}

func (h *File) ReadAt(b []byte, off int64) (int, error) {
	defer fence()()
	if h.real != nil {
		return h.real.ReadAt(b, off)
	}
	if err := h.check("read"); err != nil {
		return 0, err
	}
	t := 0
	for t < len(b) {
		n, err := h.readAt(b[t:], off+int64(t))
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

func (h *File) put(b []byte, pos int64) {
	if h.n.dev != 0 {
		pos = int64(len(h.n.data))
	}
	for int64(len(h.n.data)) < pos {
		h.n.data = append(h.n.data, 0)
	}
	h.n.dirty, h.n.mtime = true, rt.Peek()
	k := copy(h.n.data[pos:], b)
	h.n.data = append(h.n.data, b[k:]...)
}

func (h *File) Write(b []byte) (int, error) {
	defer fence()()
	if h == nil {
		return 0, os.ErrInvalid
	}
	if h.real != nil {
		return h.real.Write(b)
	}
	yield()
	if err := h.check("write"); err != nil {
		return 0, err
	}
	if h.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	f := h.f
	if h.flag&O_APPEND != 0 {
		h.pos = int64(len(h.n.data))
	}
	if x := f.hit("write", h.path); x != nil && x.Err != "" {
		n := x.Part
		if n > len(b) {
			n = len(b)
		}
		if n > 0 {
			f.mut("write", h.path, n)
			h.put(b[:n], h.pos)
			h.pos += int64(n)
			Fired["short-write"]++
		}
		h.n.bad = true
		return n, f.fail("write", h.path, x.Err)
	}
	if k := f.mut("write", h.path, len(b)); k >= 0 && f.crashed() {
		h.put(b[:k], h.pos)
		rt.Die()
	}
	n := len(b)
	for f.WChunk > 0 && len(b) > f.WChunk {
		h.put(b[:f.WChunk], h.pos)
		h.pos += int64(f.WChunk)
		b = b[f.WChunk:]
		yield()
		if dead() {
			return n - len(b), errDead
		}
	}
	h.put(b, h.pos)
	h.pos += int64(len(b))
	return n, nil
}

func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

func (h *File) WriteAt(b []byte, off int64) (int, error) {
	defer fence()()
	if h.real != nil {
		return h.real.WriteAt(b, off)
	}
	old := h.pos
	h.pos = off
	n, err := h.Write(b)
	h.pos = old
	return n, err
}

func (h *File) ReadFrom(r io.Reader) (int64, error) {
	defer fence()()
	var t int64
	buf := make([]byte, 32<<10)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			k, werr := h.Write(buf[:n])
			t += int64(k)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func (h *File) Seek(off int64, whence int) (int64, error) {
	defer fence()()
	if h.real != nil {
		return h.real.Seek(off, whence)
	}
	if err := h.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		h.pos = off
	case 1:
		h.pos += off
	case 2:
		h.pos = int64(len(h.n.data)) + off
	}
	return h.pos, nil
}

func (h *File) Truncate(n int64) error {
	defer fence()()
	if h.real != nil {
		return h.real.Truncate(n)
	}
	yield()
	if err := h.check("truncate"); err != nil {
		return err
	}
	if x := h.f.hit("trunc", h.path); x != nil && x.Err != "" {
		return h.f.fail("trunc", h.path, x.Err)
	}
	if h.n.dev != 0 {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	if k := h.f.mut("trunc", h.path, 0); k >= 0 && h.f.crashed() {
		rt.Die()
	}
	for int64(len(h.n.data)) < n {
		h.n.data = append(h.n.data, 0)
	}
	h.n.data = h.n.data[:n]
	h.n.dirty, h.n.mtime = true, rt.Peek()
	return nil
}

func (h *File) Sync() error {
	defer fence()()
	if h.real != nil {
		return nil
	}
	yield()
	if err := h.check("sync"); err != nil {
		return err
	}
	if x := h.f.hit("sync", h.path); x != nil && x.Err != "" {
		h.n.bad = true
		return h.f.fail("sync", h.path, x.Err)
	}
	if h.n.dev != 0 {
		return perr("sync", h.name, syscall.EINVAL)
	}
	if k := h.f.mut("sync", h.path, 0); k >= 0 && h.f.crashed() {
		rt.Die()
	}
	h.n.dur, h.n.dirty = append([]byte(nil), h.n.data...), false
	return nil
}

func (h *File) Close() error {
	defer fence()()
	if h == nil {
		return os.ErrInvalid
	}
	if h.real != nil {
		return h.real.Close()
	}
	yield()
	if err := h.check("close"); err != nil {
		return err
	}
	h.closed = true
	h.f.Open--
	op := "close"
	if h.flag&(O_WRONLY|O_RDWR) == 0 {
		op = "closer"
	}
	if x := h.f.hit(op, h.path); x != nil && x.Err != "" {
		h.n.bad = h.n.bad || op == "close"
		return h.f.fail(op, h.path, x.Err)
	}
	return nil
}

func (h *File) Chmod(m fs.FileMode) error {
	defer fence()()
	if h.real != nil {
		return h.real.Chmod(m)
	}
	h.n.mode = m & 0777
	return nil
}

// info is the state of a file at the time of the call.
type info struct {
	name string
	n    *inode
	size int64
	mode fs.FileMode
	at   time.Time
}

func infoOf(name string, n *inode) info {
	if n.dev != 0 {
		return info{name, n, 0, n.mode, n.mtime}
	}
	return info{name, n, int64(len(n.data)), n.mode, n.mtime}
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() fs.FileMode {
	m := i.mode | i.n.dev
	if i.n.dir {
		m |= fs.ModeDir
	}
	if i.n.link != "" {
		m |= fs.ModeSymlink
	}
	return m
}
func (i info) ModTime() time.Time { return i.at }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return i.n }

func (h *File) Stat() (fs.FileInfo, error) {
	defer fence()()
	if h.real != nil {
		return h.real.Stat()
	}
	yield()
	if err := h.check("stat"); err != nil {
		return nil, err
	}
	if x := h.f.hit("stat", h.path); x != nil && x.Err != "" {
		return nil, h.f.fail("stat", h.path, x.Err)
	}
	return infoOf(path.Base(h.name), h.n), nil
}

func Stat(name string) (fs.FileInfo, error) {
	defer fence()()
	f := cur
	if f == nil {
		return os.Stat(name)
	}
	if dead() {
		return nil, errDead
	}
	n, p, err := f.walk(name)
	if x := f.hit("stat", p); x != nil && x.Err != "" {
		return nil, f.fail("stat", p, x.Err)
	}
	if err != nil {
		return nil, perr("stat", name, err)
	}
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return infoOf(path.Base(name), n), nil
}

func Lstat(name string) (fs.FileInfo, error) {
	defer fence()()
	f := cur
	if f == nil {
		return os.Lstat(name)
	}
	if dead() {
		return nil, errDead
	}
	p := clean(name)
	if x := f.hit("stat", p); x != nil && x.Err != "" {
		return nil, f.fail("stat", p, x.Err)
	}
	n := f.nodes[p]
	if n == nil {
		return nil, perr("lstat", name, syscall.ENOENT)
	}
	return infoOf(path.Base(name), n), nil
}

func SameFile(a, b fs.FileInfo) bool {
	if x, ok := a.(info); ok {
		y, ok := b.(info)
		return ok && x.n == y.n
	}
	return os.SameFile(a, b)
}

func Rename(a, b string) error {
	defer fence()()
	f := cur
	if f == nil {
		return os.Rename(a, b)
	}
	yield()
	if dead() {
		return errDead
	}
	pa, pb := clean(a), clean(b)
	if x := f.hit("rename", pb); x != nil && x.Err != "" {
		return f.fail("rename", pb, x.Err)
	}
	n := f.nodes[pa]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if d := f.nodes[path.Dir(pb)]; d == nil || !d.dir {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if t := f.nodes[pb]; t != nil && t.dir {
		f.failed[pb] = true
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EISDIR}
	}
	if k := f.mut("rename", pb, 0); k >= 0 && f.crashed() {
		rt.Die()
	}
	delete(f.nodes, pa)
	f.nodes[pb] = n
	return nil
}

func Remove(a string) error {
	defer fence()()
	f := cur
	if f == nil {
		return os.Remove(a)
	}
	yield()
	if dead() {
		return errDead
	}
	p := clean(a)
	if x := f.hit("remove", p); x != nil && x.Err != "" {
		return f.fail("remove", p, x.Err)
	}
	if f.nodes[p] == nil {
		return perr("remove", a, syscall.ENOENT)
	}
	if k := f.mut("remove", p, 0); k >= 0 && f.crashed() {
		rt.Die()
	}
	delete(f.nodes, p)
	return nil
}

func RemoveAll(a string) error {
	defer fence()()
	f := cur
	if f == nil {
		panic("simos.RemoveAll without a simulated file system")
	}
	p := clean(a)
	for k := range f.nodes {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(f.nodes, k)
		}
	}
	return nil
}

func Truncate(name string, n int64) error {
	defer fence()()
	h, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer h.Close()
	return h.Truncate(n)
}

func Mkdir(name string, m fs.FileMode) error {
	defer fence()()
	if cur == nil {
		return os.Mkdir(name, m)
	}
	p := clean(name)
	if cur.nodes[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	cur.nodes[p] = &inode{dir: true, mode: m & 0777}
	return nil
}

func MkdirAll(name string, m fs.FileMode) error {
	defer fence()()
	if cur == nil {
		return os.MkdirAll(name, m)
	}
	for p := clean(name); p != "/"; p = path.Dir(p) {
		if cur.nodes[p] == nil {
			cur.nodes[p] = &inode{dir: true, mode: m & 0777}
		}
	}
	return nil
}

func Chmod(name string, m fs.FileMode) error {
	defer fence()()
	if cur == nil {
		return os.Chmod(name, m)
	}
	n, _, err := cur.walk(name)
	if err != nil || n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	n.mode = m & 0777
	return nil
}

func Readlink(name string) (string, error) {
	defer fence()()
	if cur == nil {
		return os.Readlink(name)
	}
	n := cur.nodes[clean(name)]
	if n == nil || n.link == "" {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.link, nil
}

// EvalSymlinks stands in for that of path/filepath.
func EvalSymlinks(name string) (string, error) {
	defer fence()()
	f := cur
	if f == nil {
		return filepath.EvalSymlinks(name)
	}
	if dead() {
		return "", errDead
	}
	n, p, err := f.walk(name)
	if x := f.hit("stat", p); x != nil && x.Err != "" {
		return "", f.fail("stat", p, x.Err)
	}
	if err != nil {
		return "", perr("lstat", name, err)
	}
	if n == nil {
		return "", perr("lstat", name, syscall.ENOENT)
	}
	return p, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	defer fence()()
	if cur == nil {
		r, err := os.CreateTemp(dir, pattern)
		if err != nil {
			return nil, err
		}
		return &File{real: r, name: r.Name()}, nil
	}
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf, ok := strings.Cut(pattern, "*")
	if !ok {
		suf = ""
	}
	tmpN++
	return OpenFile(path.Join(dir, fmt.Sprintf("%s%d%s", pre, 100000+tmpN, suf)), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	defer fence()()
	if cur == nil {
		return os.MkdirTemp(dir, pattern)
	}
	if dir == "" {
		dir = "/tmp"
	}
	tmpN++
	p := path.Join(dir, fmt.Sprintf("%s%d", strings.TrimSuffix(pattern, "*"), 100000+tmpN))
	return p, Mkdir(p, 0700)
}

func TempDir() string { return "/tmp" }
func Getpid() int     { return 4242 }
func Getwd() (string, error) {
	return "/w", nil
}
func Exit(code int) { rt.Exit(code) }

// io/ioutil names.
var ReadAll = io.ReadAll

func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

// SetStd replaces the standard output and error of the program.
func SetStd(out, err *os.File) {
	Stdout.real, Stderr.real = out, err
}
