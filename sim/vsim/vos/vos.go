// Package vos stands in for the file operations of package os inside the
// simulator: an in-memory file system whose faults are decided by the harness.
// Data written survives a crash of the process (as the page cache does);
// nothing is ever read from or written to the real file system.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"path/filepath"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"spagosim/vsim"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	PathError = fs.PathError
)

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200
)

// Fault tells what happens to one operation.
type Fault struct {
	Err   error
	N     int  // bytes done (read, write) if Partial
	Part  bool // only N bytes are done
	Crash bool // the process dies right after
}

type inode struct {
	data []byte
	hb   byte
	dir  bool
}

// FS is a simulated file system.
type FS struct {
	names map[string]*inode
	Hook  func(op, name string, n int) Fault
	Open_ int // files currently open
	tmp   int
}

// Cur is the file system in use.
var Cur = NewFS()

// NewFS returns an empty file system.
func NewFS() *FS { return &FS{names: map[string]*inode{}} }

// Put stores a file, without faults.
func (s *FS) Put(name string, b []byte) {
	s.names[clean(name)] = &inode{data: append([]byte(nil), b...)}
}

// Get returns the content of a file, without faults.
func (s *FS) Get(name string) ([]byte, bool) {
	i := s.names[clean(name)]
	if i == nil {
		return nil, false
	}
	return append([]byte(nil), i.data...), true
}

// Names lists the files.
func (s *FS) Names() []string {
	var out []string
	for n := range s.names {
		out = append(out, n)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func clean(n string) string { return filepath.Clean(n) }

func fault(op, name string, n int) Fault {
	vsim.SyncOp("fs."+op, nil)
	if Cur.Hook == nil {
		return Fault{}
	}
	return Cur.Hook(op, name, n)
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func die(f Fault, op, name string) {
	if f.Crash {
		vsim.Crash("kill", "process killed during "+op+" "+name)
	}
}

// File is a simulated open file.
type File struct {
	name   string
	ino    *inode
	pos    int
	flag   int
	closed bool
	hb     byte
}

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	op := "open"
	if flag&O_CREATE != 0 {
		op = "create"
	}
	f := fault(op, name, 0)
	if f.Err != nil {
		die(f, op, name)
		return nil, perr("open", name, f.Err)
	}
	n := clean(name)
	ino := Cur.names[n]
	if ino == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, fs.ErrNotExist)
		}
		ino = &inode{}
		Cur.names[n] = ino
	} else if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
		return nil, perr("open", name, fs.ErrExist)
	}
	if flag&O_TRUNC != 0 {
		ino.data = nil
	}
	die(f, op, name)
	Cur.Open_++
	return &File{name: name, ino: ino, flag: flag}, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	Cur.tmp++
	n := strconv.Itoa(Cur.tmp)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		n = pattern[:i] + n + pattern[i+1:]
	} else {
		n = pattern + n
	}
	return OpenFile(filepath.Join(dir, n), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func (f *File) Name() string { return f.name }

func (f *File) check(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, fs.ErrClosed)
	}
	vsim.RaceAcquire(unsafe.Pointer(&f.hb))
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, errors.New("bad file descriptor"))
	}
	ft := fault("write", f.name, len(b))
	n := len(b)
	if ft.Part && ft.N < n {
		n = ft.N
	} else if ft.Err != nil && !ft.Part {
		n = 0
	}
	if f.flag&O_APPEND != 0 {
		f.pos = len(f.ino.data)
	}
	f.put(b[:n])
	vsim.RaceReleaseMerge(unsafe.Pointer(&f.hb))
	die(ft, "write", f.name)
	if ft.Err != nil {
		return n, perr("write", f.name, ft.Err)
	}
	if n < len(b) {
		return n, io.ErrShortWrite
	}
	return n, nil
}

func (f *File) put(b []byte) {
	end := f.pos + len(b)
	for len(f.ino.data) < end {
		f.ino.data = append(f.ino.data, make([]byte, end-len(f.ino.data))...)
	}
	copy(f.ino.data[f.pos:], b)
	f.pos = end
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	p := f.pos
	f.pos = int(off)
	n, err := f.Write(b)
	f.pos = p
	return n, err
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	ft := fault("read", f.name, len(b))
	n := len(b)
	if ft.Part && ft.N < n {
		n = ft.N
	}
	if ft.Err != nil {
		die(ft, "read", f.name)
		return 0, perr("read", f.name, ft.Err)
	}
	if f.pos >= len(f.ino.data) {
		die(ft, "read", f.name)
		return 0, io.EOF
	}
	n = copy(b[:n], f.ino.data[f.pos:])
	f.pos += n
	die(ft, "read", f.name)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	ft := fault("read", f.name, len(b))
	if ft.Err != nil {
		return 0, perr("read", f.name, ft.Err)
	}
	if int(off) >= len(f.ino.data) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += int64(f.pos)
	case 2:
		off += int64(len(f.ino.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, fs.ErrInvalid)
	}
	f.pos = int(off)
	return off, nil
}

func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	ft := fault("truncate", f.name, int(n))
	if ft.Err != nil {
		return perr("truncate", f.name, ft.Err)
	}
	for int64(len(f.ino.data)) < n {
		f.ino.data = append(f.ino.data, 0)
	}
	f.ino.data = f.ino.data[:n]
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	ft := fault("sync", f.name, 0)
	die(ft, "sync", f.name)
	if ft.Err != nil {
		return perr("sync", f.name, ft.Err)
	}
	return nil
}

// Close may report an error and lose the last N bytes written, as a network
// file system or a quota can; the descriptor is released in any case.
func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	ft := fault("close", f.name, len(f.ino.data))
	f.closed = true
	Cur.Open_--
	if ft.Err != nil {
		if ft.Part && ft.N < len(f.ino.data) && f.flag&(O_WRONLY|O_RDWR) != 0 {
			f.ino.data = f.ino.data[:ft.N]
		}
		die(ft, "close", f.name)
		return perr("close", f.name, ft.Err)
	}
	die(ft, "close", f.name)
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return info{filepath.Base(f.name), int64(len(f.ino.data)), f.ino.dir}, nil
}
func (f *File) Chmod(FileMode) error { return f.check("chmod") }
func (f *File) Fd() uintptr          { return 99 }

type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() FileMode     { return 0644 }
func (i info) ModTime() time.Time { return time.Unix(1_700_000_000, 0) }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

func Stat(name string) (FileInfo, error) {
	f := fault("stat", name, 0)
	if f.Err != nil {
		return nil, perr("stat", name, f.Err)
	}
	i := Cur.names[clean(name)]
	if i == nil {
		return nil, perr("stat", name, fs.ErrNotExist)
	}
	return info{filepath.Base(name), int64(len(i.data)), i.dir}, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Rename(a, b string) error {
	f := fault("rename", a, 0)
	if f.Err != nil {
		die(f, "rename", a)
		return perr("rename", a, f.Err)
	}
	i := Cur.names[clean(a)]
	if i == nil {
		return perr("rename", a, fs.ErrNotExist)
	}
	delete(Cur.names, clean(a))
	Cur.names[clean(b)] = i
	die(f, "rename", a)
	return nil
}

func Remove(name string) error {
	f := fault("remove", name, 0)
	if f.Err != nil {
		die(f, "remove", name)
		return perr("remove", name, f.Err)
	}
	if Cur.names[clean(name)] == nil {
		return perr("remove", name, fs.ErrNotExist)
	}
	delete(Cur.names, clean(name))
	die(f, "remove", name)
	return nil
}

func RemoveAll(name string) error {
	fault("remove", name, 0)
	c := clean(name)
	for _, n := range Cur.Names() {
		if n == c || strings.HasPrefix(n, c+"/") {
			delete(Cur.names, n)
		}
	}
	return nil
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func Mkdir(name string, perm FileMode) error {
	f := fault("mkdir", name, 0)
	if f.Err != nil {
		return perr("mkdir", name, f.Err)
	}
	return nil
}
func MkdirAll(name string, perm FileMode) error { return Mkdir(name, perm) }
func MkdirTemp(dir, pattern string) (string, error) {
	Cur.tmp++
	return filepath.Join(TempDir(), "d"+strconv.Itoa(Cur.tmp)), nil
}
func Chmod(name string, m FileMode) error { return nil }
func TempDir() string                     { return "/tmp" }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, b []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Exit(code int) { vsim.Crash("exit", "os.Exit("+strconv.Itoa(code)+")") }
