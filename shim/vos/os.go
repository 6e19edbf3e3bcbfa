// Package vos stands in for os: file operations pass a hook (fault injection,
// journalling), are scheduling points under exploration, and refuse to change
// anything outside Root.
package vos

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"gotor/zv/vs"
)

// Call describes an operation about to happen.
type Call struct {
	Kind  string // open read readat write writeat truncate seek stat sync close mkdir rename remove readfile writefile
	Path  string
	Path2 string
	Off   int64
	Len   int64
	Data  []byte
	Flag  int
	Mut   bool // changes the file system
}

// Verdict is the hook's decision: Err fails the operation after N bytes.
type Verdict struct {
	Err error
	N   int
}

// Hook sees every operation; nil lets everything pass.
var Hook func(*Call) Verdict

// After sees every operation that was carried out.
var After func(*Call, error)

// Root confines changes; empty: no confinement.
var Root string

// ContainmentError reports a change outside Root; the operation is refused.
type ContainmentError struct{ Op, Path string }

func (e *ContainmentError) Error() string {
	return fmt.Sprintf("refused %s outside the scratch directory: %s", e.Op, e.Path)
}

// Escapes lists refused operations.
var Escapes []string

// Sched makes file operations scheduling points (set by harnesses).
var Sched = true

var objs = map[string]*vs.Obj{}

func inside(path string) bool {
	if Root == "" {
		return true
	}
	abs, err := filepath.Abs(path)
	if err != nil {
		return false
	}
	return abs == Root || strings.HasPrefix(abs, Root+"/")
}

func before(c *Call) Verdict {
	if c.Mut && !inside(c.Path) {
		Escapes = append(Escapes, c.Kind+" "+c.Path)
		return Verdict{Err: &ContainmentError{c.Kind, c.Path}}
	}
	if c.Path2 != "" && !inside(c.Path2) {
		Escapes = append(Escapes, c.Kind+" "+c.Path2)
		return Verdict{Err: &ContainmentError{c.Kind, c.Path2}}
	}
	step(c)
	if Hook != nil {
		return Hook(c)
	}
	return Verdict{}
}

//go:norace
func step(c *Call) {
	if !vs.Active() || !Sched || vs.Killing() {
		return
	}
	op := &vs.Op{Kind: c.Kind, Productive: c.Mut, Read: c.Kind == "readat" || c.Kind == "stat"}
	op.Exec = func() { // on the controller, so that threads don't race on the map
		o := objs[c.Path]
		if o == nil {
			o = &vs.Obj{}
			objs[c.Path] = o
		}
		vs.Touch(o)
		op.Obj = o
	}
	vs.Do(op)
}

func after(c *Call, err error) {
	if After != nil {
		After(c, err)
	}
}

func pathErr(op, path string, err error) error {
	if _, ok := err.(*ContainmentError); ok {
		return err
	}
	return &fs.PathError{Op: op, Path: path, Err: err}
}

// File wraps an open file.
type File struct {
	*os.File
	path string
}

var (
	Stdin  = &File{File: os.Stdin, path: "stdin"}
	Stdout = &File{File: os.Stdout, path: "stdout"}
	Stderr = &File{File: os.Stderr, path: "stderr"}
)

const mutFlags = os.O_CREATE | os.O_TRUNC

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	c := &Call{Kind: "open", Path: name, Flag: flag, Mut: flag&(mutFlags|os.O_WRONLY|os.O_RDWR|os.O_APPEND) != 0}
	if v := before(c); v.Err != nil {
		return nil, pathErr("open", name, v.Err)
	}
	f, err := os.OpenFile(name, flag, perm)
	after(c, err)
	if err != nil {
		return nil, err
	}
	return &File{File: f, path: name}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func CreateTemp(dir, pattern string) (*File, error) {
	c := &Call{Kind: "open", Path: filepath.Join(dir, pattern), Flag: os.O_CREATE | os.O_RDWR, Mut: true}
	if v := before(c); v.Err != nil {
		return nil, pathErr("open", c.Path, v.Err)
	}
	f, err := os.CreateTemp(dir, pattern)
	after(c, err)
	if err != nil {
		return nil, err
	}
	return &File{File: f, path: f.Name()}, nil
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	c := &Call{Kind: "read", Path: f.path, Len: int64(len(b))}
	v := before(c)
	if v.Err != nil {
		if v.N > 0 && v.N <= len(b) {
			n, _ := f.File.Read(b[:v.N])
			return n, pathErr("read", f.path, v.Err)
		}
		return 0, pathErr("read", f.path, v.Err)
	}
	if v.N > 0 && v.N < len(b) {
		b = b[:v.N]
	}
	n, err := f.File.Read(b)
	after(c, err)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	c := &Call{Kind: "readat", Path: f.path, Off: off, Len: int64(len(b))}
	if v := before(c); v.Err != nil {
		n := 0
		if v.N > 0 && v.N <= len(b) {
			n, _ = f.File.ReadAt(b[:v.N], off)
		}
		return n, pathErr("read", f.path, v.Err)
	}
	n, err := f.File.ReadAt(b, off)
	after(c, err)
	return n, err
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	vs.Charge(int64(len(b)))
	c := &Call{Kind: "write", Path: f.path, Off: -1, Len: int64(len(b)), Data: b, Mut: true}
	if f.File != os.Stdout && f.File != os.Stderr {
		if o, e := f.File.Seek(0, io.SeekCurrent); e == nil {
			c.Off = o
		}
		if v := before(c); v.Err != nil {
			n := 0
			if v.N > 0 && v.N <= len(b) {
				n, _ = f.File.Write(b[:v.N])
			}
			return n, pathErr("write", f.path, v.Err)
		}
	}
	n, err := f.File.Write(b)
	after(c, err)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	vs.Charge(int64(len(b)))
	c := &Call{Kind: "writeat", Path: f.path, Off: off, Len: int64(len(b)), Data: b, Mut: true}
	if v := before(c); v.Err != nil {
		n := 0
		if v.N > 0 && v.N <= len(b) {
			n, _ = f.File.WriteAt(b[:v.N], off)
		}
		return n, pathErr("write", f.path, v.Err)
	}
	n, err := f.File.WriteAt(b, off)
	after(c, err)
	return n, err
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(onlyWriter{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, onlyReader{f})
}

type onlyWriter struct{ f *File }

func (o onlyWriter) Write(b []byte) (int, error) { return o.f.Write(b) }

type onlyReader struct{ f *File }

func (o onlyReader) Read(b []byte) (int, error) { return o.f.Read(b) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	c := &Call{Kind: "seek", Path: f.path, Off: off}
	if v := before(c); v.Err != nil {
		return 0, pathErr("seek", f.path, v.Err)
	}
	n, err := f.File.Seek(off, whence)
	after(c, err)
	return n, err
}

func (f *File) Stat() (fs.FileInfo, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	c := &Call{Kind: "stat", Path: f.path}
	if v := before(c); v.Err != nil {
		return nil, pathErr("stat", f.path, v.Err)
	}
	st, err := f.File.Stat()
	after(c, err)
	return st, err
}

func (f *File) Sync() error {
	if f == nil {
		return os.ErrInvalid
	}
	c := &Call{Kind: "sync", Path: f.path}
	if v := before(c); v.Err != nil {
		return pathErr("sync", f.path, v.Err)
	}
	after(c, nil)
	return nil
}

func (f *File) Truncate(size int64) error {
	if f == nil {
		return os.ErrInvalid
	}
	c := &Call{Kind: "truncate", Path: f.path, Len: size, Mut: true}
	if v := before(c); v.Err != nil {
		return pathErr("truncate", f.path, v.Err)
	}
	err := f.File.Truncate(size)
	after(c, err)
	return err
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	c := &Call{Kind: "close", Path: f.path}
	if v := before(c); v.Err != nil {
		_ = f.File.Close()
		return pathErr("close", f.path, v.Err)
	}
	err := f.File.Close()
	after(c, err)
	return err
}

func (f *File) Name() string { return f.path }

// Opened wraps a file the harness opened itself.
func Opened(f *os.File) *File { return &File{File: f, path: f.Name()} }

func mut1(kind, name string, f func() error) error {
	c := &Call{Kind: kind, Path: name, Mut: true}
	if v := before(c); v.Err != nil {
		return pathErr(kind, name, v.Err)
	}
	err := f()
	after(c, err)
	return err
}

func mut2(kind, a, b string, f func() error) error {
	c := &Call{Kind: kind, Path: a, Path2: b, Mut: true}
	if v := before(c); v.Err != nil {
		return &os.LinkError{Op: kind, Old: a, New: b, Err: v.Err}
	}
	err := f()
	after(c, err)
	return err
}

func Mkdir(name string, perm fs.FileMode) error {
	return mut1("mkdir", name, func() error { return os.Mkdir(name, perm) })
}
func MkdirAll(name string, perm fs.FileMode) error {
	if st, err := os.Stat(name); err == nil && st.IsDir() {
		// nothing to do, nothing to refuse
		c := &Call{Kind: "mkdir", Path: name}
		if v := before(c); v.Err != nil {
			return pathErr("mkdir", name, v.Err)
		}
		return nil
	}
	return mut1("mkdir", name, func() error { return os.MkdirAll(name, perm) })
}
func MkdirTemp(dir, pattern string) (string, error) {
	var out string
	err := mut1("mkdir", filepath.Join(dir, pattern), func() (e error) { out, e = os.MkdirTemp(dir, pattern); return e })
	return out, err
}
func Remove(name string) error { return mut1("remove", name, func() error { return os.Remove(name) }) }
func RemoveAll(name string) error {
	return mut1("remove", name, func() error { return os.RemoveAll(name) })
}
func Rename(a, b string) error {
	return mut2("rename", a, b, func() error { return os.Rename(a, b) })
}
func Link(a, b string) error { return mut2("link", a, b, func() error { return os.Link(a, b) }) }
func Symlink(a, b string) error {
	return mut2("symlink", b, b, func() error { return os.Symlink(a, b) })
}
func Truncate(name string, size int64) error {
	c := &Call{Kind: "truncate", Path: name, Len: size, Mut: true}
	if v := before(c); v.Err != nil {
		return pathErr("truncate", name, v.Err)
	}
	err := os.Truncate(name, size)
	after(c, err)
	return err
}
func Chmod(name string, m fs.FileMode) error {
	return mut1("chmod", name, func() error { return os.Chmod(name, m) })
}
func Chown(name string, u, g int) error {
	return mut1("chown", name, func() error { return os.Chown(name, u, g) })
}
func Lchown(name string, u, g int) error {
	return mut1("chown", name, func() error { return os.Lchown(name, u, g) })
}
func Chtimes(name string, a, m time.Time) error {
	return mut1("chtimes", name, func() error { return os.Chtimes(name, a, m) })
}
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func ReadFile(name string) ([]byte, error) {
	c := &Call{Kind: "readfile", Path: name}
	if v := before(c); v.Err != nil {
		return nil, pathErr("open", name, v.Err)
	}
	b, err := os.ReadFile(name)
	after(c, err)
	return b, err
}
func Stat(name string) (fs.FileInfo, error) {
	c := &Call{Kind: "stat", Path: name}
	if v := before(c); v.Err != nil {
		return nil, pathErr("stat", name, v.Err)
	}
	st, err := os.Stat(name)
	after(c, err)
	return st, err
}
func Lstat(name string) (fs.FileInfo, error) {
	c := &Call{Kind: "stat", Path: name}
	if v := before(c); v.Err != nil {
		return nil, pathErr("lstat", name, v.Err)
	}
	st, err := os.Lstat(name)
	after(c, err)
	return st, err
}

// ExitError is what Exit panics with instead of ending the process.
type ExitError struct{ Code int }

func (e ExitError) Error() string { return fmt.Sprintf("os.Exit(%d)", e.Code) }

func Exit(code int) { panic(ExitError{code}) }

func NewFile(fd uintptr, name string) *File { return &File{File: os.NewFile(fd, name), path: name} }

func Chdir(string) error { return syscall.EPERM }

func StartProcess(name string, argv []string, attr *os.ProcAttr) (*os.Process, error) {
	return nil, syscall.EPERM
}
func Pipe() (*File, *File, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, nil, err
	}
	return &File{File: r, path: "pipe"}, &File{File: w, path: "pipe"}, nil
}
