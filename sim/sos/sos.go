// Package sos is package os on a simulated disk. A write that returned is in
// the OS page cache: it survives a process crash. Data still in the program's
// own buffers does not. A crash inside a write leaves any prefix of it.
package sos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"
	"vsa/zsim/rt"
)

type inode struct {
	data  []byte
	name  string
	mtime int64
	synced int // length known durable across a machine crash
}

type Disk struct {
	files map[string]*inode
	Writes int
	Synced int
}

// D is the simulated disk of the current run.
func D() *Disk {
	d, ok := rt.S.Ext["disk"].(*Disk)
	if !ok {
		d = &Disk{files: map[string]*inode{}}
		rt.S.Ext["disk"] = d
	}
	return d
}

func norm(p string) string {
	for strings.HasPrefix(p, "./") {
		p = p[2:]
	}
	return p
}

// Content, SetContent and Names give the harness direct access.
func (d *Disk) Content(p string) ([]byte, bool) {
	f := d.files[norm(p)]
	if f == nil {
		return nil, false
	}
	return append([]byte(nil), f.data...), true
}
func (d *Disk) SetContent(p string, b []byte) {
	d.files[norm(p)] = &inode{data: append([]byte(nil), b...), name: norm(p)}
}
func (d *Disk) Names() []string {
	var out []string
	for k := range d.files {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type File struct {
	ino    *inode
	name   string
	flag   int
	pos    int64
	closed bool
	std    bool
	proc   *rt.Proc
}

var (
	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
)

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	rt.YS()
	if rt.Dead() {
		return nil, perr("open", name, syscall.EIO)
	}
	if k, _ := rt.Fault("disk.open", "emfile"); k != "" {
		return nil, perr("open", name, syscall.EMFILE)
	}
	d := D()
	n := norm(name)
	ino := d.files[n]
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		ino = &inode{name: n}
		d.files[n] = ino
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if flag&os.O_TRUNC != 0 {
		ino.data = nil
	}
	return &File{ino: ino, name: name, flag: flag, proc: rt.CurProc()}, nil
}
func Open(name string) (*File, error)   { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666) }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 99 }

func (f *File) Write(b []byte) (int, error) {
	if f.std {
		rt.Out(string(b))
		return len(b), nil
	}
	rt.YS()
	if rt.Dead() {
		return 0, perr("write", f.name, syscall.EIO)
	}
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	k, arg := rt.Fault("disk.write", "enospc", "eio", "short-enospc", "slow", "crash-mid-write")
	switch k {
	case "enospc":
		return 0, perr("write", f.name, syscall.ENOSPC)
	case "eio":
		return 0, perr("write", f.name, syscall.EIO)
	case "short-enospc":
		n := 0
		if len(b) > 0 {
			n = int(arg % int64(len(b)))
		}
		f.put(b[:n])
		return n, perr("write", f.name, syscall.ENOSPC)
	case "slow":
		rt.Sleep(1_000_000 + arg%50_000_000)
	case "crash-mid-write":
		if f.proc != rt.S.RootProc {
			n := 0
			if len(b) > 0 {
				n = int(arg % int64(len(b)+1))
			}
			f.put(b[:n])
			rt.Crash(f.proc)
		}
	}
	f.put(b)
	D().Writes++
	rt.YS()
	return len(b), nil
}

func (f *File) put(b []byte) {
	if f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(f.ino.data))
	}
	end := f.pos + int64(len(b))
	for int64(len(f.ino.data)) < end {
		f.ino.data = append(f.ino.data, 0)
	}
	copy(f.ino.data[f.pos:end], b)
	f.pos = end
	f.ino.mtime = rt.WallNow()
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	p := f.pos
	f.pos = off
	n, err := f.Write(b)
	f.pos = p
	return n, err
}
func (f *File) Read(b []byte) (int, error) {
	if f.std {
		return 0, io.EOF
	}
	rt.YS()
	if f.closed {
		return 0, perr("read", f.name, os.ErrClosed)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	m := len(b)
	switch k, arg := rt.Fault("disk.read", "short-read", "eio-read"); k {
	case "short-read":
		m = 1 + int(arg%int64(m))
	case "eio-read":
		return 0, perr("read", f.name, syscall.EIO)
	}
	n := copy(b[:m], f.ino.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	rt.YS()
	if f.closed {
		return 0, perr("read", f.name, os.ErrClosed)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if off >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.pos = off
	case io.SeekCurrent:
		f.pos += off
	case io.SeekEnd:
		f.pos = int64(len(f.ino.data)) + off
	}
	return f.pos, nil
}
func (f *File) Sync() error {
	if f.std {
		return nil
	}
	rt.YS()
	if f.closed {
		return perr("sync", f.name, os.ErrClosed)
	}
	if k, _ := rt.Fault("disk.sync", "eio-sync"); k != "" {
		return perr("sync", f.name, syscall.EIO)
	}
	f.ino.synced = len(f.ino.data)
	D().Synced++
	return nil
}
func (f *File) Truncate(n int64) error {
	rt.YS()
	if rt.Dead() {
		return perr("truncate", f.name, syscall.EIO)
	}
	for int64(len(f.ino.data)) < n {
		f.ino.data = append(f.ino.data, 0)
	}
	f.ino.data = f.ino.data[:n]
	return nil
}
func (f *File) Close() error {
	if f.std {
		return nil
	}
	rt.YS()
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	if rt.Dead() {
		return nil
	}
	f.closed = true
	if k, _ := rt.Fault("disk.close", "eio-close"); k != "" {
		return perr("close", f.name, syscall.EIO)
	}
	return nil
}
func (f *File) Chmod(os.FileMode) error           { return nil }
func (f *File) SetDeadline(t time.Time) error     { return os.ErrNoDeadline }
func (f *File) Stat() (os.FileInfo, error)        { return finfo{f.ino}, nil }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	var tot int64
	b := make([]byte, 32<<10)
	for {
		n, err := r.Read(b)
		if n > 0 {
			w, werr := f.Write(b[:n])
			tot += int64(w)
			if werr != nil {
				return tot, werr
			}
		}
		if err == io.EOF {
			return tot, nil
		}
		if err != nil {
			return tot, err
		}
	}
}

type finfo struct{ i *inode }

func (f finfo) Name() string       { return f.i.name[strings.LastIndex(f.i.name, "/")+1:] }
func (f finfo) Size() int64        { return int64(len(f.i.data)) }
func (f finfo) Mode() os.FileMode  { return 0o644 }
func (f finfo) ModTime() time.Time { return time.Unix(0, f.i.mtime) }
func (f finfo) IsDir() bool        { return false }
func (f finfo) Sys() any           { return nil }

func Stat(name string) (os.FileInfo, error) {
	rt.YS()
	f := D().files[norm(name)]
	if f == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return finfo{f}, nil
}
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }
func Remove(name string) error {
	rt.YS()
	if rt.Dead() {
		return nil
	}
	if D().files[norm(name)] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(D().files, norm(name))
	return nil
}
func RemoveAll(name string) error {
	rt.YS()
	n := norm(name)
	for k := range D().files {
		if k == n || strings.HasPrefix(k, n+"/") {
			delete(D().files, k)
		}
	}
	return nil
}
func Rename(a, b string) error {
	rt.YS()
	if rt.Dead() {
		return nil
	}
	d := D()
	f := d.files[norm(a)]
	if f == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(d.files, norm(a))
	d.files[norm(b)] = f
	f.name = norm(b)
	return nil
}
func Truncate(name string, n int64) error {
	f := D().files[norm(name)]
	if f == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	return (&File{ino: f, name: name}).Truncate(n)
}
func MkdirAll(string, os.FileMode) error { return nil }
func Mkdir(string, os.FileMode) error    { return nil }
func MkdirTemp(dir, pat string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	return dir + "/" + strings.Replace(pat, "*", "1", 1), nil
}
func CreateTemp(dir, pat string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	return OpenFile(dir+"/"+strings.Replace(pat, "*", "1", 1), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, b []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	if _, err := f.Write(b); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}
func Getenv(k string) string {
	if p := rt.CurProc(); p != nil && p.Env != nil {
		return p.Env[k]
	}
	return ""
}
func LookupEnv(k string) (string, bool) {
	if p := rt.CurProc(); p != nil && p.Env != nil {
		v, ok := p.Env[k]
		return v, ok
	}
	return "", false
}
func Setenv(k, v string) error {
	if p := rt.CurProc(); p.Env != nil {
		p.Env[k] = v
	}
	return nil
}
func Getpid() int    { return 1000 + rt.CurProc().ID }
func Exit(code int)  { rt.Exit(code) }
func TempDir() string { return "/tmp" }
func Hostname() (string, error) { return "sim", nil }
func Getwd() (string, error)    { return "/", nil }
