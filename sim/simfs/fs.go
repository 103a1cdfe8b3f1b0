// Package simfs is the simulated disk (with symlinks, injected faults and
// change notification) below the shims of os, path/filepath and fsnotify.
package simfs

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/sim/simrt"
)

// Fault makes the N-th next operation of kind Op fail.
type Fault struct {
	Op  string `json:"op"`  // open create read write close stat rename remove sync readlink watch
	N   int    `json:"n"`   // 1: the next one
	At  int    `json:"at"`  // read, write: bytes moved before the error
	Err string `json:"err"` // EIO ENOSPC EACCES EMFILE EINTR short
}

var errnos = map[string]error{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES,
	"EMFILE": syscall.EMFILE, "ENOENT": syscall.ENOENT, "EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS}

type Inode struct {
	Data []byte
	Mode fs.FileMode
	Mod  time.Time
}

// Event of a change.
type Event struct {
	Name string
	Op   string // create write remove rename chmod
}

// FS is the disk of a run.
type FS struct {
	Files   map[string]*Inode
	Links   map[string]string
	Dirs    map[string]bool
	Faults  []*Fault
	Fired   []string
	OnEvent []func(Event)
	Open    int // open handles
	Ops     int
	tmp     int
}

// Get returns the disk of the run.
func Get() *FS {
	return simrt.Val("simfs", func() any {
		return &FS{Files: map[string]*Inode{}, Links: map[string]string{}, Dirs: map[string]bool{"/": true, "/sim": true}}
	}).(*FS)
}

// Arm a fault.
func (f *FS) Arm(x Fault) { f.Faults = append(f.Faults, &x) }

// Hit counts an operation, and returns the fault armed for it.
func (f *FS) Hit(op string) *Fault { return f.hit(op) }

func (f *FS) hit(op string) *Fault {
	f.Ops++
	for i, x := range f.Faults {
		if x.Op == op {
			x.N--
			if x.N <= 0 {
				f.Faults = append(f.Faults[:i:i], f.Faults[i+1:]...)
				f.Fired = append(f.Fired, op+":"+x.Err)
				simrt.Count("fault:disk " + op + " " + x.Err)
				simrt.Event("disk fault %s %s at %d", op, x.Err, x.At)
				return x
			}
		}
	}
	return nil
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func (f *FS) errOf(x *Fault) error {
	if e, ok := errnos[x.Err]; ok {
		return e
	}
	return syscall.EIO
}

// Resolve follows symlinks.
func (f *FS) Resolve(name string) (string, error) {
	name = path.Clean(name)
	for i := 0; i < 40; i++ {
		// resolve the directory part too
		dir, base := path.Split(name)
		dir = path.Clean(dir)
		if dir != "/" && dir != "." {
			if t, ok := f.Links[dir]; ok {
				if !path.IsAbs(t) {
					t = path.Join(path.Dir(dir), t)
				}
				name = path.Join(t, base)
				continue
			}
		}
		t, ok := f.Links[name]
		if !ok {
			return name, nil
		}
		if !path.IsAbs(t) {
			t = path.Join(path.Dir(name), t)
		}
		name = path.Clean(t)
	}
	return "", syscall.ELOOP
}

// EvalSymlinks as filepath.EvalSymlinks.
func (f *FS) EvalSymlinks(name string) (string, error) {
	if x := f.hit("readlink"); x != nil {
		return "", perr("lstat", name, f.errOf(x))
	}
	r, err := f.Resolve(name)
	if err != nil {
		return "", perr("lstat", name, err)
	}
	if f.Files[r] == nil && !f.Dirs[r] {
		return "", perr("lstat", name, syscall.ENOENT)
	}
	return r, nil
}

func (f *FS) notify(name, op string) {
	for _, fn := range append([]func(Event){}, f.OnEvent...) {
		fn(Event{name, op})
	}
}

// Put writes a file as an outside process.
func (f *FS) Put(name string, data []byte) {
	r, _ := f.Resolve(name)
	ino := f.Files[r]
	if ino == nil {
		ino = &Inode{Mode: 0o644}
		f.Files[r] = ino
		f.notify(r, "create")
	}
	ino.Data = append([]byte(nil), data...)
	ino.Mod = simrt.Now()
	f.notify(r, "write")
}

// Del removes a file as an outside process.
func (f *FS) Del(name string) {
	r, _ := f.Resolve(name)
	if f.Files[r] != nil {
		delete(f.Files, r)
		f.notify(r, "remove")
	}
}

// Replace renames a new file over name as an outside process.
func (f *FS) Replace(name string, data []byte) {
	r, _ := f.Resolve(name)
	f.Files[r] = &Inode{Data: append([]byte(nil), data...), Mode: 0o644, Mod: simrt.Now()}
	f.notify(r, "create")
}

// Read the bytes of a file, nil if there is none.
func (f *FS) Read(name string) ([]byte, bool) {
	r, _ := f.Resolve(name)
	if i := f.Files[r]; i != nil {
		return append([]byte{}, i.Data...), true
	}
	return nil, false
}

// List the files.
func (f *FS) List() (names []string) {
	for n := range f.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

// File is an open file.
type File struct {
	fs     *FS
	name   string
	ino    *Inode
	off    int
	flag   int
	closed bool
	dir    bool
}

func (f *FS) OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	simrt.SyncPoint()
	op := "open"
	if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		op = "create"
	}
	if x := f.hit(op); x != nil {
		return nil, perr("open", name, f.errOf(x))
	}
	r, err := f.Resolve(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if f.Dirs[r] {
		f.Open++
		return &File{fs: f, name: name, flag: flag, dir: true, ino: &Inode{Mode: fs.ModeDir | 0o755}}, nil
	}
	ino := f.Files[r]
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !f.Dirs[path.Dir(r)] {
			return nil, perr("open", name, syscall.ENOENT)
		}
		ino = &Inode{Mode: perm, Mod: simrt.Now()}
		f.Files[r] = ino
		f.notify(r, "create")
	} else {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if flag&os.O_TRUNC != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			if len(ino.Data) > 0 {
				f.notify(r, "write")
			}
			ino.Data = nil
		}
	}
	f.Open++
	return &File{fs: f, name: name, ino: ino, flag: flag}, nil
}

func (h *File) Name() string { return h.name }
func (h *File) Fd() uintptr  { return 99 }

func (h *File) Read(b []byte) (n int, err error) {
	if h.closed {
		return 0, perr("read", h.name, fs.ErrClosed)
	}
	simrt.SyncPoint()
	if len(b) == 0 {
		return 0, nil
	}
	avail := 0
	if h.off < len(h.ino.Data) {
		avail = len(h.ino.Data) - h.off
	}
	n = min(len(b), avail)
	if x := h.fs.hit("read"); x != nil {
		n = min(n, x.At)
		copy(b, h.ino.Data[min(h.off, len(h.ino.Data)):][:n])
		h.off += n
		if x.Err == "short" {
			if n == 0 && avail > 0 {
				n = 1
				b[0] = h.ino.Data[h.off]
				h.off++
			}
			if n == 0 {
				return 0, io.EOF
			}
			return n, nil
		}
		if n > 0 { // the kernel reports the error with the next call
			h.fs.Faults = append([]*Fault{{Op: "read", N: 1, Err: x.Err}}, h.fs.Faults...)
			return n, nil
		}
		return 0, perr("read", h.name, h.fs.errOf(x))
	}
	if avail == 0 {
		return 0, io.EOF
	}
	copy(b, h.ino.Data[h.off:h.off+n])
	h.off += n
	return n, nil
}

func (h *File) ReadAt(b []byte, off int64) (n int, err error) {
	o := h.off
	h.off = int(off)
	for n < len(b) && err == nil {
		var k int
		k, err = h.Read(b[n:])
		n += k
	}
	h.off = o
	return
}

func (h *File) Write(b []byte) (n int, err error) {
	if h.closed {
		return 0, perr("write", h.name, fs.ErrClosed)
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	simrt.SyncPoint()
	n = len(b)
	if x := h.fs.hit("write"); x != nil {
		n = min(n, x.At)
		err = perr("write", h.name, h.fs.errOf(x))
		if x.Err == "short" || x.Err == "EINTR" { // the os package retries these
			n, err = len(b), nil
		}
	}
	if h.flag&os.O_APPEND != 0 {
		h.off = len(h.ino.Data)
	}
	for len(h.ino.Data) < h.off+n {
		h.ino.Data = append(h.ino.Data, 0)
	}
	copy(h.ino.Data[h.off:], b[:n])
	h.off += n
	h.ino.Mod = simrt.Now()
	if n > 0 {
		r, _ := h.fs.Resolve(h.name)
		h.fs.notify(r, "write")
	}
	simrt.SyncPoint()
	return
}

func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *File) WriteAt(b []byte, off int64) (int, error) {
	o := h.off
	h.off = int(off)
	n, err := h.Write(b)
	h.off = o
	return n, err
}
func (h *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := h.Write(b)
	return int64(n), err
}
func (h *File) WriteTo(w io.Writer) (int64, error) {
	b, err := io.ReadAll(struct{ io.Reader }{h})
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	return int64(n), err
}
func (h *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		h.off = int(off)
	case io.SeekCurrent:
		h.off += int(off)
	case io.SeekEnd:
		h.off = len(h.ino.Data) + int(off)
	}
	return int64(h.off), nil
}
func (h *File) Truncate(n int64) error {
	for int64(len(h.ino.Data)) < n {
		h.ino.Data = append(h.ino.Data, 0)
	}
	h.ino.Data = h.ino.Data[:n]
	return nil
}
func (h *File) Sync() error {
	if x := h.fs.hit("sync"); x != nil {
		return perr("sync", h.name, h.fs.errOf(x))
	}
	return nil
}
func (h *File) Chmod(m fs.FileMode) error            { h.ino.Mode = m; return nil }
func (h *File) Stat() (fs.FileInfo, error)           { return info{path.Base(h.name), h.ino}, nil }
func (h *File) SetDeadline(time.Time) error          { return nil }
func (h *File) ReadDir(n int) ([]fs.DirEntry, error) { return nil, errors.New("simfs: ReadDir") }
func (h *File) Close() error {
	if h == nil {
		return fs.ErrInvalid
	}
	if h.closed {
		return perr("close", h.name, fs.ErrClosed)
	}
	h.closed = true
	h.fs.Open--
	if x := h.fs.hit("close"); x != nil {
		return perr("close", h.name, h.fs.errOf(x))
	}
	return nil
}

type info struct {
	name string
	ino  *Inode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return int64(len(i.ino.Data)) }
func (i info) Mode() fs.FileMode  { return i.ino.Mode }
func (i info) ModTime() time.Time { return i.ino.Mod }
func (i info) IsDir() bool        { return i.ino.Mode.IsDir() }
func (i info) Sys() any           { return nil }

func (f *FS) Stat(name string) (fs.FileInfo, error) {
	simrt.SyncPoint()
	if x := f.hit("stat"); x != nil {
		return nil, perr("stat", name, f.errOf(x))
	}
	r, err := f.Resolve(name)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	if f.Dirs[r] {
		return info{path.Base(name), &Inode{Mode: fs.ModeDir | 0o755}}, nil
	}
	if i := f.Files[r]; i != nil {
		return info{path.Base(name), i}, nil
	}
	return nil, perr("stat", name, syscall.ENOENT)
}

// ReadFile as os.ReadFile does: open, stat, read until EOF, close.
func (f *FS) ReadFile(name string) ([]byte, error) {
	h, err := f.OpenFile(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := h.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			if out == nil {
				out = []byte{}
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// WriteFile as os.WriteFile does: open with truncation, write, close.
func (f *FS) WriteFile(name string, data []byte, perm fs.FileMode) error {
	h, err := f.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if err1 := h.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// inDir resolves the folder of a name only.
func (f *FS) inDir(name string) string {
	name = path.Clean(name)
	if d := path.Dir(name); d != "." && d != "/" {
		if r, err := f.Resolve(d); err == nil {
			return path.Join(r, path.Base(name))
		}
	}
	return name
}

func (f *FS) Rename(a, b string) error {
	simrt.SyncPoint()
	if x := f.hit("rename"); x != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: f.errOf(x)}
	}
	a, b = f.inDir(a), f.inDir(b)
	if i := f.Files[a]; i != nil {
		delete(f.Files, a)
		f.Files[b] = i
		delete(f.Links, b)
		f.notify(a, "rename")
		f.notify(b, "create")
		return nil
	}
	if t, ok := f.Links[a]; ok {
		delete(f.Links, a)
		f.Links[b] = t
		f.notify(a, "rename")
		f.notify(b, "create")
		return nil
	}
	return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
}

func (f *FS) Remove(name string) error {
	simrt.SyncPoint()
	if x := f.hit("remove"); x != nil {
		return perr("remove", name, f.errOf(x))
	}
	name = path.Clean(name)
	if _, ok := f.Links[name]; ok {
		delete(f.Links, name)
		f.notify(name, "remove")
		return nil
	}
	if f.Files[name] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(f.Files, name)
	f.notify(name, "remove")
	return nil
}

func (f *FS) CreateTemp(dir, pattern string) (*File, error) {
	f.tmp++
	if dir == "" {
		dir = "/sim/tmp"
		f.Dirs[dir] = true
	}
	name := fmt.Sprintf("%s%d", pattern, 1000+f.tmp)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		name = fmt.Sprintf("%s%d%s", pattern[:i], 1000+f.tmp, pattern[i+1:])
	}
	return f.OpenFile(path.Join(dir, name), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

// Chmod touches the attributes of a file as an outside process.
func (f *FS) Chmod(name string) {
	r, _ := f.Resolve(name)
	if f.Files[r] != nil {
		f.notify(r, "chmod")
	}
}

// Move renames a file as an outside process.
func (f *FS) Move(a, b string) {
	if i := f.Files[a]; i != nil {
		delete(f.Files, a)
		f.Files[b] = i
		f.notify(a, "rename")
		f.notify(b, "create")
	}
}

// Relink replaces a symlink atomically as an outside process.
func (f *FS) Relink(name, target string) {
	f.Links[name] = target
	f.notify(name, "create")
}
