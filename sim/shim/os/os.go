// Package os is os on the simulated disk (files only; the rest is real).
package os

import (
	"io/fs"
	p "os"
	"path"
	"time"

	"verif/sim/simfs"
)

type File = simfs.File

var (
	Stdin  = p.Stdin
	Stdout = p.Stdout
	Stderr = p.Stderr
)

func ReadFile(name string) ([]byte, error) { return simfs.Get().ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return simfs.Get().WriteFile(name, data, perm)
}
func Open(name string) (*File, error) { return simfs.Get().OpenFile(name, p.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return simfs.Get().OpenFile(name, p.O_RDWR|p.O_CREATE|p.O_TRUNC, 0o666)
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return simfs.Get().OpenFile(name, flag, perm)
}
func Rename(a, b string) error                   { return simfs.Get().Rename(a, b) }
func Remove(a string) error                      { return simfs.Get().Remove(a) }
func Stat(a string) (fs.FileInfo, error)         { return simfs.Get().Stat(a) }
func Lstat(a string) (fs.FileInfo, error)        { return simfs.Get().Stat(a) }
func CreateTemp(d, pat string) (*File, error)    { return simfs.Get().CreateTemp(d, pat) }
func MkdirAll(d string, _ fs.FileMode) error     { simfs.Get().Dirs[path.Clean(d)] = true; return nil }
func Mkdir(d string, _ fs.FileMode) error        { simfs.Get().Dirs[path.Clean(d)] = true; return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func Chown(string, int, int) error               { return nil }
func Chmod(name string, m fs.FileMode) error {
	h, err := Open(name)
	if err != nil {
		return err
	}
	defer h.Close()
	return h.Chmod(m)
}
func Truncate(name string, n int64) error {
	h, err := OpenFile(name, p.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer h.Close()
	return h.Truncate(n)
}
func Symlink(a, b string) error { simfs.Get().Links[path.Clean(b)] = a; return nil }
func Readlink(a string) (string, error) {
	if t, ok := simfs.Get().Links[path.Clean(a)]; ok {
		return t, nil
	}
	return "", &fs.PathError{Op: "readlink", Path: a, Err: fs.ErrInvalid}
}
func SameFile(a, b fs.FileInfo) bool { return a == b }
