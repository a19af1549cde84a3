//go:build go1.22

package simrt

import (
	"context"
	"io/fs"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func fault(op, path string) error {
	if w != nil && w.Fs != nil && !w.dead {
		if err := w.Fs(op, path); err != nil {
			return &fs.PathError{Op: op, Path: path, Err: err}
		}
	}
	if mainFs != nil {
		if err := mainFs(op, path); err != nil {
			return &fs.PathError{Op: op, Path: path, Err: err}
		}
	}
	return nil
}

// mainFs is the fault decision of a command that runs as the whole process.
var mainFs FaultFn

func SetMainFs(f FaultFn) { mainFs = f }

// disk maps the simulated disk onto a directory of the scratch directory.
func disk(name string) string {
	if strings.HasPrefix(name, "/simdisk/") {
		return name[1:]
	}
	return name
}

func ReadFile(name string) ([]byte, error) {
	if err := fault("read", name); err != nil {
		return nil, err
	}
	return os.ReadFile(disk(name))
}

// badFile stands for a file whose reads fail: reading a directory gives EISDIR.
func badFile() (*os.File, error) { return os.Open("/") }

func Open(name string) (*os.File, error) {
	if err := fault("open", name); err != nil {
		return nil, err
	}
	if fi, err := os.Stat(disk(name)); err == nil && !fi.IsDir() {
		if err := fault("read", name); err != nil {
			return badFile()
		}
	}
	return os.Open(disk(name))
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		if err := fault("create", name); err != nil {
			return nil, err
		}
		return os.OpenFile(disk(name), flag, perm)
	}
	return Open(name)
}

func Create(name string) (*os.File, error) {
	if err := fault("create", name); err != nil {
		return nil, err
	}
	return os.Create(disk(name))
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	if err := fault("create", name); err != nil {
		return err
	}
	return os.WriteFile(disk(name), data, perm)
}

func Stat(name string) (os.FileInfo, error) {
	if err := fault("stat", name); err != nil {
		return nil, err
	}
	return os.Stat(disk(name))
}

func Lstat(name string) (os.FileInfo, error) {
	if err := fault("stat", name); err != nil {
		return nil, err
	}
	return os.Lstat(disk(name))
}

func ReadDir(name string) ([]os.DirEntry, error) {
	if err := fault("readdir", name); err != nil {
		// a failing directory read may have returned some entries already
		ds, _ := os.ReadDir(disk(name))
		return ds[:len(ds)/2], err
	}
	return os.ReadDir(disk(name))
}

func IoutilReadDir(name string) ([]os.FileInfo, error) {
	ds, err := ReadDir(name)
	if err != nil {
		return nil, err
	}
	var res []os.FileInfo
	for _, d := range ds {
		fi, err := d.Info()
		if err != nil {
			return nil, err
		}
		res = append(res, fi)
	}
	return res, nil
}

// WalkDir follows path/filepath.WalkDir, with faults on stat and readdir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(filepath.Join(path, d1.Name()), d1, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Walk follows path/filepath.Walk.
func Walk(root string, fn filepath.WalkFunc) error {
	info, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	ds, err := ReadDir(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	var names []string
	for _, d := range ds {
		names = append(names, d.Name())
	}
	sort.Strings(names)
	for _, name := range names {
		filename := filepath.Join(path, name)
		fi, err := Lstat(filename)
		if err != nil {
			if err := fn(filename, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
		} else {
			err = walk(filename, fi, fn)
			if err != nil {
				if !fi.IsDir() || err != filepath.SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

// DialFn, when set, replaces net.Dial.
var DialFn func(network, addr string) (net.Conn, error)

func Dial(network, addr string) (net.Conn, error) {
	if err := fault("dial", addr); err != nil {
		return nil, err
	}
	if DialFn != nil {
		return DialFn(network, addr)
	}
	return net.Dial(network, addr)
}

func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return Dial(network, addr)
}

// Dialer is net.Dialer.
type Dialer net.Dialer

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, addr)
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	if err := fault("dial", addr); err != nil {
		return nil, err
	}
	if DialFn != nil {
		return DialFn(network, addr)
	}
	return (*net.Dialer)(d).DialContext(ctx, network, addr)
}

func DialTCP(network string, laddr, raddr *net.TCPAddr) (*net.TCPConn, error) {
	if err := fault("dial", raddr.String()); err != nil {
		return nil, err
	}
	return net.DialTCP(network, laddr, raddr)
}

func DialUnix(network string, laddr, raddr *net.UnixAddr) (*net.UnixConn, error) {
	if err := fault("dial", raddr.String()); err != nil {
		return nil, err
	}
	return net.DialUnix(network, laddr, raddr)
}

type dirFS string

// DirFS is os.DirFS with the same faults as the functions of package os.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) path(op, name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", &fs.PathError{Op: op, Path: name, Err: fs.ErrInvalid}
	}
	return filepath.Join(string(d), filepath.FromSlash(name)), nil
}

func (d dirFS) Open(name string) (fs.File, error) {
	p, err := d.path("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	p, err := d.path("open", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}

func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := d.path("readdir", name)
	if err != nil {
		return nil, err
	}
	return ReadDir(p)
}

func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	p, err := d.path("stat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}
