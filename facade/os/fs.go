package os

import (
	"io"
	"io/fs"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/mozilla/crlite/go/zzvf/env"
	"github.com/mozilla/crlite/go/zzvf/vf"
)

// An in-memory file system. A process crash loses nothing that was written.

type node struct {
	dir   bool
	data  []byte
	names []string
	kids  []*node
	mtime time.Time
	mode  FileMode
}

var root = &node{dir: true, mode: fs.ModeDir | 0755}
var tmpSeq int

// VFSep says whether TMPDIR is on another device than everything else (renames across fail).
var VFTmpOtherDevice = true

func init() {
	root.mkdir("tmp")
	root.mkdir("work")
}

func (n *node) mkdir(name string) *node {
	k := &node{dir: true, mode: fs.ModeDir | 0755}
	n.add(name, k)
	return k
}

func (n *node) find(name string) int {
	for i, x := range n.names {
		if x == name {
			return i
		}
	}
	return -1
}

// add keeps the entries sorted by name.
func (n *node) add(name string, k *node) {
	i := 0
	for i < len(n.names) && n.names[i] < name {
		i++
	}
	n.names = append(n.names, "")
	copy(n.names[i+1:], n.names[i:])
	n.names[i] = name
	n.kids = append(n.kids, nil)
	copy(n.kids[i+1:], n.kids[i:])
	n.kids[i] = k
}

func (n *node) del(i int) {
	n.names = append(append([]string{}, n.names[:i]...), n.names[i+1:]...)
	n.kids = append(append([]*node{}, n.kids[:i]...), n.kids[i+1:]...)
}

func split(path string) []string {
	if !strings.HasPrefix(path, "/") {
		path = "/work/" + path
	}
	path = filepath.Clean(path)
	if path == "/" {
		return nil
	}
	return strings.Split(path[1:], "/")
}

// walk resolves the directory holding path, and its last name.
func walk(path string) (*node, string, error) {
	parts := split(path)
	if len(parts) == 0 {
		return nil, "", nil
	}
	n := root
	for _, p := range parts[:len(parts)-1] {
		i := n.find(p)
		if i < 0 {
			return nil, "", syscall.ENOENT
		}
		n = n.kids[i]
		if !n.dir {
			return nil, "", syscall.ENOTDIR
		}
	}
	return n, parts[len(parts)-1], nil
}

func lookup(path string) (*node, error) {
	d, name, err := walk(path)
	if err != nil {
		return nil, err
	}
	if d == nil {
		return root, nil
	}
	i := d.find(name)
	if i < 0 {
		return nil, syscall.ENOENT
	}
	return d.kids[i], nil
}

func perr(op, path string, err error) error { return &PathError{Op: op, Path: path, Err: err} }

type File struct {
	name   string
	n      *node
	pos    int
	flag   int
	closed bool
	dirpos int
	std    bool
}

var (
	Stdin  = &File{name: "/dev/stdin", std: true, n: &node{}}
	Stdout = &File{name: "/dev/stdout", std: true, n: &node{}}
	Stderr = &File{name: "/dev/stderr", std: true, n: &node{}}
)

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	mut := flag&(O_CREATE|O_TRUNC) != 0
	if err := env.Op("open "+filepath.Base(name), mut); err != nil {
		return nil, perr("open", name, err)
	}
	vf.Lock()
	defer vf.Unlock()
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	d, base, err := walk(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if d == nil {
		return &File{name: name, n: root, flag: flag}, nil
	}
	i := d.find(base)
	if i < 0 {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		k := &node{mode: perm, mtime: env.Now()}
		d.add(base, k)
		return &File{name: name, n: k, flag: flag}, nil
	}
	k := d.kids[i]
	if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if k.dir && flag&(O_WRONLY|O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&O_TRUNC != 0 && !k.dir {
		k.data = nil
		k.mtime = env.Now()
	}
	return &File{name: name, n: k, flag: flag}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if err := env.Op("read "+filepath.Base(f.name), false); err != nil {
		return 0, perr("read", f.name, err)
	}
	vf.Lock()
	defer vf.Unlock()
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std {
		if f == Stdout {
			if err := env.Op("write stdout", true); err != nil {
				vfStdout = append(vfStdout, b[:len(b)/2]...)
				return len(b) / 2, perr("write", f.name, err)
			}
			vfStdout = append(vfStdout, b...)
		}
		return len(b), nil
	}
	if err := env.Op("write "+filepath.Base(f.name), true); err != nil {
		// a failing write may have stored a part
		vf.Lock()
		f.put(b[:len(b)/2])
		vf.Unlock()
		return len(b) / 2, perr("write", f.name, err)
	}
	vf.Lock()
	defer vf.Unlock()
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	f.put(b)
	return len(b), nil
}

func (f *File) put(b []byte) {
	if f.flag&O_APPEND != 0 {
		f.pos = len(f.n.data)
	}
	for len(f.n.data) < f.pos {
		f.n.data = append(f.n.data, 0)
	}
	nd := append([]byte{}, f.n.data[:f.pos]...)
	nd = append(nd, b...)
	if f.pos+len(b) < len(f.n.data) {
		nd = append(nd, f.n.data[f.pos+len(b):]...)
	}
	f.n.data = nd
	f.pos += len(b)
	f.n.mtime = env.Now()
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += int64(f.pos)
	case 2:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = int(off)
	return off, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err := env.Op("truncate "+filepath.Base(f.name), true); err != nil {
		return perr("truncate", f.name, err)
	}
	for int64(len(f.n.data)) < size {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:size:size]
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if err := env.Op("sync "+filepath.Base(f.name), false); err != nil {
		return perr("sync", f.name, err)
	}
	return nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if f.flag&(O_WRONLY|O_RDWR) != 0 {
		if err := env.Fault("close " + filepath.Base(f.name)); err != nil {
			return perr("close", f.name, err)
		}
	}
	return nil
}

func (f *File) Chmod(mode FileMode) error { f.n.mode = mode; return nil }

type info struct {
	name string
	n    *node
	size int64
	mt   time.Time
}

func (i info) Name() string            { return i.name }
func (i info) Size() int64             { return i.size }
func (i info) Mode() FileMode          { return i.n.mode }
func (i info) ModTime() time.Time      { return i.mt }
func (i info) IsDir() bool             { return i.n.dir }
func (i info) Sys() any                { return nil }
func (i info) Type() FileMode          { return i.n.mode.Type() }
func (i info) Info() (FileInfo, error) { return i, nil }
func mkInfo(name string, n *node) info { return info{name, n, int64(len(n.data)), n.mtime} }

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if err := env.Op("fstat "+filepath.Base(f.name), false); err != nil {
		return nil, perr("stat", f.name, err)
	}
	return mkInfo(filepath.Base(f.name), f.n), nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.name) }

func (f *File) Readdirnames(n int) ([]string, error) {
	return append([]string{}, f.n.names...), nil
}

func Stat(name string) (FileInfo, error) {
	if err := env.Op("stat "+filepath.Base(name), false); err != nil {
		return nil, perr("stat", name, err)
	}
	vf.Lock()
	defer vf.Unlock()
	n, err := lookup(name)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return mkInfo(filepath.Base(name), n), nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadDir(name string) ([]DirEntry, error) {
	if err := env.Op("readdir "+filepath.Base(name), false); err != nil {
		return nil, perr("open", name, err)
	}
	vf.Lock()
	defer vf.Unlock()
	n, err := lookup(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var out []DirEntry
	for i, k := range n.kids {
		out = append(out, mkInfo(n.names[i], k))
	}
	return out, nil
}

func Mkdir(name string, perm FileMode) error {
	if err := env.Op("mkdir "+filepath.Base(name), true); err != nil {
		return perr("mkdir", name, err)
	}
	vf.Lock()
	defer vf.Unlock()
	d, base, err := walk(name)
	if err != nil {
		return perr("mkdir", name, err)
	}
	if d == nil || d.find(base) >= 0 {
		return perr("mkdir", name, syscall.EEXIST)
	}
	d.mkdir(base)
	return nil
}

func MkdirAll(path string, perm FileMode) error {
	if err := env.Op("mkdirall "+filepath.Base(path), true); err != nil {
		return perr("mkdir", path, err)
	}
	vf.Lock()
	defer vf.Unlock()
	n := root
	for _, p := range split(path) {
		i := n.find(p)
		if i < 0 {
			n = n.mkdir(p)
			continue
		}
		n = n.kids[i]
		if !n.dir {
			return perr("mkdir", path, syscall.ENOTDIR)
		}
	}
	return nil
}

func Remove(name string) error {
	if err := env.Op("remove "+filepath.Base(name), true); err != nil {
		return perr("remove", name, err)
	}
	vf.Lock()
	defer vf.Unlock()
	d, base, err := walk(name)
	if err != nil {
		return perr("remove", name, err)
	}
	if d == nil {
		return perr("remove", name, syscall.EBUSY)
	}
	i := d.find(base)
	if i < 0 {
		return perr("remove", name, syscall.ENOENT)
	}
	if d.kids[i].dir && len(d.kids[i].names) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	d.del(i)
	return nil
}

func RemoveAll(name string) error {
	if err := env.Op("removeall "+filepath.Base(name), true); err != nil {
		return perr("unlinkat", name, err)
	}
	vf.Lock()
	defer vf.Unlock()
	d, base, err := walk(name)
	if err != nil || d == nil {
		return nil
	}
	if i := d.find(base); i >= 0 {
		d.del(i)
	}
	return nil
}

func onTmp(p string) bool {
	s := split(p)
	return len(s) > 0 && s[0] == "tmp"
}

func Rename(oldpath, newpath string) error {
	lerr := func(err error) error { return &LinkError{"rename", oldpath, newpath, err} }
	if err := env.Op("rename "+filepath.Base(newpath), true); err != nil {
		return lerr(err)
	}
	vf.Lock()
	defer vf.Unlock()
	if VFTmpOtherDevice && onTmp(oldpath) != onTmp(newpath) {
		return lerr(syscall.EXDEV)
	}
	d, base, err := walk(oldpath)
	if err != nil {
		return lerr(err)
	}
	e, nbase, err := walk(newpath)
	if err != nil {
		return lerr(err)
	}
	if d == nil || e == nil {
		return lerr(syscall.EBUSY)
	}
	i := d.find(base)
	if i < 0 {
		return lerr(syscall.ENOENT)
	}
	k := d.kids[i]
	if j := e.find(nbase); j >= 0 {
		if e.kids[j] == k {
			return nil
		}
		if e.kids[j].dir && !k.dir {
			return lerr(syscall.EEXIST)
		}
		if k.dir && (!e.kids[j].dir || len(e.kids[j].names) > 0) {
			return lerr(syscall.ENOTEMPTY)
		}
		d.del(i)
		e.del(e.find(nbase))
		e.add(nbase, k)
		return nil
	}
	d.del(i)
	e.add(nbase, k)
	return nil
}

func Link(oldpath, newpath string) error {
	if err := env.Op("link "+filepath.Base(newpath), true); err != nil {
		return &LinkError{"link", oldpath, newpath, err}
	}
	n, err := lookup(oldpath)
	if err != nil {
		return &LinkError{"link", oldpath, newpath, err}
	}
	e, nbase, err := walk(newpath)
	if err != nil {
		return &LinkError{"link", oldpath, newpath, err}
	}
	if e.find(nbase) >= 0 {
		return &LinkError{"link", oldpath, newpath, syscall.EEXIST}
	}
	e.add(nbase, n)
	return nil
}

func Chtimes(name string, atime, mtime time.Time) error {
	if err := env.Op("chtimes "+filepath.Base(name), true); err != nil {
		return perr("chtimes", name, err)
	}
	vf.Lock()
	defer vf.Unlock()
	n, err := lookup(name)
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.mtime = mtime
	return nil
}

func Chmod(name string, mode FileMode) error {
	n, err := lookup(name)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.mode = mode
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(size)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	if err := env.Op("read "+filepath.Base(name), false); err != nil {
		return nil, perr("read", name, err)
	}
	if f.n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, f.n.data...), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		vf.Lock()
		tmpSeq++
		k := tmpSeq
		vf.Unlock()
		f, err := OpenFile(filepath.Join(dir, pre+strconv.Itoa(k)+suf), O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	vf.Lock()
	tmpSeq++
	k := tmpSeq
	vf.Unlock()
	p := filepath.Join(dir, pattern+strconv.Itoa(k))
	return p, Mkdir(p, 0700)
}

func TempDir() string           { return "/tmp" }
func Getwd() (string, error)    { return "/work", nil }
var vfStdout []byte

// VFStdout is what was written to the standard output; reading empties it.
func VFStdout() []byte {
	b := vfStdout
	vfStdout = nil
	return b
}

func Exit(code int)             { env.ExitCode = code; env.Exit() }
func Getpid() int               { return 4711 }
func Hostname() (string, error) { return "host", nil }

var environ []string

func LookupEnv(key string) (string, bool) {
	for i := 0; i+1 < len(environ); i += 2 {
		if environ[i] == key {
			return environ[i+1], true
		}
	}
	return "", false
}

func Getenv(key string) string { v, _ := LookupEnv(key); return v }

func Setenv(key, value string) error {
	for i := 0; i+1 < len(environ); i += 2 {
		if environ[i] == key {
			environ[i+1] = value
			return nil
		}
	}
	environ = append(environ, key, value)
	return nil
}

func Unsetenv(key string) error {
	for i := 0; i+1 < len(environ); i += 2 {
		if environ[i] == key {
			environ = append(append([]string{}, environ[:i]...), environ[i+2:]...)
			return nil
		}
	}
	return nil
}

// ---- for harnesses ----

// VFFiles lists every file below path, with its path.
func VFFiles(path string) []string {
	n, err := lookup(path)
	if err != nil {
		return nil
	}
	var out []string
	var rec func(p string, n *node)
	rec = func(p string, n *node) {
		for i, k := range n.kids {
			q := p + "/" + n.names[i]
			if k.dir {
				rec(q, k)
			} else {
				out = append(out, q)
			}
		}
	}
	rec(filepath.Clean(path), n)
	return out
}

// VFRead returns a file's bytes without going through the modelled operations.
func VFRead(path string) ([]byte, bool) {
	n, err := lookup(path)
	if err != nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// VFWrite creates a file, with its directories, without going through the modelled operations.
func VFWrite(path string, data []byte) {
	parts := split(path)
	n := root
	for _, p := range parts[:len(parts)-1] {
		i := n.find(p)
		if i < 0 {
			n = n.mkdir(p)
		} else {
			n = n.kids[i]
		}
	}
	b := parts[len(parts)-1]
	if i := n.find(b); i >= 0 {
		n.kids[i].data = data
		return
	}
	n.add(b, &node{data: data, mode: 0644, mtime: env.Now()})
}

// VFMkdir creates a directory silently.
func VFMkdir(path string) {
	n := root
	for _, p := range split(path) {
		i := n.find(p)
		if i < 0 {
			n = n.mkdir(p)
		} else {
			n = n.kids[i]
		}
	}
}

// VFExists reports whether the path exists.
func VFExists(path string) bool {
	_, err := lookup(path)
	return err == nil
}
