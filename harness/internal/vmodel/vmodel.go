// Package vmodel holds the environment models the engine substitutes for the
// operating system: an in-memory file system behind package os, the go command
// behind here.run and a contract model of compress/gzip. The models are Go code
// and are executed symbolically like everything else.
package vmodel

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"
)

// ---- the tree ----

type node struct {
	name string
	dir  bool
	mode os.FileMode // permission bits
	link string      // symbolic link target
	data []byte
	kids []*node
	sec  int64
	char bool // a character device: a sink
}

type handle struct {
	n      *node
	name   string
	off    int64
	dirpos int
	rd, wr bool
	app    bool
	closed bool
}

var (
	root    = &node{name: "/", dir: true, mode: 0755}
	cwd     = "/w/d"
	handles = map[*os.File]*handle{}
	clock   int64
	// Opened and Closed count file handles.
	Opened, Closed int
	// MaxFile bounds the size of a regular file (RLIMIT_FSIZE); <0: none.
	MaxFile = int64(-1)
	tmp     int
	log     []string
)

func now() int64 { clock++; return 1600000000 + clock }

func init() {
	mk("/w")
	mk("/w/d")
	mk("/tmp")
}

func mk(p string) *node {
	n := root
	for _, e := range strings.Split(p, "/") {
		if e == "" {
			continue
		}
		k := n.kid(e)
		if k == nil {
			k = &node{name: e, dir: true, mode: 0755}
			n.kids = append(n.kids, k)
		}
		n = k
	}
	return n
}

func (n *node) kid(name string) *node {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

func (n *node) del(k *node) {
	var r []*node
	for _, x := range n.kids {
		if x != k {
			r = append(r, x)
		}
	}
	n.kids = r
}

func perr(op, p string, e error) error { return &os.PathError{Op: op, Path: p, Err: e} }

// walk resolves p. It returns the parent directory, the final component and the
// node (nil when the final component does not exist).
func walk(p string, follow bool, depth int) (parent *node, last string, n *node, err error) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if depth > 8 {
		return nil, "", nil, syscall.ELOOP
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if p[0] != '/' {
		p = cwd + "/" + p
	}
	stack := []*node{root}
	elems := strings.Split(p, "/")
	end := len(elems)
	slash := false
	for end > 0 && elems[end-1] == "" {
		end--
		slash = true
	}
	for i := 0; i < end; i++ {
		e := elems[i]
		cur := stack[len(stack)-1]
		if e == "" {
			continue
		}
		if !cur.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if cur.mode&0100 == 0 {
			return nil, "", nil, syscall.EACCES
		}
		if e == "." {
			continue
		}
		if e == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		if len(e) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		k := cur.kid(e)
		if k == nil {
			if i == end-1 {
				return cur, e, nil, nil
			}
			return nil, "", nil, syscall.ENOENT
		}
		if k.link != "" && (i < end-1 || follow || slash) {
			rest := strings.Join(elems[i+1:], "/")
			t := k.link
			if t[0] != '/' {
				d := ""
				for _, s := range stack[1:] {
					d += "/" + s.name
				}
				t = d + "/" + t
			}
			if rest != "" {
				t += "/" + rest
			}
			return walk(t, follow, depth+1)
		}
		if i == end-1 {
			if slash && !k.dir {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, e, k, nil
		}
		stack = append(stack, k)
	}
	return nil, "", stack[len(stack)-1], nil
}

func lookup(p string, follow bool) (*node, error) {
	_, _, n, err := walk(p, follow, 0)
	if err != nil {
		return nil, err
	}
	if n == nil {
		return nil, syscall.ENOENT
	}
	return n, nil
}

// ---- FileInfo and DirEntry ----

type info struct {
	name string
	size int64
	mode os.FileMode
	mt   time.Time
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() os.FileMode  { return i.mode }
func (i *info) ModTime() time.Time { return i.mt }
func (i *info) IsDir() bool        { return i.mode&os.ModeDir != 0 }
func (i *info) Sys() interface{}   { return nil }

func mkinfo(n *node, name string) *info {
	i := &info{name: name, mode: n.mode, mt: time.Unix(n.sec, 0)}
	if n.dir {
		i.mode |= os.ModeDir
		i.size = 4096
	} else if n.link != "" {
		i.mode = os.ModeSymlink | 0777
		i.size = int64(len(n.link))
	} else {
		i.size = int64(len(n.data))
	}
	return i
}

type entry struct{ i *info }

func (e entry) Name() string               { return e.i.name }
func (e entry) IsDir() bool                { return e.i.IsDir() }
func (e entry) Type() fs.FileMode          { return e.i.mode.Type() }
func (e entry) Info() (fs.FileInfo, error) { return e.i, nil }
func (e entry) String() string             { return e.i.name }

func base(p string) string {
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	if i := strings.LastIndexByte(p, '/'); i >= 0 && len(p) > 1 {
		p = p[i+1:]
	}
	return p
}

// ---- package os ----

func open(op, name string, flag int, perm os.FileMode) (*os.File, error) {
	parent, last, n, err := walk(name, true, 0)
	if err != nil {
		return nil, perr(op, name, err)
	}
	acc := flag & 3
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr(op, name, syscall.ENOENT)
		}
		if name[len(name)-1] == '/' {
			return nil, perr(op, name, syscall.EISDIR)
		}
		if parent.mode&0200 == 0 {
			return nil, perr(op, name, syscall.EACCES)
		}
		n = &node{name: last, mode: perm &^ 022 & 0777, sec: now()}
		parent.kids = append(parent.kids, n)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr(op, name, syscall.EEXIST)
		}
		if n.dir && (acc != os.O_RDONLY || flag&(os.O_CREATE|os.O_TRUNC) != 0) {
			return nil, perr(op, name, syscall.EISDIR)
		}
		if acc != os.O_WRONLY && n.mode&0400 == 0 || acc != os.O_RDONLY && n.mode&0200 == 0 {
			return nil, perr(op, name, syscall.EACCES)
		}
		if flag&os.O_TRUNC != 0 {
			n.data = nil
			n.sec = now()
		}
	}
	f := new(os.File)
	handles[f] = &handle{n: n, name: name, rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}
	Opened++
	return f, nil
}

func Os_Open(name string) (*os.File, error) { return open("open", name, os.O_RDONLY, 0) }
func Os_Create(name string) (*os.File, error) {
	return open("open", name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func Os_OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	return open("open", name, flag, perm)
}

// Os_Exit: no harness means its program to end.
func Os_Exit(code int) { panic("the program exits") }

func Os_Stat(name string) (os.FileInfo, error) {
	n, err := lookup(name, true)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return mkinfo(n, base(name)), nil
}

func Os_Lstat(name string) (os.FileInfo, error) {
	n, err := lookup(name, false)
	if err != nil {
		return nil, perr("lstat", name, err)
	}
	return mkinfo(n, base(name)), nil
}

func Os_Mkdir(name string, perm os.FileMode) error {
	parent, last, n, err := walk(name, false, 0)
	if err != nil {
		return perr("mkdir", name, err)
	}
	if n != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if parent.mode&0200 == 0 {
		return perr("mkdir", name, syscall.EACCES)
	}
	parent.kids = append(parent.kids, &node{name: last, dir: true, mode: perm &^ 022 & 0777, sec: now()})
	return nil
}

func Os_MkdirAll(path string, perm os.FileMode) error {
	n, err := lookup(path, true)
	if err == nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	i := len(path) - 1
	for i >= 0 && path[i] == '/' {
		i--
	}
	for i >= 0 && path[i] != '/' {
		i--
	}
	if i > 0 {
		if err := Os_MkdirAll(path[:i], perm); err != nil {
			return err
		}
	}
	err = Os_Mkdir(path, perm)
	if err != nil {
		if n, err1 := lookup(path, false); err1 == nil && n.dir {
			return nil
		}
		return err
	}
	return nil
}

func Os_Remove(name string) error {
	parent, _, n, err := walk(name, false, 0)
	if err != nil {
		return perr("remove", name, err)
	}
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if parent == nil {
		return perr("remove", name, syscall.EBUSY)
	}
	if len(n.kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	if parent.mode&0200 == 0 {
		return perr("remove", name, syscall.EACCES)
	}
	parent.del(n)
	return nil
}

func Os_RemoveAll(name string) error {
	if name == "" {
		return nil
	}
	if name[len(name)-1] == '.' && (len(name) == 1 || name[len(name)-2] == '/') {
		return perr("RemoveAll", name, syscall.EINVAL)
	}
	parent, _, n, err := walk(name, false, 0)
	if err != nil {
		if err == syscall.ENOENT || err == syscall.ENOTDIR {
			// os.RemoveAll: a missing path is no error; ENOTDIR is reported.
			if err == syscall.ENOENT {
				return nil
			}
			return perr("unlinkat", name, err)
		}
		return perr("unlinkat", name, err)
	}
	if n == nil {
		return nil
	}
	if parent == nil {
		return perr("unlinkat", name, syscall.EBUSY)
	}
	if err := removeTree(parent, n); err != nil {
		return perr("unlinkat", name, err)
	}
	return nil
}

// removeTree removes what may be removed and returns the first error.
func removeTree(parent, n *node) error {
	if parent.mode&0300 != 0300 {
		return syscall.EACCES
	}
	if len(n.kids) == 0 {
		parent.del(n)
		return nil
	}
	if n.mode&0400 == 0 {
		return syscall.EACCES
	}
	var first error
	for _, k := range append([]*node(nil), n.kids...) {
		if err := removeTree(n, k); err != nil && first == nil {
			first = err
		}
	}
	if len(n.kids) == 0 {
		parent.del(n)
		return nil
	}
	return first
}

func Os_Rename(a, b string) error {
	pa, _, n, err := walk(a, false, 0)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	pb, last, m, err := walk(b, false, 0)
	if err == nil && m != nil && (m.dir != n.dir || len(m.kids) > 0) {
		err = syscall.EEXIST
	}
	if err != nil || pa == nil || pb == nil {
		if err == nil {
			err = syscall.EBUSY
		}
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	if m != nil {
		pb.del(m)
	}
	pa.del(n)
	n.name = last
	pb.kids = append(pb.kids, n)
	return nil
}

func Os_Symlink(target, name string) error {
	parent, last, n, err := walk(name, false, 0)
	if err == nil && n != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return &os.LinkError{Op: "symlink", Old: target, New: name, Err: err}
	}
	parent.kids = append(parent.kids, &node{name: last, link: target, mode: 0777, sec: now()})
	return nil
}

func Os_Readlink(name string) (string, error) {
	n, err := lookup(name, false)
	if err == nil && n.link == "" {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", name, err)
	}
	return n.link, nil
}

func Os_Chmod(name string, mode os.FileMode) error {
	n, err := lookup(name, true)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.mode = mode & 0777
	return nil
}

func Os_Chtimes(name string, a, m time.Time) error {
	n, err := lookup(name, true)
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.sec = m.Unix()
	return nil
}

func Os_Truncate(name string, size int64) error { return perr("truncate", name, syscall.EINVAL) }

func Os_Getwd() (string, error) { return cwd, nil }

func Os_Chdir(dir string) error {
	n, err := lookup(dir, true)
	if err == nil && !n.dir {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return perr("chdir", dir, err)
	}
	cwd = clean(dir)
	return nil
}

func clean(p string) string {
	if p[0] != '/' {
		p = cwd + "/" + p
	}
	var st []string
	for _, e := range strings.Split(p, "/") {
		switch e {
		case "", ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, e)
		}
	}
	return "/" + strings.Join(st, "/")
}

func Os_ReadDir(name string) ([]os.DirEntry, error) {
	f, err := Os_Open(name)
	if err != nil {
		return nil, err
	}
	defer File_Close(f)
	es, err := File_ReadDir(f, -1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

func Os_ReadFile(name string) ([]byte, error) {
	f, err := Os_Open(name)
	if err != nil {
		return nil, err
	}
	defer File_Close(f)
	h := handles[f]
	if h.n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, h.n.data...), nil
}

func Os_WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := Os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = File_Write(f, data)
	if err1 := File_Close(f); err == nil {
		err = err1
	}
	return err
}

func Os_MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmp++
	d := dir + "/" + strings.Replace(pattern, "*", "", 1) + string(rune('0'+tmp%10))
	return d, Os_Mkdir(d, 0700)
}

func Os_CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmp++
	p := pattern + string(rune('0'+tmp%10))
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		p = pattern[:i] + string(rune('0'+tmp%10)) + pattern[i+1:]
	}
	return open("open", dir+"/"+p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func Os_SameFile(a, b os.FileInfo) bool { return a == b }

// ---- *os.File ----

func hnd(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		return nil, os.ErrInvalid
	}
	if h.closed {
		return nil, perr(op, h.name, os.ErrClosed)
	}
	return h, nil
}

func File_Close(f *os.File) error {
	h, err := hnd(f, "close")
	if err != nil {
		return err
	}
	h.closed = true
	Closed++
	return nil
}

func File_Name(f *os.File) string {
	if h := handles[f]; h != nil {
		return h.name
	}
	return ""
}

func File_Read(f *os.File, b []byte) (int, error) {
	h, err := hnd(f, "read")
	if err != nil {
		return 0, err
	}
	if h.n.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if !h.rd {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= int64(len(h.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.off:])
	h.off += int64(n)
	return n, nil
}

func File_ReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := hnd(f, "read")
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", h.name, errors.New("negative offset"))
	}
	if off >= int64(len(h.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func File_WriteTo(f *os.File, w io.Writer) (int64, error) {
	h, err := hnd(f, "read")
	if err != nil {
		return 0, err
	}
	if h.n.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.off >= int64(len(h.n.data)) {
		return 0, nil
	}
	b := append([]byte{}, h.n.data[h.off:]...)
	h.off = int64(len(h.n.data))
	n, err := w.Write(b)
	return int64(n), err
}

func File_Write(f *os.File, b []byte) (int, error) {
	h, err := hnd(f, "write")
	if err != nil {
		return 0, err
	}
	if !h.wr {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	if h.app {
		h.off = int64(len(h.n.data))
	}
	n := len(b)
	var werr error
	if MaxFile >= 0 && h.off+int64(n) > MaxFile {
		n = int(MaxFile - h.off)
		if n < 0 {
			n = 0
		}
		werr = perr("write", h.name, syscall.EFBIG)
	}
	end := h.off + int64(n)
	if int64(len(h.n.data)) == h.off {
		h.n.data = append(h.n.data, b[:n]...)
	} else {
		for int64(len(h.n.data)) < end {
			h.n.data = append(h.n.data, 0)
		}
		copy(h.n.data[h.off:end], b[:n])
	}
	h.off = end
	h.n.sec = now()
	return n, werr
}

func File_WriteString(f *os.File, s string) (int, error) { return File_Write(f, []byte(s)) }

func File_ReadFrom(f *os.File, r io.Reader) (int64, error) {
	var n int64
	buf := make([]byte, 512)
	for {
		k, err := r.Read(buf)
		if k > 0 {
			m, werr := File_Write(f, buf[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func File_Sync(f *os.File) error {
	_, err := hnd(f, "sync")
	return err
}

func File_Chmod(f *os.File, m os.FileMode) error {
	h, err := hnd(f, "chmod")
	if err == nil {
		h.n.mode = m & 0777
	}
	return err
}

func File_Truncate(f *os.File, size int64) error {
	h, err := hnd(f, "truncate")
	if err != nil {
		return err
	}
	for int64(len(h.n.data)) < size {
		h.n.data = append(h.n.data, 0)
	}
	h.n.data = h.n.data[:size:size]
	return nil
}

func File_Seek(f *os.File, offset int64, whence int) (int64, error) {
	h, err := hnd(f, "seek")
	if err != nil {
		return 0, err
	}
	switch whence {
	case 0:
	case 1:
		offset += h.off
	case 2:
		offset += int64(len(h.n.data))
	default:
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	if offset < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = offset
	if h.n.dir && offset == 0 {
		h.dirpos = 0
	}
	return offset, nil
}

func File_Stat(f *os.File) (os.FileInfo, error) {
	h, err := hnd(f, "stat")
	if err != nil {
		return nil, err
	}
	return mkinfo(h.n, base(h.name)), nil
}

func readdir(f *os.File, count int, op string) ([]*info, error) {
	h, err := hnd(f, op)
	if err != nil {
		return nil, err
	}
	if !h.n.dir {
		return nil, perr(op, h.name, syscall.ENOTDIR)
	}
	var r []*info
	for h.dirpos < len(h.n.kids) && (count <= 0 || len(r) < count) {
		k := h.n.kids[h.dirpos]
		h.dirpos++
		r = append(r, mkinfo(k, k.name))
	}
	if count > 0 && len(r) == 0 {
		return nil, io.EOF
	}
	return r, nil
}

func File_Readdir(f *os.File, count int) ([]os.FileInfo, error) {
	is, err := readdir(f, count, "readdirent")
	r := []os.FileInfo{}
	for _, i := range is {
		r = append(r, i)
	}
	if f == nil {
		r = nil
	}
	return r, err
}

func File_Readdirnames(f *os.File, count int) ([]string, error) {
	is, err := readdir(f, count, "readdirent")
	r := []string{}
	for _, i := range is {
		r = append(r, i.name)
	}
	return r, err
}

func File_ReadDir(f *os.File, count int) ([]os.DirEntry, error) {
	is, err := readdir(f, count, "readdirent")
	r := []os.DirEntry{}
	for _, i := range is {
		r = append(r, entry{i})
	}
	return r, err
}

func File_Fd(f *os.File) uintptr { return 3 }

func File_SetDeadline(f *os.File, t time.Time) error { return os.ErrNoDeadline }

// Vsym_OpenFiles is the number of open file handles.
func Vsym_OpenFiles() int { return Opened - Closed }

func Vsym_LimitFileSize(n int) { MaxFile = int64(n) }
