// Package vdisk: the backend on disk.
package vdisk

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/stdos"
)

// area makes <scratch>/name/m, a module directory with neighbours that a path
// could escape to, and returns it.
func area(name, odd string) string {
	base := vsym.Root() + name
	dir := filepath.Join(base, "m")
	for _, d := range []string{dir, base + "/a", dir + "/a/b", dir + "/c"} {
		vsym.Assert(os.MkdirAll(d, 0755) == nil, "setup fails")
	}
	for _, f := range []string{base + "/b", base + "/a/b", dir + "/b", dir + "/a/a", dir + "/a/b/a"} {
		vsym.Assert(os.WriteFile(f, []byte(strings.TrimPrefix(f, base)), 0644) == nil, "setup fails")
	}
	if odd != "" {
		vsym.Assert(os.WriteFile(base+"/"+odd, []byte("odd"), 0644) == nil, "setup fails")
		vsym.Assert(os.MkdirAll(dir+"/"+odd, 0755) == nil, "setup fails")
		vsym.Assert(os.WriteFile(dir+"/"+odd+"/"+odd, []byte("o"), 0644) == nil, "setup fails")
	}
	return dir
}

// link makes the file /b of the module in dir a symbolic link.
func link(dir string, k int) {
	vsym.Assert(os.Remove(dir+"/b") == nil, "setup fails")
	t := []string{"a", "a/b/a", "../b", "../a", filepath.Dir(dir) + "/a", "gone", "b", "a/b/b"}[k]
	vsym.Assert(os.Symlink(t, dir+"/b") == nil, "setup fails")
	// and one link through another
	vsym.Assert(os.Symlink("../../b", dir+"/a/b/b") == nil, "setup fails")
}

// links is the number of links link knows.
const links = 8

// listing shows everything below dir's parent.
func listing(dir string) string {
	s := ""
	base := filepath.Dir(dir)
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		s += strings.TrimPrefix(p, base)
		if fi.IsDir() {
			s += "/ "
			return nil
		}
		if fi.Mode()&os.ModeSymlink != 0 {
			t, err := os.Readlink(p)
			s += ">" + strings.TrimPrefix(t, base) + " "
			return err
		}
		b, err := os.ReadFile(p)
		s += "=" + string(b) + " "
		return err
	})
	if err != nil {
		s += "!" + err.Error()
	}
	return s
}

func class(err error) string {
	switch {
	case err == nil:
		return "ok;"
	case errors.Is(err, os.ErrNotExist):
		return "not exist;"
	case errors.Is(err, os.ErrExist):
		return "exist;"
	case errors.Is(err, os.ErrPermission):
		return "permission;"
	}
	return "error;"
}

func show(fi os.FileInfo) string {
	s := fi.Name() + " " + fi.Mode().String()
	if !fi.IsDir() {
		s += string(rune('0' + fi.Size()))
	}
	return s + ";"
}

type file interface {
	io.ReadWriteSeeker
	io.Closer
	Stat() (os.FileInfo, error)
	Readdir(int) ([]os.FileInfo, error)
}

func look(f file) string {
	fi, err := f.Stat()
	s := class(err) + show(fi)
	if fi.IsDir() {
		fis, err := f.Readdir(0)
		s += class(err)
		var n []string
		for _, fi := range fis {
			n = append(n, fi.Name()+fi.Mode().String()[:1])
		}
		// the order is the same for both, as the directories were made alike
		return s + strings.Join(n, ",") + ";"
	}
	b, err := vlib.ReadAll(f, 4, 10)
	s += class(err) + string(b) + ";"
	n, err := f.Seek(-2, 2)
	s += class(err) + string(rune('0'+n))
	b, err = vlib.ReadAll(f, 4, 10)
	return s + class(err) + string(b) + ";"
}

// Ops is the number of operations do knows.
const ops = 7

// do performs an operation on p, ref the same through package os in the
// directory of the module.
func do(p pkging.Pkger, op int, arg string, perm os.FileMode) string {
	switch op {
	case 0:
		f, err := p.Open(arg)
		if err != nil {
			return class(err)
		}
		s := look(f)
		return s + class(f.Close())
	case 1:
		fi, err := p.Stat(arg)
		if err != nil {
			return class(err)
		}
		return show(fi)
	case 2:
		f, err := p.Create(arg)
		if err != nil {
			return class(err)
		}
		_, err = f.Write([]byte("new"))
		s := class(err)
		n, err := f.Seek(1, 0)
		s += class(err) + string(rune('0'+n))
		b, err := vlib.ReadAll(f, 4, 10)
		s += class(err) + string(b)
		fi, err := f.Stat()
		s += class(err) + show(fi)
		s += class(f.Close())
		_, err = f.Write([]byte("late"))
		s += class(err)
		_, err = f.Seek(0, 0)
		s += class(err)
		_, err = f.Stat()
		return s + class(err) + class(f.Close())
	case 3:
		return class(p.MkdirAll(arg, perm))
	case 4:
		return class(p.Remove(arg))
	case 5:
		return class(p.RemoveAll(arg))
	case 6:
		s := ""
		err := p.Walk(arg, func(name string, fi os.FileInfo, err error) error {
			s += name + " " + class(err)
			if fi != nil {
				s += show(fi)
			}
			return nil
		})
		return s + class(err)
	}
	panic("op")
}

func ref(pkg, dir, name string, op int, perm os.FileMode) string {
	arg := filepath.Join(dir, name)
	switch op {
	case 0:
		f, err := os.Open(arg)
		if err != nil {
			return class(err)
		}
		s := look(f)
		return s + class(f.Close())
	case 1:
		fi, err := os.Stat(arg)
		if err != nil {
			return class(err)
		}
		return show(fi)
	case 2:
		f, err := os.Create(arg)
		if err != nil {
			return class(err)
		}
		_, err = f.Write([]byte("new"))
		s := class(err)
		n, err := f.Seek(1, 0)
		s += class(err) + string(rune('0'+n))
		b, err := vlib.ReadAll(f, 4, 10)
		s += class(err) + string(b)
		fi, err := f.Stat()
		s += class(err) + show(fi)
		s += class(f.Close())
		_, err = f.Write([]byte("late"))
		s += class(err)
		_, err = f.Seek(0, 0)
		s += class(err)
		_, err = f.Stat()
		return s + class(err) + class(f.Close())
	case 3:
		return class(os.MkdirAll(arg, perm))
	case 4:
		return class(os.Remove(arg))
	case 5:
		return class(os.RemoveAll(arg))
	case 6:
		s := ""
		err := filepath.Walk(arg, func(p string, fi os.FileInfo, err error) error {
			n := strings.TrimPrefix(p, dir)
			if n == "" {
				n = "/"
			}
			s += pkg + ":" + n + " " + class(err)
			if fi != nil {
				s += show(fi)
			}
			return nil
		})
		return s + class(err)
	}
	panic("op")
}

var _ = vsym.Register("VerifDiskOps", VerifDiskOps)

// VerifDiskOps: every operation on any path does what package os does in the
// directory of the module, to the same place, and nothing anywhere else.
func VerifDiskOps() {
	odd := vlib.OddName()
	d1, d2 := area("1", odd), area("2", odd)
	p, err := stdos.New(vlib.Info(d1))
	vsym.Assert(err == nil, "New fails", err)
	if vsym.Param("deny", 0) != 0 {
		// something that cannot be read or changed
		k := vsym.Choose("deny", 3)
		for _, d := range []string{d1, d2} {
			os.Chmod([]string{d + "/a", d + "/a/b", d + "/b"}[k], 0)
			defer os.Chmod([]string{d + "/a", d + "/a/b", d + "/b"}[k], 0755)
		}
	}
	if vsym.Param("link", 0) != 0 {
		k := vsym.Choose("link", links)
		link(d1, k)
		link(d2, k)
	}
	op := vsym.Choose("op", ops)
	raw := vlib.Raw("/.ab\\", vsym.Param("n", 4), odd)
	want := vlib.Canon(vlib.Main, raw)
	if op == 4 || op == 5 {
		vsym.Assume(want.Name != "/")
	}
	perm := os.FileMode(0700)
	if op == 3 && vsym.Bool("perm") {
		perm = 0750
	}
	arg := raw
	if vsym.Bool("qualified") {
		arg = vlib.Main + ":" + raw
	}
	open := vsym.OpenFiles()
	if op == 0 || op == 1 {
		describes(p, want, d1, arg)
	}
	x := do(p, op, arg, perm)
	vsym.Assert(vsym.OpenFiles() == open, "a file is still open", op, arg)
	y := ref(vlib.Main, d2, want.Name, op, perm)
	vsym.Assert(x == y, "result differs from the file system's", op, arg, x, y)
	if vsym.Param("deny", 0) != 0 {
		for _, d := range []string{d1, d2} {
			for _, n := range []string{"/a", "/a/b", "/b"} {
				os.Chmod(d+n, 0755)
			}
		}
	}
	x, y = listing(d1), listing(d2)
	vsym.Assert(x == y, "effect differs from the file system's", op, arg, x, y)
	vsym.ObserveS("state", x)
}

// describes: what p says about the path is what the file system says.
func describes(p pkging.Pkger, want here.Path, dir, arg string) {
	o, err := os.Stat(filepath.Join(dir, want.Name))
	if err != nil {
		return
	}
	eq := func(fi os.FileInfo, what string) {
		vsym.Assert(fi.Name() == o.Name() && fi.Size() == o.Size() && fi.Mode() == o.Mode() && fi.IsDir() == o.IsDir() && fi.ModTime().Equal(o.ModTime()), what+" differs from the file system's", arg)
	}
	fi, err := p.Stat(arg)
	vsym.Assert(err == nil, "Stat fails", arg, err)
	eq(fi, "Stat")
	f, err := p.Open(arg)
	if err != nil {
		return
	}
	fi, err = f.Stat()
	vsym.Assert(err == nil, "Stat fails", arg, err)
	eq(fi, "Stat of the open file")
	vsym.Assert(f.Path() == want, "wrong Path", arg, f.Path())
	vsym.Assert(f.Name() == want.String(), "wrong Name", arg, f.Name())
	vsym.Assert(f.Info().Dir == dir, "wrong module", arg, f.Info().Dir)
	vsym.Assert(f.Close() == nil, "Close fails", arg)
}

var _ = vsym.Register("VerifDiskDep", VerifDiskDep)

// VerifDiskDep: the same for the paths of a module the current one depends on.
func VerifDiskDep() {
	odd := vlib.OddName()
	vsym.Assume(odd != "main" && odd != "go.mod" && odd != "pkged.go")
	d1, d2 := area("1", odd), area("2", odd)
	mod := func(dir, name, more string) {
		vsym.Assert(os.WriteFile(dir+"/go.mod", []byte("module "+name+"\n\ngo 1.13\n"+more), 0644) == nil, "setup fails")
		vsym.Assert(os.WriteFile(dir+"/x.go", []byte("package "+name+"\n"), 0644) == nil, "setup fails")
	}
	main := filepath.Dir(d1) + "/main"
	vsym.Assert(os.MkdirAll(main, 0755) == nil && os.MkdirAll(filepath.Dir(d2)+"/main", 0755) == nil, "setup fails")
	mod(main, vlib.Main, "\nrequire dep.io/dep v0.0.0\n\nreplace dep.io/dep => ../m\n")
	mod(filepath.Dir(d2)+"/main", vlib.Main, "\nrequire dep.io/dep v0.0.0\n\nreplace dep.io/dep => ../m\n")
	for _, d := range []string{d1, d2} {
		vsym.Assert(os.WriteFile(d+"/go.mod", []byte("module dep.io/dep\n\ngo 1.13\n"), 0644) == nil, "setup fails")
		vsym.Assert(os.WriteFile(d+"/x.go", []byte("package dep\n"), 0644) == nil, "setup fails")
	}
	vsym.Assert(os.Chdir(main) == nil, "setup fails")
	p, err := stdos.New(vlib.Info(main))
	vsym.Assert(err == nil, "New fails", err)
	op := vsym.Choose("op", ops)
	raw := vlib.Raw("/.ab\\", vsym.Param("n", 3), odd)
	want := vlib.Canon("dep.io/dep", raw)
	if op == 4 || op == 5 {
		vsym.Assume(want.Name != "/")
	}
	arg := "dep.io/dep:" + raw
	if op == 0 || op == 1 {
		describes(p, want, d1, arg)
	}
	x := do(p, op, arg, 0700)
	y := ref("dep.io/dep", d2, want.Name, op, 0700)
	vsym.Assert(x == y, "result differs from the file system's", op, arg, x, y)
	x, y = listing(d1), listing(d2)
	vsym.Assert(x == y, "effect differs from the file system's", op, arg, x, y)
	// the module's own file of that name stays reachable under its own path
	info, err := p.Info("dep.io/dep")
	vsym.Assert(err == nil && info.Dir == d1 && info.Module.Path == "dep.io/dep", "wrong module info", info.Dir, info.Module.Path, err)
	vsym.Assert(os.Chdir("/") == nil, "Chdir fails")
	vsym.ObserveS("state", x)
}

var _ = vsym.Register("VerifDiskNone", VerifDiskNone)

// VerifDiskNone: where no module is known a path means no file at all.
func VerifDiskNone() {
	d := area("1", "")
	p, err := stdos.New(here.Info{})
	if err != nil {
		return
	}
	arg := d + []string{"/a", "/a/b", "/b", "/new", "/new/d", ""}[vsym.Choose("file", 6)]
	if vsym.Bool("qualified") {
		arg = ":" + arg
	}
	op := vsym.Choose("op", ops)
	x := listing(d)
	open := vsym.OpenFiles()
	s := do(p, op, arg, 0700)
	vsym.Assert(s == "error;" || s == class(os.ErrNotExist), "an operation succeeds where there is no module", op, arg, s)
	vsym.Assert(vsym.OpenFiles() == open, "a file is still open", op, arg)
	vsym.Assert(listing(d) == x, "a file outside of any module changes", op, arg)
}
