// Package vpath: path resolution.
package vpath

import (
	"io"
	"os"
	"path"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
)

// base is the folder of the module: one that a path can begin with, or not.
func base() string {
	if vsym.Param("base", 0) == 0 {
		return "/w/d/root"
	}
	return []string{"/a", "/", "/a/a", "/aa", "/.a"}[vsym.Choose("base", vsym.Param("base", 5))]
}

// located is the path that the unqualified s stands for, in a module in dir.
func located(dir, s string) here.Path {
	c := vlib.Canon(vlib.Main, s)
	if dir != "/" && vlib.Within(dir, c.Name) {
		return vlib.Canon(vlib.Main, "/"+c.Name[len(dir):])
	}
	return c
}

var _ = vsym.Register("VerifParse", VerifParse)

// VerifParse: both backends resolve any spelling of an absolute path to the
// same canonical path inside of the named module.
func VerifParse() {
	dir := base()
	info := vlib.Info(dir)
	mp, err := mem.New(info)
	vsym.Assert(err == nil, "mem.New fails")
	sp, err := stdos.New(info)
	vsym.Assert(err == nil, "stdos.New fails")

	var in string
	var want here.Path
	n := vsym.Param("n", 5)
	odd := vlib.OddName()
	switch vsym.Choose("form", 4) {
	case 0:
		s := vlib.Raw("/.a\\", n, odd)
		in, want = s, located(dir, s)
	case 1:
		s := vlib.Raw("/.a\\:", n, odd)
		in, want = vlib.Main+":"+s, vlib.Canon(vlib.Main, s)
	case 2:
		s := vlib.Raw("/.a\\:", n, odd)
		in, want = vlib.Dep+":"+s, vlib.Canon(vlib.Dep, s)
	case 3:
		// a module by name only, or nothing at all: its root
		switch vsym.Choose("root", 5) {
		case 0:
			in, want = "", here.Path{Pkg: vlib.Main, Name: "/"}
		case 1:
			in, want = ":", here.Path{Pkg: vlib.Main, Name: "/"}
		case 2:
			in, want = vlib.Dep, here.Path{Pkg: vlib.Dep, Name: "/"}
		case 3:
			in, want = vlib.Main+":", here.Path{Pkg: vlib.Main, Name: "/"}
		case 4:
			in, want = dir, here.Path{Pkg: vlib.Main, Name: "/"}
		}
	}
	for i, p := range []pkging.Pkger{mp, sp, pkging.Wrap(nil, mp), pkging.Wrap(sp, mp)} {
		got, err := p.Parse(in)
		vsym.Assert(err == nil, "path does not parse", i, in, err)
		vsym.Assert(got == want, "path resolves to another one", i, in, got, want)
		again, err := p.Parse(got.String())
		vsym.Assert(err == nil && again == got, "canonical path does not parse to itself", i, got, again, err)
		if i == 0 {
			vsym.ObserveS("path", got.String())
		}
	}
	if strings.Contains(in, "..") {
		vsym.Cover("dotdot")
	}
}

var _ = vsym.Register("VerifParseAbs", VerifParseAbs)

// VerifParseAbs: the location on disk of a file of the module is the same as
// its path.
func VerifParseAbs() {
	info := vlib.Info(base())
	mp, _ := mem.New(info)
	sp, _ := stdos.New(info)
	odd := vlib.OddName()
	s := vlib.Raw("/.a", vsym.Param("n", 5), odd)
	want := vlib.Canon(vlib.Main, s)
	in := strings.TrimSuffix(info.Dir, "/") + want.Name
	for i, p := range []pkging.Pkger{mp, sp} {
		got, err := p.Parse(in)
		vsym.Assert(err == nil, "location does not parse", i, in, err)
		vsym.Assert(got == want, "location resolves to another path", i, in, got, want)
	}
}

var _ = vsym.Register("VerifSpelling", VerifSpelling)

// world is a Pkger and a way to look at it afterwards.
func fill(p pkging.Pkger, odd string) {
	m := vlib.Main + ":"
	if odd != "" {
		vsym.Assert(p.MkdirAll(m+"/a/"+odd, 0755) == nil, "setup fails")
		vsym.Assert(vlib.Write(p, m+"/"+odd, []byte("3")) == nil, "setup fails")
	}
	vsym.Assert(p.MkdirAll(m+"/a/b", 0755) == nil, "setup fails")
	vsym.Assert(p.MkdirAll(m+"/c", 0755) == nil, "setup fails")
	vsym.Assert(vlib.Write(p, m+"/a/d", []byte("1")) == nil, "setup fails")
	vsym.Assert(vlib.Write(p, m+"/d", []byte("22")) == nil, "setup fails")
}

func state(p pkging.Pkger, root string) string {
	s := ""
	err := p.Walk(root, func(name string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		s += name
		if fi.IsDir() {
			s += "/;"
			return nil
		}
		f, err := p.Open(name)
		if err != nil {
			return err
		}
		defer f.Close()
		b, err := vlib.ReadAll(f, 8, 20)
		if err != nil {
			return err
		}
		if vsym.Concrete(fi.Name()) != path.Base(vsym.Concrete(name)) {
			s += "(" + fi.Name() + ")"
		}
		s += "=" + string(b) + ";"
		return nil
	})
	if err != nil {
		s += "!" + err.Error()
	}
	return s
}

func apply(p pkging.Pkger, op int, arg string) (out string) {
	e := func(err error) {
		if err != nil {
			out += "error;"
		} else {
			out += "ok;"
		}
	}
	switch op {
	case 0:
		f, err := p.Open(arg)
		e(err)
		if err == nil {
			out += f.Name()
			fi, err := f.Stat()
			e(err)
			if !fi.IsDir() {
				b, err := vlib.ReadAll(f, 8, 20)
				e(err)
				out += string(b)
			} else {
				fis, err := f.Readdir(-1)
				e(err)
				out += string(rune('0' + len(fis)))
			}
			e(f.Close())
		}
	case 1:
		fi, err := p.Stat(arg)
		e(err)
		if err == nil {
			out += fi.Name()
			if fi.IsDir() {
				out += "/"
			}
		}
	case 2:
		f, err := p.Create(arg)
		e(err)
		if err == nil {
			out += f.Name()
			_, err = io.WriteString(f, "new")
			e(err)
			e(f.Close())
		}
	case 3:
		e(p.MkdirAll(arg, 0755))
	case 4:
		e(p.Remove(arg))
	case 5:
		e(p.RemoveAll(arg))
	case 6:
		e(p.Walk(arg, func(name string, fi os.FileInfo, err error) error {
			out += name + ";"
			return err
		}))
	}
	return out
}

// VerifSpelling: every operation treats a spelled path as its canonical form,
// on either backend.
func VerifSpelling() {
	root := base()
	mk := func(i int) pkging.Pkger {
		if vsym.Param("disk", 0) == 0 {
			p, err := mem.New(vlib.Info(root))
			vsym.Assert(err == nil, "New fails")
			return p
		}
		dir := vsym.Root() + string(rune('0'+i))
		vsym.Assert(os.MkdirAll(dir, 0755) == nil, "setup fails")
		p, err := stdos.New(vlib.Info(dir))
		vsym.Assert(err == nil, "New fails")
		return p
	}
	op := vsym.Choose("op", 7)
	odd := vlib.OddName()
	s := vlib.Raw("/.a\\d", vsym.Param("n", 4), odd)
	qualified := vsym.Bool("qualified")
	want := vlib.Canon(vlib.Main, s)
	if !qualified && vsym.Param("disk", 0) == 0 {
		want = located(root, s)
	}
	if op == 4 || op == 5 {
		// removing the root itself differs from backend to backend
		vsym.Assume(want.Name != "/")
	}
	in := s
	if qualified {
		in = vlib.Main + ":" + s
	}
	a, b := mk(0), mk(1)
	fill(a, odd)
	fill(b, odd)
	x := apply(a, op, in)
	y := apply(b, op, want.String())
	if op == 1 && want.Name == "/" {
		x, y = "", "" // the name of the root is the directory's
	}
	vsym.Assert(x == y, "operation differs by spelling", op, in, x, y)
	x, y = state(a, "/"), state(b, "/")
	vsym.Assert(x == y, "effect differs by spelling", op, in, x, y)
	vsym.ObserveS("state", x)
}
