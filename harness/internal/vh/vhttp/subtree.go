// Package vhttp: files as http.FileSystem.
package vhttp

import (
	"net/http"
	"os"
	"path"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
)

var _ = vsym.Register("VerifSubtree", VerifSubtree)

func tree(odd string) *vlib.Model {
	l := []string{"/a/", "/a/a", "/a/b/", "/a/b/a", "/a/ab", "/ab/", "/ab/a", "/b"}
	if odd != "" {
		// the odd name outside and inside, and below a directory
		l = []string{"/a/", "/a/" + odd + "/", "/a/" + odd + "/a", "/" + odd}
	}
	return vlib.Fixed(l...)
}

// expect asserts that f is what e describes (nil: nothing there).
func expect(f http.File, err error, m *vlib.Model, e *vlib.Ent, what string, name string) {
	if e == nil {
		vsym.Assert(err != nil, what+": opens what is not there", name)
		vsym.Assert(os.IsNotExist(err), what+": wrong error for what is not there", name, err)
		return
	}
	vsym.Assert(err == nil, what+": does not open", name, e.Path, err)
	fi, err := f.Stat()
	vsym.Assert(err == nil, what+": no info", name, err)
	vlib.CheckInfo(fi, *e, what)
	if pf, ok := f.(pkging.File); ok && vsym.Param("disk", 0) == 0 {
		vsym.Assert(pf.Path() == (here.Path{Pkg: e.Pkg, Name: e.Path}), what+": wrong path", name, pf.Name())
		vsym.Assert(pf.Name() == vlib.Qual(e.Pkg, e.Path), what+": wrong name", name, pf.Name())
		h := vlib.ModOf(e.Pkg)
		if vsym.Param("packed", 0) != 0 {
			h = vlib.HereOf(*e)
		}
		vsym.Assert(pf.Info().ImportPath == h.ImportPath && pf.Info().Dir == h.Dir && pf.Info().Module == h.Module, what+": wrong module", name, pf.Info().Dir)
	}
	if e.Dir {
		fis, err := f.Readdir(-1)
		vsym.Assert(err == nil, what+": Readdir fails", name, err)
		want := m.Children(e.Pkg, e.Path)
		vsym.Assert(len(fis) == len(want), what+": wrong entries", name, len(fis), len(want))
		for _, fi := range fis {
			c := vlib.Has(m, e.Pkg, path.Join(e.Path, fi.Name()))
			vsym.Assert(c != nil, what+": unknown entry", name, fi.Name())
			vlib.CheckInfo(fi, *c, what)
		}
	} else {
		b, err := vlib.ReadAll(f, 16, 20)
		vsym.Assert(err == nil, what+": read fails", name, err)
		vsym.Assert(vsym.EqB(b, e.Data), what+": wrong file", name, string(b), e.Path)
	}
	vsym.Assert(f.Close() == nil, what+": Close fails", name)
}

// name is any name to open.
func name(odd string) string {
	if odd != "" {
		s := vlib.Spelled("piece", odd, vsym.Param("odd", 0))
		if vsym.Bool("rooted") {
			return s
		}
		return s[1:]
	}
	return vlib.Str("raw", alpha, 0, vsym.Param("n", 4))
}

const alpha = "/.ab\\:"

// world is the tree: made, or unpacked.
func world(m *vlib.Model) pkging.Pkger {
	if vsym.Param("packed", 0) != 0 {
		p := vlib.Mem()
		m.Pack(p)
		return p
	}
	p := vlib.World()
	m.Make(p)
	return p
}

// VerifSubtree: opening any name through an open directory yields the entry of
// that name below the directory, and never anything outside of it.
func VerifSubtree() {
	odd := vlib.OddName()
	m := tree(odd)
	p := world(m)
	base := "/a"
	switch vsym.Choose("base", 3) {
	case 1:
		base = "/"
	case 2:
		base = "/a/b"
		if odd != "" {
			base = "/a/" + odd
		}
	}
	open := vsym.OpenFiles()
	d, err := p.Open(base)
	vsym.Assert(err == nil, "directory does not open", err)
	raw := name(odd)
	want := path.Join(base, vlib.Canon("", raw).Name)
	f, err := d.Open(raw)
	e := vlib.Has(m, vlib.Main, want)
	if e == nil {
		vsym.Cover("nothing there")
	} else {
		vsym.Cover("found")
	}
	if e != nil && e.Dir && vsym.Param("twice", 1) != 0 && err == nil {
		// and once more from there
		d2, ok := f.(pkging.File)
		vsym.Assert(ok, "not a pkger file")
		raw2 := vlib.Str("raw2", "/.a", 0, 3)
		f2, err := d2.Open(raw2)
		expect(f2, err, m, vlib.Has(m, vlib.Main, path.Join(want, vlib.Canon("", raw2).Name)), "subtree of a subtree", raw2)
	}
	expect(f, err, m, e, "subtree", raw)
	vsym.Assert(d.Close() == nil, "Close fails")
	vsym.Assert(vsym.OpenFiles() == open, "a file is still open", raw)
	vsym.ObserveB("found", e != nil)
}

var _ = vsym.Register("VerifDir", VerifDir)

// VerifDir: the same for Dir of the current Pkger.
func VerifDir() {
	odd := vlib.OddName()
	m := tree(odd)
	p := world(m)
	vsym.Assert(pkger.Apply(p, nil) == nil, "Apply fails")
	base := "/a"
	if odd == "" {
		base = vlib.Str("base", "/.ab", 1, 3)
		vsym.Assume(base[0] == '/')
	} else if vsym.Bool("below") {
		base += "/" + odd
	}
	root := vlib.Canon("", base).Name
	raw := name(odd)
	open := vsym.OpenFiles()
	f, err := pkger.Dir(base).Open(raw)
	e := vlib.Has(m, vlib.Main, root)
	if e != nil && (e.Dir || vsym.Param("disk", 0) == 0) {
		e = vlib.Has(m, vlib.Main, path.Join(root, vlib.Canon("", raw).Name))
	} else if e != nil && vlib.Canon("", raw).Name != "/" {
		e = nil
	}
	if e != nil {
		vsym.Cover("found")
	}
	expect(f, err, m, e, "Dir", base+" "+raw)
	vsym.Assert(vsym.OpenFiles() == open, "a file is still open", raw)
	vsym.ObserveB("found", e != nil)
}
