package vmem

import (
	"os"
	"path"

	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
)

func argPkg(o vlib.Opt) string {
	if o.Pkgs && vsym.Bool("argdep") {
		return vlib.Dep
	}
	return vlib.Main
}

var _ = vsym.Register("VerifMemMkdirAll", VerifMemMkdirAll)

// VerifMemMkdirAll: MkdirAll makes the directory and its missing parents, with
// the given permissions, and leaves everything else as it was.
func VerifMemMkdirAll() {
	p := vlib.Mem2()
	o := opts()
	m := vlib.Build(p, o)
	pkg := argPkg(o)
	arg := vlib.Path("arg", o.Alpha, o.Max, vsym.Param("depth", 3))
	if vsym.Bool("root") {
		arg = "/"
	}
	perm := os.FileMode(vsym.Int("perm", 0, 0777))
	// what has to happen
	blocked := false
	var made []string
	for d := arg; ; d = path.Dir(d) {
		e := vlib.Has(m, pkg, d)
		if e == nil {
			made = append(made, d)
			continue
		}
		if !e.Dir {
			blocked = true
		}
		break
	}
	err := p.MkdirAll(vlib.Qual(pkg, arg), perm)
	if blocked {
		vsym.Cover("a file is in the way")
		vsym.Assert(err != nil, "a directory was made below a file, or in its place", arg)
		vlib.CheckAll(p, m, "after failed MkdirAll")
		return
	}
	vsym.Assert(err == nil, "MkdirAll fails", arg, err)
	if len(made) == 0 {
		vsym.Cover("there already")
	}
	for _, d := range made {
		fi, err := p.Stat(vlib.Qual(pkg, d))
		vsym.Assert(err == nil, "directory missing", d, err)
		vsym.Assert(fi.Mode()&os.ModePerm == perm, "wrong permissions", d, uint32(fi.Mode()), uint32(perm))
		m.Ents = append(m.Ents, vlib.Ent{Pkg: pkg, Path: d, Dir: true})
	}
	vlib.CheckAll(p, m, "after MkdirAll")
	vsym.ObserveI("made", len(made))
}

var _ = vsym.Register("VerifMemCreate", VerifMemCreate)

// VerifMemCreate: Create needs an existing parent directory, replaces an
// existing file, refuses a directory, and leaves everything else as it was.
func VerifMemCreate() {
	p := vlib.Mem2()
	o := opts()
	m := vlib.Build(p, o)
	pkg := argPkg(o)
	arg := vlib.Path("arg", o.Alpha, o.Max, vsym.Param("depth", 2))
	par := vlib.Has(m, pkg, path.Dir(arg))
	old := vlib.Has(m, pkg, arg)
	ok := par != nil && par.Dir && (old == nil || !old.Dir)
	data := bytesN("new", 1)
	err := vlib.Write(p, vlib.Qual(pkg, arg), data)
	if !ok {
		vsym.Assert(err != nil, "Create succeeds", arg, par != nil)
		vsym.Cover("refused")
	} else {
		vsym.Assert(err == nil, "Create fails", arg, err)
		if old != nil {
			vsym.Cover("replaced")
			old.Data = data
		} else {
			m.Ents = append(m.Ents, vlib.Ent{Pkg: pkg, Path: arg, Data: data})
		}
	}
	vlib.CheckAll(p, m, "after Create")
	vsym.ObserveB("ok", ok)
}

var _ = vsym.Register("VerifMemRemove", VerifMemRemove)

// VerifMemRemove: Remove removes the named file or empty directory only.
func VerifMemRemove() {
	p := vlib.Mem2()
	o := opts()
	m := vlib.Build(p, o)
	pkg := argPkg(o)
	arg := vlib.Path("arg", o.Alpha, o.Max, vsym.Param("depth", 2))
	e := vlib.Has(m, pkg, arg)
	err := p.Remove(vlib.Qual(pkg, arg))
	if e != nil && (!e.Dir || len(m.Children(pkg, arg)) == 0) {
		vsym.Assert(err == nil, "Remove fails", arg, err)
		m.RemoveAll(pkg, arg)
		_, err = p.Open(vlib.Qual(pkg, arg))
		vsym.Assert(err != nil, "removed path still opens", arg)
		vsym.Cover("removed")
	} else {
		vsym.Assert(err != nil, "Remove succeeds", arg, e != nil)
		vsym.Cover("refused")
	}
	vlib.CheckAll(p, m, "after Remove")
	vsym.ObserveI("left", len(m.Ents))
}
