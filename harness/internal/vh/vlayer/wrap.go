// Package vlayer: layers of Pkgers.
package vlayer

import (
	"os"
	"path"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
)

var _ = vsym.Register("VerifLayers", VerifLayers)

func opts(alpha string) vlib.Opt {
	return vlib.Opt{N: vsym.Param("n", 2), Alpha: alpha, Max: 1, Data: vsym.Param("data", 1)}
}

// top answers for path in a stack of layers: the first that has it.
func top(ms []*vlib.Model, path string) *vlib.Ent {
	for _, m := range ms {
		if e := vlib.Has(m, vlib.Main, path); e != nil {
			return e
		}
	}
	return nil
}

type iface struct {
	open  func(string) (pkging.File, error)
	stat  func(string) (os.FileInfo, error)
	walk  func(string, func(string, os.FileInfo, error) error) error
	creat func(string) (pkging.File, error)
	mkdir func(string, os.FileMode) error
	rm    func(string) error
	rmall func(string) error
}

func of(p pkging.Pkger) iface {
	return iface{p.Open, p.Stat, func(s string, f func(string, os.FileInfo, error) error) error { return p.Walk(s, f) }, p.Create, p.MkdirAll, p.Remove, p.RemoveAll}
}

func pkg() iface {
	return iface{pkger.Open, pkger.Stat, func(s string, f func(string, os.FileInfo, error) error) error { return pkger.Walk(s, f) }, pkger.Create, pkger.MkdirAll, pkger.Remove, pkger.RemoveAll}
}

// stack puts b on a, and a third layer between or on them.
func stack() (iface, []pkging.Pkger, []*vlib.Model, string) {
	alpha := "ab"
	if vsym.Param("odd", 0) != 0 {
		alpha = vlib.OddAlpha()
	}
	a, b := vlib.World(), pkging.Pkger(vlib.Mem())
	ma, mb := vlib.Build(a, opts(alpha)), vlib.Build(b, opts(alpha))
	if vsym.Param("flip", 0) != 0 {
		a, b, ma, mb = b, a, mb, ma
	}
	how := vsym.Param("how", 0)
	if how == 1 {
		vsym.Assert(pkger.Apply(a, nil) == nil, "Apply fails")
		vsym.Assert(pkger.Apply(b, nil) == nil, "Apply fails")
		return pkg(), []pkging.Pkger{b, a}, []*vlib.Model{mb, ma}, alpha
	}
	if how == 0 {
		return of(pkging.Wrap(a, b)), []pkging.Pkger{b, a}, []*vlib.Model{mb, ma}, alpha
	}
	c := pkging.Pkger(vlib.Mem())
	mc := vlib.Build(c, opts(alpha))
	ps, ms := []pkging.Pkger{c, b, a}, []*vlib.Model{mc, mb, ma}
	switch vsym.Choose("nesting", how) {
	case 0:
		return of(pkging.Wrap(a, pkging.Wrap(b, c))), ps, ms, alpha
	case 1:
		return of(pkging.Wrap(pkging.Wrap(a, b), c)), ps, ms, alpha
	}
	vsym.Assert(pkger.Apply(pkging.Wrap(a, b), nil) == nil, "Apply fails")
	vsym.Assert(pkger.Apply(c, nil) == nil, "Apply fails")
	return pkg(), ps, ms, alpha
}

// VerifLayers: a stack of Pkgers answers every path from the topmost layer
// that has it.
func VerifLayers() {
	x, _, ms, alpha := stack()
	arg := vlib.Path("arg", alpha, 1, 2)
	e := top(ms, arg)
	fi, err := x.stat(arg)
	if e == nil {
		vsym.Assert(err != nil, "Stat finds what is in no layer", arg)
		below := false // of a file
		for _, m := range ms {
			d := vlib.Has(m, vlib.Main, path.Dir(arg))
			below = below || d != nil && !d.Dir
		}
		vsym.Assert(below || os.IsNotExist(err), "Stat: wrong error for what is not there", arg, err)
		_, err = x.open(arg)
		vsym.Assert(err != nil, "Open finds what is in no layer", arg)
		vsym.Assert(below || os.IsNotExist(err), "Open: wrong error for what is not there", arg, err)
	} else {
		if vlib.Has(ms[0], vlib.Main, arg) == nil {
			vsym.Cover("from the lower layer")
		}
		vsym.Assert(err == nil, "Stat fails", arg, err)
		vlib.CheckInfo(fi, *e, "Stat")
		f, err := x.open(arg)
		vsym.Assert(err == nil, "Open fails", arg, err)
		if !e.Dir {
			d, err := vlib.ReadAll(f, 4, 4)
			vsym.Assert(err == nil && vsym.EqB(d, e.Data), "content of the wrong layer", arg, d, err)
		}
		vsym.Assert(f.Close() == nil, "Close fails")
	}
	// a walk sees the entries of every layer, of the top one first
	var want []vlib.Ent
	for _, m := range ms {
		want = append(want, m.Tree(vlib.Main, "/")...)
	}
	at := 0
	err = x.walk("/", func(name string, fi os.FileInfo, err error) error {
		vsym.Assert(err == nil, "walk error", err)
		vsym.Assert(at < len(want), "too many visits", name)
		vsym.Assert(name == vlib.Qual(vlib.Main, want[at].Path), "wrong visit", name, want[at].Path)
		vlib.CheckInfo(fi, want[at], "visit")
		at++
		return nil
	})
	vsym.Assert(err == nil && at == len(want), "walk is incomplete", at, len(want), err)
	vsym.ObserveB("found", e != nil)
}

var _ = vsym.Register("VerifLayersWrite", VerifLayersWrite)

// VerifLayersWrite: a file created through the stack is the one seen through
// it; the layers below are not touched; what is removed from all is gone.
func VerifLayersWrite() {
	x, ps, ms, alpha := stack()
	check := func() {
		for i := range ps {
			what := "upper layer"
			if i > 0 {
				what = "lower layer"
			}
			vlib.CheckAll(ps[i], ms[i], what)
		}
	}
	arg := "/" + vlib.Elem("arg", alpha, 1)
	switch vsym.Choose("op", 3) {
	case 0:
		e := vlib.Has(ms[0], vlib.Main, arg)
		vsym.Assume(e == nil || !e.Dir)
		f, err := x.creat(arg)
		vsym.Assert(err == nil, "Create fails", arg, err)
		_, err = f.Write([]byte("new"))
		vsym.Assert(err == nil && f.Close() == nil, "not written", err)
		f, err = x.open(arg)
		vsym.Assert(err == nil, "Open fails", arg, err)
		d, err := vlib.ReadAll(f, 4, 4)
		vsym.Assert(err == nil && string(d) == "new", "created file is not seen", arg, d, err)
		f.Close()
		if e != nil {
			e.Data = []byte("new")
		} else {
			ms[0].Ents = append(ms[0].Ents, vlib.Ent{Pkg: vlib.Main, Path: arg, Data: []byte("new")})
		}
	case 1:
		err := x.rmall(arg)
		vsym.Assert(err == nil, "RemoveAll fails", arg, err)
		for _, m := range ms {
			m.RemoveAll(vlib.Main, arg)
		}
		_, err = x.stat(arg)
		vsym.Assert(err != nil, "removed path is still there", arg)
	case 2:
		for _, m := range ms {
			e := vlib.Has(m, vlib.Main, arg)
			vsym.Assume(e == nil || e.Dir)
		}
		err := x.mkdir(arg, 0755)
		vsym.Assert(err == nil, "MkdirAll fails", arg, err)
		fi, err := x.stat(arg)
		vsym.Assert(err == nil && fi.IsDir(), "made directory is not seen", arg, err)
		for _, m := range ms {
			if vlib.Has(m, vlib.Main, arg) == nil {
				m.Ents = append(m.Ents, vlib.Ent{Pkg: vlib.Main, Path: arg, Dir: true})
			}
		}
	}
	check()
}
