package vmem

import (
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
)

func opts() vlib.Opt {
	alpha := "ab-"
	if vsym.Param("wide", 1) != 0 {
		alpha = vlib.Wide
	}
	if vsym.Param("odd", 0) != 0 {
		alpha = vlib.OddAlpha()
	}
	return vlib.Opt{N: vsym.Param("n", 3), Alpha: alpha, Max: vsym.Param("max", 2), Data: vsym.Param("data", 1), Pkgs: vsym.Param("pkgs", 1) != 0, Shape: vsym.Param("shape", 0), Loose: vsym.Param("loose", 0) != 0, Known: true}
}

var _ = vsym.Register("VerifMemRemoveAll", VerifMemRemoveAll)

// VerifMemRemoveAll: RemoveAll of any path of any tree removes the subtree and
// nothing else.
func VerifMemRemoveAll() {
	p := vlib.Mem2()
	o := opts()
	m := vlib.Build(p, o)
	pkg := vlib.Main
	if o.Pkgs && vsym.Bool("argdep") {
		pkg = vlib.Dep
	}
	arg := vlib.Path("arg", o.Alpha, o.Max, 2)
	err := p.RemoveAll(vlib.Qual(pkg, arg))
	vsym.Assert(err == nil, "RemoveAll fails", err)
	before := len(m.Ents)
	m.RemoveAll(pkg, arg)
	if len(m.Ents) < before {
		vsym.Cover("something removed")
	}
	vlib.CheckAll(p, m, "after RemoveAll")
	_, err = p.Stat(vlib.Qual(pkg, arg))
	vsym.Assert(err != nil, "removed path still there")
	vsym.ObserveI("left", len(m.Ents))
}
