package vmem

import (
	"os"
	"path"
	"sort"

	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

// held is a file that stays open while the tree changes.
type held struct {
	f    pkging.File
	path string
	data []byte // what it reads
	gone bool   // no longer at its path
}

// open reports whether one of hs is open at path.
func open(hs []*held, path string) bool {
	for _, h := range hs {
		if !h.gone && h.path == path {
			return true
		}
	}
	return false
}

var _ = vsym.Register("VerifHistory", VerifHistory)

// VerifHistory: after any history of operations a Pkger holds what the same
// history leaves in a file system, and each operation succeeds or fails as
// there.
func VerifHistory() {
	alpha := "ab"
	if vsym.Param("wide", 1) != 0 {
		alpha = vlib.Wide
	}
	if vsym.Param("odd", 0) != 0 {
		alpha = vlib.OddAlpha()
	}
	max, depth := vsym.Param("max", 1), vsym.Param("depth", 2)
	onDisk := vsym.Param("disk", 0) != 0
	p := vlib.World()
	m := &vlib.Model{Ents: []vlib.Ent{{Pkg: vlib.Main, Path: "/", Dir: true}}}
	vsym.Assert(p.MkdirAll("/", 0755) == nil, "MkdirAll(/) fails")
	files := vsym.OpenFiles()
	var rd, wr []*held
	gone := func(arg string) {
		for _, h := range rd {
			h.gone = h.gone || vlib.Within(arg, h.path)
		}
		for _, h := range wr {
			h.gone = h.gone || vlib.Within(arg, h.path)
		}
	}
	ops := vsym.Param("ops", 3)
	for i := 0; i < ops; i++ {
		op := vsym.Choose("op", vsym.Param("kinds", 7))
		arg := "/"
		if op != 6 {
			arg = vlib.Path("arg", alpha, max, depth)
		}
		q := vlib.Qual(vlib.Main, arg)
		e := vlib.Has(m, vlib.Main, arg)
		par := vlib.Has(m, vlib.Main, path.Dir(arg))
		// is there a file where a directory would have to be?
		blocked := false
		for d := arg; d != "/"; d = path.Dir(d) {
			x := vlib.Has(m, vlib.Main, d)
			blocked = blocked || x != nil && !x.Dir
		}
		switch op {
		case 0, 4: // write a file, and close it now or at the end
			for _, h := range wr {
				vsym.Assume(h.gone || h.path != arg)
			}
			for _, h := range rd {
				vsym.Assume(!onDisk || h.gone || h.path != arg)
			}
			data := vsym.Bytes("data", vsym.Param("data", 1))
			f, err := p.Create(q)
			if par == nil || !par.Dir || e != nil && e.Dir {
				vsym.Assert(err != nil, "Create succeeds", arg)
				vsym.Assert(blocked || par != nil || os.IsNotExist(err), "wrong error for a missing directory", arg, err)
				break
			}
			vsym.Assert(err == nil, "Create fails", arg, err)
			k, err := f.Write(data)
			vsym.Assert(err == nil && k == len(data), "Write fails", arg, err)
			if op == 0 {
				vsym.Assert(f.Close() == nil, "Close fails", arg)
			} else {
				wr = append(wr, &held{f: f, path: arg})
				vsym.Cover("kept open")
			}
			if e != nil {
				e.Data = data
			} else {
				m.Ents = append(m.Ents, vlib.Ent{Pkg: vlib.Main, Path: arg, Data: data})
			}
		case 1:
			err := p.MkdirAll(q, 0755)
			vsym.Assert((err != nil) == blocked, "MkdirAll", arg, err, blocked)
			for d := arg; err == nil && vlib.Has(m, vlib.Main, d) == nil; d = path.Dir(d) {
				m.Ents = append(m.Ents, vlib.Ent{Pkg: vlib.Main, Path: d, Dir: true})
			}
		case 2:
			err := p.Remove(q)
			if e == nil || e.Dir && len(m.Children(vlib.Main, arg)) > 0 {
				vsym.Assert(err != nil, "Remove succeeds", arg)
				vsym.Assert(e == nil || !os.IsNotExist(err), "Remove does not find what is there", arg, err)
				vsym.Assert(e != nil || blocked || os.IsNotExist(err), "wrong error for what is not there", arg, err)
				break
			}
			vsym.Assert(err == nil, "Remove fails", arg, err)
			m.RemoveAll(vlib.Main, arg)
			gone(arg)
		case 3:
			err := p.RemoveAll(q)
			if e == nil && blocked && onDisk {
				break // the operating system decides
			}
			vsym.Assert(err == nil, "RemoveAll fails", arg, err)
			m.RemoveAll(vlib.Main, arg)
			gone(arg)
			_, err = p.Stat(q)
			vsym.Assert(blocked || os.IsNotExist(err), "wrong error for what was removed", arg, err)
		case 5: // open a file, to read it at the end
			for _, h := range wr {
				vsym.Assume(h.gone || h.path != arg)
			}
			f, err := p.Open(q)
			if e == nil {
				vsym.Assert(err != nil, "Open succeeds", arg)
				vsym.Assert(blocked || os.IsNotExist(err), "wrong error for what is not there", arg, err)
				break
			}
			vsym.Assert(err == nil, "Open fails", arg, err)
			if e.Dir {
				vsym.Assert(f.Close() == nil, "Close fails", arg)
				break
			}
			rd = append(rd, &held{f: f, path: arg, data: e.Data})
			vsym.Cover("kept open")
		case 6: // pack it, and go on with what is unpacked
			vsym.Assume(!onDisk && len(wr) == 0)
			b, err := p.(*mem.Pkger).MarshalJSON()
			vsym.Assert(err == nil, "MarshalJSON fails", err)
			u := &mem.Pkger{}
			vsym.Assert(u.UnmarshalJSON(b) == nil, "UnmarshalJSON fails", string(b))
			p = u
			// the handles stay with what was packed
			vsym.Cover("packed")
		}
		if vsym.Param("look", 1) == 0 {
			continue
		}
		// what it says in between
		fi, err := p.Stat(q)
		if e := vlib.Has(m, vlib.Main, arg); e != nil {
			vsym.Assert(err == nil, "Stat fails", arg, err)
			if !open(wr, arg) {
				vlib.CheckInfo(fi, *e, "between operations")
			}
		} else {
			vsym.Assert(err != nil, "Stat finds what is not there", arg)
		}
		n := 0
		err = p.Walk("/", func(string, os.FileInfo, error) error {
			n++
			return nil
		})
		vsym.Assert(err == nil && n == len(m.Ents), "Walk", n, len(m.Ents), err)
	}
	for _, h := range rd {
		b, err := vlib.ReadAll(h.f, 4, 4)
		vsym.Assert(err == nil && vsym.EqB(b, h.data), "an open file reads something else", h.path, string(b), err)
		vsym.Assert(h.f.Close() == nil, "Close fails", h.path)
	}
	for _, h := range wr {
		vsym.Assert(h.f.Close() == nil, "Close fails", h.path)
	}
	vsym.Assert(vsym.OpenFiles() == files, "a file is still open")
	vlib.CheckAll(p, m, "in the end")
	for _, e := range m.Ents {
		if !e.Dir {
			continue
		}
		f, err := p.Open(vlib.Qual(vlib.Main, e.Path))
		vsym.Assert(err == nil, "Open fails", e.Path, err)
		fis, err := f.Readdir(-1)
		vsym.Assert(err == nil && f.Close() == nil, "Readdir fails", e.Path, err)
		sort.Slice(fis, func(i, j int) bool { return fis[i].Name() < fis[j].Name() })
		want := m.Children(vlib.Main, e.Path)
		vsym.Assert(len(fis) == len(want), "wrong number of entries", e.Path, len(fis), len(want))
		for i, fi := range fis {
			vlib.CheckInfo(fi, want[i], "entry")
		}
	}
	vsym.ObserveI("entries", len(m.Ents))
}
