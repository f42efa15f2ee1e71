package vmem

import (
	"encoding/json"
	"io"
	"os"
	"path/filepath"

	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

var _ = vsym.Register("VerifMemMany", VerifMemMany)

// VerifMemMany: packs of many entries, deep ones and ones with long names are
// treated as small ones are.
func VerifMemMany() {
	m := vlib.Many()
	var p pkging.Pkger
	if vsym.Param("disk", 0) != 0 {
		p = vlib.World()
		m.Make(p)
	} else {
		q := vlib.Mem()
		m.Pack(q)
		p = q
	}
	// some entry
	e := m.Ents[[]int{len(m.Ents) - 2, len(m.Ents) - 4, len(m.Ents) / 2, 3}[vsym.Choose("which", 4)]]
	name := vlib.Qual(e.Pkg, e.Path)
	op := vsym.Param("op", 0)
	if op < 0 {
		op = vsym.Choose("op", 6)
	}
	switch op {
	case 0:
		// remove it, or all of the directory
		if vsym.Bool("dir") {
			e.Path = "/d"
			name = "/d"
		}
		vsym.Assert(p.RemoveAll(name) == nil, "RemoveAll fails", name)
		m.RemoveAll(e.Pkg, e.Path)
		counted(p, m, "after RemoveAll")
	case 1:
		// skip it
		want := m.Tree(vlib.Main, "/d")
		at, skip := 0, ""
		err := p.Walk("/d", func(s string, fi os.FileInfo, err error) error {
			vsym.Assert(err == nil, "walk error", err)
			for at < len(want) && skip != "" && vlib.Within(skip, want[at].Path) {
				at++
			}
			vsym.Assert(at < len(want) && s == vlib.Qual(vlib.Main, want[at].Path), "wrong visit", s, at, len(want))
			vlib.CheckInfo(fi, want[at], "visit")
			at++
			if s == name && e.Dir {
				skip = e.Path
				return filepath.SkipDir
			}
			return nil
		})
		for at < len(want) && skip != "" && vlib.Within(skip, want[at].Path) {
			at++
		}
		vsym.Assert(err == nil && at == len(want), "entries not visited", at, len(want), err)
	case 2:
		// list the directory in pieces
		want := m.Children(vlib.Main, "/d")
		count := []int{-1, 1, 17, 64, 100, 200}[vsym.Choose("count", 6)]
		f, err := p.Open("/d")
		vsym.Assert(err == nil, "Open fails", err)
		got := map[string]bool{}
		for i := 0; i < len(want)+1; i++ {
			fis, err := f.Readdir(count)
			if count > 0 && len(got) == len(want) {
				vsym.Assert(err == io.EOF && len(fis) == 0, "no EOF", len(fis), err)
				break
			}
			exp := len(want) - len(got)
			if count > 0 && exp > count {
				exp = count
			}
			vsym.Assert(err == nil && len(fis) == exp, "wrong number of entries", len(fis), exp, err)
			for _, fi := range fis {
				w := vlib.Has(m, vlib.Main, "/d/"+fi.Name())
				vsym.Assert(w != nil && !got[fi.Name()], "wrong entry", fi.Name())
				vlib.CheckInfo(fi, *w, "entry")
				got[fi.Name()] = true
			}
			if count < 0 {
				break
			}
		}
		vsym.Assert(len(got) == len(want), "entries missing", len(got), len(want))
		vsym.Assert(f.Close() == nil, "Close fails")
	case 3:
		// pack and unpack
		b, err := json.Marshal(p)
		vsym.Assert(err == nil, "marshal fails", err)
		q := &mem.Pkger{}
		vsym.Assert(json.Unmarshal(b, q) == nil, "unmarshal fails")
		counted(q, m, "after packing")
		vlib.CheckFile(q, e, "after packing")
	case 4:
		// one more, beside and below
		at := e.Path
		if !e.Dir {
			at = filepath.Dir(at)
		}
		vsym.Assert(p.MkdirAll(vlib.Qual(vlib.Main, at+"/new/er"), 0755) == nil, "MkdirAll fails", at)
		vsym.Assert(vlib.Write(p, vlib.Qual(vlib.Main, at+"/new/f"), []byte("new")) == nil, "Create fails", at)
		m.Ents = append(m.Ents, vlib.Ent{Pkg: vlib.Main, Path: at + "/new", Dir: true}, vlib.Ent{Pkg: vlib.Main, Path: at + "/new/er", Dir: true}, vlib.Ent{Pkg: vlib.Main, Path: at + "/new/f", Data: []byte("new")})
		counted(p, m, "after Create")
		vlib.CheckFile(p, m.Ents[len(m.Ents)-1], "new file")
	case 5:
		// remove it alone
		err := p.Remove(name)
		if e.Dir && len(m.Children(vlib.Main, e.Path)) > 0 {
			vsym.Assert(err != nil, "a directory that is not empty is removed", name)
		} else {
			vsym.Assert(err == nil, "Remove fails", name, err)
			m.RemoveAll(e.Pkg, e.Path)
		}
		counted(p, m, "after Remove")
	}
	vsym.ObserveI("entries", len(m.Ents))
}

// counted asserts that p has the entries of m, in order.
func counted(p pkging.Pkger, m *vlib.Model, what string) {
	want := m.Tree(vlib.Main, "/")
	at := 0
	err := p.Walk(vlib.Qual(vlib.Main, "/"), func(s string, fi os.FileInfo, err error) error {
		vsym.Assert(err == nil, what+": walk error", err)
		vsym.Assert(at < len(want) && s == vlib.Qual(vlib.Main, want[at].Path), what+": wrong entry", s, at)
		vlib.CheckInfo(fi, want[at], what)
		if !want[at].Dir {
			f, err := p.Open(s)
			vsym.Assert(err == nil, what+": Open fails", s, err)
			b, err := vlib.ReadAll(f, len(want[at].Data)+1, 3)
			vsym.Assert(err == nil && vsym.EqB(b, want[at].Data), what+": wrong content", s, err)
			vsym.Assert(f.Close() == nil, what+": Close fails")
		}
		at++
		return nil
	})
	vsym.Assert(err == nil && at == len(want), what+": entries missing", at, len(want), err)
}
