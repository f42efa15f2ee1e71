package vconc

import (
	"os"
	"strings"

	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
)

const changes = 7

// change changes the part of the tree below d, which has the file x, and says
// what it leaves there.
func change(p pkging.Pkger, d string, op int) []vlib.Ent {
	dir := vlib.Ent{Pkg: vlib.Main, Path: d, Dir: true}
	x := vlib.Ent{Pkg: vlib.Main, Path: d + "/x", Data: []byte("x" + d)}
	switch op {
	case 0:
		vsym.Assert(p.MkdirAll(d+"/n", 0755) == nil, "MkdirAll fails")
		vsym.Assert(vlib.Write(p, d+"/n/f", []byte(d)) == nil, "write fails")
		return []vlib.Ent{dir, x, {Pkg: vlib.Main, Path: d + "/n", Dir: true}, {Pkg: vlib.Main, Path: d + "/n/f", Data: []byte(d)}}
	case 1:
		vsym.Assert(p.Remove(d+"/x") == nil, "Remove fails")
		return []vlib.Ent{dir}
	case 2:
		vsym.Assert(p.RemoveAll(d) == nil, "RemoveAll fails")
		return nil
	case 3:
		vsym.Assert(vlib.Write(p, d+"/x", []byte("y"+d)) == nil, "write fails")
		return []vlib.Ent{dir, {Pkg: vlib.Main, Path: d + "/x", Data: []byte("y" + d)}}
	case 4:
		vsym.Assert(p.Remove(d) != nil, "Remove removes a directory that is not empty")
		_, err := p.Create(d)
		vsym.Assert(err != nil, "Create replaces a directory")
		return []vlib.Ent{dir, x}
	case 5:
		vsym.Assert(p.RemoveAll(d) == nil, "RemoveAll fails")
		vsym.Assert(p.MkdirAll(d, 0755) == nil, "MkdirAll fails")
		return []vlib.Ent{dir}
	}
	n := 0
	err := p.Walk(d, func(name string, fi os.FileInfo, err error) error {
		vsym.Assert(err == nil && strings.HasPrefix(name, vlib.Qual(vlib.Main, d)), "wrong visit", name, err)
		n++
		return nil
	})
	vsym.Assert(err == nil && n == 2, "wrong walk", n, err)
	return []vlib.Ent{dir, x}
}

var _ = vsym.Register("VerifConcWriters", VerifConcWriters)

// VerifConcWriters: two change different parts of one tree; both changes are
// kept, and nothing else changes.
func VerifConcWriters() {
	m := &vlib.Model{Ents: []vlib.Ent{{Pkg: vlib.Main, Path: "/", Dir: true}, {Pkg: vlib.Main, Path: "/k", Data: []byte("k")}}}
	parts := []string{"/p", "/pq"}
	full := &vlib.Model{Ents: append([]vlib.Ent{}, m.Ents...)}
	for _, d := range parts {
		full.Ents = append(full.Ents, vlib.Ent{Pkg: vlib.Main, Path: d, Dir: true}, vlib.Ent{Pkg: vlib.Main, Path: d + "/x", Data: []byte("x" + d)})
	}
	var p pkging.Pkger = vlib.Mem()
	full.Make(p)
	if vsym.Param("unpacked", 1) != 0 {
		b, err := p.(*mem.Pkger).MarshalJSON()
		vsym.Assert(err == nil, "marshal fails", err)
		q := &mem.Pkger{}
		vsym.Assert(q.UnmarshalJSON(b) == nil, "unmarshal fails")
		p = q
	}
	a, b := vsym.Choose("a", changes), vsym.Choose("b", changes)
	var x, y []vlib.Ent
	par(func() { x = change(p, parts[0], a) }, func() { y = change(p, parts[1], b) })
	m.Ents = append(append(m.Ents, x...), y...)
	vlib.CheckAll(p, m, "afterwards")
}

var _ = vsym.Register("VerifConcDisk", VerifConcDisk)

// VerifConcDisk: two use the disk backend at once.
func VerifConcDisk() {
	dir := vsym.Root()
	w := func(n, s string) {
		vsym.Assert(os.WriteFile(dir+n, []byte(s), 0644) == nil, "setup fails", n)
	}
	for _, d := range []string{"/app", "/app/a", "/dep"} {
		vsym.Assert(os.MkdirAll(dir+d, 0755) == nil, "setup fails")
	}
	w("/app/go.mod", "module "+vlib.Main+"\n\ngo 1.13\n\nrequire dep.io/dep v0.0.0\n\nreplace dep.io/dep => ../dep\n")
	w("/app/main.go", "package main\n\nfunc main() {}\n")
	w("/app/a/x", "/a/x")
	w("/dep/go.mod", "module dep.io/dep\n\ngo 1.13\n")
	w("/dep/dep.go", "package dep\n")
	w("/dep/y", "yy")
	vsym.Assert(os.Chdir(dir+"/app") == nil, "Chdir fails")
	p, err := stdos.New(vlib.Info(dir + "/app"))
	vsym.Assert(err == nil, "New fails", err)
	use := func(op int, name string) {
		switch op {
		case 0:
			vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/a/x", Data: []byte("/a/x")}, "read")
		case 1:
			vlib.CheckFile(p, vlib.Ent{Pkg: "dep.io/dep", Path: "/y", Data: []byte("yy")}, "read of a dependency")
		case 2:
			vsym.Assert(vlib.Write(p, name, []byte(name)) == nil, "write fails", name)
		case 3:
			n := 0
			err := p.Walk("/a", func(name string, fi os.FileInfo, err error) error {
				n++
				return err
			})
			vsym.Assert(err == nil && n == 2, "wrong walk", n, err)
		case 4:
			i, err := p.Info("dep.io/dep")
			vsym.Assert(err == nil && i.Dir == dir+"/dep", "wrong Info", err)
		case 5:
			vsym.Assert(p.MkdirAll("/c"+name, 0755) == nil, "MkdirAll fails")
		case 6:
			_, err := p.Info("no.such/module")
			vsym.Assert(err != nil, "Info finds what is not there")
		}
	}
	a, b := vsym.Choose("a", 7), vsym.Choose("b", 7)
	vsym.Assume(a <= b)
	par(func() { use(a, "/p") }, func() { use(b, "/q") })
	if a == 2 {
		vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/p", Data: []byte("/p")}, "afterwards")
	}
	if b == 2 {
		vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/q", Data: []byte("/q")}, "afterwards")
	}
	vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/a/x", Data: []byte("/a/x")}, "afterwards")
	vsym.Assert(os.Chdir("/") == nil, "Chdir fails")
}

var _ = vsym.Register("VerifConcLayers", VerifConcLayers)

// VerifConcLayers: two use one stack of layers at once.
func VerifConcLayers() {
	lower, upper := vlib.Mem(), vlib.Mem()
	vlib.Fixed("/low", "/both").Make(lower)
	mu := &vlib.Model{Ents: []vlib.Ent{{Pkg: vlib.Main, Path: "/", Dir: true}, {Pkg: vlib.Main, Path: "/both", Data: []byte("upper")}}}
	mu.Make(upper)
	p := pkging.Wrap(lower, upper)
	use := func(op int, name string) {
		switch op {
		case 0:
			vlib.CheckFile(p, mu.Ents[1], "read of the upper layer")
		case 1:
			vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/low", Data: []byte("/low")}, "read of the lower layer")
		case 2:
			vsym.Assert(vlib.Write(p, name, []byte(name)) == nil, "write fails", name)
			vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: name, Data: []byte(name)}, "written")
		case 3:
			n := 0
			err := p.Walk("/", func(name string, fi os.FileInfo, err error) error {
				switch name {
				case vlib.Qual(vlib.Main, "/low"), vlib.Qual(vlib.Main, "/both"), vlib.Qual(vlib.Main, "/"):
					n++
				}
				return err
			})
			vsym.Assert(err == nil && n == 5, "wrong walk", n, err)
		case 4:
			vsym.Assert(p.MkdirAll("/c"+name, 0755) == nil, "MkdirAll fails")
			fi, err := p.Stat("/c" + name)
			vsym.Assert(err == nil && fi.IsDir(), "directory is missing", err)
		case 5:
			vsym.Assert(p.RemoveAll(name) == nil, "RemoveAll fails")
		}
	}
	a, b := vsym.Choose("a", 6), vsym.Choose("b", 6)
	vsym.Assume(a <= b)
	par(func() { use(a, "/x") }, func() { use(b, "/y") })
	vlib.CheckFile(p, mu.Ents[1], "afterwards")
	vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/low", Data: []byte("/low")}, "afterwards")
	if a == 2 {
		vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/x", Data: []byte("/x")}, "afterwards")
	}
}
