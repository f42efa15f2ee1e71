// Package vadd: copying files from disk into a pack.
package vadd

import (
	"os"
	"path"
	"path/filepath"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging/mem"
)

const (
	dep  = "dep.io/dep"
	nest = "nest.io/nest" // in the folder n of the program
)

type ent struct {
	vlib.Ent
	abs string
}

// disk is what there is: a program and a module it depends on.
type disk struct {
	dir, dep string
	ents     []ent
}

func (d *disk) loc(pkg string) string {
	switch pkg {
	case dep:
		return d.dep
	case nest:
		return d.dir + "/n"
	}
	return d.dir
}

func (d *disk) mkdir(pkg, p string) {
	abs := path.Join(d.loc(pkg), p)
	vsym.Assert(os.MkdirAll(abs, 0755) == nil, "setup fails", abs)
	d.ents = append(d.ents, ent{vlib.Ent{Pkg: pkg, Path: p, Dir: true}, abs})
}

func (d *disk) write(pkg, p string, data []byte) {
	abs := path.Join(d.loc(pkg), p)
	vsym.Assert(os.WriteFile(abs, data, 0644) == nil, "setup fails", abs)
	d.ents = append(d.ents, ent{vlib.Ent{Pkg: pkg, Path: p, Data: data}, abs})
}

func name(what string) string {
	if vsym.Param("odd", 0) != 0 {
		return vlib.OddName()
	}
	n := vsym.Param("max", 1)
	if n == 0 {
		return what
	}
	return vlib.Elem(what, vlib.Wide, n)
}

func (d *disk) has(pkg, p string) bool {
	for _, e := range d.ents {
		if e.Pkg == pkg && e.Path == p {
			return true
		}
	}
	return false
}

var _ = vsym.Register("VerifAdd", VerifAdd)

// VerifAdd: adding files and directories to a pack copies them, with all below
// the directories, and changes nothing else in it.
func VerifAdd() {
	d := &disk{dir: vsym.Root() + "/app", dep: vsym.Root() + "/dep"}
	d.mkdir(vlib.Main, "/")
	d.mkdir(dep, "/")
	d.write(vlib.Main, "/go.mod", []byte("module "+vlib.Main+"\n\ngo 1.13\n\nrequire dep.io/dep v0.0.0\n\nreplace dep.io/dep => ../dep\n"))
	d.write(dep, "/go.mod", []byte("module dep.io/dep\n\ngo 1.13\n"))
	if vsym.Bool("gofiles") {
		d.write(vlib.Main, "/main.go", []byte("package main\n\nfunc main() {}\n"))
		d.write(dep, "/dep.go", []byte("package dep\n"))
	}
	d.mkdir(vlib.Main, "/d")
	d.mkdir(vlib.Main, "/d/e")
	x := name("x")
	vsym.Assume(x != "e" && x != "go.mod")
	data := vlib.Text(x, "")
	if len(data) == 0 {
		data = vsym.Bytes("data", vsym.Choose("len", 2))
	}
	d.write(vlib.Main, "/d/"+x, data)
	d.write(vlib.Main, "/d/e/"+x, vlib.Text(x, "e"))
	d.write(vlib.Main, "/dz", []byte("z"))
	d.mkdir(dep, "/d")
	d.write(dep, "/d/"+x, vlib.Text(x, "dep"))
	vsym.Assert(os.Chdir(d.dir) == nil, "Chdir fails")
	defer os.Chdir("/")

	p, err := mem.New(vlib.Info(d.dir))
	vsym.Assert(err == nil, "New fails", err)
	want := &vlib.Model{}
	put := func(e vlib.Ent) {
		if o := vlib.Has(want, e.Pkg, e.Path); o != nil {
			*o = e
			return
		}
		want.Ents = append(want.Ents, e)
	}
	if vsym.Bool("before") {
		// what is in the pack already stays, or is replaced
		vsym.Assert(p.MkdirAll("/d", 0700) == nil && vlib.Write(p, "/d/k", []byte("keep")) == nil && vlib.Write(p, "/dz", []byte("old one")) == nil, "setup fails")
		vsym.Assume(x != "k")
		put(vlib.Ent{Pkg: vlib.Main, Path: "/", Dir: true})
		put(vlib.Ent{Pkg: vlib.Main, Path: "/d", Dir: true})
		put(vlib.Ent{Pkg: vlib.Main, Path: "/d/k", Data: []byte("keep")})
		put(vlib.Ent{Pkg: vlib.Main, Path: "/dz", Data: []byte("old one")})
	}
	args := []here.Path{{vlib.Main, "/d"}, {vlib.Main, "/d/" + x}, {vlib.Main, "/dz"}, {dep, "/d"}, {dep, "/d/" + x}, {vlib.Main, "/"}, {vlib.Main, "/d/e/" + x}}
	if vsym.Param("like", 0) != 0 {
		// paths in a module that look like locations
		tree := func(pkg, p string) {
			for i := 1; i < len(p); i++ {
				if p[i] == '/' && !d.has(pkg, p[:i]) {
					d.mkdir(pkg, p[:i])
				}
			}
			d.write(pkg, p, []byte(p))
		}
		tree(vlib.Main, d.dir+"/f")
		tree(vlib.Main, d.dir+".x")
		tree(vlib.Main, d.dep+"/m")
		tree(dep, d.dep+"/l")
		tree(dep, d.dir+"/k")
		args = []here.Path{{vlib.Main, d.dir}, {vlib.Main, d.dir + "/f"}, {vlib.Main, d.dir + ".x"}, {vlib.Main, d.dep}, {dep, d.dep}, {dep, d.dep + "/l"}, {dep, d.dir + "/k"}, {vlib.Main, "/"}}
	}
	if vsym.Param("many", 0) != 0 {
		for _, e := range vlib.Many().Ents {
			if d.has(vlib.Main, e.Path) {
				continue
			}
			if e.Dir {
				d.mkdir(vlib.Main, e.Path)
			} else {
				d.write(vlib.Main, e.Path, e.Data)
			}
		}
		last := d.ents[len(d.ents)-4]
		args = []here.Path{{vlib.Main, "/d"}, {vlib.Main, "/"}, {vlib.Main, last.Path}}
	}
	if vsym.Param("big", 0) != 0 {
		long := vlib.Long(vlib.Sizes[vsym.Choose("size", vsym.Param("big", 0))])
		d.write(vlib.Main, "/d/long", long)
		d.write(vlib.Main, "/long", long)
		args = []here.Path{{vlib.Main, "/d"}, {vlib.Main, "/d/long"}, {vlib.Main, "/long"}}
	}
	if vsym.Param("nested", 0) != 0 {
		vsym.Assume(x != "n")
		d.mkdir(nest, "/")
		d.write(nest, "/go.mod", []byte("module "+nest+"\n\ngo 1.13\n"))
		if vsym.Bool("nestgo") {
			d.write(nest, "/nest.go", []byte("package nest\n"))
		}
		d.mkdir(nest, "/d")
		d.write(nest, "/d/"+x, []byte("nest"))
		d.write(vlib.Main, "/nz", []byte("nz"))
		args = []here.Path{{nest, "/"}, {nest, "/d"}, {nest, "/d/" + x}, {vlib.Main, "/"}, {vlib.Main, "/d"}, {vlib.Main, "/nz"}}
	}
	link := ""
	if vsym.Param("link", 0) != 0 {
		// a link to a file is added as a copy of it, no other link can be
		vsym.Assume(x != "l")
		l := d.dir + "/d/l"
		link = []string{"", d.dir, d.dir + "/d/e", d.dep + "/d/none"}[vsym.Choose("link", 4)]
		if link == "" {
			to := []string{d.dir + "/dz", d.dir + "/d/" + x, d.dir + "/d/e/" + x, d.dep + "/d/" + x, "e/" + x, "../dz"}[vsym.Choose("to", 6)]
			vsym.Assert(os.Symlink(to, l) == nil, "setup fails")
			bb, err := os.ReadFile(l)
			vsym.Assert(err == nil, "setup fails", err)
			d.ents = append(d.ents, ent{vlib.Ent{Pkg: vlib.Main, Path: "/d/l", Data: bb}, l})
			args = append(args, here.Path{vlib.Main, "/d/l"})
		} else {
			vsym.Assert(os.Symlink(link, l) == nil, "setup fails")
		}
	}
	deny := false
	if vsym.Param("deny", 0) != 0 {
		vsym.Assert(os.Chmod(d.dir+"/d/e", 0) == nil, "setup fails")
		deny = true
	}
	open := vsym.OpenFiles()
	var files []*os.File
	fails := false
	added := map[string]bool{}
	n := vsym.Int("files", 1, vsym.Param("files", 2))
	for i := 0; i < vsym.Param("files", 2) && i < n; i++ {
		a := args[vsym.Choose("arg", len(args))]
		abs := path.Join(d.loc(a.Pkg), a.Name)
		arg := abs
		if vsym.Param("rel", 0) != 0 {
			arg, err = filepath.Rel(d.dir, abs)
			vsym.Assert(err == nil, "Rel fails", err)
		}
		f, err := os.Open(arg)
		if deny && a.Name == "/d/e/"+x {
			vsym.Assume(err == nil)
		}
		vsym.Assert(err == nil, "setup fails", err)
		files = append(files, f)
		for _, e := range d.ents {
			if e.Pkg == nest && vlib.Within(abs, e.abs) {
				// has a path in the module around it, too
				o := e.Ent
				o.Pkg, o.Path = vlib.Main, path.Join("/n", e.Path)
				put(o)
			}
			if e.Pkg == a.Pkg && vlib.Within(a.Name, e.Path) {
				if link != "" && e.Pkg == vlib.Main && e.Path == "/d" {
					fails = true
				}
				if e.Path == "/d/e" && deny {
					fails = true
				}
				put(e.Ent)
				added[e.abs] = true
			}
		}
	}
	add := func() error {
		var err error
		if vsym.Bool("together") {
			err = p.Add(files...)
		} else {
			for _, f := range files {
				if err == nil {
					err = p.Add(f)
				}
			}
		}
		for _, f := range files {
			vsym.Assert(f.Close() == nil, "a file of the caller is closed")
		}
		vsym.Assert(vsym.OpenFiles() == open, "a file is still open")
		return err
	}
	if vsym.Param("gone", 0) != 0 {
		k := 0
		if len(files) > 1 {
			k = vsym.Choose("which", len(files))
		}
		if vsym.Bool("closed") {
			vsym.Assert(files[k].Close() == nil, "setup fails")
			vsym.Assert(p.Add(files...) != nil, "Add succeeds though a file was closed")
		} else {
			// its place is gone
			abs := files[k].Name()
			vsym.Assume(path.Dir(abs) == d.dir+"/d/e" || path.Dir(abs) == d.dep+"/d")
			vsym.Assert(os.RemoveAll(path.Dir(abs)) == nil, "setup fails")
			vsym.Assume(len(files) == 1)
			if err := p.Add(files...); err == nil {
				a := here.Path{vlib.Main, abs[len(d.dir):]}
				if path.Dir(abs) == d.dep+"/d" {
					a = here.Path{dep, abs[len(d.dep):]}
				}
				f, err := p.Open(a.String())
				vsym.Assert(err == nil, "Open fails", err)
				vsym.Assert(f.Info().Module.Path == a.Pkg && f.Info().Module.Dir == d.loc(a.Pkg), "wrong module", a.String(), f.Info().Module.Path)
			}
		}
		for _, f := range files {
			f.Close()
		}
		vsym.Assert(vsym.OpenFiles() == open, "a file is still open")
		return
	}
	err = add()
	if vsym.Param("again", 0) != 0 {
		// added again after a change that does not show in the infos
		vsym.Assert(err == nil, "Add fails", err)
		for i, e := range d.ents {
			if e.Dir || len(e.Data) == 0 || path.Ext(e.Path) == ".go" || path.Ext(e.Path) == ".mod" {
				continue
			}
			fi, err := os.Stat(e.abs)
			vsym.Assert(err == nil, "setup fails", err)
			now := vsym.Bytes("new", len(e.Data))
			vsym.Assert(os.WriteFile(e.abs, now, 0644) == nil, "setup fails")
			vsym.Assert(os.Chtimes(e.abs, fi.ModTime(), fi.ModTime()) == nil, "setup fails")
			d.ents[i].Data = now
			if added[e.abs] {
				put(d.ents[i].Ent)
			}
		}
		for i, f := range files {
			files[i], err = os.Open(f.Name())
			vsym.Assert(err == nil, "setup fails", err)
		}
		err = add()
	}
	if deny {
		os.Chmod(d.dir+"/d/e", 0755)
	}
	if fails {
		vsym.Assert(err != nil, "Add succeeds though it could not read everything")
		return
	}
	vsym.Assert(err == nil, "Add fails", err)
	vlib.CheckAll(p, want, "after Add")
	for _, pkg := range []string{dep, nest} {
		n := 0
		for _, e := range want.Ents {
			if e.Pkg == pkg {
				n++
			}
		}
		if n > 0 {
			err := p.Walk(pkg+":/", func(string, os.FileInfo, error) error { n--; return nil })
			vsym.Assert(err == nil && n == 0, "files of the other module differ", pkg, n, err)
		}
	}
	for _, e := range d.ents {
		if !added[e.abs] {
			continue
		}
		o, err := os.Stat(e.abs)
		vsym.Assert(err == nil, "Stat fails", err)
		q := vlib.Qual(e.Pkg, e.Path)
		fi, err := p.Stat(q)
		vsym.Assert(err == nil, "Stat fails", q, err)
		vsym.Assert(fi.Name() == o.Name() && fi.Size() == o.Size() && fi.Mode() == o.Mode() && fi.ModTime().Equal(o.ModTime()), "info differs from the one on disk", q, fi.Name(), uint32(fi.Mode()))
		f, err := p.Open(q)
		vsym.Assert(err == nil, "Open fails", q, err)
		vsym.Assert(f.Info().Module.Path == e.Pkg && f.Info().Module.Dir == d.loc(e.Pkg), "wrong module", q, f.Info().Module.Path, f.Info().Module.Dir)
	}
	if vsym.Param("like", 0) == 0 {
		vsym.ObserveI("entries", len(want.Ents))
	}
}
