// Package vpipe: the whole way from the sources of a program to its pack.
package vpipe

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	pp "github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
	"github.com/markbates/pkger/pkging/stdos"
)

const depPkg = "dep.io/dep"

func write(name, text string) {
	vsym.Assert(os.MkdirAll(path.Dir(name), 0755) == nil, "setup fails", name)
	vsym.Assert(os.WriteFile(name, []byte(text), 0644) == nil, "setup fails", name)
}

func content(name string, max int) string {
	n := vsym.Int(name+".len", 0, max)
	for k := 0; k < max; k++ {
		if n == k {
			return string(vsym.Bytes(name, k))
		}
	}
	return string(vsym.Bytes(name, max))
}

type app struct {
	dir, dep string
	exist    []vlib.Ent // what is on disk
	src      string
	incs     []string
	decl     []here.Path // what is to be packed
	bare     bool        // no Go files in the root
	nested   bool        // dep is in a folder of the program
}

// setup makes a program that uses some files of its own module and of another.
func setup() *app {
	a := &app{dir: vsym.Root() + "/app", dep: vsym.Root() + "/dep"}
	size := vsym.Param("size", 2)
	layout := vsym.Param("layout", 0)
	if layout == 1 {
		// a module that has its program in a folder, and is in one that may have
		// a name that is no name in Go
		a.bare = true
		a.dir = vsym.Root() + []string{"/app", "/my-app", "/1a", "/func", "/_"}[vsym.Choose("name", 5)]
	}
	rel := "../dep"
	if layout == 3 {
		// the other module is in a folder of this one
		a.dep, a.nested, rel = a.dir+"/n", true, "./n"
	}
	var add func(pkg, p, text string)
	add = func(pkg, p, text string) {
		d := a.dir
		if pkg == depPkg {
			d = a.dep
			if a.nested {
				add(vlib.Main, "/n"+p, text)
			}
		}
		write(d+p, text)
		a.exist = append(a.exist, vlib.Ent{Pkg: pkg, Path: p, Data: []byte(text)})
		for q := path.Dir(p); ; q = path.Dir(q) {
			known := false
			for _, e := range a.exist {
				known = known || e.Pkg == pkg && e.Path == q
			}
			if !known {
				a.exist = append(a.exist, vlib.Ent{Pkg: pkg, Path: q, Dir: true})
			}
			if q == "/" {
				break
			}
		}
	}
	add(vlib.Main, "/go.mod", "module "+vlib.Main+"\n\ngo 1.13\n\nrequire dep.io/dep v0.0.0\n\nreplace dep.io/dep => "+rel+"\n")
	add(depPkg, "/go.mod", "module dep.io/dep\n\ngo 1.13\n")
	add(depPkg, "/dep.go", "package dep\n")
	add(vlib.Main, "/d/f", content("f", size))
	deep, da := "/d/e/g", "/da"
	if odd := vlib.OddName(); odd != "" {
		vsym.Assume(odd != "pkged.go" && odd != "go.mod" && odd != "main")
		deep, da = "/d/e/"+odd, "/"+odd
	}
	args := []here.Path{{vlib.Main, "/d"}, {vlib.Main, "/d/f"}, {vlib.Main, da}, {vlib.Main, "/empty"}, {depPkg, "/d"}, {depPkg, "/d/f"}, {vlib.Main, "/"}}
	if layout == 2 {
		// paths in the module that look like locations
		add(vlib.Main, a.dir+"/f", "i")
		add(vlib.Main, a.dir+".x", "j")
		add(depPkg, a.dir+"/k", "k")
		add(depPkg, a.dep+"/l", "l")
		add(vlib.Main, a.dep+"/m", "m")
		args = []here.Path{{vlib.Main, a.dir}, {vlib.Main, a.dir + "/f"}, {vlib.Main, a.dir + ".x"}, {depPkg, a.dir}, {depPkg, a.dep}, {depPkg, a.dep + "/l"}, {vlib.Main, a.dep}, {vlib.Main, "/"}}
	}
	if layout == 3 {
		args = []here.Path{{vlib.Main, "/n"}, {vlib.Main, "/n/d"}, {vlib.Main, "/n/d/f"}, {depPkg, "/"}, {depPkg, "/d"}, {depPkg, "/d/f"}, {vlib.Main, "/d"}, {vlib.Main, "/"}}
	}
	if vsym.Param("many", 0) != 0 {
		for _, e := range vlib.Many().Ents {
			if !e.Dir {
				add(vlib.Main, e.Path, e.Path)
			}
		}
		args = []here.Path{{vlib.Main, "/d"}, {vlib.Main, "/"}}
	}
	if vsym.Param("big", 0) != 0 {
		long := vlib.Long(vlib.Sizes[vsym.Choose("size", vsym.Param("big", 0))])
		add(vlib.Main, "/d/long", string(long))
		add(vlib.Main, "/long", string(long))
		args = []here.Path{{vlib.Main, "/d"}, {vlib.Main, "/long"}}
	}
	add(vlib.Main, deep, "g")
	add(vlib.Main, da, content("h", vsym.Param("size2", 0)))
	add(depPkg, "/d/f", content("depf", vsym.Param("size2", 0)))
	vsym.Assert(os.MkdirAll(a.dir+"/empty", 0755) == nil, "setup fails")
	a.exist = append(a.exist, vlib.Ent{Pkg: vlib.Main, Path: "/empty", Dir: true})

	fns := []string{"Open", "Walk", "Dir", "Stat", "Include"}
	body := ""
	for i := 0; i < vsym.Param("calls", 1); i++ {
		pt := args[vsym.Choose("arg", len(args))]
		a.decl = append(a.decl, pt)
		s := pt.Name
		if pt.Pkg != vlib.Main || vlib.Within(a.dir, pt.Name) || vsym.Bool("qualified") {
			s = pt.String()
		} else if layout == 2 && vsym.Bool("location") {
			s = a.dir + pt.Name
		}
		fn := "Include"
		if vsym.Param("fns", len(fns)) > 0 {
			fn = fns[vsym.Choose("func", vsym.Param("fns", len(fns)))]
		}
		if fn == "Include" && vsym.Param("flag", 1) != 0 {
			a.incs = append(a.incs, s)
			continue
		}
		rest := ")\n"
		if fn == "Walk" {
			rest = ", nil)\n"
		}
		body += "\tpkger." + fn + "(" + strconv.Quote(s) + rest
	}
	main := "/main.go"
	if a.bare {
		main = "/cmd/x/main.go"
	}
	add(vlib.Main, main, "package main\n\nimport \"github.com/markbates/pkger\"\n\nfunc main() {\n"+body+"}\n")
	vsym.Assert(os.Chdir(a.dir) == nil, "Chdir fails")
	return a
}

// want are the entries that have to be in the pack.
func (a *app) want() []vlib.Ent {
	var r []vlib.Ent
	for _, e := range a.exist {
		for _, d := range a.decl {
			n := d.Name
			if a.nested && d.Pkg != e.Pkg {
				// a file of a module in the other has two paths
				if e.Pkg == depPkg {
					n = path.Join("/", strings.TrimPrefix(n, "/n"))
					if d.Name != "/" && !vlib.Within("/n", d.Name) {
						continue
					}
				} else {
					n = path.Join("/n", n)
				}
			} else if e.Pkg != d.Pkg {
				continue
			}
			if vlib.Within(n, e.Path) {
				r = append(r, e)
				break
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pkg+r[i].Path < r[j].Pkg+r[j].Path })
	return r
}

func (a *app) info() here.Info {
	i := vlib.Info(a.dir)
	if a.bare {
		i.ImportPath, i.Name = "", path.Base(a.dir)
	}
	return i
}

// unpack finds the pack in the generated source, which has to be valid.
func unpack(file, pkg string) (*mem.Pkger, string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, "no file: " + err.Error()
	}
	f, err := parser.ParseFile(token.NewFileSet(), file, string(b), 0)
	if err != nil {
		return nil, "not Go: " + err.Error()
	}
	if !token.IsIdentifier(f.Name.Name) || f.Name.Name == "_" {
		return nil, "not Go: package " + f.Name.Name
	}
	if f.Name.Name != pkg && pkg != "" {
		return nil, "wrong package: " + f.Name.Name
	}
	var packs []*mem.Pkger
	why := "no pack in it"
	ast.Inspect(f, func(n ast.Node) bool {
		l, ok := n.(*ast.BasicLit)
		if !ok || l.Kind != token.STRING || len(l.Value) < 40 {
			return true
		}
		s, err := strconv.Unquote(l.Value)
		if err != nil {
			why = "bad literal"
			return true
		}
		if strings.HasPrefix(s, "github.com/") {
			return true
		}
		p, err := mem.UnmarshalEmbed([]byte(s))
		if err != nil {
			why = "does not unpack: " + err.Error()
			return true
		}
		packs = append(packs, p)
		return true
	})
	if len(packs) != 1 {
		return nil, why
	}
	return packs[0], ""
}

// infoEq compares infos. The generated file is made in "sub", "x" or the root
// after their infos were packed.
func infoEq(x, y os.FileInfo) bool {
	if x.IsDir() && (x.Name() == "sub" || x.Name() == "x") {
		return y.IsDir() && y.Name() == x.Name() && x.Mode() == y.Mode()
	}
	return x.Name() == y.Name() && x.Size() == y.Size() && x.Mode() == y.Mode() && x.IsDir() == y.IsDir() && x.ModTime().Equal(y.ModTime())
}

// same: the pack has exactly the wanted entries, as they are on disk.
func same(a *app, p, disk pkging.Pkger, want []vlib.Ent) {
	for _, e := range want {
		q := e.Pkg + ":" + e.Path
		x, err := disk.Stat(q)
		vsym.Assert(err == nil, "Stat on disk fails", q, err)
		y, err := p.Stat(q)
		vsym.Assert(err == nil, "declared file is not in the pack", q, err, a.src)
		if e.Path != "/" {
			vsym.Assert(infoEq(x, y), "info in the pack differs from the one on disk", q, x.Name(), y.Name(), x.Size(), y.Size(), x.Mode(), y.Mode())
		}
		f, err := p.Open(q)
		vsym.Assert(err == nil, "Open fails", q, err)
		g, err := disk.Open(q)
		vsym.Assert(err == nil, "Open on disk fails", q, err)
		vsym.Assert(f.Path() == g.Path() && f.Name() == g.Name(), "path in the pack differs", q, f.Name(), g.Name())
		vsym.Assert(f.Info().Module.Path == g.Info().Module.Path && f.Info().Module.Dir == g.Info().Module.Dir, "module in the pack differs", q, f.Info().Module.Path, g.Info().Module.Path)
		if e.Dir {
			fis, err := f.Readdir(-1)
			vsym.Assert(err == nil, "Readdir fails", q, err)
			gis, err := g.Readdir(-1)
			vsym.Assert(err == nil, "Readdir on disk fails", q, err)
			var l []os.FileInfo
			for _, gi := range gis {
				if gi.Name() != "pkged.go" {
					l = append(l, gi)
				}
			}
			sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
			vsym.Assert(len(fis) == len(l), "entries in the pack differ", q, len(fis), len(l))
			for i := range l {
				vsym.Assert(infoEq(fis[i], l[i]), "entry in the pack differs", q, fis[i].Name(), l[i].Name())
			}
		} else {
			b, err := vlib.ReadAll(f, 16+len(e.Data)/4, 40)
			vsym.Assert(err == nil && vsym.EqB(b, e.Data), "content in the pack differs", q, b, e.Data, err)
		}
		f.Close()
		g.Close()
	}
	// and nothing else
	n := map[string]int{}
	for _, pkg := range []string{vlib.Main, depPkg} {
		roots := 0
		for _, e := range a.exist {
			if e.Pkg != pkg {
				continue
			}
			in := false
			for _, w := range want {
				in = in || w.Pkg == e.Pkg && w.Path == e.Path
			}
			if _, err := p.Stat(pkg + ":" + e.Path); err == nil {
				roots++
				vsym.Assert(in || e.Path == "/", "file in the pack that was not asked for", pkg, e.Path)
			}
		}
		if roots > 0 {
			p.Walk(pkg+":/", func(name string, fi os.FileInfo, err error) error {
				vsym.Assert(err == nil, "walk of the pack fails", name, err)
				if name != pkg+":/" {
					n[pkg]++
				}
				return nil
			})
		}
		m := 0
		for _, w := range want {
			if w.Pkg == pkg && w.Path != "/" {
				m++
			}
		}
		_, err := p.Stat(pkg + ":/")
		vsym.Assert(err != nil || n[pkg] == m, "walk of the pack differs", pkg, n[pkg], m)
	}
	for _, n := range []string{vlib.Main + ":/nothing", vlib.Main + ":/d/nothing", depPkg + ":/nothing"} {
		_, err := disk.Stat(n)
		vsym.Assert(os.IsNotExist(err), "wrong error on disk", n, err)
		_, err = p.Stat(n)
		vsym.Assert(os.IsNotExist(err), "wrong error of the pack for what is not there", n, err)
		_, err = p.Open(n)
		vsym.Assert(os.IsNotExist(err), "wrong error of the pack for what is not there", n, err)
	}
}

var _ = vsym.Register("VerifPipeline", VerifPipeline)

// VerifPipeline: packing a program gives a Go file of its package with a pack
// of exactly the declared files, as they are on disk.
func VerifPipeline() {
	a := setup()
	disk, err := stdos.New(a.info())
	vsym.Assert(err == nil, "New fails", err)
	out, pkg := a.dir+"/pkged.go", "main"
	args := []string{}
	if a.bare {
		pkg = ""
	}
	if vsym.Param("cmd", 0) != 0 {
		if a.bare && vsym.Bool("beside") {
			// beside the program
			out, pkg = a.dir+"/cmd/x/pkged.go", "main"
			args = append(args, "-o", "cmd/x")
		} else if vsym.Bool("o") {
			write(a.dir+"/sub/x.go", "package other\n")
			a.exist = append(a.exist, vlib.Ent{Pkg: vlib.Main, Path: "/sub", Dir: true}, vlib.Ent{Pkg: vlib.Main, Path: "/sub/x.go", Data: []byte("package other\n")})
			out, pkg = a.dir+"/sub/pkged.go", "other"
			args = append(args, "-o", "sub")
		}
		if vsym.Bool("again") {
			// the file of an earlier run
			old := pkg
			if old == "" {
				old = "main"
			}
			write(out, "package "+old+"\n\nbroken(\n")
		}
		for _, i := range a.incs {
			args = append(args, "-include", i)
		}
		vsym.Assert(pkger.Apply(disk, nil) == nil, "Apply fails")
		c, err := cmds.New()
		vsym.Assert(err == nil, "New fails", err)
		err = c.Route(args)
		vsym.Assert(err == nil, "packing fails", err)
	} else {
		decls, err := pp.Parse(a.info(), a.incs...)
		vsym.Assert(err == nil, "Parse fails", err)
		err = cmds.Package(a.info(), out, decls)
		vsym.Assert(err == nil, "Package fails", err)
	}
	p, why := unpack(out, pkg)
	vsym.Assert(p != nil, "the generated file is not right", why)
	c, err := p.Current()
	vsym.Assert(err == nil && c.Dir == a.dir && c.Module.Path == vlib.Main && (c.ImportPath == vlib.Main || a.bare && c.ImportPath == ""), "the pack is another module's", c.Dir, c.ImportPath, err)
	same(a, p, disk, a.want())
	vsym.Assert(os.Chdir("/") == nil, "Chdir fails")
	if vsym.Param("layout", 0) != 2 {
		vsym.ObserveI("packed", len(a.want()))
	}
}

// failing is a writer that takes some bytes only.
type failing struct{ left int }

func (w *failing) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("full")
	}
	w.left -= len(b)
	return len(b), nil
}

var _ = vsym.Register("VerifPackFaults", VerifPackFaults)

// VerifPackFaults: packing that cannot be completed fails, and no incomplete
// file stays behind.
func VerifPackFaults() {
	a := setup()
	disk, err := stdos.New(a.info())
	vsym.Assert(err == nil, "New fails", err)
	out := a.dir + "/pkged.go"
	old := vsym.Bool("old")
	if old {
		write(out, "package main\n")
	}
	decls, err := pp.Parse(a.info(), a.incs...)
	vsym.Assert(err == nil, "Parse fails", err)
	open := vsym.OpenFiles()
	must := false
	names := func() string {
		fis, err := os.ReadDir(a.dir)
		vsym.Assert(err == nil, "ReadDir fails", err)
		s := ""
		for _, fi := range fis {
			if fi.Name() != "pkged.go" {
				s += fi.Name() + " "
			}
		}
		return s
	}
	touched := func(p string) bool {
		for _, d := range a.decl {
			if d.Pkg == vlib.Main && vlib.Within(d.Name, p) {
				return true
			}
		}
		return false
	}
	fault := vsym.Choose("fault", 8)
	switch fault {
	case 0:
		// the disk is full at some point: early, or just before the end
		if vsym.Bool("late") {
			full := a.dir + "/full.go"
			vsym.Assert(cmds.Package(a.info(), full, decls) == nil, "Package fails")
			fi, err := os.Stat(full)
			vsym.Assert(err == nil && os.Remove(full) == nil, "Package wrote nothing", err)
			vsym.LimitFileSize(int(fi.Size()) - vsym.ConcreteInt(vsym.Int("limit", 1, 6)))
		} else {
			must = true
			vsym.LimitFileSize(vsym.ConcreteInt(vsym.Int("limit", 0, vsym.Param("maxlimit", 6))) * 50)
		}
	case 1:
		vsym.Assert(os.Chmod(a.dir+"/d/f", 0) == nil, "setup fails")
		must = touched("/d/f")
	case 2:
		vsym.Assert(os.Chmod(a.dir+"/d/e", 0) == nil, "setup fails")
		defer os.Chmod(a.dir+"/d/e", 0755)
		must = touched("/d/e")
	case 3:
		vsym.Assert(os.Remove(a.dir+"/d/f") == nil, "setup fails")
		must = false
		for _, d := range a.decl {
			if d.Pkg == vlib.Main && d.Name == "/d/f" {
				must = true
			}
		}
		vsym.Assume(must)
	case 4:
		vsym.Assert(os.Remove(a.dir+"/da") == nil && os.Symlink("nowhere", a.dir+"/da") == nil, "setup fails")
		must = touched("/da")
	case 5:
		vsym.Assume(!old)
		vsym.Assert(os.Chmod(a.dir, 0555) == nil, "setup fails")
		defer os.Chmod(a.dir, 0755)
		must = true
	case 6:
		// the place of the file is taken by a directory that cannot be removed
		vsym.Assume(!old)
		write(out+"/x/y", "y")
		vsym.Assert(os.Chmod(out+"/x", 0555) == nil, "setup fails")
		defer os.Chmod(out+"/x", 0755)
		must = true
	case 7:
		// the writer fails
		vsym.Assume(!old)
		w := &failing{left: vsym.Int("after", 0, 4)}
		err = pkgutil.Stuff(w, a.info(), decls)
		vsym.Assert(err != nil, "Stuff succeeds though nothing could be written")
		vsym.Assert(vsym.OpenFiles() == open, "a file is still open")
		return
	}
	before := names()
	err = cmds.Package(a.info(), out, decls)
	vsym.LimitFileSize(-1)
	vsym.Assert(names() == before, "packing leaves other files behind", before, names())
	vsym.Assert(vsym.OpenFiles() == open, "a file is still open")
	if must {
		vsym.Assert(err != nil, "packing succeeds without a file it cannot read or write", fault)
	}
	if err != nil {
		vsym.Cover("failed")
		fi, serr := os.Stat(out)
		vsym.Assert(serr != nil || fi.IsDir(), "an incomplete file stays behind", err)
	} else {
		vsym.Cover("packed")
		p, why := unpack(out, "main")
		vsym.Assert(p != nil, "packing succeeds with a broken file", why)
		same(a, p, disk, a.want())
	}
	vsym.Assert(os.Chdir("/") == nil, "Chdir fails")
	vsym.ObserveB("failed", err != nil)
}
