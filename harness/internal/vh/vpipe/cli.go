package vpipe

import (
	"encoding/json"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	pp "github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
)

// run runs the command line with its output going to a file, which it returns.
func run(args ...string) (string, error) {
	name := vsym.Root() + "/stdout"
	out, err := os.Create(name)
	vsym.Assert(err == nil, "setup fails", err)
	old := os.Stdout
	os.Stdout = out
	c, err := cmds.New()
	vsym.Assert(err == nil, "New fails", err)
	err = c.Route(args)
	os.Stdout = old
	vsym.Assert(out.Close() == nil, "the output is closed")
	b, rerr := os.ReadFile(name)
	vsym.Assert(rerr == nil, "the output is gone", rerr)
	return string(b), err
}

// objects are the JSON values of s, one after the other.
func objects(s string) []string {
	var r []string
	d := json.NewDecoder(strings.NewReader(s))
	for d.More() {
		var m json.RawMessage
		err := d.Decode(&m)
		vsym.Assert(err == nil, "the output is not JSON", s, err)
		r = append(r, string(m))
	}
	return r
}

// tree is everything on disk below dir.
func tree(dir string) string {
	s := ""
	fis, err := os.ReadDir(dir)
	vsym.Assert(err == nil, "ReadDir fails", err)
	for _, fi := range fis {
		n := path.Join(dir, fi.Name())
		s += n + ";"
		if fi.IsDir() {
			s += tree(n)
			continue
		}
		b, err := os.ReadFile(n)
		vsym.Assert(err == nil, "ReadFile fails", err)
		s += string(b) + ";"
	}
	return s
}

func sameMod(x, y here.Info) bool {
	return x.Dir == y.Dir && x.ImportPath == y.ImportPath && x.Name == y.Name && x.Module == y.Module
}

var _ = vsym.Register("VerifList", VerifList)

// VerifList: list prints the files that are packed.
func VerifList() {
	a := setup()
	if vsym.Bool("missing") {
		a.incs = append(a.incs, "/nothing")
	}
	disk, err := stdos.New(a.info())
	vsym.Assert(err == nil, "New fails", err)
	vsym.Assert(pkger.Apply(disk, nil) == nil, "Apply fails")
	missing := len(a.incs) > 0 && a.incs[len(a.incs)-1] == "/nothing"
	asJSON := vsym.Bool("json")
	args := []string{"list"}
	if asJSON {
		args = append(args, "-json")
	}
	for _, i := range a.incs {
		args = append(args, "-include", i)
	}
	before := tree(a.dir) + tree(a.dep)
	out, err := run(args...)
	vsym.Assert(tree(a.dir)+tree(a.dep) == before, "listing changes something")
	if missing {
		vsym.Assert(err != nil, "listing succeeds without a file that does not exist", out)
		vsym.Assert(out == "", "output in spite of an error", out)
		vsym.Assert(os.Chdir("/") == nil, "Chdir fails")
		vsym.Cover("missing")
		return
	}
	vsym.Assert(err == nil, "list fails", err)
	want := a.want()
	sort.Slice(want, func(i, j int) bool {
		return vlib.Qual(want[i].Pkg, want[i].Path) < vlib.Qual(want[j].Pkg, want[j].Path)
	})
	if asJSON {
		var j struct {
			ImportPath string
			Files      []*pp.File
		}
		vsym.Assert(json.Unmarshal([]byte(out), &j) == nil, "the output is not JSON", out)
		vsym.Assert(j.ImportPath == a.info().ImportPath, "wrong package", j.ImportPath)
		vsym.Assert(len(j.Files) == len(want), "wrong number of files", len(j.Files), len(want), out)
		for i, f := range j.Files {
			e := want[i]
			dir := a.dir
			if e.Pkg == depPkg {
				dir = a.dep
			}
			vsym.Assert(f.Path == (here.Path{Pkg: e.Pkg, Name: e.Path}), "wrong file", f.Path.String(), e.Path)
			vsym.Assert(f.Abs == path.Join(dir, e.Path), "wrong location", f.Abs)
			vsym.Assert(f.Here.Module.Path == e.Pkg && f.Here.Module.Dir == dir, "wrong module", f.Here.Module.Path)
		}
	} else {
		exp := a.info().ImportPath + "\n"
		for _, e := range want {
			exp += " > " + vlib.Qual(e.Pkg, e.Path) + "\n"
		}
		vsym.Assert(out == exp, "wrong list", out, exp)
	}
	vsym.Assert(os.Chdir("/") == nil, "Chdir fails")
	if vsym.Param("layout", 0) != 2 {
		vsym.ObserveI("files", len(want))
	}
}

var _ = vsym.Register("VerifReports", VerifReports)

// VerifReports: path, info, stat and parse report what the library says, of the
// disk or of a pack.
func VerifReports() {
	a := setup()
	disk, err := stdos.New(a.info())
	vsym.Assert(err == nil, "New fails", err)
	var p pkging.Pkger = disk
	if vsym.Param("packed", 0) != 0 {
		m, err := mem.New(a.info())
		vsym.Assert(err == nil, "New fails", err)
		f, err := os.Open(a.dir)
		vsym.Assert(err == nil && m.Add(f) == nil && f.Close() == nil, "setup fails")
		p = m
	}
	vsym.Assert(pkger.Apply(p, nil) == nil, "Apply fails")
	before := tree(a.dir) + tree(a.dep)
	open := vsym.OpenFiles()
	switch vsym.Choose("cmd", 6) {
	case 5: // help
		k := vsym.Choose("of", 7)
		cmd := []string{"", "list", "path", "info", "stat", "parse", "serve"}[k]
		args := []string{"-h"}
		if k > 0 {
			args = [][]string{{cmd, "-h"}, {cmd, "/d", "-h"}, {cmd, "-h", "/d"}}[vsym.Choose("where", 3)]
		}
		name := vsym.Root() + "/stderr"
		f, err := os.Create(name)
		vsym.Assert(err == nil, "setup fails", err)
		old := os.Stderr
		os.Stderr = f
		out, err := run(args...)
		os.Stderr = old
		vsym.Assert(f.Close() == nil, "the output is closed")
		vsym.Assert(err == nil, "help fails", cmd, err)
		b, err := os.ReadFile(name)
		vsym.Assert(err == nil, "the output is gone", err)
		text := out + string(b)
		has := []string{"-o\t", "-json\t", "", "", "", "", "-exclude\t"}[k]
		if k > 0 {
			has = "pkger " + cmd + " [flags] [args...]\n|" + has
		} else {
			has += "|-include\t|pkger list [|pkger path [|pkger info [|pkger stat [|pkger parse [|pkger serve ["
		}
		for _, h := range strings.Split(has, "|") {
			vsym.Assert(strings.Contains(text, h), "help does not tell of everything", cmd, h, text)
		}
		vsym.Cover("help")
	case 0: // path
		var args []string
		want := map[string]here.Path{}
		n := vsym.Int("args", 0, 2)
		for i := 0; i < 2 && i < n; i++ {
			s := "/" + vlib.Str("raw", "/.a\\", 0, vsym.Param("n", 2))
			args = append(args, s)
			want[s] = vlib.Canon(vlib.Main, s)
		}
		out, err := run(append([]string{"path"}, args...)...)
		if n == 0 {
			vsym.Assert(err != nil && out == "", "path of nothing", out)
			break
		}
		vsym.Assert(err == nil, "path fails", err)
		got := map[string]here.Path{}
		vsym.Assert(json.Unmarshal([]byte(out), &got) == nil, "the output is not JSON", out)
		vsym.Assert(len(got) == len(want), "wrong number of paths", len(got), len(want))
		for s, w := range want {
			vsym.Assert(got[s] == w, "wrong path", s, got[s], w)
		}
		vsym.Cover("path")
	case 1: // info
		args := []string{"info"}
		var want []here.Info
		fails := false
		n := vsym.Int("args", 0, 2)
		if n == 0 {
			// the one of the working directory
			w, err := p.Info(vlib.Main)
			vsym.Assert(err == nil && w.Module.Path == vlib.Main && w.Dir == a.dir, "wrong module", w.Module.Path, w.Dir, err)
			if vsym.Bool("dot") {
				args = append(args, ".")
			}
			if vsym.Bool("below") {
				vsym.Assert(os.Chdir(a.dir+"/d") == nil, "Chdir fails")
				w, err = here.Dir(a.dir + "/d")
				vsym.Assert(err == nil && w.Module.Path == vlib.Main && w.Dir == a.dir+"/d", "wrong folder", w.Module.Path, w.Dir, err)
			}
			want = append(want, w)
		}
		for i := 0; i < 2 && i < n; i++ {
			s := []string{vlib.Main, depPkg, "no.such/module"}[vsym.Choose("module", 3)]
			w, err := p.Info(s)
			args = append(args, s)
			if err != nil {
				fails = true
				break
			}
			vsym.Assert(w.Module.Path == s, "wrong module", w.Module.Path)
			want = append(want, w)
		}
		out, err := run(args...)
		vsym.Assert((err != nil) == fails, "info and Info differ", err)
		got := objects(out)
		vsym.Assert(len(got) == len(want), "wrong number of modules", len(got), len(want))
		for i, w := range want {
			var g here.Info
			vsym.Assert(json.Unmarshal([]byte(got[i]), &g) == nil, "the output is not JSON", out)
			if n == 0 {
				vsym.Assert(g.Dir == w.Dir && g.ImportPath == w.ImportPath && g.Module.Path == w.Module.Path && g.Module.Dir == w.Module.Dir, "wrong module", g.Dir, g.ImportPath)
				continue
			}
			vsym.Assert(sameMod(g, w), "wrong module", g.Dir, w.Dir)
		}
		vsym.Cover("info")
	case 2: // stat
		args := []string{"stat"}
		var want []os.FileInfo
		fails := false
		n := vsym.Int("args", 1, 2)
		for i := 0; i < 2 && i < n; i++ {
			s := []string{"/d/f", "/d", "/empty", "/nothing", depPkg + ":/d", "/"}[vsym.Choose("file", 6)]
			args = append(args, s)
			fi, err := p.Stat(s)
			if err != nil {
				fails = true
				break
			}
			if !fi.IsDir() {
				want = append(want, fi)
				continue
			}
			f, err := p.Open(s)
			vsym.Assert(err == nil, "Open fails", err)
			fis, err := f.Readdir(-1)
			vsym.Assert(err == nil && f.Close() == nil, "Readdir fails", err)
			want = append(want, fis...)
		}
		out, err := run(args...)
		vsym.Assert((err != nil) == fails, "stat and Stat differ", err, args)
		got := objects(out)
		vsym.Assert(len(got) == len(want), "wrong number of infos", len(got), len(want), out)
		for i, w := range want {
			g := &pkging.FileInfo{}
			vsym.Assert(json.Unmarshal([]byte(got[i]), g) == nil, "the output is not JSON", out)
			vsym.Assert(infoEq(g, w), "wrong info", g.Name(), w.Name(), g.Size(), w.Size())
		}
		vsym.Cover("stat")
	case 3: // parse
		var args []string
		want := 0
		if vsym.Bool("named") {
			args = append(args, []string{vlib.Main, depPkg, "no.such/module"}[vsym.Choose("module", 3)])
		}
		key := "."
		if len(args) > 0 {
			key = args[0]
		}
		if key == "." || key == vlib.Main {
			want = len(a.decl) - len(a.incs)
		}
		out, err := run(append([]string{"parse"}, args...)...)
		if key == "no.such/module" {
			vsym.Assert(err != nil && out == "", "parsing what does not exist succeeds", out)
			break
		}
		vsym.Assert(err == nil, "parse fails", err)
		got := map[string][]struct {
			Type  string
			Value string
			File  *pp.File
		}{}
		vsym.Assert(json.Unmarshal([]byte(out), &got) == nil, "the output is not JSON", out)
		vsym.Assert(len(got) == 1 && len(got[key]) == want, "wrong number of declarations", out)
		for _, d := range got[key] {
			in := false
			for _, pt := range a.decl {
				in = in || d.File != nil && d.File.Path == pt
			}
			vsym.Assert(in, "wrong declaration", out)
		}
		vsym.Cover("parse")
	case 4:
		arg := []string{"lst", "List", "stat ", "x"}[vsym.Choose("unknown", 4)]
		out, err := run(arg, "/d")
		vsym.Assert(err != nil && out == "", "unknown arguments are accepted", arg, out)
	}
	vsym.Assert(vsym.OpenFiles() == open, "a file is still open")
	vsym.Assert(tree(a.dir)+tree(a.dep) == before, "reporting changes something")
	vsym.Assert(os.Chdir("/") == nil, "Chdir fails")
}
