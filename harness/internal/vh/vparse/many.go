package vparse

import (
	"os"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	pp "github.com/markbates/pkger/parser"
)

var _ = vsym.Register("VerifParserMany", VerifParserMany)

// VerifParserMany: many calls, in one file, far down in it, in many files, in
// many or in deep folders, are all found, each where it is.
func VerifParserMany() {
	dir := vsym.Root()
	module(dir, vlib.Main, "")
	n := []int{20, 40, 70, 130, 300}[vsym.Choose("calls", vsym.Param("entries", 5))]
	type site struct {
		abs  string
		line int
	}
	want := map[string]site{}
	head := "package x\n\nimport \"github.com/markbates/pkger\"\n\n"
	odd := "/" + vlib.Elem("path", vlib.Wide, 1)
	for i := range odd {
		vsym.Assume(vsym.And(odd[i] != '"', odd[i] != '`'))
	}
	form := vsym.Choose("form", 6)
	src, at := head, 5
	abs := dir + "/x.go"
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		p := odd + id
		switch form {
		case 0: // in one function
			if i == 0 {
				src += "func f() {\n"
				at++
			}
			src += "\tpkger.Open(\"" + p + "\")\n"
		case 1: // in a function each, of all the functions
			fn := funcs[i%len(funcs)]
			src += "func f" + id + "() {\n\tpkger." + fn + "(\"" + p + "\"" + tail(fn) + "\n}\n"
			at++
		case 2: // with many lines between them
			src += strings.Repeat("\n", 20) + "var _ = pkger.Include(\"" + p + "\")\n"
			at += 20
		case 3: // in a file each
			src += "var _ = pkger.Include(\"" + p + "\")\n"
			abs = dir + "/x" + id + ".go"
		case 4: // in a folder each
			src += "var _ = pkger.Include(\"" + p + "\")\n"
			abs = dir + "/x" + id + "/x.go"
		case 5: // deeper and deeper
			src += "var _ = pkger.Include(\"" + p + "\")\n"
			abs = path.Dir(abs) + "/x/x.go"
		}
		want[p] = site{abs, at}
		at++
		if form == 1 {
			at++
		}
		if form == 5 && i >= n/2 {
			write(abs, src)
			break
		}
		if form >= 3 {
			write(abs, src)
			src, at = head, 5
		}
	}
	if form == 0 {
		src += "}\n"
	}
	if form < 3 {
		write(abs, src)
	}
	ds, err := pp.Parse(vlib.Info(dir))
	vsym.Assert(err == nil, "Parse fails", err)
	vsym.Assert(len(ds) == len(want), "wrong number of declarations", len(ds), len(want))
	for _, d := range ds {
		v, err := d.Value()
		vsym.Assert(err == nil, "declaration without value", err)
		var w site
		for p, s := range want {
			if p == v {
				w = s
				delete(want, p)
				break
			}
		}
		vsym.Assert(w.abs != "", "wrong declaration", v)
		pos, err := d.Position()
		vsym.Assert(err == nil && pos.Filename == w.abs && pos.Line == w.line, "wrong position", v, pos.Filename, w.abs, pos.Line, w.line)
		f, err := d.File()
		vsym.Assert(err == nil && f.Path.Pkg == vlib.Main && f.Path.Name == v && f.Abs == dir+v, "wrong file", v, f.Path.Name, err)
	}
}

var _ = vsym.Register("VerifParserFilesMany", VerifParserFilesMany)

// VerifParserFilesMany: many files in or of a declaration are all listed.
func VerifParserFilesMany() {
	dir := vsym.Root()
	module(dir, vlib.Main, "")
	m := vlib.Many()
	abs := map[string]bool{"/": true, "/go.mod": true, "/main.go": true}
	for _, e := range m.Ents {
		abs[e.Path] = true
		if e.Dir {
			vsym.Assert(os.MkdirAll(dir+e.Path, 0755) == nil, "setup fails")
		} else {
			write(dir+e.Path, e.Path)
		}
	}
	src := "package app\n\nimport \"github.com/markbates/pkger\"\n\nfunc f() {\n"
	all := vsym.Bool("each")
	root := []string{"/d", "/"}[vsym.Choose("root", 2)]
	if all {
		// one by one
		for _, e := range m.Ents {
			if e.Path != "/" && e.Path != "/d" {
				src += "\tpkger.Open(\"" + e.Path + "\")\n"
			}
		}
	}
	hide := vsym.Bool("made")
	var made []string
	if hide {
		// every other file is one that the program makes itself
		for i, e := range m.Ents {
			if !e.Dir && i%2 == 0 && vlib.Within("/d", e.Path) {
				src += "\tpkger.Create(\"" + e.Path + "\")\n"
				made = append(made, e.Path)
			}
		}
	}
	src += "\tpkger.Include(\"" + root + "\")\n"
	write(dir+"/main.go", src+"}\n")
	gone := map[string]bool{}
	for _, p := range made {
		gone[p] = true
	}
	var want []string
	for p := range abs {
		if (vlib.Within(root, p) || all && vlib.Has(m, vlib.Main, p) != nil && p != "/d" && p != "/") && !gone[p] {
			want = append(want, p)
		}
	}
	sort.Strings(want)
	ds, err := pp.Parse(vlib.Info(dir))
	vsym.Assert(err == nil, "Parse fails", err)
	files, err := ds.Files()
	vsym.Assert(err == nil, "Files fails", err)
	vsym.Assert(len(files) == len(want), "wrong number of files", len(files), len(want))
	for i, f := range files {
		vsym.Assert(f.Path.Pkg == vlib.Main && f.Path.Name == want[i], "wrong file or order", f.Path.String(), want[i])
		vsym.Assert(f.Abs == path.Join(dir, want[i]) && f.Here.Module.Path == vlib.Main, "wrong location", f.Abs)
	}
}
