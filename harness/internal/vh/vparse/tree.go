package vparse

import (
	"os"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	pp "github.com/markbates/pkger/parser"
)

var special = []string{"vendor", "testdata", "node_modules"}

// char is any byte of a name that Go accepts in an import path.
func char(c byte) bool {
	return vsym.Or(vsym.Or(vsym.And(c >= 'a', c <= 'z'), vsym.And(c >= 'A', c <= 'Z')), vsym.Or(vsym.And(c >= '0', c <= '9'), vsym.Or(c == '_', vsym.Or(c == '.', c == '-'))))
}

// folder is a name: short and arbitrary, one of the ignored ones, or one that
// differs from such a name in one byte.
func folder(name string) string {
	ns := len(special)
	if name == "inner" {
		ns = vsym.Param("innerspecial", ns)
	} else {
		ns = vsym.Param("outerspecial", ns)
	}
	k := vsym.Choose(name+".kind", 1+4*ns)
	if k == 0 {
		n := vsym.Int(name+".len", 1, vsym.Param("max", 2))
		b := vsym.Bytes(name, vsym.ConcreteInt(n))
		for _, c := range b {
			vsym.Assume(char(c))
		}
		vsym.Assume(vsym.And(b[len(b)-1] != '.', b[0] != '-'))
		return string(b)
	}
	s := special[(k-1)/4]
	if (k-1)%4 == 0 {
		return s
	}
	c := vsym.Bytes(name, 1)
	vsym.Assume(vsym.And(char(c[0]), vsym.And(c[0] != '.', c[0] != '-')))
	switch (k - 1) % 4 {
	case 1:
		return s + string(c)
	case 2:
		return string(c) + s
	}
	at := []int{0, len(s) / 2, len(s) - 1}[vsym.Choose(name+".at", 3)]
	return s[:at] + string(c) + s[at+1:]
}

func ignored(name string) bool {
	for _, s := range special {
		if name == s {
			return true
		}
	}
	return name[0] == '.' || name[0] == '_'
}

func values(t string, ds pp.Decls) []string {
	var r []string
	for _, d := range ds {
		v, err := d.Value()
		vsym.Assert(err == nil, t+": declaration without value", err)
		f, err := d.File()
		vsym.Assert(err == nil, t+": declaration without file", err)
		vsym.Assert(f.Path.Pkg == vlib.Main && f.Path.Name == v, t+": wrong path", v, f.Path.String())
		vsym.Assert(f.Abs == path.Join(vsym.Root(), v), t+": wrong location", v, f.Abs)
		r = append(r, v)
	}
	sort.Strings(r)
	return r
}

func source(pkg, p string) string {
	return "package " + pkg + "\n\nimport \"github.com/markbates/pkger\"\n\nvar _ = pkger.Include(\"" + p + "\")\n"
}

var _ = vsym.Register("VerifParserSearch", VerifParserSearch)

// VerifParserSearch: the Go files of every folder of a module are searched,
// except of those whose name says otherwise, and what cannot be read is an
// error.
func VerifParserSearch() {
	dir := vsym.Root()
	module(dir, vlib.Main, "")
	n1 := folder("outer")
	d1 := dir + "/" + n1
	skip1 := ignored(n1)
	d2, skip2 := d1, skip1
	if vsym.Param("two", 1) != 0 && vsym.Bool("two") {
		n2 := folder("inner")
		skip2 = ignored(n2)
		if vsym.Bool("nested") {
			d2 = d1 + "/" + n2
			skip2 = skip1 || skip2
		} else {
			vsym.Assume(n1 != n2)
			d2 = dir + "/" + n2
		}
	}
	write(dir+"/main.go", source(vlib.Main, "/0"))
	write(d1+"/x.go", source("x", "/1"))
	write(d1+"/x_test.go", source("x", "/2"))
	write(d1+"/y.txt", source("y", "/3"))
	write(d2+"/z.go", source("x", "/4"))
	want := []string{"/0"}
	if !skip1 {
		want = append(want, "/1", "/2")
	}
	if !skip2 {
		want = append(want, "/4")
	}
	fails := false
	switch vsym.Choose("fault", 4) {
	case 1:
		write(d1+"/bad.go", "package x\n\nfunc {\n")
		fails = !skip1
	case 2:
		write(d2+"/bad.go", "package x\n\nvar _ = pkger.Open(\"/5\"\n")
		fails = !skip2
	case 3:
		// unreadable
		vsym.Assert(os.Chmod(d2+"/z.go", 0) == nil, "setup fails")
		fails = !skip2
	}
	ds, err := pp.Parse(vlib.Info(dir))
	if fails {
		vsym.Cover("refused")
		vsym.Assert(err != nil, "a broken source file is ignored", d1, d2)
		return
	}
	vsym.Assert(err == nil, "Parse fails", err, d1, d2)
	got := values("search", ds)
	vsym.Assert(len(got) == len(want), "wrong number of declarations", strings.Join(got, " "), strings.Join(want, " "), d1, d2)
	for i := range got {
		vsym.Assert(got[i] == want[i], "wrong declaration", strings.Join(got, " "), strings.Join(want, " "), d1, d2)
	}
	if skip2 {
		vsym.Cover("ignored")
	} else {
		vsym.Cover("searched")
	}
	vsym.ObserveI("found", len(got))
}

var _ = vsym.Register("VerifParserFiles", VerifParserFiles)

type listed struct{ pkg, name, abs string }

// VerifParserFiles: the files to pack are those declared, with everything below
// the directories, each once, in order; what the program makes itself is left
// out, and what does not exist is an error.
func VerifParserFiles() {
	dir := vsym.Root()
	alpha := "ab"
	if vsym.Param("wide", 1) != 0 {
		alpha = "abcdefghijklmnopqrstuvwxyz0123456789"
	}
	max := vsym.Param("max", 1)
	module(dir, vlib.Main, "")
	pre := []string{"/", "/", "/"}
	if vsym.Param("free", 1) == 0 {
		pre = []string{"/D", "/S", "/F"} // names that do not depend on each other
	}
	d := pre[0] + vlib.Elem("dir", alpha, max)
	s := d + pre[1] + vlib.Elem("sub", alpha, max)
	f := d + pre[2] + vlib.Elem("file", alpha, max)
	g := s + pre[2] + vlib.Elem("deep", alpha, 1)
	h := pre[2] + vlib.Elem("top", alpha, max)
	if odd := vlib.OddName(); odd != "" {
		// a name that means something to somebody
		vsym.Assume(odd != "go.mod" && odd != "pkged.go")
		f = d + "/" + odd
	}
	vsym.Assume(f != s)
	vsym.Assume(d != h)
	nested := vsym.Bool("nested")
	if nested {
		// the subdirectory is a module of its own
		module(dir+s, "nest.io/n", "")
	}
	write(dir+f, "f")
	write(dir+g, "g")
	write(dir+h, "h")
	exist := []string{"/", d, s, f, g, h, "/go.mod"}
	if nested {
		exist = append(exist, s+"/go.mod")
	}
	args := []string{d, s, f, h, "/", "/M"}
	src := "package app\n\nimport \"github.com/markbates/pkger\"\n\nfunc f() {\n"
	n := vsym.Param("calls", 2)
	type call struct{ fn, p string }
	var calls []call
	var incs []string
	for i := 0; i < n; i++ {
		c := call{funcs[vsym.Choose("func", len(funcs))], args[vsym.Choose("arg", len(args))]}
		if c.fn == "Include" && vsym.Bool("flag") {
			// on the command line
			incs = append(incs, c.p)
			calls = append(calls, c)
			continue
		}
		src += "\tpkger." + c.fn + "(" + strconv.Quote(c.p) + tail(c.fn) + "\n"
		calls = append(calls, c)
	}
	// where the calls are does not matter, but it is a file that may be packed
	write(dir+"/main.go", src+"}\n")
	exist = append(exist, "/main.go")

	virtual := map[string]bool{}
	for _, c := range calls {
		if c.fn == "Create" || c.fn == "MkdirAll" {
			virtual[c.p] = true
		}
	}
	hidden := func(root, p string) bool {
		if nested && vlib.Within(s, p) {
			// another module's: what the program makes has other names
			if vlib.Within(s, root) {
				return false
			}
			p = path.Dir(s)
		}
		for q := p; ; q = path.Dir(q) {
			if virtual[q] {
				return true
			}
			if q == root || q == "/" {
				return false
			}
		}
	}
	want := map[string]bool{}
	fails := false
	for _, c := range calls {
		if virtual[c.p] || c.fn == "Create" || c.fn == "MkdirAll" {
			continue
		}
		if c.p == "/M" {
			fails = true
			continue
		}
		for _, e := range exist {
			if vlib.Within(c.p, e) && !hidden(c.p, e) {
				want[e] = true
			}
		}
	}
	ds, err := pp.Parse(vlib.Info(dir), incs...)
	vsym.Assert(err == nil, "Parse fails", err, src)
	vsym.Assert(len(ds) == n, "wrong number of declarations", len(ds), src)
	files, err := ds.Files()
	if fails {
		vsym.Cover("missing")
		vsym.Assert(err != nil, "a missing file is ignored", src)
		return
	}
	vsym.Assert(err == nil, "Files fails", err, src)
	var l []listed
	for e := range want {
		x := listed{vlib.Main, e, path.Join(dir, e)}
		if nested && vlib.Within(s, e) {
			x.pkg, x.name = "nest.io/n", path.Join("/", strings.TrimPrefix(e, s))
		}
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].pkg+":"+l[i].name < l[j].pkg+":"+l[j].name })
	text := ""
	for _, f := range files {
		text += f.Path.String() + " "
	}
	vsym.Assert(len(files) == len(l), "wrong number of files", len(files), len(l), text, src)
	for i, f := range files {
		x := l[i]
		vsym.Assert(f.Abs == x.abs, "wrong file or order", f.Abs, x.abs, text, src)
		vsym.Assert(f.Path.Pkg == x.pkg && f.Path.Name == x.name, "wrong path of a file", f.Path.String(), x.pkg, x.name, src)
		if nested && x.pkg != vlib.Main {
			vsym.Cover("nested")
			vsym.Assert(f.Here.Module.Path == x.pkg && f.Here.Module.Dir == dir+s, "wrong module of a file", f.Path.String(), f.Here.Module.Path, f.Here.Module.Dir)
		} else {
			vsym.Assert(f.Here.Module.Path == vlib.Main && f.Here.Module.Dir == dir, "wrong module of a file", f.Path.String(), f.Here.Module.Path, f.Here.Module.Dir)
		}
	}
	vsym.ObserveS("files", text)
}
