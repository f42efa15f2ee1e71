// Package vparse: the parser that finds what to pack.
package vparse

import (
	"encoding/json"
	"go/parser"
	"go/token"
	"os"
	"path"
	"strings"

	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	pp "github.com/markbates/pkger/parser"
)

// module makes dir the root of module name and returns it.
func module(dir, name, more string) {
	write(dir+"/go.mod", "module "+name+"\n\ngo 1.13\n"+more)
}

func write(name, text string) {
	vsym.Assert(os.MkdirAll(name[:strings.LastIndexByte(name, '/')], 0755) == nil, "setup fails", name)
	vsym.Assert(os.WriteFile(name, []byte(text), 0644) == nil, "setup fails", name)
}

var funcs = []string{"Open", "Stat", "Walk", "Dir", "Include", "Create", "MkdirAll"}

// tail is what follows the first argument in a call of the function.
func tail(fn string) string {
	switch fn {
	case "Walk":
		return ", nil)"
	case "MkdirAll":
		return ", 0755)"
	}
	return ")"
}

// arg returns an argument whose value is p, and the declarations before and
// after the function it needs.
func arg(form int, p, n string) (expr, before, local, after string) {
	switch form {
	case 0:
		expr = "\"" + p + "\""
	case 1:
		expr = "`" + p + "`"
	case 2:
		expr, before = "c"+n, "const c"+n+" = \""+p+"\"\n"
	case 3:
		expr, after = "c"+n, "const c"+n+" = \""+p+"\"\n"
	case 4:
		expr, before = "c"+n, "const (\n\ta"+n+", c"+n+", b"+n+" = \"/x\", \""+p+"\", \"/y\"\n)\n"
	case 5:
		expr, local = "c"+n, "\tconst c"+n+" = `"+p+"`\n"
	case 6:
		expr = "\"" + strings.Replace(p, "/", "\\x2f", 1) + "\""
	case 7:
		expr, before, after = "c"+n, "const c"+n+" = d"+n+"\n", "const d"+n+" = \""+p+"\"\n"
	case 8:
		expr, before = "c"+n, "const c"+n+" string = \""+p+"\"\n"
	case 9:
		// the innermost declaration counts
		expr, before, local = "c"+n, "const c"+n+" = \"/wrong\"\n", "\tconst c"+n+" = \""+p+"\"\n"
	case 10:
		// a constant without a value repeats the one before it
		expr, before = "c"+n, "const (\n\ta"+n+" = \"/x\"\n\tb"+n+" = \""+p+"\"\n\td"+n+"\n\tc"+n+"\n)\n"
	case 11:
		expr, local = "c"+n, "\tconst (\n\t\ta"+n+", b"+n+" = \"/x\", \""+p+"\"\n\t\td"+n+", c"+n+"\n\t)\n"
	}
	return
}

const forms = 12

// place puts a call into a statement of a function; more is another statement.
func place(ctx int, call string) string {
	switch ctx {
	case 0:
		return "\t" + call + "\n"
	case 1:
		return "\tf, err := " + call + "\n\t_, _ = f, err\n"
	case 2:
		return "\tif _, err := " + call + "; err != nil {\n\t\treturn\n\t}\n"
	case 3:
		return "\tdefer func() {\n\t\t" + call + "\n\t}()\n"
	case 4:
		return "\tgo " + call + "\n"
	case 5:
		return "\tfor i := 0; i < 3; i++ {\n\t\tswitch {\n\t\tcase i > 1:\n\t\t\t" + call + "\n\t\t}\n\t}\n"
	case 6:
		return "\tuse([]interface{}{1, " + call + "})\n"
	case 7:
		return "\tx := map[string]T{\"a\": {f: " + call + "}}\n\t_ = x\n"
	case 8:
		return "\tuse(other.Call(" + call + "))\n"
	case 9:
		// in an argument of another declaration that has no constant path
		return "\tpkger.Open(" + call + ")\n"
	case 10:
		// in the function that is an argument of another declaration
		return "\tpkger.Walk(\"/outer\", func(p string, i os.FileInfo, e error) error {\n\t\t" + call + "\n\t\treturn nil\n\t})\n"
	case 11:
		return "\tselect {\n\tcase <-c:\n\t\tfunc() {\n\t\t\t" + call + "\n\t\t}()\n\tdefault:\n\t}\n"
	case 12:
		return "\tx := " + call + ".(T)\n\t_ = x\n"
	case 13:
		return "\tvar y = func() { " + call + " }\n\ty()\n"
	}
	return "\treturn " + call + "\n"
}

const places = 15

type found struct {
	fn, val string
	line    int
}

var _ = vsym.Register("VerifParserCalls", VerifParserCalls)

// VerifParserCalls: each call of a pkger function with a constant path is
// found, once, with its path and line, wherever it stands, and nothing else.
func VerifParserCalls() {
	dir := vsym.Root()
	module(dir, vlib.Main, "")
	n := vsym.Param("sites", 1)
	var head, body, foot string
	type site struct {
		fn, val, call string
		outer         bool
	}
	var sites []site
	for i := 0; i < n; i++ {
		fn := funcs[vsym.Choose("func", len(funcs))]
		id := string(rune('0' + i))
		el := vlib.Elem("path", vlib.Wide, vsym.Param("max", 1))
		for i := range el {
			vsym.Assume(vsym.And(el[i] != '"', el[i] != '`'))
		}
		p := "/" + el + id
		if vsym.Param("spell", 0) != 0 {
			// any spelling of a path
			p = "/" + vlib.Str("raw", "/.a", 0, vsym.Param("spell", 0))
			if vsym.Bool("qualified") {
				p = vlib.Main + ":" + p
			}
		}
		if vsym.Param("loc", 0) != 0 {
			// paths that look like locations, or are some
			r := []string{dir, dir + "/sub"}[vsym.Choose("of", 2)]
			p = r + []string{"", "x", "/x", "/../y", "/.", "//"}[vsym.Choose("loc", 6)]
			if vsym.Bool("qualified") {
				p = vlib.Main + ":" + p
			}
		}
		form := 0
		if vsym.Param("forms", forms) != 0 {
			form = vsym.Choose("form", vsym.Param("forms", forms))
		}
		ctx := vsym.Choose("place", vsym.Param("places", places))
		e, before, local, after := arg(form, p, id)
		head += before
		foot += after
		call := "pkger." + fn + "(" + e + tail(fn)
		body += local + place(ctx, call)
		sites = append(sites, site{fn, p, call, ctx == 10})
		switch vsym.Choose("noise", vsym.Param("noises", 6)) {
		case 1:
			body += "\t// pkger.Open(\"/comment\")\n"
		case 2:
			body += "\tlog(\"pkger.Open(\\\"/string\\\")\")\n\tpkger.Foo(\"/foo\")\n"
		case 3:
			body += "\tother.Open(\"/other\")\n\tOpen(\"/bare\")\n"
		case 4:
			body += "\tpkger.Open(name)\n"
		case 5:
			body += "\tx.pkger.Open(\"/field\")\n\tvar v" + id + " = \"/var\"\n\tpkger.Open(v" + id + ")\n"
		}
	}
	src := "package app\n\nimport (\n\t\"os\"\n\n\t\"github.com/markbates/pkger\"\n)\n\n" + head + "\nfunc f() {\n" + body + "}\n\n" + foot
	if vsym.Bool("toplevel") {
		src += "\nvar g = pkger.Include(\"/top\")\n"
		sites = append(sites, site{"Include", "/top", "pkger.Include(\"/top\")", false})
	}
	abs := dir + "/main.go"
	if vsym.Param("loc", 0) != 0 {
		abs = dir + "/sub/main.go"
	}
	write(abs, src)

	var want []found
	line := func(s string) int { return strings.Count(src[:strings.Index(src, s)], "\n") + 1 }
	for _, s := range sites {
		want = append(want, found{s.fn, s.val, line(s.call)})
		if s.outer {
			// one for each such site; they look alike
			want = append(want, found{"Walk", "/outer", 0})
		}
	}

	p, err := pp.New(vlib.Info(dir))
	vsym.Assert(err == nil, "New fails", err)
	ps, err := p.ParseFile(abs, parser.ParseComments)
	vsym.Assert(err == nil, "ParseFile fails", err, src)
	panicked, msg := vsym.Catch(func() { check(ps, want, src) })
	vsym.Assert(!panicked, "the parser panics", msg, src)
	vsym.ObserveI("want", len(want))
}

func check(ps *pp.ParsedSource, want []found, src string) {
	m, _ := ps.DeclsMap()
	total := 0
	for fn, ds := range m {
		for _, d := range ds {
			total++
			v, err := d.Value()
			vsym.Assert(err == nil, "declaration without value", fn, src)
			pos, err := d.Position()
			vsym.Assert(err == nil, "declaration without position", fn, src)
			ok := false
			for i, w := range want {
				if w.fn == fn && w.val == v && (w.line == 0 || w.line == pos.Line) {
					want[i].fn = "" // taken
					ok = true
					break
				}
			}
			vsym.Assert(ok, "unexpected declaration", fn, v, pos.Line, src)
			f, err := d.File()
			vsym.Assert(err == nil, "declaration without file", fn, src)
			c := vlib.Canon(vlib.Main, strings.TrimPrefix(v, vlib.Main+":"))
			if v[0] == '/' && vlib.Within(vsym.Root(), c.Name) {
				c = vlib.Canon(vlib.Main, "/"+c.Name[len(vsym.Root()):])
			}
			vsym.Assert(f.Path == c, "wrong path", fn, v, f.Path.String(), src)
			vsym.Assert(f.Abs == path.Join(vsym.Root(), c.Name), "wrong location", fn, v, f.Abs, src)
			if vsym.Param("json", 0) == 0 {
				continue
			}
			// its JSON says the same
			b, err := json.Marshal(d)
			vsym.Assert(err == nil, "no JSON of a declaration", fn, err, src)
			var j struct {
				Type, Value string
				Pos         token.Position
				File        *pp.File
			}
			vsym.Assert(json.Unmarshal(b, &j) == nil, "the JSON of a declaration is broken", string(b))
			vsym.Assert(j.Type == "pkger."+fn && j.Value == v && j.Pos == pos && j.File != nil && j.File.Abs == f.Abs && j.File.Path == f.Path, "the JSON of a declaration differs", string(b), fn, v)
		}
	}
	for _, w := range want {
		vsym.Assert(w.fn == "", "declaration not found", w.fn, w.val, w.line, src)
	}
	_ = total
}
