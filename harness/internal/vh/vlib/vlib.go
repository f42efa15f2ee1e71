// Package vlib is shared by the harnesses: symbolic trees and paths, and the
// reference model of a tree of files they are checked against.
package vlib

import (
	"encoding/json"
	"io"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
)

const (
	Main = "a"
	Dep  = "a/dep"
)

// Info describes module Main in directory dir.
func Info(dir string) here.Info { return ModInfo(Main, dir) }

func ModInfo(mod, dir string) here.Info {
	return here.Info{
		Dir:        dir,
		ImportPath: mod,
		Name:       mod,
		Module:     here.Module{Path: mod, Main: mod == Main, Dir: dir, GoMod: dir + "/go.mod"},
	}
}

// Mem returns an empty in-memory Pkger of module Main that also knows module Dep.
func Mem() *mem.Pkger {
	p, err := mem.New(Info("/w/d/root"))
	vsym.Assert(err == nil, "mem.New fails")
	return p
}

// Mem2 is Mem with the module Dep known as well, as after unpacking.
func Mem2() *mem.Pkger {
	d := embed.Data{
		Infos: map[string]here.Info{Main: Info("/w/d/root"), Dep: ModInfo(Dep, "/w/d/dep")},
		Files: map[string]embed.File{},
		Here:  Info("/w/d/root"),
	}
	b, err := json.Marshal(d)
	vsym.Assert(err == nil, "marshal fails")
	p := &mem.Pkger{}
	err = p.UnmarshalJSON(b)
	vsym.Assert(err == nil, "an empty pack does not unpack", err)
	return p
}

// Ent is one file or directory of the reference model.
type Ent struct {
	Pkg  string
	Path string
	Dir  bool
	Data []byte
}

type Model struct{ Ents []Ent }

// Wide stands for every printable byte that can be part of a name: not "/",
// and not "\\", ":" and " ", which the syntax of paths gives a meaning.
const Wide = "*"

// Odd are names that have a meaning somewhere, or are otherwise unusual.
var Odd = []string{
	"\u00e9", "a b", "%2e%2e", "~", "$HOME", "*", "...", "..a", ".a", "_a", "vendor", "node_modules", "testdata", "pkged.go", "index.html", "A", "dep",
	"\u65e5\u672c", "a\u2028b", "x\u0301", "a%2fb", "${x}", "?", "[a]", "{a,b}", "#a", "a&b=c", "a..", ".git", "go.mod", "main",
	"<a>", "\"", "'", "`", "a;b", "a|b", "-", "-a", "0", "null", "a.tmp", "NUL", "a@v1.0.0", "!a", "a,b", "a=b", "(a)", "a+b",
	"0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef",
}

// OddAlpha stands for one of the odd names, or "a".
func OddAlpha() string { return "=" + Odd[vsym.Choose("odd", vsym.Param("odds", len(Odd)))] }

// Spelled is a path of n pieces: separators, dots, the odd name, "a" or any
// other byte that has no meaning.
func Spelled(name, odd string, n int) string {
	s := "/"
	for i := 0; i < n; i++ {
		c := vsym.Choose(name, 6)
		switch c {
		case 0:
			s += "/"
		case 1:
			s += ".."
		case 2:
			s += "\\"
		case 3, 4:
			if s[len(s)-1] != '/' {
				s += "/"
			}
			if c == 3 {
				s += odd
			} else {
				s += "a"
			}
		case 5:
			s += elem(name, Wide, 1)
		}
	}
	return s
}

// OddName is one of the odd names if the parameter "odd" is set.
func OddName() string {
	if vsym.Param("odd", 0) == 0 {
		return ""
	}
	return OddAlpha()[1:]
}

// Raw is a path as one might write it: of the bytes of alpha, or of as many
// pieces as the parameter "odd" says.
func Raw(alpha string, n int, odd string) string {
	if odd != "" {
		return Spelled("piece", odd, vsym.Param("odd", 0))
	}
	return "/" + Str("raw", alpha, 0, n)
}

// Elem is an arbitrary path element of 1..max bytes over alpha, and not "."
// or "..".
func Elem(name, alpha string, max int) string {
	if alpha[0] == '=' {
		if vsym.Bool(name + ".odd") {
			return alpha[1:]
		}
		return "a"
	}
	n := 1
	if max > 1 {
		n = vsym.Int(name+".len", 1, max)
	}
	for k := 1; k < max; k++ {
		if n == k {
			return elem(name, alpha, k)
		}
	}
	return elem(name, alpha, max)
}

func elem(name, alpha string, n int) string {
	if alpha != Wide {
		return vsym.StringOf(name, alpha, n)
	}
	b := vsym.Bytes(name, n)
	dots := true
	for _, c := range b {
		vsym.Assume(vsym.And(vsym.And(c > ' ', c < 0x7f), vsym.And(c != '/', vsym.And(c != ':', c != '\\'))))
		dots = vsym.And(dots, c == '.')
	}
	if n <= 2 {
		vsym.Assume(vsym.Not(dots))
	}
	return string(b)
}

// Path is an arbitrary canonical path of 1..depth elements.
func Path(name, alpha string, max, depth int) string {
	d := 1
	if depth > 1 {
		d = vsym.Int(name+".depth", 1, depth)
	}
	p := ""
	for i := 0; i < depth; i++ {
		p += "/" + Elem(name, alpha, max)
		if d == i+1 {
			break
		}
	}
	return p
}

func Has(m *Model, pkg, p string) *Ent {
	for i := range m.Ents {
		if m.Ents[i].Pkg == pkg && m.Ents[i].Path == p {
			return &m.Ents[i]
		}
	}
	return nil
}

// Within: name is dir or lies below it.
func Within(dir, name string) bool {
	if dir == "/" {
		return true
	}
	if len(name) == len(dir) {
		return name == dir
	}
	return len(name) > len(dir) && name[len(dir)] == '/' && name[:len(dir)] == dir
}

// Child: name lies directly below dir.
func Child(dir, name string) bool { return name != dir && path.Dir(name) == dir }

// Less orders paths as filepath.Walk visits them.
func Less(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	if a == "/" {
		x = x[:1]
	}
	if b == "/" {
		y = y[:1]
	}
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

// Tree returns the entries of pkg within root in walk order.
func (m *Model) Tree(pkg, root string) []Ent {
	var r []Ent
	for _, e := range m.Ents {
		if e.Pkg == pkg && Within(root, e.Path) {
			r = append(r, e)
		}
	}
	sort.Slice(r, func(i, j int) bool { return Less(r[i].Path, r[j].Path) })
	return r
}

func (m *Model) Children(pkg, dir string) []Ent {
	var r []Ent
	for _, e := range m.Ents {
		if e.Pkg == pkg && Child(dir, e.Path) {
			r = append(r, e)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Path < r[j].Path })
	return r
}

func (m *Model) RemoveAll(pkg, p string) {
	var r []Ent
	for _, e := range m.Ents {
		if !(e.Pkg == pkg && Within(p, e.Path)) {
			r = append(r, e)
		}
	}
	m.Ents = r
}

func Qual(pkg, p string) string { return pkg + ":" + p }

// Write creates a file with the given content through the public interface.
func Write(p pkging.Pkger, name string, data []byte) error {
	f, err := p.Create(name)
	if err != nil {
		return err
	}
	if len(data) > 0 {
		if _, err := f.Write(data); err != nil {
			return err
		}
	}
	return f.Close()
}

type Opt struct {
	N     int    // entries
	Alpha string // bytes of names
	Max   int    // bytes per element
	Data  int    // bytes of content at most
	Pkgs  bool   // entries of a second module too
	Files bool   // no explicit directories except parents
	Shape int    // a fixed arrangement (one module)
	Loose bool   // entries without their directories, as files added one by one
	Known bool   // of a Loose pack: whether it knows the second module
}

// ModOf is what the packs of the harnesses know about a module.
func ModOf(pkg string) here.Info {
	if pkg == Dep {
		return ModInfo(Dep, "/w/d/dep")
	}
	return Info("/w/d/root")
}

// HereOf is what a pack says of the file e: where its package is.
func HereOf(e Ent) here.Info {
	i := ModOf(e.Pkg)
	d := e.Path
	if !e.Dir {
		d = path.Dir(d)
	}
	if d != "/" {
		i.Dir += d
		i.ImportPath += d
		i.Name = path.Base(d)
	}
	return i
}

// Pack makes p a pack of the entries of m, as the packing tool makes it.
func (m *Model) Pack(p *mem.Pkger, known ...string) {
	d := embed.Data{
		Infos: map[string]here.Info{Main: ModOf(Main)},
		Files: map[string]embed.File{},
		Here:  ModOf(Main),
	}
	for _, pkg := range known {
		d.Infos[pkg] = ModOf(pkg)
	}
	for _, e := range m.Ents {
		info := &pkging.FileInfo{Details: pkging.Details{Name: path.Base(e.Path), Mode: 0644, Size: int64(len(e.Data))}}
		if e.Dir {
			info.Details.Mode = 0755 | os.ModeDir
			info.Details.IsDir = true
		}
		d.Files[Qual(e.Pkg, e.Path)] = embed.File{Info: info, Here: HereOf(e), Path: here.Path{Pkg: e.Pkg, Name: e.Path}, Data: e.Data}
	}
	b, err := json.Marshal(d)
	vsym.Assert(err == nil, "marshal fails")
	vsym.Assert(p.UnmarshalJSON(b) == nil, "pack does not unpack")
}

const dirBit = 64

// shapes are trees with fixed parents (indices of directories, made before) in
// which only the names, and the kind of the last entry, are arbitrary.
var shapes = [][]int{
	1: {dirBit | 0, 1, 0},             // a directory with a file, and a sibling
	2: {dirBit | 0, 1, dirBit | 0, 2}, // two directories with an entry each
	3: {dirBit | 0, dirBit | 1, 2, 0}, // a chain, and a sibling
}

// Build fills p with an arbitrary tree of at most o.N entries, each below the
// root or an earlier directory, and returns the reference model of it.
func Build(p pkging.Pkger, o Opt) *Model {
	if o.Loose {
		return loose(p.(*mem.Pkger), o)
	}
	m := &Model{Ents: []Ent{{Pkg: Main, Path: "/", Dir: true}}}
	err := p.MkdirAll("/", 0755)
	vsym.Assert(err == nil, "MkdirAll(/) fails", err)
	if o.Pkgs {
		m.Ents = append(m.Ents, Ent{Pkg: Dep, Path: "/", Dir: true})
		err := p.MkdirAll(Qual(Dep, "/"), 0755)
		vsym.Assert(err == nil, "MkdirAll(dep:/) fails", err)
	}
	var shape []int
	n := o.N
	if o.Shape > 0 {
		shape = shapes[o.Shape]
		o.N, n = len(shape), len(shape)
	} else {
		n = vsym.Int("n", 0, o.N)
	}
	for i := 0; i < o.N && i < n; i++ {
		// the parent: a directory made before
		var dirs []Ent
		for _, e := range m.Ents {
			if e.Dir {
				dirs = append(dirs, e)
			}
		}
		k := 0
		if shape != nil {
			if k = shape[i] &^ dirBit; k >= len(dirs) {
				k = 0
			}
		} else if len(dirs) > 1 {
			k = vsym.Int("parent", 0, len(dirs)-1)
		}
		par := dirs[0]
		for j := range dirs {
			if k == j {
				par = dirs[j]
			}
		}
		name := path.Join(par.Path, Elem("name", o.Alpha, o.Max))
		vsym.Assume(Has(m, par.Pkg, name) == nil)
		e := Ent{Pkg: par.Pkg, Path: name}
		isdir := shape != nil && shape[i]&dirBit != 0
		if shape == nil || !isdir && (i == len(shape)-1) {
			isdir = vsym.Bool("isdir")
		}
		if isdir {
			e.Dir = true
			err := p.MkdirAll(Qual(e.Pkg, name), 0755)
			vsym.Assert(err == nil, "MkdirAll of a new directory fails", name, err)
		} else {
			d := 0
			if o.Data > 0 {
				d = vsym.Int("datalen", 0, o.Data)
			}
			for x := 0; x <= o.Data; x++ {
				if d == x {
					e.Data = vsym.Bytes("data", x)
					break
				}
			}
			err := Write(p, Qual(e.Pkg, name), e.Data)
			vsym.Assert(err == nil, "writing a new file fails", name, err)
		}
		m.Ents = append(m.Ents, e)
	}
	return m
}

// loose makes p a pack of o.N arbitrary entries of up to two elements, whose
// directories need not be there.
func loose(p *mem.Pkger, o Opt) *Model {
	m := &Model{}
	for i := 0; i < o.N; i++ {
		e := Ent{Pkg: Main, Path: Path("name", o.Alpha, o.Max, 2)}
		if o.Pkgs && vsym.Bool("dep") {
			e.Pkg = Dep
		}
		// nothing lies below a file
		for _, x := range m.Ents {
			if x.Pkg == e.Pkg {
				vsym.Assume(x.Path != e.Path && (x.Dir || !Within(x.Path, e.Path)))
			}
		}
		e.Dir = vsym.Bool("isdir")
		if !e.Dir {
			for _, x := range m.Ents {
				vsym.Assume(x.Pkg != e.Pkg || !Within(e.Path, x.Path))
			}
			e.Data = vsym.Bytes("data", o.Data)
		}
		m.Ents = append(m.Ents, e)
	}
	if o.Known {
		m.Pack(p, Dep)
	} else {
		m.Pack(p)
	}
	return m
}

// ReadAll reads r to its end in pieces of at most n bytes.
func ReadAll(r io.Reader, n, limit int) ([]byte, error) {
	var out []byte
	b := make([]byte, n)
	for i := 0; i < limit; i++ {
		k, err := r.Read(b)
		out = append(out, b[:k]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
	return out, io.ErrNoProgress
}

// CheckFile asserts that e can be opened, is described and reads as in the model.
func CheckFile(p pkging.Pkger, e Ent, what string) {
	name := Qual(e.Pkg, e.Path)
	f, err := p.Open(name)
	vsym.Assert(err == nil, what+": entry cannot be opened", name, err)
	defer f.Close()
	vsym.Assert(f.Name() == name, what+": wrong Name", f.Name(), name)
	vsym.Assert(f.Path() == (here.Path{Pkg: e.Pkg, Name: e.Path}), what+": wrong Path", name)
	fi, err := f.Stat()
	vsym.Assert(err == nil && fi != nil, what+": open entry has no info", name, err)
	CheckInfo(fi, e, what+": open file")
	fi, err = p.Stat(name)
	vsym.Assert(err == nil && fi != nil, what+": Stat fails", name, err)
	CheckInfo(fi, e, what+": Stat")
	if !e.Dir {
		b, err := ReadAll(f, len(e.Data)+1, len(e.Data)+3)
		vsym.Assert(err == nil, what+": read fails", name, err)
		vsym.Assert(vsym.EqB(b, e.Data), what+": wrong content", name, b, e.Data)
	}
}

func CheckInfo(fi os.FileInfo, e Ent, what string) {
	vsym.Assert(fi.IsDir() == e.Dir, what+": wrong kind", e.Path)
	vsym.Assert(fi.Mode().IsDir() == e.Dir, what+": mode contradicts IsDir", e.Path, uint32(fi.Mode()))
	if e.Path != "/" {
		vsym.Assert(fi.Name() == path.Base(e.Path), what+": wrong name", e.Path, fi.Name())
	}
	if !e.Dir {
		vsym.Assert(fi.Size() == int64(len(e.Data)), what+": wrong size", e.Path, fi.Size())
	}
}

// CheckAll asserts that p holds exactly the entries of m (as Walk shows them).
func CheckAll(p pkging.Pkger, m *Model, what string) {
	for _, e := range m.Ents {
		CheckFile(p, e, what)
	}
	for _, pkg := range []string{Main, Dep} {
		n := 0
		for _, e := range m.Ents {
			if e.Pkg == pkg {
				n++
			}
		}
		if n == 0 && (pkg == Dep || len(m.Ents) == 0) {
			continue
		}
		k := 0
		err := p.Walk(Qual(pkg, "/"), func(name string, fi os.FileInfo, err error) error {
			vsym.Assert(err == nil, what+": walk error", err)
			k++
			return nil
		})
		vsym.Assert(err == nil, what+": Walk fails", err)
		vsym.Assert(k == n, what+": number of entries", pkg, k, n)
	}
}

// Str is an arbitrary string of lo..hi bytes over alpha.
func Str(name, alpha string, lo, hi int) string {
	n := vsym.Int(name+".len", lo, hi)
	for k := lo; k < hi; k++ {
		if n == k {
			return vsym.StringOf(name, alpha, k)
		}
	}
	return vsym.StringOf(name, alpha, hi)
}

// Canon is what a spelled path means.
func Canon(pkg, s string) here.Path {
	return here.Path{Pkg: pkg, Name: path.Clean("/" + strings.ReplaceAll(s, "\\", "/"))}
}

// Disk returns a Pkger of module Main in a fresh directory.
func Disk() pkging.Pkger {
	dir := vsym.Root()
	p, err := stdos.New(Info(dir))
	vsym.Assert(err == nil, "stdos.New fails", err)
	return p
}

// World is Disk or Mem, as the parameter "disk" says.
func World() pkging.Pkger {
	if vsym.Param("disk", 0) != 0 {
		return Disk()
	}
	return Mem()
}

// Make creates the entries of m in p.
func (m *Model) Make(p pkging.Pkger) {
	for _, e := range m.Ents {
		var err error
		if e.Dir {
			err = p.MkdirAll(Qual(e.Pkg, e.Path), 0755)
		} else {
			err = Write(p, Qual(e.Pkg, e.Path), e.Data)
		}
		vsym.Assert(err == nil, "setup fails", e.Path, err)
	}
}

// Fixed is a model of module Main with the given paths: "/a/" is a directory
// and "/a" a file that has its path as content.
func Fixed(paths ...string) *Model {
	m := &Model{Ents: []Ent{{Pkg: Main, Path: "/", Dir: true}}}
	for _, s := range paths {
		e := Ent{Pkg: Main, Path: s}
		if s[len(s)-1] == '/' {
			e.Path, e.Dir = s[:len(s)-1], true
		} else {
			e.Data = []byte(s)
		}
		m.Ents = append(m.Ents, e)
	}
	return m
}

// Text is a content for a file of that name: text, unless the go command reads it.
func Text(name, text string) []byte {
	if strings.HasSuffix(name, ".go") {
		return []byte("package p\n")
	}
	return []byte(text)
}

// Many is a tree with many entries: a flat one, a deep one, or one with long
// names.
func Many() *Model {
	n := []int{20, 40, 70, 130, 300}[vsym.Choose("entries", vsym.Param("entries", 5))]
	l := []string{"/b", "/d/"}
	s := "/d"
	switch vsym.Choose("form", 3) {
	case 0:
		for i := 0; i < n; i++ {
			s := "/d/e" + strconv.Itoa(i)
			if i%8 == 5 {
				l = append(l, s+"/", s+"/x")
				i++
				continue
			}
			l = append(l, s)
		}
	case 1:
		for i := 0; i < n/2; i++ {
			s += "/s"
			l = append(l, s+"/", s+"-f")
		}
	case 2:
		if n > 250 {
			n = 250
		}
		for i := 0; i < 4; i++ {
			s += "/" + strings.Repeat(string(rune('a'+i)), n)
			l = append(l, s+"/", s+"-f")
		}
	}
	return Fixed(append(l, "/d0", "/z/", "/z/y")...)
}

// Sizes of contents, around what buffers have.
var Sizes = []int{65537, 513, 4097, 131073, 32769, 511, 512, 4095, 4096, 32767, 32768, 65535, 65536, 300001}

// Long is a content of n bytes, a few of which can be any.
func Long(n int) []byte {
	in := make([]byte, n)
	for i := range in {
		in[i] = byte(i*7) ^ byte(i>>8)
	}
	for _, i := range []int{0, n / 2, n - 1} {
		in[i] = vsym.Byte("b")
	}
	return in
}
