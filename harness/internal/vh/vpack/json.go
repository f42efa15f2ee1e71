// Package vpack: packs, their serialization and encoding.
package vpack

import (
	"encoding/json"
	"errors"
	"os"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
)

func opts() vlib.Opt {
	alpha := vlib.Wide
	if vsym.Param("wide", 1) == 0 {
		alpha = "ab-"
	}
	if vsym.Param("odd", 0) != 0 {
		alpha = vlib.OddAlpha()
	}
	return vlib.Opt{N: vsym.Param("n", 2), Alpha: alpha, Max: vsym.Param("max", 1), Data: vsym.Param("data", 2), Pkgs: vsym.Param("pkgs", 1) != 0, Loose: vsym.Param("loose", 0) != 0}
}

type rec struct {
	name string
	size int64
	mode os.FileMode
	mt   time.Time
}

func infos(p pkging.Pkger, m *vlib.Model) []rec {
	var r []rec
	for _, e := range m.Ents {
		fi, err := p.Stat(vlib.Qual(e.Pkg, e.Path))
		vsym.Assert(err == nil, "entry lost", e.Path, err)
		r = append(r, rec{fi.Name(), fi.Size(), fi.Mode(), fi.ModTime()})
	}
	return r
}

func same(a, b here.Info) bool {
	return a.Dir == b.Dir && a.ImportPath == b.ImportPath && a.Name == b.Name && a.Module == b.Module
}

// sameInfos: b answers for files and modules as a does.
func sameInfos(a, b pkging.Pkger, m *vlib.Model) {
	x, y := infos(a, m), infos(b, m)
	for i := range x {
		vsym.Assert(x[i].name == y[i].name, "name changed", x[i].name, y[i].name)
		vsym.Assert(x[i].size == y[i].size, "size changed", x[i].name)
		vsym.Assert(x[i].mode == y[i].mode, "mode changed", x[i].name, uint32(x[i].mode), uint32(y[i].mode))
		vsym.Assert(x[i].mt.Equal(y[i].mt), "time changed", x[i].name)
	}
	c, err := a.Current()
	vsym.Assert(err == nil, "Current fails")
	d, err := b.Current()
	vsym.Assert(err == nil && same(c, d), "current module changed", c.Dir, d.Dir, err)
	for _, e := range m.Ents {
		c, errc := a.Info(e.Pkg)
		d, err := b.Info(e.Pkg)
		vsym.Assert((errc == nil) == (err == nil), "a module is known to one only", e.Pkg, errc, err)
		vsym.Assert(err != nil || same(c, d), "module info changed", e.Pkg)
		f, err := a.Open(vlib.Qual(e.Pkg, e.Path))
		vsym.Assert(err == nil, "Open fails", e.Path, err)
		g, err := b.Open(vlib.Qual(e.Pkg, e.Path))
		vsym.Assert(err == nil, "Open fails in the copy", e.Path, err)
		vsym.Assert(same(f.Info(), g.Info()), "module info of a file changed", e.Path)
		want := vlib.ModOf(e.Pkg)
		if vsym.Param("loose", 0) != 0 {
			want = vlib.HereOf(e)
		}
		vsym.Assert(same(g.Info(), want), "a file belongs to another module", e.Path, g.Info().Dir)
		if e.Dir {
			fis, err := g.Readdir(-1)
			vsym.Assert(err == nil && len(fis) == len(m.Children(e.Pkg, e.Path)), "entries changed", e.Path, len(fis), err)
		}
	}
}

var _ = vsym.Register("VerifPackJSON", VerifPackJSON)

// VerifPackJSON: unmarshalling a marshalled Pkger gives the same files,
// contents, infos and modules, and marshalling does not change it.
func VerifPackJSON() {
	p := vlib.Mem2()
	m := vlib.Build(p, opts())
	b, err := json.Marshal(p)
	vsym.Assert(err == nil, "marshal fails", err)
	q := &mem.Pkger{}
	if vsym.Param("used", 0) != 0 {
		// one that holds something else
		q = vlib.Mem()
		m0 := vlib.Fixed("/x/", "/x/y", "/b")
		m0.Make(q)
	}
	err = json.Unmarshal(b, q)
	vsym.Assert(err == nil, "unmarshal fails", err)
	vlib.CheckAll(q, m, "unpacked")
	sameInfos(p, q, m)
	if vsym.Param("twice", 1) != 0 {
		vsym.Assume(vlib.Has(m, vlib.Main, "/zz") == nil)
		// the copy can be used like the original: changed, and packed again
		err = vlib.Write(q, "/zz", []byte("z"))
		vsym.Assert(err == nil, "unpacked Pkger is not usable", err)
		m2 := &vlib.Model{Ents: append(append([]vlib.Ent{}, m.Ents...), vlib.Ent{Pkg: vlib.Main, Path: "/zz", Data: []byte("z")})}
		if vlib.Has(m2, vlib.Main, "/") == nil {
			// Create makes the root
			m2.Ents = append(m2.Ents, vlib.Ent{Pkg: vlib.Main, Path: "/", Dir: true})
		}
		b, err = json.Marshal(q)
		vsym.Assert(err == nil, "marshal fails", err)
		r := &mem.Pkger{}
		err = json.Unmarshal(b, r)
		vsym.Assert(err == nil, "unmarshal fails", err)
		vlib.CheckAll(r, m2, "unpacked twice")
		vlib.CheckAll(p, m, "original")
	}
	vsym.ObserveI("entries", len(m.Ents))
}

var _ = vsym.Register("VerifFileInfo", VerifFileInfo)

type fakeInfo struct {
	name string
	size int64
	mode os.FileMode
	mt   time.Time
}

func (f fakeInfo) Name() string       { return f.name }
func (f fakeInfo) Size() int64        { return f.size }
func (f fakeInfo) Mode() os.FileMode  { return f.mode }
func (f fakeInfo) ModTime() time.Time { return f.mt }
func (f fakeInfo) IsDir() bool        { return f.mode.IsDir() }
func (f fakeInfo) Sys() interface{}   { return nil }

// VerifFileInfo: a FileInfo copied, and one that went through JSON, says what
// the original says.
func VerifFileInfo() {
	o := fakeInfo{name: "n", size: 3, mode: 0644, mt: time.Unix(1600000000, 0)}
	// the fields do not interact: one of them is arbitrary
	switch vsym.Param("field", 0) {
	case 0:
		o.name = vsym.String("name", 2)
		for i := 0; i < 2; i++ {
			vsym.Assume(vsym.And(o.name[i] >= ' ', o.name[i] < 0x7f))
		}
	case 1:
		o.size = int64(vsym.Int("size", 0, vsym.Param("maxsize", 100)))
		o.size += []int64{0, 950, 1<<31 - 50, 1<<32 - 50, 1<<53 - 50, 1<<63 - 101}[vsym.Choose("base", 6)]
	case 2:
		o.mode = os.FileMode(vsym.Int("perm", 0, 0777))
		o.mode |= []os.FileMode{0, os.ModeDir, os.ModeSymlink, os.ModeSetuid, os.ModeDir | os.ModeSticky, os.ModeNamedPipe}[vsym.Choose("type", 6)]
	case 3:
		o.mt = moment()
	}
	fi := pkging.NewFileInfo(o)
	check := func(fi os.FileInfo, what string) {
		vsym.Assert(fi.Name() == o.name, what+": name changed", fi.Name(), o.name)
		vsym.Assert(fi.Size() == o.size, what+": size changed", fi.Size(), o.size)
		vsym.Assert(fi.Mode() == o.mode, what+": mode changed", uint32(fi.Mode()), uint32(o.mode))
		vsym.Assert(fi.IsDir() == o.mode.IsDir(), what+": kind changed")
		vsym.Assert(fi.ModTime().Equal(o.mt), what+": time changed", fi.ModTime().UnixNano(), o.mt.UnixNano())
	}
	check(fi, "copy")
	b, err := json.Marshal(fi)
	vsym.Assert(err == nil, "marshal fails", err)
	g := &pkging.FileInfo{}
	err = json.Unmarshal(b, g)
	vsym.Assert(err == nil, "unmarshal fails", err)
	check(g, "JSON")
	check(pkging.NewFileInfo(g), "copy of JSON")
}

// moment is a point in time: any nanosecond around some second, any zone.
func moment() time.Time {
	sec := int64(1600000000)
	switch vsym.Choose("era", 4) {
	case 1:
		sec = 0
	case 2:
		sec = -1
	case 3:
		sec = 253402214400 // 9999
	}
	ns := int64(vsym.Int("ns", 0, vsym.Param("maxns", 9)))
	switch vsym.Choose("unit", 3) {
	case 1:
		ns *= 1000
	case 2:
		ns *= 100000000
	}
	t := time.Unix(sec, ns).UTC()
	if vsym.Bool("zone") {
		t = t.In(time.FixedZone("X", 3600+1800))
	}
	return t
}

var _ = vsym.Register("VerifEmbed", VerifEmbed)

// VerifEmbed: Decode undoes Encode for all contents, and the encoded form is
// plain text.
func VerifEmbed() {
	n := vsym.Param("len", 4)
	var in []byte
	k := vsym.Int("len", 0, n)
	for i := 0; i <= n; i++ {
		if i == k {
			in = vsym.Bytes("b", i)
		}
	}
	keep := append([]byte(nil), in...)
	enc, err := embed.Encode(in)
	vsym.Assert(err == nil, "Encode fails", err)
	for _, c := range enc {
		// it is put between backquotes in Go source
		vsym.Assert(vsym.And(vsym.And(c >= ' ', c < 0x7f), c != '`'), "encoded form does not fit a raw string", c)
	}
	dec, err := embed.Decode(enc)
	vsym.Assert(err == nil, "Decode fails", err)
	vsym.Assert(vsym.EqB(dec, keep), "Decode does not undo Encode", dec, keep)
	vsym.Assert(vsym.EqB(in, keep), "Encode changes its argument")
	// and what came before stays when there is more
	was := string(enc)
	other := append([]byte{byte(n)}, keep...)
	enc2, err := embed.Encode(other)
	vsym.Assert(err == nil && was == string(enc), "Encode changes what it gave before", err)
	dec2, err := embed.Decode(enc2)
	vsym.Assert(err == nil && vsym.EqB(dec2, other), "the second Decode does not undo Encode", dec2, err)
	vsym.Assert(vsym.EqB(dec, keep) && was == string(enc), "Decode changes what it gave before, or its argument", dec, keep)
	vsym.ObserveS("dec", string(dec))
}

var _ = vsym.Register("VerifEmbedBroken", VerifEmbedBroken)

// VerifEmbedBroken: a truncated or altered encoded form is an error, or gives
// the original, never something else.
func VerifEmbedBroken() {
	n := vsym.Param("len", 3)
	in := vsym.Bytes("b", n)
	enc, err := embed.Encode(in)
	vsym.Assert(err == nil, "Encode fails", err)
	bad := append([]byte(nil), enc...)
	if vsym.Bool("truncate") {
		// the cut counts from the end: natively the stream is longer
		k := vsym.Int("cut", 1, vsym.Param("maxcut", 60))
		vsym.Assume(k <= len(bad))
		bad = bad[:len(bad)-k]
		vsym.Cover("truncated")
	} else {
		k := vsym.Int("at", 1, vsym.Param("maxat", 60))
		vsym.Assume(k <= len(bad))
		c := vsym.Byte("c")
		bad[len(bad)-k] = c
		vsym.Cover("altered")
	}
	dec, err := embed.Decode(bad)
	if err != nil {
		vsym.Cover("refused")
		return
	}
	vsym.Assert(vsym.EqB(dec, in), "broken data decoded to something else", dec, in)
}

var _ = vsym.Register("VerifUnmarshalEmbed", VerifUnmarshalEmbed)

// VerifUnmarshalEmbed: the whole way, from a Pkger to its embedded form and
// back.
func VerifUnmarshalEmbed() {
	p := vlib.Mem2()
	m := vlib.Build(p, opts())
	b, err := json.Marshal(p)
	vsym.Assert(err == nil, "marshal fails", err)
	enc, err := embed.Encode(b)
	vsym.Assert(err == nil, "Encode fails", err)
	q, err := mem.UnmarshalEmbed(enc)
	vsym.Assert(err == nil, "UnmarshalEmbed fails", err)
	vlib.CheckAll(q, m, "unpacked")
	sameInfos(p, q, m)
	k := vsym.Int("cut", 1, 3)
	q, err = mem.UnmarshalEmbed(enc[:len(enc)-k])
	vsym.Assert(err != nil, "truncated pack unpacks", k)
	vsym.ObserveI("entries", len(m.Ents))
}

var _ = vsym.Register("VerifDump", VerifDump)

// full is a writer that fails when it has taken some bytes.
type full struct {
	b    []byte
	left int
}

func (w *full) Write(b []byte) (int, error) {
	if len(b) > w.left {
		return 0, errors.New("full")
	}
	w.left -= len(b)
	w.b = append(w.b, b...)
	return len(b), nil
}

// VerifDump: Dump prints every path of a Pkger with its info, or fails.
func VerifDump() {
	p := vlib.World()
	var m *vlib.Model
	if vsym.Param("many", 0) != 0 {
		m = vlib.Many()
		m.Make(p)
	} else {
		m = vlib.Build(p, opts())
	}
	if vsym.Param("deny", 0) != 0 {
		// something below that cannot be read, or looked into
		i := vsym.Choose("which", len(m.Ents))
		e := m.Ents[i]
		vsym.Assume(e.Dir)
		mode := []os.FileMode{0, 0111, 0444, 0300}[vsym.Choose("mode", 4)]
		vsym.Assert(os.Chmod(vsym.Root()+e.Path, mode) == nil, "setup fails")
		bb := &full{left: 1 << 20}
		err := pkgutil.Dump(bb, p)
		vsym.Assert(os.Chmod(vsym.Root()+e.Path, 0755) == nil, "setup fails")
		ok := mode == 0444 && len(m.Children(e.Pkg, e.Path)) == 0
		vsym.Assert((err == nil) == ok, "a dump that is cut short is no error", e.Path, uint32(mode), err)
		vsym.Assert(ok || len(bb.b) == 0, "it prints what is not true")
		vsym.ObserveB("ok", ok)
		return
	}
	open := vsym.OpenFiles()
	w := &full{left: 1 << 20}
	if vsym.Bool("full") {
		w.left = vsym.Choose("room", 2) * 100
	}
	err := pkgutil.Dump(w, p)
	vsym.Assert(vsym.OpenFiles() == open, "a file is still open")
	if w.left < 1<<18 {
		vsym.Assert(err != nil, "a lost dump is no error")
		return
	}
	vsym.Assert(err == nil, "Dump fails", err)
	d := struct {
		Type  string
		Info  here.Info
		Paths map[string]*pkging.FileInfo
	}{}
	vsym.Assert(json.Unmarshal(w.b, &d) == nil, "the dump is not JSON", string(w.b))
	c, err := p.Current()
	vsym.Assert(err == nil && same(c, d.Info), "wrong module", d.Info.Dir)
	vsym.Assert(len(d.Paths) == len(m.Ents), "wrong number of paths", len(d.Paths), len(m.Ents))
	for _, e := range m.Ents {
		fi := d.Paths[vlib.Qual(e.Pkg, e.Path)]
		vsym.Assert(fi != nil, "a path is missing", e.Path)
		vlib.CheckInfo(fi, e, "dump")
		x, err := p.Stat(vlib.Qual(e.Pkg, e.Path))
		vsym.Assert(err == nil && x.Size() == fi.Size() && x.Mode() == fi.Mode() && x.ModTime().Equal(fi.ModTime()), "wrong info", e.Path)
	}
	vsym.ObserveI("paths", len(d.Paths))
}
