package vpack

import (
	"encoding/json"
	"os"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
)

var sizes = []int{100, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131073, 300001}

var _ = vsym.Register("VerifEmbedBig", VerifEmbedBig)

// VerifEmbedBig: long contents, too, are decoded to what they were, and their
// form, with any byte altered or an end cut off, to nothing else.
func VerifEmbedBig() {
	n := sizes[vsym.Choose("size", vsym.Param("sizes", len(sizes)))]
	in := make([]byte, n)
	if vsym.Bool("mixed") {
		for i := range in {
			in[i] = byte(i*7) ^ byte(i>>8)
		}
	}
	for _, i := range []int{0, 1, n / 2, n - 1} {
		in[i] = vsym.Byte("b")
	}
	keep := append([]byte(nil), in...)
	enc, err := embed.Encode(in)
	vsym.Assert(err == nil, "Encode fails", err)
	vsym.Assert(vsym.EqB(in, keep), "Encode changes its argument")
	dec, err := embed.Decode(enc)
	vsym.Assert(err == nil && len(dec) == n, "Decode fails", err, len(dec))
	vsym.Assert(vsym.EqB(dec, keep), "Decode does not undo Encode")
	k := []int{1, 2, 15, 16, 17, 32, 64}[vsym.Choose("cut", 7)]
	dec, err = embed.Decode(enc[:len(enc)-k])
	if err == nil {
		vsym.Assert(vsym.EqB(dec, keep), "truncated data decoded to something else", len(dec))
	}
	vsym.ObserveI("n", n)
}

var _ = vsym.Register("VerifPackFields", VerifPackFields)

// VerifPackFields: what a pack says about a file is what was put into it.
func VerifPackFields() {
	o := fakeInfo{name: "f", size: 1, mode: 0644}
	data := []byte{'x'}
	pkg, sub := vlib.Main, ""
	if vsym.Bool("dir") {
		o.mode = os.ModeDir | 0755
	}
	// the fields do not interact
	switch vsym.Choose("field", 4) {
	case 0:
		o.mt = moment()
	case 1:
		o.mode = o.mode&^0777 | os.FileMode(vsym.Int("perm", 0, 0777))
		o.mode |= []os.FileMode{0, os.ModeSetuid, os.ModeSticky, os.ModeSetgid}[vsym.Choose("bits", 4)]
	case 2:
		pkg = []string{vlib.Main, vlib.Dep}[vsym.Choose("pkg", 2)]
		sub = []string{"", "/sub"}[vsym.Choose("sub", 2)]
	case 3:
		data = vsym.Bytes("data", 1)
	}
	if o.mode.IsDir() {
		data, o.size = nil, 4096
	}
	h := vlib.ModOf(pkg)
	h.Dir += sub
	h.ImportPath += sub
	name := vlib.Qual(pkg, sub+"/f")
	d := embed.Data{
		Infos: map[string]here.Info{vlib.Main: vlib.ModOf(vlib.Main)},
		Files: map[string]embed.File{name: {Info: pkging.NewFileInfo(o), Here: h, Path: here.Path{Pkg: pkg, Name: sub + "/f"}, Parent: here.Path{Pkg: pkg, Name: sub}, Data: data}},
		Here:  vlib.ModOf(vlib.Main),
	}
	b, err := json.Marshal(d)
	vsym.Assert(err == nil, "marshal fails", err)
	for i := 0; i < 2; i++ {
		p := &mem.Pkger{}
		vsym.Assert(json.Unmarshal(b, p) == nil, "unmarshal fails")
		check := func(fi os.FileInfo, what string) {
			vsym.Assert(fi.Name() == o.name && fi.Size() == o.size, what+": name or size changed", fi.Name(), fi.Size())
			vsym.Assert(fi.Mode() == o.mode && fi.IsDir() == o.mode.IsDir(), what+": mode changed", uint32(fi.Mode()), uint32(o.mode))
			vsym.Assert(fi.ModTime().Equal(o.mt), what+": time changed")
		}
		fi, err := p.Stat(name)
		vsym.Assert(err == nil, "Stat fails", err)
		check(fi, "Stat")
		f, err := p.Open(name)
		vsym.Assert(err == nil, "Open fails", err)
		fi, err = f.Stat()
		vsym.Assert(err == nil, "Stat of the open file fails", err)
		check(fi, "open file")
		vsym.Assert(f.Name() == name && same(f.Info(), h), "module changed", f.Name(), f.Info().Dir)
		if !o.mode.IsDir() {
			got, err := vlib.ReadAll(f, 4, 4)
			vsym.Assert(err == nil && vsym.EqB(got, data), "content changed", got, data)
		}
		n := 0
		err = p.Walk(vlib.Qual(pkg, "/"), func(s string, fi os.FileInfo, err error) error {
			if s == name {
				n++
				check(fi, "walk")
			}
			return err
		})
		vsym.Assert(err == nil && n == 1, "walk does not visit it", n, err)
		b, err = json.Marshal(p)
		vsym.Assert(err == nil, "marshal fails", err)
	}
}
