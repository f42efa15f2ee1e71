package vmem

import (
	"encoding/json"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"

	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

var sizes = vlib.Sizes

// big is n bytes, of which some are arbitrary: the first, the last, and those
// about the places at.
func big(name string, n int, at ...int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i) ^ byte(i>>8)
	}
	sym := func(i int) {
		if i >= 0 && i < n {
			b[i] = vsym.Byte(name)
		}
	}
	sym(0)
	sym(n - 1)
	for _, i := range at {
		sym(i - 1)
		sym(i)
	}
	return b
}

var _ = vsym.Register("VerifMemBig", VerifMemBig)

// VerifMemBig: contents as long as, or longer than, any buffer are kept, in
// whatever pieces they are written and read.
func VerifMemBig() {
	p := vlib.Mem()
	n := sizes[vsym.Choose("size", vsym.Param("sizes", len(sizes)))]
	cut := []int{0, 1, 512, n / 2, n - 1}[vsym.Choose("cut", 5)]
	if cut > n {
		cut = n
	}
	data := big("data", n, cut, 512, 4096, 32768)
	f, err := p.Create("/f")
	vsym.Assert(err == nil, "Create fails", err)
	g, err := p.Create("/g")
	vsym.Assert(err == nil, "Create fails", err)
	for _, b := range [][]byte{data[:cut], data[cut:]} {
		b = append([]byte(nil), b...)
		k, err := f.Write(b)
		vsym.Assert(err == nil && k == len(b), "short write", k, len(b), err)
		scribble(b)
		_, err = g.Write([]byte("g"))
		vsym.Assert(err == nil, "write fails", err)
	}
	vsym.Assert(f.Close() == nil && g.Close() == nil, "Close fails")
	var q pkging.Pkger = p
	if vsym.Param("packed", 0) != 0 {
		b, err := json.Marshal(p)
		vsym.Assert(err == nil, "marshal fails", err)
		m := &mem.Pkger{}
		vsym.Assert(json.Unmarshal(b, m) == nil, "unmarshal fails")
		q = m
	}
	fi, err := q.Stat("/f")
	vsym.Assert(err == nil && fi.Size() == int64(n), "wrong size", fi, err)
	f, err = q.Open("/f")
	vsym.Assert(err == nil, "Open fails", err)
	var got []byte
	switch vsym.Choose("how", 4) {
	case 0:
		got, err = ioutil.ReadAll(f)
	case 1:
		got, err = vlib.ReadAll(f, 4096, n)
	case 2:
		got, err = vlib.ReadAll(f, n+1, 3)
	case 3:
		// the end first, then all of it
		at, err := f.Seek(-3, 2)
		vsym.Assert(err == nil && at == int64(n-3), "wrong position", at, err)
		b, err := ioutil.ReadAll(f)
		vsym.Assert(err == nil && vsym.EqB(b, data[n-3:]), "wrong end", b)
		at, err = f.Seek(0, 0)
		vsym.Assert(err == nil && at == 0, "wrong position", at, err)
		got, err = vlib.ReadAll(f, 32768, n)
		vsym.Assert(err == nil, "read fails", err)
	}
	vsym.Assert(err == nil, "read fails", err)
	vsym.Assert(len(got) == n, "wrong length", len(got), n)
	vsym.Assert(vsym.EqB(got, data), "wrong content")
	vsym.Assert(f.Close() == nil, "Close fails")
	vlib.CheckFile(q, vlib.Ent{Pkg: vlib.Main, Path: "/g", Data: []byte("gg")}, "other file")
	vsym.ObserveI("n", n)
}

// names are ordered in different ways by different orders.
var names = []string{"B", "a", "a-b", "a.b", "a0", "aa", "ab", "b", "k1", "k10", "k2", "z"}

// wide makes a directory with many entries, some of them directories.
func wide(p pkging.Pkger) *vlib.Model {
	l := []string{"/d/"}
	for i, n := range names {
		s := "/d/" + n
		if i%3 == 1 {
			s += "/"
		}
		l = append(l, s)
	}
	for _, n := range []string{"a/x/", "a/x/y/", "a/x/y/z/", "a/x/y/z/f", "a/b", "b/c", "b/d/", "b/d/a", "k10/q"} {
		if n[0] == 'k' || n[0] == 'b' && names[7] != "b" {
			continue
		}
		l = append(l, "/d/"+n)
	}
	l = append(l, "/d0", "/d-/", "/d-/x")
	m := vlib.Fixed(l...)
	m.Make(p)
	return m
}

var _ = vsym.Register("VerifMemWide", VerifMemWide)

// VerifMemWide: directories with many entries, and deep ones, are listed in any
// pieces and walked as a whole, or up to any visit.
func VerifMemWide() {
	p := world()
	m := wide(p)
	if vsym.Param("disk", 0) == 0 && vsym.Param("packed", 0) != 0 {
		b, err := json.Marshal(p)
		vsym.Assert(err == nil, "marshal fails", err)
		q := &mem.Pkger{}
		vsym.Assert(json.Unmarshal(b, q) == nil, "unmarshal fails")
		p = q
	}
	if vsym.Bool("list") {
		want := m.Children(vlib.Main, "/d")
		f, err := p.Open("/d")
		vsym.Assert(err == nil, "Open fails", err)
		seen := map[string]bool{}
		at := 0
		for i := 0; i < 2; i++ {
			n := vsym.Int("count", 1, len(want)+1)
			fis, err := f.Readdir(n)
			exp := len(want) - at
			if exp > n {
				exp = n
			}
			if exp == 0 {
				vsym.Assert(err == io.EOF && len(fis) == 0, "no EOF at the end", len(fis), err)
				continue
			}
			vsym.Assert(err == nil && len(fis) == exp, "wrong number of entries", n, len(fis), exp, err)
			for j, fi := range fis {
				vsym.Assert(!seen[fi.Name()], "entry twice", fi.Name())
				seen[fi.Name()] = true
				if vsym.Param("disk", 0) == 0 {
					vlib.CheckInfo(fi, want[at+j], "entry")
				}
			}
			at += exp
		}
		fis, err := f.Readdir(-1)
		vsym.Assert(err == nil && len(fis) == len(want)-at, "wrong rest", len(fis), len(want)-at, err)
		vsym.Assert(f.Close() == nil, "Close fails")
		vsym.ObserveI("at", at)
		return
	}
	root := []string{"/", "/d", "/d/a", "/d-"}[vsym.Choose("root", 4)]
	want := m.Tree(vlib.Main, root)
	k := vsym.Int("k", 0, len(want))
	skip, at := "", 0
	err := p.Walk(vlib.Qual(vlib.Main, root), func(name string, fi os.FileInfo, err error) error {
		vsym.Assert(err == nil, "walk error", err)
		for at < len(want) && skip != "" && vlib.Within(skip, want[at].Path) {
			at++
		}
		vsym.Assert(at < len(want), "too many visits", name)
		e := want[at]
		vsym.Assert(name == vlib.Qual(vlib.Main, e.Path), "wrong visit", name, e.Path)
		vlib.CheckInfo(fi, e, "visit")
		at++
		if at-1 == k && e.Dir && e.Path != root {
			skip = e.Path
			return filepath.SkipDir
		}
		return nil
	})
	for at < len(want) && skip != "" && vlib.Within(skip, want[at].Path) {
		at++
	}
	vsym.Assert(err == nil && at == len(want), "entries not visited", at, len(want), err)
	vsym.ObserveS("walk", root+strconv.Itoa(k))
}

var _ = vsym.Register("VerifMemBigSeek", VerifMemBigSeek)

// VerifMemBigSeek: any place of a long content can be sought, from the start,
// from where one is and from the end, and read from.
func VerifMemBigSeek() {
	p := vlib.Mem()
	n := []int{600, 5000, 33000, 70000, 140000}[vsym.Choose("size", vsym.Param("sizes", 5))]
	var ats []int
	for _, k := range []int{0, 255, 512, 4096, 32768, 65536, 131072, n / 2, n} {
		if k <= n {
			ats = append(ats, k)
		}
	}
	at := ats[vsym.Choose("at", len(ats))] + vsym.ConcreteInt(vsym.Int("delta", -1, 2))
	vsym.Assume(at >= 0)
	data := big("data", n, at)
	vsym.Assert(vlib.Write(p, "/f", data) == nil, "setup fails")
	f, err := p.Open("/f")
	vsym.Assert(err == nil, "Open fails", err)
	var to int64
	switch vsym.Choose("whence", 3) {
	case 0:
		to, err = f.Seek(int64(at), 0)
	case 1:
		first := vsym.Choose("first", 2) * (n - 1)
		to, err = f.Seek(int64(first), 0)
		vsym.Assert(err == nil && to == int64(first), "wrong position", to, first, err)
		to, err = f.Seek(int64(at-first), 1)
	case 2:
		to, err = f.Seek(int64(at-n), 2)
	}
	vsym.Assert(err == nil && to == int64(at), "wrong position", to, at, err)
	want := []byte{}
	if at < n {
		want = data[at:]
	}
	if vsym.Bool("rest") {
		got, err := ioutil.ReadAll(f)
		vsym.Assert(err == nil && vsym.EqB(got, want), "wrong rest", at, len(got), err)
		want = nil
	} else {
		b := make([]byte, 3)
		k, err := io.ReadFull(f, b)
		if len(want) < 3 {
			vsym.Assert(err == io.EOF || err == io.ErrUnexpectedEOF, "no end", err)
		} else {
			vsym.Assert(err == nil, "read fails", err)
			want = want[:3]
		}
		vsym.Assert(vsym.EqB(b[:k], want), "wrong content", at, b[:k])
		want = nil
		if at+k < n {
			want = data[at+k:]
		}
	}
	to, err = f.Seek(0, 1)
	vsym.Assert(err == nil && (to == int64(n-len(want)) || to == int64(at) && at > n), "wrong position after reading", to, err)
	vsym.ObserveI("at", at)
}
