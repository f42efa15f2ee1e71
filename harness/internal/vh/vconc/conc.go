// Package vconc: concurrent use.
package vconc

import (
	"encoding/json"
	"os"
	"sync"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

func par(fs ...func()) {
	var wg sync.WaitGroup
	bad := make([]interface{}, len(fs))
	for i, f := range fs {
		i, f, id := i, f, vsym.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			vsym.Enter(id)
			defer func() { bad[i] = recover() }()
			f()
		}()
	}
	wg.Wait()
	for _, r := range bad {
		if r != nil {
			panic(r)
		}
	}
}

func tree() *vlib.Model { return vlib.Fixed("/a/", "/a/x", "/b") }

func pack(m *vlib.Model) *mem.Pkger {
	p := vlib.Mem()
	m.Make(p)
	if vsym.Param("unpacked", 1) == 0 {
		return p
	}
	b, err := json.Marshal(p)
	vsym.Assert(err == nil, "marshal fails", err)
	q := &mem.Pkger{}
	err = json.Unmarshal(b, q)
	vsym.Assert(err == nil, "unmarshal fails", err)
	return q
}

const reads = 7

// read does one reading operation and checks its result.
func read(p pkging.Pkger, m *vlib.Model, op int) {
	switch op {
	case 0:
		vlib.CheckFile(p, *vlib.Has(m, vlib.Main, "/a/x"), "concurrent read")
	case 1:
		fi, err := p.Stat("/b")
		vsym.Assert(err == nil, "Stat fails", err)
		vlib.CheckInfo(fi, *vlib.Has(m, vlib.Main, "/b"), "concurrent Stat")
	case 2:
		n := 0
		err := p.Walk("/", func(name string, fi os.FileInfo, err error) error {
			n++
			return err
		})
		vsym.Assert(err == nil && n == 4, "wrong walk", n, err)
	case 3:
		f, err := p.Open("/a")
		vsym.Assert(err == nil, "Open fails", err)
		fis, err := f.Readdir(-1)
		vsym.Assert(err == nil && len(fis) == 1 && fis[0].Name() == "x", "wrong Readdir", len(fis), err)
	case 4:
		f, err := p.Open("/")
		vsym.Assert(err == nil, "Open fails", err)
		g, err := f.Open("/a/x")
		vsym.Assert(err == nil, "Open in a directory fails", err)
		b, err := vlib.ReadAll(g, 8, 4)
		vsym.Assert(err == nil && string(b) == "/a/x", "wrong content", b, err)
	case 5:
		i, err := p.Info(vlib.Main)
		vsym.Assert(err == nil && i.Dir == "/w/d/root", "wrong Info", err)
		c, err := p.Current()
		vsym.Assert(err == nil && c.Dir == "/w/d/root", "wrong Current", err)
	case 6:
		q, ok := p.(*mem.Pkger)
		if !ok {
			return
		}
		_, err := json.Marshal(q)
		vsym.Assert(err == nil, "marshal fails", err)
	}
}

var _ = vsym.Register("VerifConcReaders", VerifConcReaders)

// VerifConcReaders: any two readers of one pack do not disturb each other.
func VerifConcReaders() {
	m := tree()
	p := pack(m)
	a, b := vsym.Choose("a", reads), vsym.Choose("b", reads)
	vsym.Assume(a <= b)
	fs := []func(){func() { read(p, m, a) }, func() { read(p, m, b) }}
	if vsym.Param("third", 0) != 0 {
		c := vsym.Choose("c", reads)
		vsym.Assume(b <= c)
		fs = append(fs, func() { read(p, m, c) })
	}
	par(fs...)
}

var _ = vsym.Register("VerifConcFirstUse", VerifConcFirstUse)

const firsts = 6

func first(p pkging.Pkger, op int, name string) {
	switch op {
	case 0:
		vsym.Assert(vlib.Write(p, name, []byte(name)) == nil, "write fails")
		f, err := p.Open(name)
		vsym.Assert(err == nil, "own file does not open", err)
		b, err := vlib.ReadAll(f, 8, 4)
		vsym.Assert(err == nil && string(b) == name, "wrong content", b, err)
	case 1:
		vsym.Assert(p.MkdirAll(name, 0755) == nil, "MkdirAll fails")
		fi, err := p.Stat(name)
		vsym.Assert(err == nil && fi.IsDir(), "own directory is missing", err)
	case 2:
		p.Walk("/", func(name string, fi os.FileInfo, err error) error { return err })
	case 3:
		_, err := p.Stat("/none")
		vsym.Assert(err != nil, "Stat finds nothing")
	case 4:
		_, err := p.Info(vlib.Main)
		vsym.Assert(err == nil, "Info fails")
	case 5:
		vsym.Assert(p.RemoveAll("/none") == nil, "RemoveAll fails")
	}
}

// VerifConcFirstUse: a new Pkger may be used by two at once from the start, and
// neither loses what it made.
func VerifConcFirstUse() {
	var p pkging.Pkger
	if vsym.Bool("zero") {
		// one that was unpacked
		p = pack(vlib.Fixed())
	} else {
		p = vlib.Mem()
	}
	a, b := vsym.Choose("a", firsts), vsym.Choose("b", firsts)
	vsym.Assume(a <= b)
	fs := []func(){func() { first(p, a, "/p") }, func() { first(p, b, "/q") }}
	c := firsts
	if vsym.Param("third", 0) != 0 {
		c = vsym.Choose("c", firsts)
		vsym.Assume(b <= c)
		fs = append(fs, func() { first(p, c, "/r") })
	}
	par(fs...)
	if c <= 1 {
		fi, err := p.Stat("/r")
		vsym.Assert(err == nil && fi.IsDir() == (c == 1), "entry was lost", err)
	}
	if a <= 1 {
		fi, err := p.Stat("/p")
		vsym.Assert(err == nil && fi.IsDir() == (a == 1), "entry was lost", err)
	}
	if b <= 1 {
		fi, err := p.Stat("/q")
		vsym.Assert(err == nil && fi.IsDir() == (b == 1), "entry was lost", err)
	}
}

var _ = vsym.Register("VerifConcMix", VerifConcMix)

// VerifConcMix: a writer of one part of the tree does not disturb a reader of
// another.
func VerifConcMix() {
	m := tree()
	p := pack(m)
	a, b := vsym.Choose("a", 5), vsym.Choose("b", 6)
	fs := []func(){func() {
		switch a {
		case 0:
			vsym.Assert(vlib.Write(p, "/new", []byte("n")) == nil, "write fails")
		case 1:
			vsym.Assert(p.MkdirAll("/c/d", 0755) == nil, "MkdirAll fails")
		case 2:
			vsym.Assert(p.RemoveAll("/gone") == nil, "RemoveAll fails")
		case 3:
			vsym.Assert(vlib.Write(p, "/new", nil) == nil, "write fails")
			vsym.Assert(p.Remove("/new") == nil, "Remove fails")
		case 4:
			vsym.Assert(p.MkdirAll("/a", 0755) == nil, "MkdirAll fails")
		}
	}, func() {
		if b == 2 {
			// may see the other's entries, never lose its own
			seen := 0
			err := p.Walk("/", func(name string, fi os.FileInfo, err error) error {
				switch name {
				case vlib.Qual(vlib.Main, "/"), vlib.Qual(vlib.Main, "/a"), vlib.Qual(vlib.Main, "/a/x"), vlib.Qual(vlib.Main, "/b"):
					seen++
				}
				return err
			})
			vsym.Assert(err == nil && seen == 4, "walk lost entries", seen, err)
			return
		}
		read(p, m, b)
	}}
	c := -1
	if vsym.Param("third", 0) != 0 {
		// another one reads, or writes a third part
		c = vsym.Choose("c", 3)
		fs = append(fs, func() {
			switch c {
			case 0:
				read(p, m, 0)
			case 1:
				vsym.Assert(vlib.Write(p, "/three", []byte("3")) == nil, "write fails")
			case 2:
				vsym.Assert(p.MkdirAll("/c/e", 0755) == nil, "MkdirAll fails")
			}
		})
	}
	par(fs...)
	switch c {
	case 1:
		vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/three", Data: []byte("3")}, "afterwards")
	case 2:
		vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/c/e", Dir: true}, "afterwards")
	}
	for _, e := range m.Ents {
		vlib.CheckFile(p, e, "afterwards")
	}
	switch a {
	case 0:
		vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/new", Data: []byte("n")}, "afterwards")
	case 1:
		vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/c/d", Dir: true}, "afterwards")
	}
}

var _ = vsym.Register("VerifConcApply", VerifConcApply)

// VerifConcApply: layers are applied while others read: every reader sees the
// layers before or after, and no layer is lost.
func VerifConcApply() {
	base := vlib.Mem()
	mb := vlib.Fixed("/base")
	mb.Make(base)
	vsym.Assert(pkger.Apply(base, nil) == nil, "Apply fails")
	l1, l2 := vlib.Mem(), vlib.Mem()
	vlib.Fixed("/one").Make(l1)
	vlib.Fixed("/two").Make(l2)
	op := vsym.Choose("op", 5)
	see := func() {
		switch op {
		case 0:
			fi, err := pkger.Stat("/base")
			vsym.Assert(err == nil && fi.Size() == 5, "Stat fails meanwhile", err)
		case 1:
			f, err := pkger.Open("/base")
			vsym.Assert(err == nil && f.Close() == nil, "Open fails meanwhile", err)
			pkger.Open("/one")
		case 2:
			f, err := pkger.Dir("/").Open("/")
			vsym.Assert(err == nil && f.Close() == nil, "Dir.Open fails meanwhile", err)
		case 3:
			_, err := pkger.Current()
			vsym.Assert(err == nil, "Current fails meanwhile", err)
			_, err = pkger.Parse("/base")
			vsym.Assert(err == nil, "Parse fails meanwhile", err)
		case 4:
			n := 0
			err := pkger.Walk("/", func(name string, fi os.FileInfo, err error) error {
				vsym.Assert(err == nil, "walk error meanwhile", err)
				_, err = pkger.Stat("/base")
				vsym.Assert(err == nil, "Stat fails meanwhile", err)
				n++
				return nil
			})
			vsym.Assert(err == nil && n >= 2, "Walk fails meanwhile", n, err)
		}
	}
	if vsym.Bool("both") {
		par(func() { vsym.Assert(pkger.Apply(l1, nil) == nil, "Apply fails") },
			func() { vsym.Assert(pkger.Apply(l2, nil) == nil, "Apply fails"); see() })
		_, err := pkger.Stat("/two")
		vsym.Assert(err == nil, "a layer was lost", err)
	} else {
		par(func() { vsym.Assert(pkger.Apply(l1, nil) == nil, "Apply fails") }, see)
	}
	_, err := pkger.Stat("/one")
	vsym.Assert(err == nil, "a layer was lost", err)
	_, err = pkger.Stat("/base")
	vsym.Assert(err == nil, "the first layer was lost", err)
}

var _ = vsym.Register("VerifConcFresh", VerifConcFresh)

// VerifConcFresh: the package may be used by two at once from its first use on,
// before any layer is applied.
func VerifConcFresh() {
	l1, l2, l3 := vlib.Mem(), vlib.Mem(), vlib.Mem()
	vlib.Fixed("/one").Make(l1)
	vlib.Fixed("/two").Make(l2)
	vlib.Fixed("/three").Make(l3)
	use := func(op int, l pkging.Pkger) {
		switch op {
		case 0:
			vsym.Assert(pkger.Apply(l, nil) == nil, "Apply fails")
		case 1:
			_, err := pkger.Stat("/none of this name")
			vsym.Assert(err != nil, "Stat finds nothing")
		case 2:
			_, err := pkger.Dir("/none of this name").Open("/x")
			vsym.Assert(err != nil, "Dir.Open finds nothing")
		case 3:
			_, err := pkger.Parse("/x")
			vsym.Assert(err == nil, "Parse fails meanwhile", err)
		case 4:
			// what it finds depends on where the process was started
			pkger.Current()
		case 5:
			pkger.Walk("/none of this name", func(_ string, _ os.FileInfo, err error) error { return nil })
		}
	}
	a, b := vsym.Choose("a", 6), vsym.Choose("b", 6)
	vsym.Assume(a <= b)
	par(func() { use(a, l1) }, func() { use(b, l2) })
	vsym.Assert(pkger.Apply(l3, nil) == nil, "Apply fails")
	names := []string{"/three"}
	if a == 0 {
		names = append(names, "/one")
	}
	if b == 0 {
		names = append(names, "/two")
	}
	for _, n := range names {
		fi, err := pkger.Stat(n)
		vsym.Assert(err == nil && fi.Size() == int64(len(n)), "a layer was lost", n, err)
	}
}
