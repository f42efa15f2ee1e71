package vmem

import (
	"errors"
	"io"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
)

var _ = vsym.Register("VerifMemWalk", VerifMemWalk)

// stops are errors with which a function ends a walk.
var stops = []error{errors.New("stop"), io.EOF, os.ErrNotExist, &os.PathError{Op: "open", Path: "/a", Err: os.ErrPermission}, &os.PathError{Op: "open", Path: "/a", Err: filepath.SkipDir}}

// VerifMemWalk: Walk visits what filepath.Walk would, in its order, with the
// right infos, for any answers of the walk function.
func VerifMemWalk() {
	p := world()
	o := opts()
	m := vlib.Build(p, o)
	pkg := argPkg(o)
	// any entry, as the root of the walk
	k := vsym.Int("root", 0, o.N+1)
	root := vlib.Ent{Pkg: pkg, Path: "/", Dir: true}
	if o.Loose {
		// or the root directory, that is not in the pack
		vsym.Assume(k <= len(m.Ents))
	} else {
		vsym.Assume(k < len(m.Ents))
	}
	for i := range m.Ents {
		if k == i {
			root = m.Ents[i]
		}
	}
	vsym.Assume(root.Pkg == pkg)
	want := m.Tree(pkg, root.Path)
	// the answers: nothing special, SkipDir or an error at one or two visits
	visits := 0
	gone := map[string]bool{} // removed after the walk saw them
	skip, at := "", 0         // below skip nothing may be visited
	done := false
	var stop error
	err := p.Walk(vlib.Qual(pkg, root.Path), func(name string, fi os.FileInfo, err error) error {
		vsym.Assert(!done, "visit after the end", name)
		for at < len(want) && skip != "" && vlib.Within(skip, want[at].Path) {
			at++
		}
		vsym.Assert(at < len(want), "too many visits", name)
		e := want[at]
		vsym.Assert(name == vlib.Qual(pkg, e.Path), "wrong visit", name, e.Path)
		if gone[e.Path] {
			vsym.Assert(fi == nil && os.IsNotExist(err), "no error for what was removed", name, err)
			at++
			return nil
		}
		vsym.Assert(err == nil, "walk error", err)
		vlib.CheckInfo(fi, e, "visit")
		at++
		visits++
		if vsym.Param("use", 0) != 0 {
			// the function may use the Pkger
			vlib.CheckFile(p, e, "during the walk")
			switch vsym.Choose("remove", 3) {
			case 1:
				if !e.Dir {
					vsym.Assert(p.Remove(name) == nil, "Remove fails", name)
					m.RemoveAll(e.Pkg, e.Path)
					vsym.Cover("removed")
				}
			case 2:
				// one that was not visited yet
				if at >= len(want) {
					break
				}
				i := len(want) - 1
				if vsym.Bool("next") {
					i = at
				}
				x := want[i].Path
				vsym.Assert(p.RemoveAll(vlib.Qual(pkg, x)) == nil, "RemoveAll fails", x)
				m.RemoveAll(pkg, x)
				left := append([]vlib.Ent(nil), want[:at]...)
				for _, y := range want[at:] {
					known := false // to the walk, which is in that directory
					for _, v := range want[:at] {
						known = known || v.Path == path.Dir(x)
					}
					if y.Path == x && known && vsym.Param("disk", 0) != 0 {
						gone[x] = true
						left = append(left, y)
					} else if !vlib.Within(x, y.Path) {
						left = append(left, y)
					}
				}
				want = left
				vsym.Cover("removed another")
			}
		}
		switch vsym.Choose("answer", 3) {
		case 1:
			vsym.Cover("SkipDir")
			skip = e.Path
			if !e.Dir {
				skip = e.Path[:strings.LastIndexByte(e.Path, '/')]
				if skip == "" {
					skip = "/"
				}
			}
			if e.Path == root.Path || vlib.Within(skip, root.Path) {
				done = true
			}
			return filepath.SkipDir
		case 2:
			vsym.Cover("error")
			done = true
			stop = stops[vsym.Choose("err", len(stops))]
			return stop
		}
		return nil
	})
	if done {
		vsym.Assert(err == stop, "not the error of the function", err, stop)
	} else {
		vsym.Assert(err == nil, "Walk fails", err)
		for at < len(want) && skip != "" && vlib.Within(skip, want[at].Path) {
			at++
		}
		vsym.Assert(at == len(want), "entries not visited", at, len(want))
	}
	if vsym.Param("use", 0) != 0 {
		vlib.CheckAll(p, m, "after the walk")
	}
	vsym.ObserveI("visits", visits)
}

var _ = vsym.Register("VerifMemReaddir", VerifMemReaddir)

// VerifMemReaddir: Readdir lists the direct children, sorted, in pieces as
// asked for.
func VerifMemReaddir() {
	p := world()
	o := opts()
	m := vlib.Build(p, o)
	pkg := argPkg(o)
	k := vsym.Int("dir", 0, o.N+1)
	vsym.Assume(k < len(m.Ents))
	dir := m.Ents[0]
	for i := range m.Ents {
		if k == i {
			dir = m.Ents[i]
		}
	}
	vsym.Assume(dir.Pkg == pkg && dir.Dir)
	want := m.Children(pkg, dir.Path)
	f, err := p.Open(vlib.Qual(pkg, dir.Path))
	vsym.Assert(err == nil, "directory does not open", err)
	other, err := p.Open(vlib.Qual(pkg, dir.Path))
	vsym.Assert(err == nil, "directory does not open", err)
	at := 0
	seen := map[string]bool{}
	for i := 0; i < vsym.Param("calls", 3); i++ {
		n := vsym.Int("count", -1, 2)
		fis, err := f.Readdir(n)
		left := want[at:]
		if n > 0 {
			if len(left) == 0 {
				vsym.Assert(len(fis) == 0 && err == io.EOF, "no EOF at the end", len(fis), err)
				vsym.Cover("EOF")
				continue
			}
			if len(left) > n {
				left = left[:n]
			}
		}
		vsym.Assert(err == nil, "Readdir fails", err)
		vsym.Assert(len(fis) == len(left), "wrong number of entries", len(fis), len(left))
		if vsym.Param("disk", 0) != 0 {
			// in the order of the directory, which may be any
			for _, fi := range fis {
				e := vlib.Has(m, pkg, path.Join(dir.Path, fi.Name()))
				vsym.Assert(e != nil, "unknown entry", fi.Name())
				vsym.Assert(!seen[e.Path], "entry twice", e.Path)
				seen[e.Path] = true
				vlib.CheckInfo(fi, *e, "entry")
			}
			at += len(left)
			continue
		}
		for j, e := range left {
			vlib.CheckInfo(fis[j], e, "entry")
		}
		at += len(left)
	}
	// positions belong to the open file
	fis, err := other.Readdir(-1)
	vsym.Assert(err == nil && len(fis) == len(want), "the other open file was moved", len(fis), err)
	vsym.Assert(other.Close() == nil && f.Close() == nil, "Close fails")
	f, err = p.Open(vlib.Qual(pkg, dir.Path))
	vsym.Assert(err == nil, "directory does not open", err)
	defer f.Close()
	for _, e := range want {
		f2, err := f.Open(e.Path[strings.LastIndexByte(e.Path, '/'):])
		vsym.Assert(err == nil, "entry does not open", e.Path, err)
		fi, err := f2.Stat()
		vsym.Assert(err == nil, "entry has no info", err)
		vlib.CheckInfo(fi, e, "opened entry")
		f2.Close()
	}
	vsym.ObserveI("entries", len(want))
}

func world() pkging.Pkger {
	if vsym.Param("disk", 0) != 0 {
		return vlib.Disk()
	}
	return vlib.Mem2()
}
