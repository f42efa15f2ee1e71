package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/markbates/pkger"
const vsymPath = modPath + "/internal/vsym"
const vmodelPath = modPath + "/internal/vmodel"

type Prog struct {
	ssa     *ssa.Program
	pkgs    []*packages.Package
	byPath  map[string]*ssa.Package
	mu      sync.Mutex
	fns     map[*ssa.Function]*fnInfo
	globals map[*ssa.Global]int
	ngl     int
	pkgIdx  map[*ssa.Package]int
	repo    string

	rtErrT types.Type // runtime.errorString
}

// overlayFiles maps every file under dir onto repo.
func overlayFiles(dir, repo string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, err := filepath.Rel(dir, p)
		if err != nil {
			return err
		}
		m[filepath.Join(repo, rel)] = p
		return nil
	})
	return m, err
}

func loadProg(repo, harness string, pats ...string) (*Prog, error) {
	ov, err := overlayFiles(harness, repo)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	pkgset := map[string]bool{}
	for dst, src := range ov {
		if strings.HasSuffix(dst, "_test.go") {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
		rel, _ := filepath.Rel(repo, filepath.Dir(dst))
		pkgset["./"+rel] = true
	}
	if len(pats) == 0 {
		for p := range pkgset {
			pats = append(pats, p)
		}
	} else {
		pats = append(pats, "./internal/vmodel", "./internal/vsym")
	}
	sort.Strings(pats)
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, Env: append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=")}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	sp, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Prog{ssa: sp, pkgs: ps, byPath: map[string]*ssa.Package{}, fns: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]int{}, pkgIdx: map[*ssa.Package]int{}, repo: repo}
	for _, x := range sp.AllPackages() {
		p.byPath[x.Pkg.Path()] = x
	}
	sp.Build()
	if rt := p.byPath["runtime"]; rt != nil {
		p.rtErrT = rt.Type("errorString").Type()
	}
	i := 0
	for _, x := range sp.AllPackages() {
		p.pkgIdx[x] = i
		i++
	}
	return p, nil
}

func (p *Prog) globalIdx(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	i, ok := p.globals[g]
	if !ok {
		i = p.ngl
		p.ngl++
		p.globals[g] = i
	}
	return i
}

type okind uint8

const (
	kReg okind = iota
	kConst
	kGlobal
	kBuiltin
	kNone
)

type operand struct {
	k okind
	i int
	v Value
	g *ssa.Global
}

type instr struct {
	in  ssa.Instruction
	ops []operand
	dst int
	aux any
}

type phiInfo struct {
	dst   int
	edges []operand
}

type blockInfo struct {
	phis   []phiInfo
	instrs []instr
	b      *ssa.BasicBlock
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   []*blockInfo
	native   nativeFn
	redirect *ssa.Function
	hasDefer bool
	pkgi     int
	name     string
	model    bool
	hits     int64
	isInit   bool
}

type nativeFn func(w *Worker, g *G, fn *ssa.Function, args []Value) Value

func (p *Prog) info(fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	fi := p.fns[fn]
	p.mu.Unlock()
	if fi != nil {
		return fi
	}
	fi = p.compile(fn)
	p.mu.Lock()
	if o := p.fns[fn]; o != nil {
		fi = o
	} else {
		p.fns[fn] = fi
	}
	p.mu.Unlock()
	return fi
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func (p *Prog) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, pkgi: -1}
	name := fn.String()
	fi.name = name
	if pk := fnPkg(fn); pk != nil {
		fi.pkgi = p.pkgIdx[pk]
		fi.model = pk.Pkg.Path() == vmodelPath
		fi.isInit = fn.Name() == "init" && fn.Synthetic != "" && fn.Parent() == nil
	}
	lookup := name
	if o := fn.Origin(); o != nil {
		lookup = o.String()
	}
	if n, ok := natives[lookup]; ok {
		fi.native = n
		return fi
	}
	if r, ok := redirects[lookup]; ok {
		mp := p.byPath[vmodelPath]
		if mp != nil {
			f := mp.Func(r)
			if f == nil {
				panic(engErr("no model function %s", r))
			}
			fi.redirect = f
			return fi
		}
	}
	if fn.Blocks == nil {
		return fi
	}
	reg := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) { reg[v] = n; n++ }
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			switch in.(type) {
			case *ssa.Defer:
				fi.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	fi.nregs = n
	mkop := func(v ssa.Value) operand {
		if v == nil {
			return operand{k: kNone}
		}
		switch v := v.(type) {
		case *ssa.Const:
			func() {
				defer func() {
					if r := recover(); r != nil {
						panic(engErr("%v in %s", r, fn))
					}
				}()
			}()
			return operand{k: kConst, v: constVal(v)}
		case *ssa.Global:
			return operand{k: kGlobal, i: p.globalIdx(v), g: v}
		case *ssa.Function:
			return operand{k: kConst, v: &Closure{fn: v}}
		case *ssa.Builtin:
			return operand{k: kBuiltin}
		}
		i, ok := reg[v]
		if !ok {
			panic(engErr("no register for %s in %s", v, fn))
		}
		return operand{k: kReg, i: i}
	}
	for _, b := range fn.Blocks {
		bi := &blockInfo{b: b}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				ph := phiInfo{dst: reg[x]}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, mkop(e))
				}
				bi.phis = append(bi.phis, ph)
				continue
			case *ssa.DebugRef:
				continue
			}
			ic := instr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ic.dst = reg[v]
			}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				ic.ops = append(ic.ops, mkop(*r))
			}
			bi.instrs = append(bi.instrs, ic)
		}
		fi.blocks = append(fi.blocks, bi)
	}
	return fi
}
