package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (p *Prog) harness(name string) *ssa.Function {
	for path, pk := range p.byPath {
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		if f := pk.Func(name); f != nil {
			return f
		}
	}
	return nil
}

// cmdRun explores one harness and prints what happened (development tool).
func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	hdir := fs.String("harness", "/verif/harness", "")
	solver := fs.String("solver", "z3-new", "")
	tm := fs.Duration("time", 60*time.Second, "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	maxp := fs.Int64("paths", 1<<40, "")
	steps := fs.Int64("steps", 20000000, "")
	pre := fs.Int("preempt", 2, "")
	prof := fs.String("prof", "", "")
	params := fs.String("p", "", "k=v,k=v")
	samples := fs.Int("samples", 3, "")
	dbg := fs.Bool("debug", false, "")
	pkgs := fs.String("pkg", "", "")
	fs.Parse(args)
	os_debug = *dbg
	t0 := time.Now()
	p, err := loadProg(*repo, *hdir, pats(*pkgs)...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	pm := map[string]int64{}
	for _, kv := range strings.Split(*params, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			var n int64
			fmt.Sscan(v, &n)
			pm[k] = n
		}
	}
	var ws []*Worker
	for i := 0; i < *workers; i++ {
		ws = append(ws, newWorker(p, i))
	}
	rc := 0
	for _, name := range fs.Args() {
		fn := p.harness(name)
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no harness", name)
			return 2
		}
		ex := NewExplorer(p, fn, Config{Solver: *solver, Timeout: 10000, Workers: *workers, Time: *tm, MaxPaths: *maxp, MaxSteps: *steps, Samples: *samples, Preempt: *pre, Params: pm, Debug: *dbg})
		t1 := time.Now()
		ex.Run(ws)
		q, st, mq := 0, time.Duration(0), time.Duration(0)
		for _, w := range ws {
			if w.solver != nil {
				q += w.solver.Queries
				st += w.solver.Time
				if w.solver.MaxQ > mq {
					mq = w.solver.MaxQ
				}
			}
		}
		fmt.Printf("%s: %.1fs paths=%d done=%d infeasible=%d unsupported=%d dropped=%d decide=%d implied=%d choice=%d unknown=%d presolved=%d asserts=%d(q %d) queries=%d solver=%.1fs maxq=%.2fs steps=%d\n", name, time.Since(t1).Seconds(), ex.nPaths, ex.nDone, ex.nInfeas, ex.nUnsup, ex.dropped, ex.nDecide, ex.nImplied, ex.nChoice, ex.nUnknown, ex.nPre, ex.nAssert, ex.nAssertQ, q, st.Seconds(), mq.Seconds(), ex.steps)
		if m := &ex.mcr; m.groups > 0 {
			fmt.Printf("  schedules: groups=%d classes=%d queries=%d (sat %d unsat %d unknown %d) %.1fs missed=%d fallback=%d maxevents=%d %v\n", m.groups, m.classes, m.queries, m.sat, m.unsat, m.unknown, float64(m.ns)/1e9, m.missed, m.fallback, m.maxEv, ex.mcrWhy)
		}
		for _, k := range sortedKeys(ex.covers) {
			fmt.Printf("  cover %-40s %d\n", k, ex.covers[k])
		}
		for _, k := range sortedKeys(ex.labels) {
			fmt.Printf("  assert %-39s %d\n", k, ex.labels[k])
		}
		for _, k := range sortedKeys(ex.unsupWhy) {
			fmt.Printf("  UNSUPPORTED %d× %s\n", ex.unsupWhy[k], k)
		}
		for _, k := range sortedKeys(ex.violations) {
			v := ex.violations[k]
			rc = 1
			fmt.Printf("  VIOLATION %s: %s\n    inputs %v\n    env %v\n", k, v.Msg, fmtInputs(v.Inputs), v.Env)
			if v.Kind != "assert" || *dbg {
				fmt.Println("    trace:", strings.ReplaceAll(v.Trace, "\n", " < "))
			}
		}
		for k, n := range ex.vioCount {
			fmt.Printf("  violations %s: %d paths\n", k, n)
		}
		if *dbg {
			for _, s := range ex.samples {
				fmt.Printf("  sample %v obs %v\n", fmtInputs(s.Inputs), s.Obs)
			}
			for _, n := range ws[0].initNotes {
				fmt.Println("  init:", n)
			}
			cov := map[string]int64{}
			for _, w := range ws {
				for fi, n := range w.cov {
					cov[fi.name] += n
				}
			}
			for _, k := range sortedKeys(cov) {
				if strings.Contains(k, "markbates") || strings.Contains(k, "gobuffalo") {
					fmt.Printf("  fn %s %d\n", k, cov[k])
				}
			}
		}
	}
	for _, w := range ws {
		if w.solver != nil {
			w.solver.Close()
		}
	}
	return rc
}

// fmtInputs groups consecutive byte inputs of one name into strings.
func fmtInputs(in []InputVal) string {
	var sb strings.Builder
	for i := 0; i < len(in); {
		n, _, _ := strings.Cut(in[i].Name, "#")
		j := i
		var bs []byte
		for j < len(in) {
			m, _, _ := strings.Cut(in[j].Name, "#")
			if m != n || in[j].Val > 255 {
				break
			}
			bs = append(bs, byte(in[j].Val))
			j++
		}
		if j-i > 1 {
			fmt.Fprintf(&sb, "%s=%q ", n, bs)
			i = j
			continue
		}
		fmt.Fprintf(&sb, "%s=%d ", in[i].Name, int64(in[i].Val))
		i++
	}
	return sb.String()
}

func pats(s string) []string {
	var r []string
	for _, p := range strings.Split(s, ",") {
		if p != "" {
			r = append(r, "./internal/vh/"+p)
		}
	}
	return r
}
