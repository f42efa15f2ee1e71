package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A check decides one property: every run of it explores one harness within
// stated bounds.
type checkSpec struct {
	Title       string    `json:"title"`
	Pkgs        []string  `json:"pkgs"` // harness packages below internal/vh
	Runs        []runSpec `json:"runs"`
	Assumptions []string  `json:"assumptions"`
	Bounds      []string  `json:"bounds"`
}

type runSpec struct {
	Fn      string         `json:"fn"`
	Tier    string         `json:"tier"` // quick, thorough or both
	Params  map[string]int `json:"params"`
	Preempt int            `json:"preempt"`
	Time    int            `json:"time"`    // seconds
	Isolate bool           `json:"isolate"` // one native process per vector
	Race    bool           `json:"race"`    // replay under the race detector
	Repeat  int            `json:"repeat"`  // native repetitions of a vector (schedules, map order)
	Covers  []string       `json:"covers"`  // labels that must be reached (vacuity)
	Samples int            `json:"samples"`
	Unpin   bool           `json:"unpin"` // observations may differ natively (schedule-dependent)
}

type known struct {
	Property string `json:"property"`
	Fn       string `json:"fn"`
	Label    string `json:"label"`
	Contains string `json:"contains"` // in the native failure message
	What     string `json:"what"`
	Fixed    string `json:"fixed"` // "fixed: property=<id> <commit> <what failed>": documentation, suppresses nothing
}

type vec struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	In      map[string]uint64 `json:"in"`
	Repeat  int               `json:"repeat"`
	Order   []int             `json:"order,omitempty"` // of the goroutines' synchronising operations
}

type ob struct {
	L string `json:"l"`
	V string `json:"v"`
}
type result struct {
	Skip   string   `json:"skip"`
	Fail   string   `json:"fail"`
	Msg    string   `json:"msg"`
	Obs    []ob     `json:"obs"`
	Covers []string `json:"covers"`
	lost   bool
}

type checker struct {
	id, tier  string
	seed      int
	verif     string
	repo      string
	tmp       string
	spec      checkSpec
	known     []known
	bins      map[string]string // package, with "+race" appended for the race build
	buildErr  map[string]error
	buildDone map[string]chan struct{}
	mu        sync.Mutex
	drop      bool // run the replays as an unprivileged user
}

func cmdCheck(args []string) int {
	if len(args) >= 2 && args[0] == "replay" {
		return cmdReplay(args[1])
	}
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check ID quick|thorough")
		return 2
	}
	t0 := time.Now()
	c := newChecker(args[0], args[1])
	defer os.RemoveAll(c.tmp)
	rc, err := c.run(t0)
	if err != nil {
		fmt.Fprintln(os.Stderr, "check", c.id, "error:", err)
		return 2
	}
	return rc
}

func newChecker(id, tier string) *checker {
	c := &checker{id: id, tier: tier, verif: "/verif", repo: "/repo", bins: map[string]string{}, buildErr: map[string]error{}, buildDone: map[string]chan struct{}{}}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		c.verif = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		c.repo = v
	}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	c.drop = os.Getuid() == 0
	var err error
	c.tmp, err = os.MkdirTemp("", "gosym")
	if err != nil {
		panic(err)
	}
	os.Chmod(c.tmp, 0755)
	return c
}

func (c *checker) load() error {
	b, err := os.ReadFile(filepath.Join(c.verif, "checks.json"))
	if err != nil {
		return err
	}
	var all map[string]checkSpec
	if err := json.Unmarshal(b, &all); err != nil {
		return fmt.Errorf("checks.json: %v", err)
	}
	s, ok := all[c.id]
	if !ok {
		return fmt.Errorf("no check %s", c.id)
	}
	c.spec = s
	if b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &c.known); err != nil {
			return fmt.Errorf("known-findings.json: %v", err)
		}
	}
	return nil
}

// mode of a native replay: under the race detector, with the order of the
// synchronising operations given.
type mode struct{ race, sched bool }

func (m mode) key(pkg string) string {
	if m.race {
		pkg += "+race"
	}
	if m.sched {
		pkg += "+sched"
	}
	return pkg
}

// schedOverlay replaces package sync in the code under test.
func (c *checker) schedOverlay(ov map[string]string) error {
	n := 0
	return filepath.Walk(c.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := fi.Name(); p != c.repo && (b[0] == '.' || b == "testdata" || b == "examples") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || ov[p] != "" {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, b, parser.ImportsOnly)
		if err != nil {
			return nil // the build says what is wrong
		}
		for _, im := range f.Imports {
			if im.Path.Value != "\"sync\"" {
				continue
			}
			off := fset.Position(im.Path.Pos()).Offset
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			t := string(b[:off]) + name + "\"" + modPath + "/internal/vsync\"" + string(b[off+len(im.Path.Value):])
			n++
			d := filepath.Join(c.tmp, fmt.Sprintf("sched%d_%s", n, filepath.Base(p)))
			if err := os.WriteFile(d, []byte(t), 0644); err != nil {
				return err
			}
			ov[p] = d
			break
		}
		return nil
	})
}

// build compiles the native replay binary of a harness package.
func (c *checker) build(pkg string, md mode) {
	key := md.key(pkg)
	c.mu.Lock()
	ch, ok := c.buildDone[key]
	if ok {
		c.mu.Unlock()
		<-ch
		return
	}
	ch = make(chan struct{})
	c.buildDone[key] = ch
	c.mu.Unlock()
	defer close(ch)
	err := func() error {
		ov, err := overlayFiles(filepath.Join(c.verif, "harness"), c.repo)
		if err != nil {
			return err
		}
		if md.sched {
			if err := c.schedOverlay(ov); err != nil {
				return err
			}
		}
		d := "zreplay_" + strings.ReplaceAll(key, "+", "_")
		src := filepath.Join(c.tmp, d+".go")
		txt := "package main\n\nimport (\n\t\"github.com/markbates/pkger/internal/vsym\"\n\t_ \"github.com/markbates/pkger/internal/vh/" + pkg + "\"\n)\n\nfunc main() { vsym.Main() }\n"
		if err := os.WriteFile(src, []byte(txt), 0644); err != nil {
			return err
		}
		ov[filepath.Join(c.repo, "internal/vh", d, "main.go")] = src
		js, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(c.tmp, d+".json")
		if err := os.WriteFile(of, js, 0644); err != nil {
			return err
		}
		bin := filepath.Join(c.tmp, d)
		a := []string{"build", "-overlay", of, "-o", bin}
		if md.race {
			a = append(a, "-race")
		}
		a = append(a, "./internal/vh/"+d)
		cmd := exec.Command("go", a...)
		cmd.Dir = c.repo
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("building the replay of %s: %v\n%s", pkg, err, out)
		}
		os.Chmod(bin, 0755)
		c.mu.Lock()
		c.bins[key] = bin
		c.mu.Unlock()
		return nil
	}()
	c.mu.Lock()
	c.buildErr[key] = err
	c.mu.Unlock()
}

// native runs vectors against the real code. Each process works in a scratch
// directory of its own as an unprivileged user.
func (c *checker) native(pkg string, vs []vec, isolate bool, md mode) ([]result, error) {
	if len(vs) == 0 {
		return nil, nil
	}
	c.build(pkg, md)
	key := md.key(pkg)
	if err := c.buildErr[key]; err != nil {
		return nil, err
	}
	bin := c.bins[key]
	res := make([]result, len(vs))
	chunk := (len(vs) + runtime.NumCPU() - 1) / runtime.NumCPU()
	if isolate || md.race || md.sched {
		chunk = 1
	}
	type job struct{ lo, hi int }
	jobs := make(chan job, len(vs))
	for i := 0; i < len(vs); i += chunk {
		jobs <- job{i, min(i+chunk, len(vs))}
	}
	close(jobs)
	var wg sync.WaitGroup
	var ferr error
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				lo := j.lo
				for lo < j.hi {
					rs, why, err := c.proc(bin, vs[lo:j.hi])
					if err != nil {
						c.mu.Lock()
						ferr = err
						c.mu.Unlock()
						return
					}
					copy(res[lo:], rs)
					lo += len(rs)
					if lo < j.hi && (len(rs) == 0 || rs[len(rs)-1].Fail != "hang") {
						// the process died on this vector
						res[lo] = result{Fail: why.label, Msg: why.msg, lost: why.label == ""}
						lo++
					}
				}
			}
		}()
	}
	wg.Wait()
	return res, ferr
}

type death struct{ label, msg string }

func (c *checker) proc(bin string, vs []vec) ([]result, death, error) {
	scratch, err := os.MkdirTemp(c.tmp, "s")
	if err != nil {
		return nil, death{}, err
	}
	defer func() {
		filepath.Walk(scratch, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(scratch)
	}()
	os.Chmod(scratch, 0777)
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, v := range vs {
		enc.Encode(v)
	}
	cmd := exec.Command(bin)
	cmd.Dir = scratch
	cmd.Stdin = &in
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	home := filepath.Join(scratch, "home")
	os.MkdirAll(home, 0777)
	os.Chmod(home, 0777)
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + home, "VSYM_SCRATCH=" + scratch, "GOPATH=" + home + "/go", "GOCACHE=" + home + "/cache", "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off", "TMPDIR=" + home, "GORACE=halt_on_error=1 exitcode=66"}
	cmd.Env = env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if c.drop {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
	}
	if err := cmd.Start(); err != nil {
		return nil, death{}, fmt.Errorf("starting the replay: %v", err)
	}
	kill := time.AfterFunc(120*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	werr := cmd.Wait()
	kill.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	var rs []result
	sc := bufio.NewScanner(&out)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var r result
		if json.Unmarshal(sc.Bytes(), &r) == nil {
			rs = append(rs, r)
		}
	}
	d := death{}
	if len(rs) < len(vs) && (werr != nil || len(rs) == 0 || rs[len(rs)-1].Fail != "hang") {
		es := errb.String()
		switch {
		case strings.Contains(es, "WARNING: DATA RACE"):
			d = death{"data race", cut(es, 1500)}
		case strings.Contains(es, "concurrent map"):
			d = death{"data race", cut(es, 800)}
		case strings.Contains(es, "all goroutines are asleep"):
			d = death{"deadlock", cut(es, 800)}
		case strings.Contains(es, "panic:"):
			i := strings.Index(es, "panic:")
			d = death{strings.SplitN(es[i:], "\n", 2)[0], cut(es[i:], 1200)}
		case strings.Contains(es, "fatal error:"):
			i := strings.Index(es, "fatal error:")
			d = death{strings.SplitN(es[i:], "\n", 2)[0], cut(es[i:], 1200)}
		case strings.Contains(es, "replay:"):
			return rs, d, fmt.Errorf("%s", es)
		case cmd.ProcessState.Exited():
			d = death{"the program exits", cut(es, 800)}
		default:
			d = death{"", cut(es, 800)}
		}
	}
	return rs, d, nil
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type runStat struct {
	Fn           string           `json:"harness"`
	Params       map[string]int   `json:"bounds"`
	Preempt      int              `json:"preemption_bound,omitempty"` // -2: none, the solver decides
	Schedules    *schedStat       `json:"schedules,omitempty"`
	Paths        int64            `json:"paths"`
	Infeasible   int64            `json:"infeasible_paths"`
	Unsupported  int64            `json:"unsupported_paths"`
	NotExplored  int64            `json:"paths_cut_by_time"`
	Exhaustive   bool             `json:"exhaustive_within_bounds"`
	Decisions    int64            `json:"decisions"`
	Implied      int64            `json:"implied_decisions"`
	EnvChoices   int64            `json:"environment_choices"`
	Asserts      int64            `json:"assertions_evaluated"`
	AssertLabels map[string]int64 `json:"assertions"`
	Queries      int              `json:"solver_queries"`
	Sat          int              `json:"sat"`
	Unsat        int              `json:"unsat"`
	Unknown      int64            `json:"unknown"`
	Presolved    int64            `json:"decided_by_domain_propagation"`
	SolverS      float64          `json:"solver_s"`
	MaxQueryS    float64          `json:"max_query_s"`
	WallS        float64          `json:"wall_s"`
	Steps        int64            `json:"ssa_instructions"`
	Covers       map[string]int64 `json:"reached"`
	MissCovers   []string         `json:"not_reached,omitempty"`
	UnsupWhy     map[string]int64 `json:"unsupported,omitempty"`
	Validated    int              `json:"paths_validated_natively"`
	Diverged     int              `json:"paths_diverging_natively"`
	Divergence   []string         `json:"divergence,omitempty"`
	Unconfirmed  []string         `json:"counterexamples_not_reproduced,omitempty"`
}

// schedStat: what the solver decided about schedules.
type schedStat struct {
	Starts   int64            `json:"starting_points"`
	Classes  int64            `json:"classes_executed"`
	Queries  int64            `json:"queries"`
	Sat      int64            `json:"sat"`
	Unsat    int64            `json:"unsat"`
	Unknown  int64            `json:"unknown"`
	SolverS  float64          `json:"solver_s"`
	MaxEv    int64            `json:"most_events_of_a_trace"`
	Fallback int64            `json:"enumerated_instead,omitempty"`
	Why      map[string]int64 `json:"enumerated_because,omitempty"`
	Missed   int64            `json:"schedules_not_followed,omitempty"`
}

func (c *checker) run(t0 time.Time) (int, error) {
	if err := c.load(); err != nil {
		return 2, err
	}
	var runs []runSpec
	for _, r := range c.spec.Runs {
		if r.Tier == "both" || r.Tier == "" || r.Tier == c.tier {
			runs = append(runs, r)
		}
	}
	if len(runs) == 0 {
		return 2, fmt.Errorf("no runs for tier %s", c.tier)
	}
	for _, pk := range c.spec.Pkgs {
		go c.build(pk, mode{})
	}
	for _, r := range runs {
		if r.Race {
			for _, pk := range c.spec.Pkgs {
				go c.build(pk, mode{race: true})
			}
			break
		}
	}
	var pats []string
	for _, pk := range c.spec.Pkgs {
		pats = append(pats, "./internal/vh/"+pk)
	}
	p, err := loadProg(c.repo, filepath.Join(c.verif, "harness"), pats...)
	if err != nil {
		return 2, err
	}
	loadS := time.Since(t0).Seconds()
	nw := runtime.NumCPU()
	var ws []*Worker
	for i := 0; i < nw; i++ {
		ws = append(ws, newWorker(p, i))
	}
	defer func() {
		for _, w := range ws {
			if w.solver != nil {
				w.solver.Close()
			}
		}
	}()
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
	rdir := filepath.Join(c.verif, "evidence", "replays", c.id)
	os.RemoveAll(rdir)

	var stats []*runStat
	fns := map[string]bool{}
	var samples []any
	violations := 0
	var findings []string
	foundKnown := map[string]bool{}
	seenLabel := map[string]bool{}
	for _, r := range runs {
		fn := p.harness(r.Fn)
		if fn == nil {
			return 2, fmt.Errorf("no harness %s", r.Fn)
		}
		pkg := filepath.Base(fn.Pkg.Pkg.Path())
		pm := map[string]int64{}
		for k, v := range r.Params {
			pm[k] = int64(v)
		}
		if r.Time == 0 {
			r.Time = 60
		}
		if r.Samples == 0 {
			r.Samples = 48
		}
		ns := r.Samples
		q0, s0, u0, st0 := solverTotals(ws)
		ex := NewExplorer(p, fn, Config{Solver: "z3-new", Timeout: 10000, Workers: nw, Time: time.Duration(r.Time) * time.Second, MaxPaths: 1 << 40, MaxSteps: 200000000, Samples: ns, Preempt: r.Preempt, Params: pm})
		ex.rng ^= uint64(c.seed) * 0x9E3779B97F4A7C15
		t1 := time.Now()
		ex.Run(ws)
		for _, w := range ws {
			for fi, n := range w.cov {
				if n > 0 && strings.Contains(fi.name, modPath) && !strings.Contains(fi.name, "/internal/v") || strings.Contains(fi.name, "gobuffalo/here") {
					fns[fi.name] = true
				}
			}
		}
		q1, s1, u1, st1 := solverTotals(ws)
		st := &runStat{Fn: r.Fn, Params: r.Params, Preempt: r.Preempt, Paths: ex.nDone, Infeasible: ex.nInfeas, Unsupported: ex.nUnsup, NotExplored: ex.dropped, Exhaustive: ex.dropped == 0 && ex.nUnsup == 0 && ex.nUnknown == 0, Decisions: ex.nDecide, Implied: ex.nImplied, EnvChoices: ex.nChoice, Asserts: ex.nAssert, AssertLabels: ex.labels, Queries: q1 - q0, Sat: s1 - s0, Unsat: u1 - u0, Unknown: ex.nUnknown, Presolved: ex.nPre, SolverS: (st1 - st0).Seconds(), WallS: time.Since(t1).Seconds(), Steps: ex.steps, Covers: ex.covers, UnsupWhy: ex.unsupWhy}
		for _, w := range ws {
			if w.solver != nil && w.solver.MaxQ.Seconds() > st.MaxQueryS {
				st.MaxQueryS = w.solver.MaxQ.Seconds()
			}
		}
		if m := &ex.mcr; r.Preempt == mcrPreempt {
			st.Schedules = &schedStat{m.groups, m.classes, m.queries, m.sat, m.unsat, m.unknown, float64(m.ns) / 1e9, m.maxEv, m.fallback, ex.mcrWhy, m.missed}
			st.Queries += int(m.queries)
			st.Sat += int(m.sat)
			st.Unsat += int(m.unsat)
			st.SolverS += float64(m.ns) / 1e9
		}
		for _, cv := range r.Covers {
			if ex.covers[cv] == 0 {
				st.MissCovers = append(st.MissCovers, cv)
			}
		}
		stats = append(stats, st)

		mk := func(in []InputVal, rep int) vec {
			m := map[string]uint64{}
			for _, x := range in {
				m[x.Name] = x.Val
			}
			return vec{Harness: r.Fn, Params: r.Params, In: m, Repeat: rep}
		}
		report := func(v vec, md mode, label, msg, kind, engine string) error {
			for _, k := range c.known {
				if k.Fixed == "" && k.Property == c.id && (k.Fn == "" || k.Fn == r.Fn) && k.Label == label && strings.Contains(msg, k.Contains) {
					if !foundKnown[k.What] {
						foundKnown[k.What] = true
						findings = append(findings, k.What)
					}
					return nil
				}
			}
			if seenLabel[r.Fn+label] {
				return nil
			}
			seenLabel[r.Fn+label] = true
			violations++
			if err := os.MkdirAll(rdir, 0755); err != nil {
				return err
			}
			f := filepath.Join(rdir, fmt.Sprintf("%d.json", violations))
			b, _ := json.MarshalIndent(map[string]any{"property": c.id, "package": pkg, "isolate": r.Isolate, "race": md.race, "sched": md.sched, "vector": v, "failed": label, "message": msg, "kind": kind, "engine": engine}, "", " ")
			if err := os.WriteFile(f, append(b, '\n'), 0644); err != nil {
				return err
			}
			fmt.Printf("  %s: %s\n    %s\n    inputs: %s\n", r.Fn, label, cut(msg, 600), fmtVec(v))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, f)
			return nil
		}

		// counterexamples: only what reproduces on the real code counts
		var cvs []vec
		var ces []*Violation
		for _, k := range sortedKeys(ex.violations) {
			v := ex.violations[k]
			rep := r.Repeat
			if v.Kind != "assert" && v.Kind != "panic" && rep < 50 {
				rep = 50
			}
			ces = append(ces, v)
			cvs = append(cvs, mk(v.Inputs, rep))
		}
		// a schedule first runs in the order the engine found, then freely
		tries := make([]mode, len(ces))
		rs := make([]result, len(ces))
		for pass := 0; pass < 4; pass++ {
			want := map[mode][]int{}
			for i, v := range ces {
				if rs[i].Fail != "" {
					continue
				}
				race := v.Kind == "race" || r.Race && pass >= 2
				md := mode{race: race, sched: pass%2 == 0}
				if pass >= 2 && v.Kind == "race" || pass >= 2 && !r.Race {
					continue
				}
				if md.sched && len(v.Order) == 0 {
					continue
				}
				want[md] = append(want[md], i)
			}
			for md, is := range want {
				var vs []vec
				for _, i := range is {
					x := cvs[i]
					if md.sched {
						x.Order, x.Repeat = ces[i].Order, 3
					}
					vs = append(vs, x)
				}
				out, err := c.native(pkg, vs, r.Isolate, md)
				if err != nil {
					return 2, err
				}
				for k, i := range is {
					rs[i], tries[i] = out[k], md
					if out[k].Fail != "" {
						cvs[i] = vs[k]
					}
				}
			}
		}
		for i, v := range ces {
			if rs[i].Fail != "" {
				if err := report(cvs[i], tries[i], rs[i].Fail, rs[i].Msg, v.Kind, v.Label+": "+v.Msg); err != nil {
					return 2, err
				}
				continue
			}
			st.Unconfirmed = append(st.Unconfirmed, fmt.Sprintf("%s: %s [%s] %s%s", v.Kind, v.Label, fmtInputs(v.Inputs), rs[i].Skip, cut(rs[i].Msg, 200)))
		}
		plain := mode{race: r.Race}
		// paths the engine could not finish: run their inputs
		cvs = nil
		for _, s := range ex.unsup {
			cvs = append(cvs, mk(s.Inputs, r.Repeat))
		}
		rs, err = c.native(pkg, cvs, r.Isolate, plain)
		if err != nil {
			return 2, err
		}
		for i := range cvs {
			if rs[i].Fail != "" {
				if err := report(cvs[i], plain, rs[i].Fail, rs[i].Msg, "native", "path not finished by the engine: "+ex.unsup[i].Why); err != nil {
					return 2, err
				}
			}
		}
		// witnesses of completed paths: the real code must agree with the encoding
		cvs = nil
		for _, s := range ex.samples {
			cvs = append(cvs, mk(s.Inputs, r.Repeat))
		}
		rs, err = c.native(pkg, cvs, r.Isolate, plain)
		if err != nil {
			return 2, err
		}
		for i, s := range ex.samples {
			if rs[i].Fail != "" {
				if err := report(cvs[i], plain, rs[i].Fail, rs[i].Msg, "native", "the encoding did not predict this"); err != nil {
					return 2, err
				}
				continue
			}
			d := ""
			if rs[i].Skip != "" {
				d = "input rejected natively: " + rs[i].Skip
			} else if rs[i].lost {
				d = "replay process died: " + rs[i].Msg
			} else if !r.Unpin {
				d = diffObs(s.Obs, rs[i].Obs)
			}
			if d == "" {
				st.Validated++
			} else {
				st.Diverged++
				if len(st.Divergence) < 5 {
					st.Divergence = append(st.Divergence, d+" ["+fmtInputs(s.Inputs)+"]")
				}
			}
			if i < 2 {
				samples = append(samples, map[string]any{"harness": r.Fn, "inputs": fmtInputs(s.Inputs), "observed": s.Obs, "environment": s.Env})
			}
		}
	}

	// what was covered
	var paths, dec, val, unsup, cutp int64
	var queries int
	var solverS float64
	for _, s := range stats {
		paths += s.Paths
		dec += s.Decisions + s.EnvChoices
		val += int64(s.Validated)
		unsup += s.Unsupported
		cutp += s.NotExplored
		queries += s.Queries
		solverS += s.SolverS
	}
	exh := true
	for _, s := range stats {
		exh = exh && s.Exhaustive
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": dec, "traces_validated_against_impl": val,
			"samples": samples, "exhaustive": exh,
			"rule":              "states: symbolic paths explored to their end; transitions: decisions on them (branches decided by the solver or by domain propagation, and environment choices); traces: witnesses of paths run on the real code with equal observations",
			"functions_encoded": sortedKeys(fns),
			"runs":              stats, "solver": "z3-new", "solver_queries": queries, "solver_s": solverS, "load_s": loadS,
			"bounds": c.spec.Bounds, "known_findings": findings,
		},
		"assumptions": c.spec.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return 2, err
	}
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), append(b, '\n'), 0644); err != nil {
		return 2, err
	}
	for _, s := range stats {
		fmt.Printf("%s %v: %d paths, %d decisions, %d queries, %.1fs solver, %.1fs wall, %d validated natively", s.Fn, fmtParams(s.Params), s.Paths, s.Decisions, s.Queries, s.SolverS, s.WallS, s.Validated)
		if s.NotExplored > 0 {
			fmt.Printf("; BOUND REDUCED: time budget left %d paths unexplored", s.NotExplored)
		}
		if s.Unsupported > 0 {
			fmt.Printf("; BOUND REDUCED: %d paths beyond the engine (run natively instead)", s.Unsupported)
		}
		if s.Unknown > 0 {
			fmt.Printf("; BOUND REDUCED: %d queries unknown", s.Unknown)
		}
		if len(s.MissCovers) > 0 {
			fmt.Printf("; NOT REACHED: %v", s.MissCovers)
		}
		if m := s.Schedules; m != nil {
			fmt.Printf("; schedules: %d classes from %d starting points", m.Classes, m.Starts)
			if m.Fallback > 0 {
				fmt.Printf("; BOUND REDUCED: %d enumerated up to 2 preemptions", m.Fallback)
			}
		}
		fmt.Println()
		for k, n := range s.UnsupWhy {
			fmt.Printf("  unsupported %d× %s\n", n, cut(k, 300))
		}
		for _, d := range s.Divergence {
			fmt.Printf("  DIVERGENCE %s\n", cut(d, 400))
		}
		for i, d := range s.Unconfirmed {
			if i < 5 {
				fmt.Printf("  INCONCLUSIVE (not reproduced on the real code) %s\n", cut(d, 400))
			}
		}
	}
	sort.Strings(findings)
	for _, f := range findings {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, f)
	}
	if violations > 0 {
		return 1, nil
	}
	fmt.Printf("%s: held on everything explored (%d paths, %.0fs)\n", c.id, paths, time.Since(t0).Seconds())
	return 0, nil
}

func fmtParams(m map[string]int) string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func fmtVec(v vec) string {
	var in []InputVal
	for _, k := range sortedKeys(v.In) {
		in = append(in, InputVal{k, v.In[k]})
	}
	sort.SliceStable(in, func(i, j int) bool {
		a, x, _ := strings.Cut(in[i].Name, "#")
		b, y, _ := strings.Cut(in[j].Name, "#")
		if a != b {
			return a < b
		}
		m, _ := strconv.Atoi(x)
		n, _ := strconv.Atoi(y)
		return m < n
	})
	return fmtInputs(in)
}

func solverTotals(ws []*Worker) (q, sat, unsat int, t time.Duration) {
	for _, w := range ws {
		if w.solver != nil {
			q += w.solver.Queries
			sat += w.solver.Sat
			unsat += w.solver.Unsat
			t += w.solver.Time
		}
	}
	return
}

func diffObs(a []ObsVal, b []ob) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("%s=%s missing natively", a[i].Label, a[i].Val)
		}
		if a[i].Label != b[i].L || a[i].Val != b[i].V {
			return fmt.Sprintf("encoding %s=%s, real code %s=%s", a[i].Label, a[i].Val, b[i].L, b[i].V)
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("%s=%s only natively", b[len(a)].L, b[len(a)].V)
	}
	return ""
}

// cmdReplay runs one recorded counterexample on the real code again.
func cmdReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property, Package string
		Isolate, Race     bool
		Sched             bool
		Vector            vec
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := newChecker(r.Property, "quick")
	defer os.RemoveAll(c.tmp)
	rs, err := c.native(r.Package, []vec{r.Vector}, r.Isolate, mode{r.Race, r.Sched})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%+v\n", rs[0])
	if rs[0].Fail != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	return 0
}
