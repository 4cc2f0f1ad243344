package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type config struct {
	prop, tier, repo, verif, only string
	seed                          int
	workers                       int
	budget                        time.Duration
	scratch                       string
	cross                         bool
	keep                          bool
}

func main() {
	var c config
	flag.StringVar(&c.prop, "prop", "", "property")
	flag.StringVar(&c.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&c.repo, "repo", "/repo", "")
	flag.StringVar(&c.verif, "verif", "/verif", "")
	flag.StringVar(&c.only, "only", "", "run only this harness")
	flag.IntVar(&c.workers, "j", runtime.NumCPU(), "workers")
	flag.DurationVar(&c.budget, "budget", 0, "time budget of the exploration")
	flag.BoolVar(&c.keep, "keep", false, "keep the scratch directory")
	prof := flag.String("cpuprofile", "", "write a profile of the engine")
	one := flag.String("replay", "", "replay this file natively and report")
	flag.Parse()
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if c.budget == 0 {
		c.budget = 300 * time.Second
		if c.tier == "thorough" {
			c.budget = 720 * time.Second
		}
	}
	c.cross = c.tier == "thorough"
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(err)
	}
	c.scratch = d
	if !c.keep {
		defer os.RemoveAll(d)
		sg := make(chan os.Signal, 1)
		signal.Notify(sg, syscall.SIGTERM, syscall.SIGINT)
		go func() { <-sg; os.RemoveAll(d); os.Exit(3) }()
	} else {
		fmt.Fprintln(os.Stderr, "scratch:", d)
	}
	if *prof != "" {
		f, err := os.Create(*prof)
		if err != nil {
			fatal(err)
		}
		pprof.StartCPUProfile(f)

	}
	var rc int
	if *one != "" {
		rc = replayOne(&c, *one)
	} else {
		rc = check(&c)
	}
	if !c.keep {
		os.RemoveAll(d)
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "gosym:", err)
	os.Exit(3)
}

// goEnv is the environment of the go command: offline, module files copied aside.
func goEnv() []string {
	var out []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		out = append(out, e)
	}
	if os.Getenv("HOME") == "" {
		out = append(out, "HOME=/root")
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
}

// prepare writes the overlay and a copy of the module files.
func (c *config) prepare() (overlay map[string]string, modfile string, err error) {
	modfile = filepath.Join(c.scratch, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, e := os.ReadFile(filepath.Join(c.repo, f))
		if e != nil {
			if f == "go.sum" {
				continue
			}
			return nil, "", e
		}
		if e := os.WriteFile(filepath.Join(c.scratch, f), b, 0644); e != nil {
			return nil, "", e
		}
	}
	overlay = map[string]string{}
	add := func(src, dst string) error {
		es, e := os.ReadDir(src)
		if e != nil {
			return e
		}
		for _, x := range es {
			if strings.HasSuffix(x.Name(), ".go") {
				overlay[filepath.Join(dst, x.Name())] = filepath.Join(src, x.Name())
			}
		}
		return nil
	}
	if err = add(filepath.Join(c.verif, "zzv"), filepath.Join(c.repo, "zzv")); err != nil {
		return
	}
	if _, e := os.Stat(filepath.Join(c.verif, "harness", "spec")); e == nil {
		if err = add(filepath.Join(c.verif, "harness", "spec"), filepath.Join(c.repo, "zzvspec")); err != nil {
			return
		}
	}
	if err = add(filepath.Join(c.verif, "harness", strings.ToLower(c.prop)), filepath.Join(c.repo, "zzvh", strings.ToLower(c.prop))); err != nil {
		return
	}
	return
}

func load(c *config) (*Engine, *ssa.Package, []*ssa.Function, error) {
	overlay, modfile, err := c.prepare()
	if err != nil {
		return nil, nil, nil, err
	}
	ov := map[string][]byte{}
	for k, v := range overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        c.repo,
		Env:        goEnv(),
		Overlay:    ov,
		BuildFlags: []string{"-modfile=" + modfile},
	}
	hpath := modPath + "/zzvh/" + strings.ToLower(c.prop)
	pats := []string{hpath}
	// commands this property's harness runs are named in its files as //zzv:cmd NAME
	for k, b := range ov {
		if strings.Contains(k, "/zzvh/") {
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//zzv:cmd ") {
					for _, n := range strings.Fields(l)[1:] {
						pats = append(pats, modPath+"/cmd/"+n)
					}
				}
			}
		}
	}
	pats = append(pats, "errors", "os", "fmt", "io", "syscall", "unicode/utf8", "io/fs", "regexp", "regexp/syntax", "runtime")
	sort.Strings(pats)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, nil, fmt.Errorf("loading the code: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, incomplete: map[string]int{}, bounds: map[string]bool{}}
	e.cond = sync.NewCond(&e.mu)
	e.thorough = c.tier == "thorough"
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	// the packages of the repository are built now, the others when first used
	for _, p := range prog.AllPackages() {
		if !isStd(p.Pkg.Path()) {
			p.Build()
		}
	}
	e.rtErrorString = types.NewNamed(types.NewTypeName(0, nil, "zzvRuntimeError", nil), types.Typ[types.String], nil)
	e.errType = types.Universe.Lookup("error").Type()
	if o := e.pkgs["runtime"].Pkg.Scope().Lookup("errorString"); o != nil {
		e.rtErrorString = o.Type()
	}
	hp := e.pkgs[hpath]
	if hp == nil {
		return nil, nil, nil, fmt.Errorf("no harness package %s", hpath)
	}
	var hs []*ssa.Function
	for n, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Harness") && f.Signature.Params().Len() == 0 {
			if c.only == "" || c.only == n {
				hs = append(hs, f)
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name() < hs[j].Name() })
	return e, hp, hs, nil
}

type harnessReport struct {
	Name        string         `json:"harness"`
	Paths       int64          `json:"paths_explored"`
	Done        int64          `json:"paths_completed"`
	Assumed     int64          `json:"paths_cut_by_assumption"`
	Forks       int64          `json:"symbolic_forks"`
	Picks       int64          `json:"environment_choice_points"`
	Asserts     int64          `json:"assertions_reached"`
	BySolver    int64          `json:"assertions_decided_by_solver"`
	Steps       int64          `json:"ssa_instructions_executed"`
	Queries     int            `json:"solver_queries"`
	Sat         int            `json:"sat"`
	Unsat       int            `json:"unsat"`
	Unknown     int            `json:"unknown"`
	CacheHits   int64          `json:"query_cache_hits"`
	SolverS     float64        `json:"solver_s"`
	Wall        float64        `json:"wall_s"`
	Exhausted   bool           `json:"bounded_space_exhausted"`
	Incomplete  map[string]int `json:"incomplete,omitempty"`
	Bounds      []string       `json:"bounds"`
	Witnesses   []string       `json:"witnesses_reached"`
	Unsupported int64          `json:"paths_outside_the_engine"`
	Limit       int64          `json:"paths_over_step_budget"`
}

func check(c *config) int {
	t0 := time.Now()
	e, hp, hs, err := load(c)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 3
	}
	e.cfg = c
	loadS := time.Since(t0).Seconds()
	nat := &native{c: c, hs: hs}
	go nat.build()
	if c.cross {
		e.cross = &crossStat{}
	}
	end := t0.Add(c.budget)
	var reps []*harnessReport
	fnSeen := map[string]int64{}
	var viols []*violation
	var spurious []string
	var samples []*pathRec
	var checks []*pathRec
	for i, h := range hs {
		left := time.Until(end)
		share := left / time.Duration(len(hs)-i)
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		r := e.explore(c, nat, h, hp, time.Now().Add(share))
		reps = append(reps, r.rep)
		for k, v := range r.fnSeen {
			fnSeen[k] += v
		}
		viols = append(viols, r.viols...)
		spurious = append(spurious, r.spurious...)
		samples = append(samples, r.samples...)
		checks = append(checks, r.doubtful...)
		if len(viols) > 0 {
			break
		}
	}
	// run a sample of the explored paths, and every doubtful one, for real
	validated, mismatch := 0, []string{}
	if len(viols) == 0 {
		v, m, vs := nat.validate(samples, checks)
		validated, mismatch = v, m
		viols = append(viols, vs...)
	}
	rc := 0
	if len(viols) > 2 {
		viols = viols[:2]
	}
	for _, v := range viols {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, v.path)
		fmt.Printf("  %s: %s\n", v.harness, v.msg)
		rc = 1
	}
	if rc == 0 {
		e.knownFindings(c)
	}
	for _, s := range spurious {
		fmt.Fprintf(os.Stderr, "note: counterexample did not reproduce: %s\n", s)
	}
	for _, s := range mismatch {
		fmt.Fprintf(os.Stderr, "note: engine and real run differ: %s\n", s)
	}
	writeEvidence(c, e, reps, fnSeen, viols, spurious, mismatch, validated, samples, loadS, time.Since(t0).Seconds())
	return rc
}

func (e *Engine) knownFindings(c *config) {
	b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+c.prop+" ") {
			fmt.Printf("KNOWN-FINDING: %s\n", strings.TrimPrefix(l, "finding: "))
		}
	}
}

func writeEvidence(c *config, e *Engine, reps []*harnessReport, fnSeen map[string]int64, viols []*violation, spurious, mismatch []string, validated int, samples []*pathRec, loadS, wall float64) {
	var paths, forks, asserts int64
	q, solverS := 0, 0.0
	exh := true
	for _, r := range reps {
		paths += r.Done
		forks += r.Forks + r.Picks
		asserts += r.Asserts
		q += r.Queries
		solverS += r.SolverS
		exh = exh && r.Exhausted
	}
	var fns []string
	for f := range fnSeen {
		fns = append(fns, strings.Replace(f, modPath+"/", "", -1))
	}
	sort.Strings(fns)
	var sm []interface{}
	for i, s := range samples {
		if i >= 6 {
			break
		}
		sm = append(sm, map[string]interface{}{"harness": s.harness, "inputs": s.show(), "outcome": s.kind})
	}
	if len(sm) == 0 {
		sm = append(sm, "none")
	}
	cov := map[string]interface{}{
		"states":                        paths,
		"transitions":                   forks,
		"traces_validated_against_impl": validated,
		"samples":                       sm,
		"exhaustive":                    exh && len(viols) == 0,
		"states_meaning":                "completed symbolic paths (each stands for every input satisfying its path condition)",
		"transitions_meaning":           "symbolic forks and environment choice points",
		"functions_encoded":             fns,
		"functions_encoded_count":       len(fns),
		"assertions_checked":            asserts,
		"solver_queries":                q,
		"solver":                        strings.Join(solverBin, " "),
		"solver_s":                      solverS,
		"encoding_load_s":               loadS,
		"harnesses":                     reps,
		"engine_mismatches":             len(mismatch),
		"unreproduced_counterexamples":  len(spurious),
	}
	if e.cross != nil {
		cov["cross_check"] = map[string]int{"queries_checked_with_cvc5": e.cross.checked, "disagreements": e.cross.disagree, "unknown": e.cross.unknown}
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": cov, "wall_s": wall, "violations": len(viols),
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(c.verif, "evidence")
	os.MkdirAll(d, 0755)
	if err := os.WriteFile(filepath.Join(d, c.prop+".json"), append(b, '\n'), 0644); err != nil {
		fatal(err)
	}
}

var assumptions = []string{
	"package fmt, regexp matching, sync primitives, os file operations and process signals are modelled natively in the engine (engine/fmtmodel.go, remodel.go, intrinsics.go, osmodel.go); the rest of the standard library runs as its own SSA",
	"go/ssa translates the source faithfully; a sample of explored paths is replayed against the compiled program to test this and the models",
	"string and slice lengths are concrete within a path; the harness bounds say which lengths are covered",
	"the SMT solver's sat/unsat answers; models are re-evaluated against the query",
}
