package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/fwip/posix-utils"

// Engine holds the program under test and the exploration shared by the workers.
type Engine struct {
	prog          *ssa.Program
	pkgs          map[string]*ssa.Package
	lookMu        sync.Mutex
	rtErrorString types.Type
	cross         *crossStat
	repoFiles     map[string]bool

	mu         sync.Mutex
	cond       *sync.Cond
	items      []*workItem
	active     int
	stop       bool
	stopWhy    string
	deadline   time.Time
	incomplete map[string]int
	limits     Limits

	results  *Results
	cfg      *config
	bounds   map[string]bool
	thorough bool
	errType  types.Type
}

type Limits struct {
	steps   int64
	paths   int64
	maxViol int
}

type crossStat struct {
	mu       sync.Mutex
	bin      string
	checked  int
	disagree int
	unknown  int
}

func (e *Engine) isRepo(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}
func (e *Engine) isHarness(path string) bool { return strings.HasPrefix(path, modPath+"/zzv") }
func isStd(path string) bool {
	if i := strings.IndexByte(path, '/'); i >= 0 {
		path = path[:i]
	}
	return !strings.Contains(path, ".")
}

func (e *Engine) fn(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		panic(unsupported("package " + pkg + " is not loaded"))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported("no function " + pkg + "." + name))
	}
	return f
}

func (e *Engine) typ(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		panic(unsupported("package " + pkg + " is not loaded"))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("no type " + pkg + "." + name))
	}
	return o.Type()
}

func (e *Engine) noteIncomplete(why string) {
	e.mu.Lock()
	e.incomplete[why]++
	e.mu.Unlock()
}

type workerStat struct {
	cacheHits, unknown, forks, picks, guessed int64
	asserts, assertsTrivial, assertsSolver    int64
	steps                                     int64
	paths, done, assumed, unsupp, limit, viol int64
}

// Worker explores paths with its own terms, solver and compiled code.
type Worker struct {
	id     int
	eng    *Engine
	ctx    *Ctx
	solver *Solver
	xsolve *Solver
	qcache map[qkey]qent
	stat   workerStat

	tis     map[types.Type]*tinfo
	rtByPtr map[types.Type]*RType
	rts     typeutil.Map
	codes   map[*ssa.Function]*fnCode
	callees map[*ssa.Function]*callee

	tmpl     int
	globals  map[*ssa.Global]*Obj
	inited   map[*ssa.Package]bool
	tmplProc *Proc
	tmplTh   *Thread
	fnSeen   map[string]int64
	regexps  map[string]*reProg
}

func newWorker(e *Engine, id int) *Worker {
	w := &Worker{id: id, eng: e, fnSeen: map[string]int64{}}
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.solver != nil {
		w.solver.Close()
	} else {
		w.solver = NewSolver(solverBin[0], solverBin[1:]...)
	}
	if w.xsolve != nil {
		w.xsolve.Close()
	}
	w.ctx = NewCtx()
	w.qcache = map[qkey]qent{}
	w.tis = map[types.Type]*tinfo{}
	w.rtByPtr = map[types.Type]*RType{}
	w.rts = typeutil.Map{}
	w.codes = map[*ssa.Function]*fnCode{}
	w.callees = map[*ssa.Function]*callee{}
	w.globals = map[*ssa.Global]*Obj{}
	w.inited = map[*ssa.Package]bool{}
	w.regexps = map[string]*reProg{}
	w.tmplProc = newProc(nil)
	w.tmplProc.args = []Str{{s: "cmd"}}
	p := w.newPath(nil)
	w.tmplTh = &Thread{w: w, p: p, proc: w.tmplProc}
	p.threads = []*Thread{w.tmplTh}
}

var solverBin = []string{"z3-new", "-in"}

func (w *Worker) checkStop() {
	if w.eng.stop {
		panic(pathEnd{"stop", ""})
	}
}

func (w *Worker) crossCheck(cs []*Term, r SatResult) {
	if w.xsolve == nil {
		w.xsolve = NewSolver("cvc5", "--incremental", "--lang=smt2", "--tlimit-per=20000")
	}
	x, _ := w.xsolve.Check(cs, nil, false)
	c := w.eng.cross
	c.mu.Lock()
	c.checked++
	if x == Unknown {
		c.unknown++
	} else if x != r {
		c.disagree++
	}
	c.mu.Unlock()
}

func (w *Worker) newPath(it *workItem) *Path {
	p := &Path{w: w, ctx: w.ctx, known: map[uint32]bool{}, names: map[string]int{},
		locks: map[Ptr]*lockState{}, tags: map[string]bool{}, limit: 1 << 62, maxTerms: 1 << 62}
	if it != nil {
		p.initModel = it.model
		if it.n != nil {
			ds := make([]Decision, it.n.depth+1)
			for n := it.n; n != nil; n = n.parent {
				ds[n.depth] = n.d
			}
			p.prefix = ds
		}
	}
	return p
}

// global returns the object of a package-level variable for the thread's process.
func (th *Thread) global(g *ssa.Global) *Obj {
	path := g.Pkg.Pkg.Path()
	if !isStd(path) {
		o := th.proc.globals[g]
		if o == nil {
			o = &Obj{slots: make([]Value, th.w.ti(deref(g.Type())).slots)}
			th.proc.globals[g] = o
		}
		return o
	}
	if path == "os" {
		switch g.Name() {
		case "Stdin", "Stdout", "Stderr", "Args":
			o := th.proc.globals[g]
			if o == nil {
				o = &Obj{slots: make([]Value, 1)}
				switch g.Name() {
				case "Stdin":
					o.slots[0] = th.proc.stdFile(0)
				case "Stdout":
					o.slots[0] = th.proc.stdFile(1)
				case "Stderr":
					o.slots[0] = th.proc.stdFile(2)
				case "Args":
					o.slots[0] = th.strSlice(th.proc.args)
				}
				th.proc.globals[g] = o
			}
			return o
		}
	}
	w := th.w
	if o, ok := w.globals[g]; ok {
		return o
	}
	w.initPkg(g.Pkg)
	return w.globals[g]
}

// initPkg runs a standard-library package initialiser once per worker.
func (w *Worker) initPkg(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	var gs []*ssa.Global
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			gs = append(gs, g)
			w.globals[g] = &Obj{slots: make([]Value, w.ti(deref(g.Type())).slots)}
		}
	}
	w.tmpl++
	th := w.tmplTh
	d := th.depth
	th.depth = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("ZZV_DEBUG") != "" {
					msg := fmt.Sprint(r)
					if tp, ok := r.(*targetPanic); ok {
						msg = th.panicText(tp)
					}
					fmt.Fprintf(os.Stderr, "init of %s: %s\n", p.Pkg.Path(), msg)
				}
				w.eng.noteInit(p.Pkg.Path(), r)
			}
		}()
		if f := p.Func("init"); f != nil {
			th.invoke(&callee{fn: f, code: w.code(f)}, nil, nil, nil)
		}
	}()
	th.depth = d
	w.tmpl--
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	seen := map[interface{}]bool{}
	for _, g := range gs {
		freezeObj(w.globals[g], seen)
	}
}

func (e *Engine) noteInit(path string, r interface{}) {}

func freezeObj(o *Obj, seen map[interface{}]bool) {
	if o == nil || o.frozen || seen[o] {
		return
	}
	seen[o] = true
	o.frozen = true
	for _, v := range o.slots {
		freezeVal(v, seen)
	}
}

func freezeVal(v Value, seen map[interface{}]bool) {
	switch x := v.(type) {
	case Ptr:
		freezeObj(x.obj, seen)
	case Slice:
		freezeObj(x.obj, seen)
	case Iface:
		freezeVal(x.v, seen)
	case Agg:
		for _, e := range x {
			freezeVal(e, seen)
		}
	case *Closure:
		if x != nil && !seen[x] {
			seen[x] = true
			for _, e := range x.env {
				freezeVal(e, seen)
			}
		}
	case *MapObj:
		if x != nil && !x.frozen {
			x.frozen = true
			for _, e := range x.ents {
				freezeVal(e.key, seen)
				freezeVal(e.val, seen)
			}
		}
	}
}

// outcome of one path
type outcome struct {
	kind   string // done, assume, limit, unsupported, violation, stop, internal
	msg    string
	p      *Path
	inputs map[string]int64
}

// runPath executes the harness once under a work item.
func (w *Worker) runPath(h *ssa.Function, it *workItem) (out outcome) {
	if w.ctx.nterms > 2_000_000 {
		w.reset()
	}
	p := w.newPath(it)
	p.limit = w.eng.limits.steps
	p.maxTerms = w.ctx.nterms + 1_500_000
	p.fnSeen = map[*fnCode]bool{}
	p.maxPreempt = 2
	proc := newProc(newFS())
	th := &Thread{w: w, p: p, proc: proc, id: 0, wake: make(chan struct{}), gone: make(chan struct{})}
	p.threads = []*Thread{th}
	out.p = p
	w.stat.paths++
	defer func() {
		w.stat.steps += p.steps
		for c := range p.fnSeen {
			w.fnSeen[c.name]++
		}
		out.inputs = p.inputValues()
	}()
	defer func() {
		r := recover()
		func() {
			defer func() {
				if x := recover(); x != nil {
					fmt.Fprintf(os.Stderr, "killing threads: %v\n", x)
				}
			}()
			p.killThreads(1)
		}()
		if r == nil {
			out.kind = "done"
			return
		}
		switch x := r.(type) {
		case pathEnd:
			out.kind, out.msg = x.why, x.msg
		case unsupported:
			out.kind, out.msg = "unsupported", string(x)
		case *targetPanic:
			out.kind = "violation"
			out.msg = "uncaught panic: "
			func() {
				defer func() {
					if y := recover(); y != nil {
						out.msg += fmt.Sprint(y)
					}
				}()
				out.msg += th.panicText(x)
			}()
		case exitSig:
			out.kind = "violation"
			out.msg = fmt.Sprintf("process ended unexpectedly: %s %s", x.why, x.proc.crashMsg)
		default:
			out.kind = "internal"
			out.msg = fmt.Sprint(r)
			if os.Getenv("ZZV_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "internal: %v\n%s\n", r, debug.Stack())
			}
		}
	}()
	th.startProc(h.Pkg)
	th.callFn(h)
	return
}

// startProc runs the (non-standard-library) package initialisers for the thread's process.
func (th *Thread) startProc(p *ssa.Package) {
	if f := p.Func("init"); f != nil {
		th.callFn(f)
	}
}

func (p *Path) inputValues() map[string]int64 {
	m := map[string]int64{}
	for _, in := range p.inputs {
		m[in.name] = int64(p.ctx.Eval(in.t, p.model))
	}
	return m
}
