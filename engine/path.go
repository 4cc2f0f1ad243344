package main

import (
	"fmt"
)

type dkind uint8

const (
	dBranch dkind = iota
	dImplied
	dEq
	dNe
	dPick
	dForce // value forced by the path condition
)

type Decision struct {
	k dkind
	v uint64
}

type node struct {
	parent *node
	d      Decision
	depth  int
}

type workItem struct {
	n     *node
	model map[string]uint64
}

type inputRec struct {
	name string
	t    *Term
}

type group struct {
	cons []*Term
	vars []uint32
	h1   uint64
	h2   uint64
}

type pathEnd struct {
	why string // "assume", "done", "limit", "unsupported", "violation", "stop"
	msg string
}

// Path is one symbolic execution of a harness.
type Path struct {
	w         *Worker
	ctx       *Ctx
	prefix    []Decision
	pos       int
	tr        *node
	model     []uint64
	groups    []*group
	varGrp    []int32
	known     map[uint32]bool // term id -> asserted
	inputs    []inputRec
	names     map[string]int
	steps     int64
	limit     int64
	maxTerms  int
	derived   []derived
	itoa      []itoaMemo
	obs       []obsRec
	tags      map[string]bool
	asserts   int
	fnSeen    map[*fnCode]bool
	initModel map[string]uint64

	threads    []*Thread
	abort      interface{}
	schedAny   bool
	mapAny     bool
	preempts   int
	maxPreempt int
	switches   int
	spawned    int
	locks      map[Ptr]*lockState
	oncePath   map[string]Value
	runs       int
	replayEnv  []string
}

type obsRec struct {
	name string
	v    Str
}

func mix(x uint64) (uint64, uint64) {
	a := (x + 0x9e3779b97f4a7c15) * 0xbf58476d1ce4e5b9
	a ^= a >> 29
	a *= 0x94d049bb133111eb
	a ^= a >> 32
	b := (x + 0x7f4a7c159e3779b9) * 0xff51afd7ed558ccd
	b ^= b >> 33
	b *= 0xc4ceb9fe1a85ec53
	b ^= b >> 31
	return a, b
}

func (p *Path) addCons(t *Term) {
	if t.op == opConst {
		if t.val == 0 {
			panic(pathEnd{"assume", "false constraint"})
		}
		return
	}
	if t.op == opAnd {
		p.addCons(t.a)
		p.addCons(t.b)
		p.known[t.id] = true
		return
	}
	if p.known[t.id] {
		return
	}
	p.known[t.id] = true
	if len(t.vars) == 0 {
		return
	}
	// merge groups
	var g *group
	gi := int32(-1)
	for _, v := range t.vars {
		for int(v) >= len(p.varGrp) {
			p.varGrp = append(p.varGrp, -1)
		}
		x := p.varGrp[v]
		if x < 0 {
			continue
		}
		if gi < 0 {
			gi = x
			g = p.groups[x]
		} else if x != gi {
			o := p.groups[x]
			if len(o.vars) > len(g.vars) {
				g, o = o, g
				gi, x = x, gi
			}
			for _, ov := range o.vars {
				p.varGrp[ov] = gi
			}
			g.cons = append(g.cons, o.cons...)
			g.vars = append(g.vars, o.vars...)
			g.h1 += o.h1
			g.h2 += o.h2
			p.groups[x] = nil
		}
	}
	if g == nil {
		g = &group{}
		gi = int32(len(p.groups))
		p.groups = append(p.groups, g)
	}
	for _, v := range t.vars {
		if p.varGrp[v] < 0 {
			p.varGrp[v] = gi
			g.vars = append(g.vars, v)
		}
	}
	g.cons = append(g.cons, t)
	a, b := mix(uint64(t.id))
	g.h1 += a
	g.h2 += b
}

type qkey struct{ a, b, c uint64 }
type qent struct {
	r    SatResult
	vars []uint32
	vals []uint64
}

// query decides pc && cond, returning new values for the variables of the slice.
func (p *Path) query(cond *Term) (SatResult, []uint32, []uint64) {
	if cond.op == opConst {
		if cond.val != 0 {
			return Sat, nil, nil
		}
		return Unsat, nil, nil
	}
	var gs []*group
	seen := map[int32]bool{}
	var h1, h2 uint64
	for _, v := range cond.vars {
		if int(v) < len(p.varGrp) {
			if x := p.varGrp[v]; x >= 0 && !seen[x] {
				seen[x] = true
				gs = append(gs, p.groups[x])
				h1 += p.groups[x].h1
				h2 += p.groups[x].h2
			}
		}
	}
	k := qkey{h1, h2, uint64(cond.id)}
	if e, ok := p.w.qcache[k]; ok {
		p.w.stat.cacheHits++
		return e.r, e.vars, e.vals
	}
	var cs []*Term
	vs := map[uint32]bool{}
	var vars []uint32
	addv := func(v uint32) {
		if !vs[v] {
			vs[v] = true
			vars = append(vars, v)
		}
	}
	for _, g := range gs {
		cs = append(cs, g.cons...)
		for _, v := range g.vars {
			addv(v)
		}
	}
	for _, v := range cond.vars {
		addv(v)
	}
	cs = append(cs, cond)
	vt := make([]*Term, len(vars))
	for i, v := range vars {
		vt[i] = p.ctx.varList[v]
	}
	r, vals := p.guess(cs, vars)
	if r != Sat {
		r, vals = p.w.solver.Check(cs, vt, true)
	}
	if r == Unknown {
		p.w.stat.unknown++
	}
	if p.w.eng.cross != nil && r != Unknown {
		p.w.crossCheck(cs, r)
	}
	if r == Sat {
		// the model must satisfy the query: guards against solver/encoding slips
		m := p.modelWith(vars, vals)
		for _, c := range cs {
			if p.ctx.Eval(c, m) == 0 {
				panic(fmt.Sprintf("internal: solver model does not satisfy constraint t%d", c.id))
			}
		}
	}
	p.w.qcache[k] = qent{r, vars, vals}
	return r, vars, vals
}

// derived is a variable introduced for a digit of another term.
type derived struct {
	v   uint32
	x   *Term
	div uint64
}

// guess looks for a model of a large query by evaluation; what it does not find is left to
// the solver.
func (p *Path) guess(cs []*Term, vars []uint32) (SatResult, []uint64) {
	if dagSize(cs, 400) < 400 {
		return Unknown, nil
	}
	dv := map[uint32]bool{}
	for _, d := range p.derived {
		dv[d.v] = true
	}
	var base []uint32
	for _, v := range vars {
		if !dv[v] && p.ctx.varList[v].w > 0 {
			base = append(base, v)
		}
	}
	if len(base) == 0 {
		return Unknown, nil
	}
	m := make([]uint64, len(p.ctx.varList))
	seed := uint64(len(cs))
	rnd := func() uint64 {
		seed++
		a, _ := mix(seed)
		return a
	}
	draw := func(v uint32, k uint64) {
		t := p.ctx.varList[v]
		x := k
		if n := t.hi - t.lo + 1; n != 0 {
			x = t.lo + k%n
		}
		for i := 0; t.dom != nil && !inDom(t.dom, x) && i < 300; i++ {
			x = t.lo + (x-t.lo+1)%(t.hi-t.lo+1)
		}
		m[v] = x
	}
	for try := 0; try < 400; try++ {
		copy(m, p.model)
		if len(base) == 1 {
			if try >= 256 {
				break
			}
			draw(base[0], uint64(try))
		} else if try%2 == 0 {
			draw(base[rnd()%uint64(len(base))], rnd())
		} else {
			for _, v := range base {
				draw(v, rnd())
			}
		}
		for _, d := range p.derived {
			m[d.v] = p.ctx.Eval(d.x, m) / d.div % 10
		}
		ok := true
		for i := len(cs) - 1; i >= 0 && ok; i-- {
			ok = p.ctx.Eval(cs[i], m) != 0
		}
		if ok {
			vals := make([]uint64, len(vars))
			for i, v := range vars {
				t := p.ctx.varList[v]
				if m[v] < t.lo || m[v] > t.hi || t.dom != nil && !inDom(t.dom, m[v]) {
					return Unknown, nil
				}
				vals[i] = m[v]
			}
			p.w.stat.guessed++
			return Sat, vals
		}
	}
	return Unknown, nil
}

// dagSize counts the nodes of some terms, up to a limit.
func dagSize(cs []*Term, limit int) int {
	seen := map[*Term]bool{}
	stack := append([]*Term{}, cs...)
	for len(stack) > 0 && len(seen) < limit {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if t == nil || seen[t] {
			continue
		}
		seen[t] = true
		stack = append(stack, t.a, t.b, t.c)
	}
	return len(seen)
}

func (p *Path) modelWith(vars []uint32, vals []uint64) []uint64 {
	m := make([]uint64, len(p.ctx.varList))
	copy(m, p.model)
	for i, v := range vars {
		m[v] = vals[i]
	}
	return m
}

func (p *Path) rec(d Decision) {
	dep := 0
	if p.tr != nil {
		dep = p.tr.depth + 1
	}
	p.tr = &node{p.tr, d, dep}
}

func (p *Path) pushAlt(d Decision, vars []uint32, vals []uint64) {
	m := p.modelWith(vars, vals)
	dep := 0
	if p.tr != nil {
		dep = p.tr.depth + 1
	}
	mm := make(map[string]uint64, len(m))
	for i, v := range m {
		if v != 0 {
			mm[p.ctx.varList[i].name] = v
		}
	}
	p.w.eng.push(p.w, &workItem{&node{p.tr, d, dep}, mm})
}

func (p *Path) next() (Decision, bool) {
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		return d, true
	}
	return Decision{}, false
}

// Branch decides a symbolic condition, forking when both sides are feasible.
func (p *Path) Branch(c *Term) bool {
	if c.op == opConst {
		return c.val != 0
	}
	if c.op == opNot {
		return !p.Branch(c.a)
	}
	if p.known[c.id] {
		return true
	}
	nc := p.ctx.Not(c)
	if p.known[nc.id] {
		return false
	}
	if p.w.tmpl > 0 {
		panic(unsupported("symbolic branch in package initialisation"))
	}
	if d, ok := p.next(); ok {
		p.rec(d)
		v := d.v != 0
		x := c
		if !v {
			x = nc
		}
		if d.k == dBranch {
			p.addCons(x)
		} else if d.k == dImplied {
			p.known[x.id] = true
		} else {
			panic(fmt.Sprintf("internal: replay mismatch: branch got %v", d))
		}
		return v
	}
	p.w.checkStop()
	v := p.ctx.Eval(c, p.model) != 0
	x, other := c, nc
	if !v {
		x, other = nc, c
	}
	r, vars, vals := p.query(other)
	vv := uint64(0)
	if v {
		vv = 1
	}
	switch r {
	case Sat:
		p.w.stat.forks++
		p.pushAlt(Decision{dBranch, 1 - vv}, vars, vals)
		p.rec(Decision{dBranch, vv})
		p.addCons(x)
	case Unsat:
		p.rec(Decision{dImplied, vv})
		p.known[x.id] = true
	default:
		p.w.eng.noteIncomplete("solver unknown on a branch")
		p.rec(Decision{dBranch, vv})
		p.addCons(x)
	}
	return v
}

// Concretize returns a concrete value for t, forking over the others.
func (p *Path) Concretize(t *Term) uint64 {
	if t.op == opConst {
		return t.val
	}
	if t.w == 0 {
		if p.Branch(t) {
			return 1
		}
		return 0
	}
	if p.w.tmpl > 0 {
		panic(unsupported("symbolic value in package initialisation"))
	}
	for {
		if d, ok := p.next(); ok {
			p.rec(d)
			e := p.ctx.Eq(t, p.ctx.Const(d.v, t.w))
			switch d.k {
			case dEq:
				p.addCons(e)
				return d.v
			case dForce:
				p.known[e.id] = true
				return d.v
			case dNe:
				p.addCons(p.ctx.Not(e))
				continue
			}
			panic(fmt.Sprintf("internal: replay mismatch: concretize got %v", d))
		}
		p.w.checkStop()
		v := p.ctx.Eval(t, p.model)
		e := p.ctx.Eq(t, p.ctx.Const(v, t.w))
		r, vars, vals := p.query(p.ctx.Not(e))
		switch r {
		case Sat:
			p.w.stat.forks++
			p.pushAlt(Decision{dNe, v}, vars, vals)
			p.rec(Decision{dEq, v})
			p.addCons(e)
		case Unsat:
			p.rec(Decision{dForce, v})
			p.known[e.id] = true
		default:
			p.w.eng.noteIncomplete("solver unknown in concretisation")
			p.rec(Decision{dEq, v})
			p.addCons(e)
		}
		return v
	}
}

// Pick is a choice of the environment (schedule, map order) among n.
func (p *Path) Pick(n int) int {
	if n <= 1 {
		return 0
	}
	if p.w.tmpl > 0 {
		return 0
	}
	if d, ok := p.next(); ok {
		p.rec(d)
		if d.k != dPick {
			panic(fmt.Sprintf("internal: replay mismatch: pick got %v", d))
		}
		return int(d.v)
	}
	p.w.stat.picks++
	for i := n - 1; i >= 1; i-- {
		p.pushAlt(Decision{dPick, uint64(i)}, nil, nil)
	}
	p.rec(Decision{dPick, 0})
	return 0
}

func (p *Path) Assume(c *Term) {
	if c.True() || p.known[c.id] {
		return
	}
	if c.False() {
		panic(pathEnd{"assume", ""})
	}
	if p.pos < len(p.prefix) {
		p.addCons(c)
		return
	}
	if p.ctx.Eval(c, p.model) == 0 {
		r, vars, vals := p.query(c)
		switch r {
		case Unsat:
			panic(pathEnd{"assume", ""})
		case Unknown:
			p.w.eng.noteIncomplete("solver unknown on an assumption")
			panic(pathEnd{"assume", "unknown"})
		}
		p.model = p.modelWith(vars, vals)
	}
	p.addCons(c)
}

// Assert checks that c holds on this path; a counterexample ends the path.
func (p *Path) Assert(c *Term, msg string) {
	if p.pos < len(p.prefix) {
		// decided on the path that first got here
		return
	}
	p.asserts++
	p.w.stat.asserts++
	if c.True() || p.known[c.id] {
		p.w.stat.assertsTrivial++
		return
	}
	if p.ctx.Eval(c, p.model) == 0 {
		p.w.stat.assertsSolver++
		panic(pathEnd{"violation", msg})
	}
	p.w.stat.assertsSolver++
	r, vars, vals := p.query(p.ctx.Not(c))
	switch r {
	case Sat:
		p.model = p.modelWith(vars, vals)
		panic(pathEnd{"violation", msg})
	case Unknown:
		p.w.eng.noteIncomplete("solver unknown on assertion " + msg)
	}
}

func (p *Path) fresh(name string) string {
	n := p.names[name]
	p.names[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

// input declares the next input of that name, restricted to [lo,hi] and dom.
func (p *Path) input(name string, w uint8, lo, hi uint64, dom *[4]uint64) *Term {
	full := p.fresh(name)
	vn := full
	if dom != nil {
		vn = fmt.Sprintf("%s@%x", full, *dom)
	} else if w > 0 && (lo > 0 || hi < mask(w)) {
		vn = fmt.Sprintf("%s@%d-%d", full, lo, hi)
	} else {
		vn = fmt.Sprintf("%s@w%d", full, w)
	}
	t := p.ctx.VarIn(vn, w, lo, hi, dom)
	p.declare(t)
	p.inputs = append(p.inputs, inputRec{full, t})
	return t
}

// declare makes sure the model has an admissible value for variable t.
func (p *Path) declare(t *Term) {
	for len(p.model) <= int(t.val) {
		p.model = append(p.model, 0)
	}
	v, ok := p.initModel[t.name]
	if !ok || v < t.lo || v > t.hi {
		v = t.lo
	}
	if t.dom != nil && !inDom(t.dom, v) {
		for v = 0; !inDom(t.dom, v); v++ {
		}
	}
	p.model[t.val] = v
}

type unsupported string
