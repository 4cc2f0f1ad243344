package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fnCode is a function of the program compiled to closures over a Frame.
type fnCode struct {
	fn       *ssa.Function
	name     string
	repo     bool // function of the repository (or the harness)
	target   bool // function of the repository proper
	nregs    int
	nparams  int
	nfree    int
	blocks   []*blockCode
	hasDefer bool
	recover  int
	calls    int64
}

type phiCode struct {
	dst   int
	edges []opnd
}

type blockCode struct {
	phis []phiCode
	ins  []func(*Frame)
	term func(*Frame) int
	pred map[int]int // block index -> edge
	tmp  int
}

type opnd struct {
	reg int
	c   Value
	g   *ssa.Global
}

func (o *opnd) get(f *Frame) Value {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	if o.g != nil {
		return Ptr{f.th.global(o.g), 0}
	}
	return o.c
}

type deferred struct {
	fn   *Closure
	args []Value
	nat  func()
}

type targetPanic struct {
	v     Iface
	trace string
	goex  bool
}

// Frame is one activation.
type Frame struct {
	th        *Thread
	code      *fnCode
	regs      []Value
	res       Value
	defers    []deferred
	panicking *targetPanic
	deferOf   *Frame
	prev      int
}

type compiler struct {
	w    *Worker
	fn   *ssa.Function
	regs map[ssa.Value]int
	n    int
}

func (w *Worker) code(fn *ssa.Function) *fnCode {
	if c, ok := w.codes[fn]; ok {
		return c
	}
	c := &fnCode{fn: fn, name: fn.String(), recover: -1}
	w.codes[fn] = c
	if p := fnPkg(fn); p != nil {
		c.repo = w.eng.isRepo(p.Path())
		c.target = c.repo && !w.eng.isHarness(p.Path())
	}
	// always through the lock: another worker may be building this package right now
	w.eng.lookMu.Lock()
	if p := fn.Package(); p != nil {
		p.Build()
	}
	w.eng.lookMu.Unlock()
	if fn.Blocks == nil {
		return c // external
	}
	k := &compiler{w: w, fn: fn, regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		k.reg(p)
	}
	for _, v := range fn.FreeVars {
		k.reg(v)
	}
	c.nparams = len(fn.Params)
	c.nfree = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				k.reg(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	for _, b := range fn.Blocks {
		bc := &blockCode{pred: map[int]int{}}
		for i, p := range b.Preds {
			bc.pred[p.Index] = i
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				ph := phiCode{dst: k.regs[x]}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, k.op(e))
				}
				bc.phis = append(bc.phis, ph)
			case *ssa.DebugRef:
			case *ssa.Jump:
				n := b.Succs[0].Index
				bc.term = func(*Frame) int { return n }
			case *ssa.If:
				c := k.op(x.Cond)
				t, e := b.Succs[0].Index, b.Succs[1].Index
				bc.term = func(f *Frame) int {
					if f.th.p.Branch(c.get(f).(*Term)) {
						return t
					}
					return e
				}
			case *ssa.Return:
				ops := k.ops(x.Results)
				switch len(ops) {
				case 0:
					bc.term = func(*Frame) int { return -1 }
				case 1:
					o := ops[0]
					bc.term = func(f *Frame) int { f.res = o.get(f); return -1 }
				default:
					bc.term = func(f *Frame) int {
						t := make(Tuple, len(ops))
						for i := range ops {
							t[i] = ops[i].get(f)
						}
						f.res = t
						return -1
					}
				}
			case *ssa.Panic:
				o := k.op(x.X)
				bc.term = func(f *Frame) int {
					f.th.goPanic(o.get(f).(Iface))
					return -1
				}
			default:
				bc.ins = append(bc.ins, k.instr(in))
			}
		}
		if bc.term == nil {
			bc.term = func(f *Frame) int { panic("block without terminator in " + f.code.name) }
		}
		c.blocks = append(c.blocks, bc)
	}
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
	c.nregs = k.n
	return c
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func (k *compiler) reg(v ssa.Value) int {
	if r, ok := k.regs[v]; ok {
		return r
	}
	r := k.n
	k.n++
	k.regs[v] = r
	return r
}

func (k *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, c: k.w.constant(x)}
	case *ssa.Global:
		return opnd{reg: -1, g: x}
	case *ssa.Function:
		return opnd{reg: -1, c: &Closure{fn: x}}
	case *ssa.Builtin:
		return opnd{reg: -1, c: x.Name()}
	}
	return opnd{reg: k.reg(v)}
}

func (k *compiler) ops(vs []ssa.Value) []opnd {
	out := make([]opnd, len(vs))
	for i, v := range vs {
		out[i] = k.op(v)
	}
	return out
}

func (w *Worker) constant(c *ssa.Const) Value {
	ti := w.ti(c.Type())
	if c.Value == nil {
		return w.zero(ti)
	}
	switch ti.k {
	case kBool:
		return w.ctx.Bool(constant.BoolVal(c.Value))
	case kInt, kUint:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return w.ctx.Const(uint64(i), ti.w)
		}
		u, _ := constant.Uint64Val(v)
		return w.ctx.Const(u, ti.w)
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		return f
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case kString:
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return Str{s: string(rune(i))}
		}
	}
	panic(unsupported(fmt.Sprintf("constant %v of %v", c, c.Type())))
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (k *compiler) instr(in ssa.Instruction) func(*Frame) {
	w := k.w
	switch x := in.(type) {
	case *ssa.Alloc:
		d := k.regs[x]
		ti := w.ti(deref(x.Type()))
		n := ti.slots
		return func(f *Frame) { f.regs[d] = Ptr{&Obj{slots: make([]Value, n)}, 0} }
	case *ssa.BinOp:
		return k.binop(x)
	case *ssa.UnOp:
		return k.unop(x)
	case *ssa.Store:
		a, v := k.op(x.Addr), k.op(x.Val)
		ti := w.ti(x.Val.Type())
		return func(f *Frame) { f.th.store(a.get(f), v.get(f), ti) }
	case *ssa.FieldAddr:
		d := k.regs[x]
		o := k.op(x.X)
		off := w.ti(deref(x.X.Type())).offs[x.Field]
		return func(f *Frame) {
			p, ok := o.get(f).(Ptr)
			if !ok {
				panic(unsupported("field address through a symbolic pointer"))
			}
			if p.obj == nil {
				f.th.nilDeref()
			}
			f.regs[d] = Ptr{p.obj, p.off + off}
		}
	case *ssa.Field:
		d := k.regs[x]
		o := k.op(x.X)
		sti := w.ti(x.X.Type())
		off, fti := sti.offs[x.Field], sti.fields[x.Field]
		return func(f *Frame) { f.regs[d] = w.aggGet(o.get(f).(Agg), off, fti) }
	case *ssa.IndexAddr:
		return k.indexAddr(x)
	case *ssa.Index:
		return k.index(x)
	case *ssa.Lookup:
		d := k.regs[x]
		m, key := k.op(x.X), k.op(x.Index)
		mti := w.ti(x.X.Type())
		if mti.k == kString {
			sg := w.ti(x.Index.Type()).k == kInt
			return func(f *Frame) { f.regs[d] = f.th.strIndex(m.get(f).(Str), key.get(f).(*Term), sg) }
		}
		if x.CommaOk {
			return func(f *Frame) {
				v, ok := f.th.mapGet(m.get(f).(*MapObj), key.get(f), mti)
				f.regs[d] = Tuple{v, w.ctx.Bool(ok)}
			}
		}
		return func(f *Frame) { f.regs[d], _ = f.th.mapGet(m.get(f).(*MapObj), key.get(f), mti) }
	case *ssa.MapUpdate:
		m, key, v := k.op(x.Map), k.op(x.Key), k.op(x.Value)
		mti := w.ti(x.Map.Type())
		return func(f *Frame) { f.th.mapSet(m.get(f).(*MapObj), key.get(f), v.get(f), mti) }
	case *ssa.MakeMap:
		d := k.regs[x]
		ti := w.ti(x.Type())
		return func(f *Frame) { f.regs[d] = &MapObj{kt: ti.key} }
	case *ssa.MakeSlice:
		d := k.regs[x]
		ti := w.ti(x.Type())
		l, c := k.op(x.Len), k.op(x.Cap)
		return func(f *Frame) {
			ln := sext(f.th.p.Concretize(l.get(f).(*Term)), l.get(f).(*Term).w)
			cp := sext(f.th.p.Concretize(c.get(f).(*Term)), c.get(f).(*Term).w)
			if ln < 0 || ln > 1<<26 {
				f.th.rtPanic("makeslice: len out of range")
			}
			if cp < ln || cp > 1<<26 {
				f.th.rtPanic("makeslice: cap out of range")
			}
			f.regs[d] = f.th.newSlice(int(ln), int(cp), ti.elem.slots)
		}
	case *ssa.MakeChan:
		d := k.regs[x]
		s := k.op(x.Size)
		return func(f *Frame) {
			f.regs[d] = &Chan{cap: int(f.th.p.Concretize(s.get(f).(*Term)))}
		}
	case *ssa.MakeInterface:
		d := k.regs[x]
		o := k.op(x.X)
		rt := w.rtype(x.X.Type())
		return func(f *Frame) { f.regs[d] = Iface{rt, o.get(f)} }
	case *ssa.MakeClosure:
		d := k.regs[x]
		ops := k.ops(x.Bindings)
		fn := x.Fn.(*ssa.Function)
		return func(f *Frame) {
			env := make([]Value, len(ops))
			for i := range ops {
				env[i] = ops[i].get(f)
			}
			f.regs[d] = &Closure{fn: fn, env: env}
		}
	case *ssa.ChangeType:
		d := k.regs[x]
		o := k.op(x.X)
		return func(f *Frame) { f.regs[d] = o.get(f) }
	case *ssa.ChangeInterface:
		d := k.regs[x]
		o := k.op(x.X)
		return func(f *Frame) { f.regs[d] = o.get(f) }
	case *ssa.Convert:
		return k.convert(x.X, x.Type(), k.regs[x])
	case *ssa.MultiConvert:
		return k.convert(x.X, x.Type(), k.regs[x])
	case *ssa.SliceToArrayPointer:
		d := k.regs[x]
		o := k.op(x.X)
		n := w.ti(deref(x.Type())).n
		return func(f *Frame) {
			s := o.get(f).(Slice)
			if s.len < n {
				f.th.rtPanic("cannot convert slice to array pointer")
			}
			f.regs[d] = Ptr{s.obj, s.off}
		}
	case *ssa.Slice:
		return k.slice(x)
	case *ssa.Extract:
		d := k.regs[x]
		o := k.op(x.Tuple)
		i := x.Index
		return func(f *Frame) { f.regs[d] = o.get(f).(Tuple)[i] }
	case *ssa.TypeAssert:
		return k.typeAssert(x)
	case *ssa.Range:
		d := k.regs[x]
		o := k.op(x.X)
		return func(f *Frame) {
			switch v := o.get(f).(type) {
			case Str:
				f.regs[d] = &Native{"striter", &strIter{s: v}}
			case *MapObj:
				f.regs[d] = &Native{"mapiter", f.th.mapRange(v, f.code.repo)}
			default:
				panic("range over " + fmt.Sprintf("%T", v))
			}
		}
	case *ssa.Next:
		d := k.regs[x]
		o := k.op(x.Iter)
		tt := x.Type().(*types.Tuple)
		var kti, vti *tinfo
		if !x.IsString {
			if t := tt.At(1).Type(); t != types.Typ[types.Invalid] {
				kti = w.ti(t)
			}
			if t := tt.At(2).Type(); t != types.Typ[types.Invalid] {
				vti = w.ti(t)
			}
		}
		return func(f *Frame) {
			n := o.get(f).(*Native)
			switch it := n.v.(type) {
			case *strIter:
				f.regs[d] = f.th.strNext(it)
			case *mapIter:
				f.regs[d] = f.th.mapNext(it, kti, vti)
			}
		}
	case *ssa.Call:
		return k.call(x)
	case *ssa.Go:
		fn := k.prepCall(&x.Call)
		return func(f *Frame) {
			c, args := fn(f)
			f.th.spawn(c, args)
		}
	case *ssa.Defer:
		fn := k.prepCall(&x.Call)
		return func(f *Frame) {
			c, args := fn(f)
			f.defers = append(f.defers, deferred{fn: c, args: args})
		}
	case *ssa.RunDefers:
		return func(f *Frame) {
			f.runDefers()
			if f.panicking != nil {
				p := f.panicking
				f.panicking = nil
				panic(p)
			}
		}
	case *ssa.Send:
		c, v := k.op(x.Chan), k.op(x.X)
		return func(f *Frame) { f.th.chanSend(c.get(f).(*Chan), v.get(f)) }
	case *ssa.Select:
		return k.selectStmt(x)
	}
	return func(f *Frame) { panic(unsupported(fmt.Sprintf("instruction %T in %s", in, f.code.name))) }
}

// prepCall evaluates the callee and arguments of a call (used by go and defer).
func (k *compiler) prepCall(cc *ssa.CallCommon) func(f *Frame) (*Closure, []Value) {
	w := k.w
	args := k.ops(cc.Args)
	ev := func(f *Frame, pre int) []Value {
		out := make([]Value, pre+len(args))
		for i := range args {
			out[pre+i] = args[i].get(f)
		}
		return out
	}
	if cc.IsInvoke() {
		recv := k.op(cc.Value)
		m := cc.Method
		return func(f *Frame) (*Closure, []Value) {
			i := recv.get(f).(Iface)
			if i.t == nil {
				f.th.nilDeref()
			}
			a := ev(f, 1)
			a[0] = i.v
			if n, ok := i.v.(*Native); ok && i.t.ti == nil {
				_ = n
			}
			fn := w.method(i.t, m.Pkg(), m.Name())
			return &Closure{fn: fn}, a
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		bi := k.builtin(b.Name(), cc)
		return func(f *Frame) (*Closure, []Value) {
			a := ev(f, 0)
			return &Closure{name: b.Name(), nat: func(t *Thread, args []Value) Value { return bi(f, args) }}, a
		}
	}
	v := k.op(cc.Value)
	return func(f *Frame) (*Closure, []Value) {
		c := v.get(f).(*Closure)
		return c, ev(f, 0)
	}
}

func (k *compiler) call(x *ssa.Call) func(*Frame) {
	w := k.w
	d := k.regs[x]
	cc := &x.Call
	args := k.ops(cc.Args)
	if cc.IsInvoke() {
		recv := k.op(cc.Value)
		m := cc.Method
		mpkg, mname := m.Pkg(), m.Name()
		var lastT *RType
		var lastF *callee
		return func(f *Frame) {
			i := recv.get(f).(Iface)
			if i.t == nil {
				f.th.nilDeref()
			}
			if i.t != lastT {
				fn := w.method(i.t, mpkg, mname)
				if fn == nil {
					panic(fmt.Sprintf("no method %s on %v", mname, i.t.t))
				}
				lastF = w.callee(fn)
				lastT = i.t
			}
			a := make([]Value, 1+len(args))
			a[0] = i.v
			for j := range args {
				a[1+j] = args[j].get(f)
			}
			f.regs[d] = f.th.invoke(lastF, a, nil, nil)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		bi := k.builtin(v.Name(), cc)
		return func(f *Frame) {
			a := make([]Value, len(args))
			for j := range args {
				a[j] = args[j].get(f)
			}
			f.regs[d] = bi(f, a)
		}
	case *ssa.Function:
		var ce *callee
		return func(f *Frame) {
			if ce == nil {
				ce = w.callee(v)
			}
			a := make([]Value, len(args))
			for j := range args {
				a[j] = args[j].get(f)
			}
			f.regs[d] = f.th.invoke(ce, a, nil, nil)
		}
	}
	fv := k.op(cc.Value)
	return func(f *Frame) {
		c := fv.get(f).(*Closure)
		a := make([]Value, len(args))
		for j := range args {
			a[j] = args[j].get(f)
		}
		f.regs[d] = f.th.callClosure(c, a, nil)
	}
}

type callee struct {
	fn   *ssa.Function
	intr intrinsic
	code *fnCode
}

type intrinsic func(th *Thread, fn *ssa.Function, args []Value) Value

func (w *Worker) callee(fn *ssa.Function) *callee {
	if c, ok := w.callees[fn]; ok {
		return c
	}
	c := &callee{fn: fn}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok {
		c.intr = in
	} else if p := fnPkg(fn); fn.Synthetic == "package initializer" && p != nil && isStd(p.Path()) {
		c.intr = func(*Thread, *ssa.Function, []Value) Value { return nil }
	} else {
		c.code = w.code(fn)
		if c.code.blocks == nil {
			c.intr = func(th *Thread, fn *ssa.Function, args []Value) Value {
				panic(unsupported("external function " + fn.String()))
			}
		}
	}
	w.callees[fn] = c
	return c
}

func (th *Thread) callClosure(c *Closure, args []Value, deferOf *Frame) Value {
	if c == nil {
		th.nilDeref()
	}
	if c.nat != nil {
		return c.nat(th, args)
	}
	return th.invoke(th.w.callee(c.fn), args, c.env, deferOf)
}

// callFn calls a function of the program from native code.
func (th *Thread) callFn(fn *ssa.Function, args ...Value) Value {
	return th.invoke(th.w.callee(fn), args, nil, nil)
}

func (th *Thread) invoke(ce *callee, args []Value, env []Value, deferOf *Frame) Value {
	if ce.intr != nil {
		return ce.intr(th, ce.fn, args)
	}
	code := ce.code
	th.depth++
	if th.depth > 6000 {
		th.depth = 0
		panic(pathEnd{"limit", "call depth (" + code.name + ")"})
	}
	code.calls++
	if code.target && th.p.fnSeen != nil {
		th.p.fnSeen[code] = true
	}
	f := &Frame{th: th, code: code, regs: make([]Value, code.nregs), deferOf: deferOf}
	copy(f.regs, args)
	copy(f.regs[code.nparams:], env)
	if code.hasDefer {
		f.runDeferring()
	} else {
		f.exec(0)
	}
	th.depth--
	return f.res
}

func (f *Frame) exec(b int) {
	blocks := f.code.blocks
	f.prev = -1
	p := f.th.p
	for {
		bc := blocks[b]
		if len(bc.phis) > 0 {
			e := bc.pred[f.prev]
			if len(bc.phis) == 1 {
				ph := &bc.phis[0]
				f.regs[ph.dst] = ph.edges[e].get(f)
			} else {
				var tmp [8]Value
				t := tmp[:0]
				for i := range bc.phis {
					t = append(t, bc.phis[i].edges[e].get(f))
				}
				for i := range bc.phis {
					f.regs[bc.phis[i].dst] = t[i]
				}
			}
		}
		p.steps += int64(len(bc.ins)) + 1
		if p.steps > p.limit || p.ctx.nterms > p.maxTerms {
			panic(pathEnd{"limit", "step budget exceeded in " + f.code.name})
		}
		for _, in := range bc.ins {
			in(f)
		}
		f.prev = b
		b = bc.term(f)
		if b < 0 {
			return
		}
	}
}

func (f *Frame) runDeferring() {
	depth := f.th.depth
	tp := f.catch(func() { f.exec(0) })
	if tp == nil {
		return
	}
	f.th.depth = depth
	f.panicking = tp
	f.runDefers()
	if f.panicking != nil {
		p := f.panicking
		f.panicking = nil
		panic(p)
	}
	// recovered
	if f.code.recover >= 0 {
		f.exec(f.code.recover)
	} else {
		res := f.code.fn.Signature.Results()
		switch res.Len() {
		case 0:
		case 1:
			f.res = f.th.w.zero(f.th.w.ti(res.At(0).Type()))
		default:
			t := make(Tuple, res.Len())
			for i := range t {
				t[i] = f.th.w.zero(f.th.w.ti(res.At(i).Type()))
			}
			f.res = t
		}
	}
}

func (f *Frame) catch(body func()) (tp *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(*targetPanic); ok {
				tp = t
				return
			}
			panic(r)
		}
	}()
	body()
	return nil
}

func (f *Frame) runDefers() {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		depth := f.th.depth
		tp := f.catch(func() { f.th.callClosure(d.fn, d.args, f) })
		f.th.depth = depth
		if tp != nil {
			f.panicking = tp
		}
	}
}

func (th *Thread) goPanic(v Iface) {
	if v.t == nil {
		th.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
	}
	panic(&targetPanic{v: v})
}

func (th *Thread) rtPanic(msg string) {
	panic(&targetPanic{v: Iface{th.w.rtype(th.w.eng.rtErrorString), Str{s: msg}}})
}

func (th *Thread) nilDeref() {
	th.rtPanic("invalid memory address or nil pointer dereference")
}

var _ = token.ADD
