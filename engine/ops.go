package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// memory

func (th *Thread) rd(o *Obj) *Obj {
	if o.frozen && th.proc.ov != nil {
		if n, ok := th.proc.ov[o]; ok {
			return n
		}
	}
	return o
}

func (th *Thread) wr(o *Obj) *Obj {
	if o.frozen {
		if n, ok := th.proc.ov[o]; ok {
			return n
		}
		n := &Obj{slots: append([]Value(nil), o.slots...)}
		if th.proc.ov == nil {
			th.proc.ov = map[*Obj]*Obj{}
		}
		th.proc.ov[o] = n
		return n
	}
	return o
}

func (th *Thread) load(a Value, ti *tinfo) Value {
	switch p := a.(type) {
	case Ptr:
		if p.obj == nil {
			th.nilDeref()
		}
		o := th.rd(p.obj)
		if ti.scalar() {
			if v := o.slots[p.off]; v != nil {
				return v
			}
			return th.w.zero(ti)
		}
		out := make(Agg, ti.slots)
		copy(out, o.slots[p.off:p.off+ti.slots])
		return out
	case SymPtr:
		o := th.rd(p.obj)
		z := th.w.zero(ti)
		if _, ok := z.(*Term); !ok {
			i := int(th.p.Concretize(p.idx))
			return th.load(Ptr{p.obj, p.off + i}, ti)
		}
		tab := make([]*Term, p.n)
		for i := range tab {
			v := o.slots[p.off+i]
			if v == nil {
				v = z
			}
			tab[i] = v.(*Term)
		}
		return th.w.ctx.Mux(tab, p.idx)
	}
	panic(fmt.Sprintf("load through %T", a))
}

func (th *Thread) store(a Value, v Value, ti *tinfo) {
	switch p := a.(type) {
	case Ptr:
		if p.obj == nil {
			th.nilDeref()
		}
		o := th.wr(p.obj)
		if ti.scalar() {
			o.slots[p.off] = v
			return
		}
		copy(o.slots[p.off:p.off+ti.slots], v.(Agg))
		return
	case SymPtr:
		if t, ok := v.(*Term); ok {
			o := th.wr(p.obj)
			z := th.w.zero(ti).(*Term)
			for i := 0; i < p.n; i++ {
				old, _ := o.slots[p.off+i].(*Term)
				if old == nil {
					old = z
				}
				o.slots[p.off+i] = th.w.ctx.Ite(th.w.ctx.Eq(p.idx, th.w.ctx.Const(uint64(i), p.idx.w)), t, old)
			}
			return
		}
		i := int(th.p.Concretize(p.idx))
		th.store(Ptr{p.obj, p.off + i}, v, ti)
		return
	}
	panic(fmt.Sprintf("store through %T", a))
}

func (w *Worker) aggGet(a Agg, off int, ti *tinfo) Value {
	if ti.scalar() {
		if v := a[off]; v != nil {
			return v
		}
		return w.zero(ti)
	}
	out := make(Agg, ti.slots)
	copy(out, a[off:off+ti.slots])
	return out
}

func (th *Thread) newSlice(n, c, esz int) Slice {
	return Slice{obj: &Obj{slots: make([]Value, c*esz)}, len: n, cap: c, esz: esz}
}

func (th *Thread) sliceGet(s Slice, i int, ti *tinfo) Value {
	return th.load(Ptr{s.obj, s.off + i*s.esz}, ti)
}

func (th *Thread) sliceTerms(s Slice) []*Term {
	out := make([]*Term, s.len)
	if s.len == 0 {
		return out
	}
	o := th.rd(s.obj)
	z := th.w.ctx.Const(0, 8)
	for i := range out {
		if v := o.slots[s.off+i]; v != nil {
			out[i] = v.(*Term)
		} else {
			out[i] = z
		}
	}
	return out
}

func (th *Thread) sliceStr(s Slice) Str {
	if s.len == 0 {
		return Str{}
	}
	return mkStr(th.sliceTerms(s))
}

func (th *Thread) bytesOf(s Str) Slice {
	n := s.Len()
	o := &Obj{slots: make([]Value, n)}
	for i := 0; i < n; i++ {
		o.slots[i] = th.w.strAt(s, i)
	}
	return Slice{obj: o, len: n, cap: n, esz: 1}
}

func (th *Thread) putBytes(s Slice, at int, b []*Term) {
	if len(b) == 0 {
		return
	}
	o := th.wr(s.obj)
	for i, t := range b {
		o.slots[s.off+at+i] = t
	}
}

// indices

func (th *Thread) idx64(t *Term, signed bool) *Term {
	if t.w == 64 {
		return t
	}
	if signed {
		return th.w.ctx.SExt(t, 64)
	}
	return th.w.ctx.ZExt(t, 64)
}

func (th *Thread) bounds(t *Term, n int, what string) {
	c := th.w.ctx.ULt(t, th.w.ctx.Const(uint64(n), 64))
	if !th.p.Branch(c) {
		th.rtPanic("index out of range " + what)
	}
}

func (th *Thread) strIndex(s Str, i *Term, signed bool) Value {
	i = th.idx64(i, signed)
	if i.op == opConst {
		if i.val >= uint64(s.Len()) {
			th.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), s.Len()))
		}
		return th.w.strAt(s, int(i.val))
	}
	th.bounds(i, s.Len(), "")
	return th.w.ctx.Mux(th.w.strBytes(s), i)
}

func (k *compiler) indexAddr(x *ssa.IndexAddr) func(*Frame) {
	w := k.w
	d := k.regs[x]
	o, ix := k.op(x.X), k.op(x.Index)
	sg := w.ti(x.Index.Type()).k == kInt
	var n int
	var ei *tinfo
	arr := false
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := w.ti(u.Elem())
		n, ei, arr = at.n, at.elem, true
	case *types.Slice:
		ei = w.ti(u.Elem())
	default:
		panic("indexaddr of " + u.String())
	}
	esz := ei.slots
	sc := ei.scalar() && (ei.k == kInt || ei.k == kUint || ei.k == kBool)
	return func(f *Frame) {
		th := f.th
		i := th.idx64(ix.get(f).(*Term), sg)
		var obj *Obj
		var off, ln int
		if arr {
			p, ok := o.get(f).(Ptr)
			if !ok {
				panic(unsupported("array address through a symbolic pointer"))
			}
			if p.obj == nil {
				th.nilDeref()
			}
			obj, off, ln = p.obj, p.off, n
		} else {
			s := o.get(f).(Slice)
			obj, off, ln = s.obj, s.off, s.len
		}
		if i.op == opConst {
			if i.val >= uint64(ln) {
				th.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), ln))
			}
			f.regs[d] = Ptr{obj, off + int(i.val)*esz}
			return
		}
		th.bounds(i, ln, "")
		if sc && ln <= 1024 {
			f.regs[d] = SymPtr{obj, off, ln, i}
			return
		}
		f.regs[d] = Ptr{obj, off + int(th.p.Concretize(i))*esz}
	}
}

func (k *compiler) index(x *ssa.Index) func(*Frame) {
	w := k.w
	d := k.regs[x]
	o, ix := k.op(x.X), k.op(x.Index)
	sg := w.ti(x.Index.Type()).k == kInt
	ti := w.ti(x.X.Type())
	if ti.k == kString {
		return func(f *Frame) { f.regs[d] = f.th.strIndex(o.get(f).(Str), ix.get(f).(*Term), sg) }
	}
	n, ei := ti.n, ti.elem
	return func(f *Frame) {
		a := o.get(f).(Agg)
		i := f.th.idx64(ix.get(f).(*Term), sg)
		f.th.bounds(i, n, "")
		j := int(f.th.p.Concretize(i))
		f.regs[d] = w.aggGet(a, j*ei.slots, ei)
	}
}

func (k *compiler) slice(x *ssa.Slice) func(*Frame) {
	w := k.w
	d := k.regs[x]
	o := k.op(x.X)
	var lo, hi, mx opnd
	hl, hh, hm := x.Low != nil, x.High != nil, x.Max != nil
	if hl {
		lo = k.op(x.Low)
	}
	if hh {
		hi = k.op(x.High)
	}
	if hm {
		mx = k.op(x.Max)
	}
	var n, esz int
	isArr := false
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := w.ti(p.Elem())
		n, esz, isArr = at.n, at.elem.slots, true
	}
	signed := func(v ssa.Value) bool { return v == nil || w.ti(v.Type()).k == kInt }
	sl, sh, sm := signed(x.Low), signed(x.High), signed(x.Max)
	return func(f *Frame) {
		th := f.th
		get := func(o *opnd, sg bool) int64 {
			t := th.idx64(o.get(f).(*Term), sg)
			if t.op == opConst {
				return int64(t.val)
			}
			// decide the sign/overflow first so out-of-range bounds are one path
			if !th.p.Branch(th.w.ctx.ULt(t, th.w.ctx.Const(1<<40, 64))) {
				return -1
			}
			return int64(th.p.Concretize(t))
		}
		v := o.get(f)
		l, h, m := int64(0), int64(-1), int64(-1)
		if hl {
			l = get(&lo, sl)
		}
		if s, ok := v.(Str); ok {
			h = int64(s.Len())
			if hh {
				h = get(&hi, sh)
			}
			if h < 0 || h > int64(s.Len()) || l < 0 || l > h {
				th.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, s.Len()))
			}
			f.regs[d] = s.sub(int(l), int(h))
			return
		}
		var s Slice
		if isArr {
			p := v.(Ptr)
			if p.obj == nil {
				th.nilDeref()
			}
			s = Slice{p.obj, p.off, n, n, esz}
		} else {
			s = v.(Slice)
		}
		h = int64(s.len)
		if hh {
			h = get(&hi, sh)
		}
		m = int64(s.cap)
		if hm {
			m = get(&mx, sm)
		}
		if m < 0 || m > int64(s.cap) || h < 0 || h > m || l < 0 || l > h {
			th.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, s.cap))
		}
		f.regs[d] = Slice{s.obj, s.off + int(l)*s.esz, int(h - l), int(m - l), s.esz}
	}
}

// operators

func (k *compiler) unop(x *ssa.UnOp) func(*Frame) {
	w := k.w
	d := k.regs[x]
	o := k.op(x.X)
	ti := w.ti(x.Type())
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok && ti.scalar() {
			return func(f *Frame) {
				ob := f.th.rd(f.th.global(g))
				v := ob.slots[0]
				if v == nil {
					v = w.zero(ti)
				}
				f.regs[d] = v
			}
		}
		return func(f *Frame) { f.regs[d] = f.th.load(o.get(f), ti) }
	case token.NOT:
		return func(f *Frame) { f.regs[d] = w.ctx.Not(o.get(f).(*Term)) }
	case token.SUB:
		return func(f *Frame) {
			switch v := o.get(f).(type) {
			case *Term:
				f.regs[d] = w.ctx.Neg(v)
			case float64:
				f.regs[d] = -v
			case complex128:
				f.regs[d] = -v
			}
		}
	case token.XOR:
		return func(f *Frame) { f.regs[d] = w.ctx.BNot(o.get(f).(*Term)) }
	case token.ARROW:
		et := w.ti(x.X.Type()).elem
		return func(f *Frame) {
			v, ok := f.th.chanRecv(o.get(f).(*Chan))
			if v == nil {
				v = w.zero(et)
			}
			if x.CommaOk {
				f.regs[d] = Tuple{v, w.ctx.Bool(ok)}
			} else {
				f.regs[d] = v
			}
		}
	}
	panic("unop " + x.Op.String())
}

func (k *compiler) binop(x *ssa.BinOp) func(*Frame) {
	w := k.w
	c := w.ctx
	d := k.regs[x]
	a, b := k.op(x.X), k.op(x.Y)
	ti := w.ti(x.X.Type())
	yt := w.ti(x.Y.Type())
	if ti.k == kPtr && yt.k != kPtr && yt.k != kUnsafe {
		ti = yt // untyped nil on the left
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		xi, yi := ti.k == kIface, yt.k == kIface
		var rx, ry *RType
		if xi != yi {
			if xi {
				ry = w.rtype(x.Y.Type())
			} else {
				rx = w.rtype(x.X.Type())
			}
		}
		return func(f *Frame) {
			l, r := a.get(f), b.get(f)
			var e *Term
			if xi || yi {
				if rx != nil {
					l = Iface{rx, l}
				}
				if ry != nil {
					r = Iface{ry, r}
				}
				e = f.th.ifaceEq(l.(Iface), r.(Iface))
			} else if lt, ok := l.(*Term); ok {
				e = c.Eq(lt, r.(*Term))
			} else {
				e = f.th.valEq(l, r, ti)
			}
			if neg {
				e = c.Not(e)
			}
			f.regs[d] = e
		}
	}
	switch ti.k {
	case kInt, kUint:
		sg := ti.k == kInt
		bin := func(fn func(x, y *Term) *Term) func(*Frame) {
			return func(f *Frame) { f.regs[d] = fn(a.get(f).(*Term), b.get(f).(*Term)) }
		}
		switch x.Op {
		case token.ADD:
			return bin(c.Add)
		case token.SUB:
			return bin(c.Sub)
		case token.MUL:
			return bin(c.Mul)
		case token.AND:
			return bin(c.BAnd)
		case token.OR:
			return bin(c.BOr)
		case token.XOR:
			return bin(c.BXor)
		case token.AND_NOT:
			return bin(func(x, y *Term) *Term { return c.BAnd(x, c.BNot(y)) })
		case token.QUO, token.REM:
			q := x.Op == token.QUO
			return func(f *Frame) {
				l, r := a.get(f).(*Term), b.get(f).(*Term)
				if f.th.p.Branch(c.Eq(r, c.Const(0, r.w))) {
					f.th.rtPanic("integer divide by zero")
				}
				switch {
				case q && sg:
					f.regs[d] = c.SDiv(l, r)
				case q:
					f.regs[d] = c.UDiv(l, r)
				case sg:
					f.regs[d] = c.SRem(l, r)
				default:
					f.regs[d] = c.URem(l, r)
				}
			}
		case token.SHL, token.SHR:
			shl := x.Op == token.SHL
			ysg := yt.k == kInt
			return func(f *Frame) {
				l, r := a.get(f).(*Term), b.get(f).(*Term)
				if ysg && f.th.p.Branch(c.SLt(r, c.Const(0, r.w))) {
					f.th.rtPanic("negative shift amount")
				}
				var big *Term = c.ff
				if r.w > l.w {
					big = c.Not(c.ULt(r, c.Const(uint64(l.w), r.w)))
					r = c.Extract(r, l.w-1, 0)
				} else {
					r = c.ZExt(r, l.w)
				}
				switch {
				case shl:
					f.regs[d] = c.Ite(big, c.Const(0, l.w), c.Shl(l, r))
				case sg:
					fill := c.AShr(l, c.Const(uint64(l.w-1), l.w))
					f.regs[d] = c.Ite(big, fill, c.AShr(l, r))
				default:
					f.regs[d] = c.Ite(big, c.Const(0, l.w), c.LShr(l, r))
				}
			}
		case token.LSS:
			if sg {
				return bin(c.SLt)
			}
			return bin(c.ULt)
		case token.LEQ:
			if sg {
				return bin(c.SLe)
			}
			return bin(c.ULe)
		case token.GTR:
			if sg {
				return bin(func(x, y *Term) *Term { return c.SLt(y, x) })
			}
			return bin(func(x, y *Term) *Term { return c.ULt(y, x) })
		case token.GEQ:
			if sg {
				return bin(func(x, y *Term) *Term { return c.SLe(y, x) })
			}
			return bin(func(x, y *Term) *Term { return c.ULe(y, x) })
		}
	case kString:
		return func(f *Frame) {
			l, r := a.get(f).(Str), b.get(f).(Str)
			switch x.Op {
			case token.ADD:
				f.regs[d] = w.strCat(l, r)
			case token.LSS:
				f.regs[d] = w.strLt(l, r)
			case token.GTR:
				f.regs[d] = w.strLt(r, l)
			case token.LEQ:
				f.regs[d] = c.Not(w.strLt(r, l))
			case token.GEQ:
				f.regs[d] = c.Not(w.strLt(l, r))
			default:
				panic("string op " + x.Op.String())
			}
		}
	case kFloat:
		w32 := ti.w == 32
		return func(f *Frame) {
			l, r := a.get(f).(float64), b.get(f).(float64)
			var v float64
			switch x.Op {
			case token.ADD:
				v = l + r
			case token.SUB:
				v = l - r
			case token.MUL:
				v = l * r
			case token.QUO:
				v = l / r
			case token.LSS:
				f.regs[d] = c.Bool(l < r)
				return
			case token.LEQ:
				f.regs[d] = c.Bool(l <= r)
				return
			case token.GTR:
				f.regs[d] = c.Bool(l > r)
				return
			case token.GEQ:
				f.regs[d] = c.Bool(l >= r)
				return
			}
			if w32 {
				v = float64(float32(v))
			}
			f.regs[d] = v
		}
	case kComplex:
		return func(f *Frame) {
			l, r := a.get(f).(complex128), b.get(f).(complex128)
			switch x.Op {
			case token.ADD:
				f.regs[d] = l + r
			case token.SUB:
				f.regs[d] = l - r
			case token.MUL:
				f.regs[d] = l * r
			case token.QUO:
				f.regs[d] = l / r
			}
		}
	case kBool:
		return func(f *Frame) {
			l, r := a.get(f).(*Term), b.get(f).(*Term)
			switch x.Op {
			case token.AND, token.LAND:
				f.regs[d] = c.And(l, r)
			case token.OR, token.LOR:
				f.regs[d] = c.Or(l, r)
			}
		}
	}
	op := x.Op.String()
	return func(f *Frame) { panic(unsupported("binop " + op + " on " + ti.t.String())) }
}

func (th *Thread) ifaceEq(a, b Iface) *Term {
	c := th.w.ctx
	if a.t == nil || b.t == nil {
		return c.Bool(a.t == nil && b.t == nil)
	}
	if a.t != b.t {
		return c.ff
	}
	switch a.t.ti.k {
	case kSlice, kMap, kFunc:
		th.rtPanic("comparing uncomparable type " + a.t.t.String())
	}
	return th.valEq(a.v, b.v, a.t.ti)
}

// valEq compares two values of one type.
func (th *Thread) valEq(a, b Value, ti *tinfo) *Term {
	c := th.w.ctx
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case Str:
		return th.w.strEq(x, b.(Str))
	case float64:
		return c.Bool(x == b.(float64))
	case complex128:
		return c.Bool(x == b.(complex128))
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return c.Bool(x == y)
		case SymPtr:
			panic(unsupported("symbolic pointer comparison"))
		case *Closure:
			return c.Bool(x.obj == nil && y == nil)
		case *Native:
			return c.ff
		}
	case *Native:
		y, ok := b.(*Native)
		return c.Bool(ok && x == y)
	case Slice:
		y := b.(Slice)
		return c.Bool(x.obj == nil && y.obj == nil)
	case *MapObj:
		y, _ := b.(*MapObj)
		return c.Bool(x == y)
	case *Chan:
		y, _ := b.(*Chan)
		return c.Bool(x == y)
	case *Closure:
		y, _ := b.(*Closure)
		return c.Bool(x == nil && y == nil)
	case Iface:
		return th.ifaceEq(x, b.(Iface))
	case Agg:
		return th.aggEq(x, b.(Agg), 0, ti)
	}
	panic(fmt.Sprintf("compare %T %T", a, b))
}

func (th *Thread) aggEq(a, b Agg, off int, ti *tinfo) *Term {
	c := th.w.ctx
	switch ti.k {
	case kStruct:
		r := c.tt
		for i, ft := range ti.fields {
			if st := ti.t.Underlying().(*types.Struct); st.Field(i).Name() == "_" {
				continue
			}
			r = c.And(r, th.aggEq(a, b, off+ti.offs[i], ft))
		}
		return r
	case kArray:
		r := c.tt
		for i := 0; i < ti.n; i++ {
			r = c.And(r, th.aggEq(a, b, off+i*ti.elem.slots, ti.elem))
		}
		return r
	}
	x, y := a[off], b[off]
	if x == nil && y == nil {
		return c.tt
	}
	if x == nil {
		x = th.w.zero(ti)
	}
	if y == nil {
		y = th.w.zero(ti)
	}
	if ti.k == kIface {
		return th.ifaceEq(x.(Iface), y.(Iface))
	}
	return th.valEq(x, y, ti)
}

// conversions

func (k *compiler) convert(src ssa.Value, dst types.Type, d int) func(*Frame) {
	w := k.w
	c := w.ctx
	o := k.op(src)
	st, dt := w.ti(src.Type()), w.ti(dst)
	isInt := func(t *tinfo) bool { return t.k == kInt || t.k == kUint }
	switch {
	case isInt(st) && isInt(dt):
		sg := st.k == kInt
		wd := dt.w
		return func(f *Frame) { f.regs[d] = c.resize(o.get(f).(*Term), wd, sg) }
	case isInt(st) && dt.k == kFloat:
		sg := st.k == kInt
		return func(f *Frame) {
			t := o.get(f).(*Term)
			v := f.th.p.Concretize(t)
			var r float64
			if sg {
				r = float64(sext(v, t.w))
			} else {
				r = float64(v)
			}
			if dt.w == 32 {
				r = float64(float32(r))
			}
			f.regs[d] = r
		}
	case st.k == kFloat && isInt(dt):
		return func(f *Frame) {
			v := o.get(f).(float64)
			if dt.k == kInt {
				f.regs[d] = c.Const(uint64(int64(v)), dt.w)
			} else if v >= math.MaxInt64 {
				f.regs[d] = c.Const(uint64(v), dt.w)
			} else {
				f.regs[d] = c.Const(uint64(int64(v)), dt.w)
			}
		}
	case st.k == kFloat && dt.k == kFloat:
		return func(f *Frame) {
			v := o.get(f).(float64)
			if dt.w == 32 {
				v = float64(float32(v))
			}
			f.regs[d] = v
		}
	case st.k == kString && dt.k == kSlice && dt.elem.w == 8:
		return func(f *Frame) {
			s := f.th.bytesOf(o.get(f).(Str))
			if n := roundup(s.len, true); s.len > 0 && n > s.cap {
				s.obj.slots = append(s.obj.slots, make([]Value, n-s.len)...)
				s.cap = n
			}
			f.regs[d] = s
		}
	case st.k == kString && dt.k == kSlice:
		return func(f *Frame) {
			s := o.get(f).(Str)
			var rs []Value
			it := &strIter{s: s}
			for {
				t := f.th.strNext(it)
				if t[0].(*Term).False() {
					break
				}
				rs = append(rs, t[2])
			}
			f.regs[d] = Slice{obj: &Obj{slots: rs}, len: len(rs), cap: len(rs), esz: 1}
		}
	case st.k == kSlice && dt.k == kString && st.elem.w == 8:
		return func(f *Frame) { f.regs[d] = f.th.sliceStr(o.get(f).(Slice)) }
	case st.k == kSlice && dt.k == kString:
		return func(f *Frame) {
			s := o.get(f).(Slice)
			var out []*Term
			for i := 0; i < s.len; i++ {
				out = append(out, f.th.encodeRune(f.th.sliceGet(s, i, st.elem).(*Term))...)
			}
			f.regs[d] = mkStr(out)
		}
	case isInt(st) && dt.k == kString:
		sg := st.k == kInt
		return func(f *Frame) {
			t := c.resize(o.get(f).(*Term), 64, sg)
			if !f.th.p.Branch(c.ULt(t, c.Const(0x110000, 64))) {
				f.regs[d] = Str{s: "\uFFFD"}
				return
			}
			f.regs[d] = mkStr(f.th.encodeRune(c.Extract(t, 31, 0)))
		}
	}
	return func(f *Frame) { f.regs[d] = o.get(f) }
}

func (c *Ctx) resize(t *Term, w uint8, signed bool) *Term {
	switch {
	case t.w == w:
		return t
	case t.w > w:
		return c.Extract(t, w-1, 0)
	case signed:
		return c.SExt(t, w)
	default:
		return c.ZExt(t, w)
	}
}

type strIter struct {
	s Str
	i int
}

func (th *Thread) strNext(it *strIter) Tuple {
	c := th.w.ctx
	if it.i >= it.s.Len() {
		return Tuple{c.ff, c.Const(0, 64), c.Const(0, 32)}
	}
	i := it.i
	r, n := th.decodeRune(it.s.sub(i, it.s.Len()))
	it.i += n
	return Tuple{c.tt, c.Const(uint64(i), 64), r}
}

// decodeRune decodes the first rune of a non-empty string.
func (th *Thread) decodeRune(s Str) (*Term, int) {
	c := th.w.ctx
	b := th.w.strAt(s, 0)
	if b.op == opConst && s.t == nil {
		for i, r := range s.s {
			_ = i
			n := len(string(r))
			if r == 0xFFFD {
				n = 1
				if len(s.s) >= 3 && s.s[:3] == "\uFFFD" {
					n = 3
				}
			}
			return c.Const(uint64(uint32(r)), 32), n
		}
	}
	if th.p.Branch(c.ULt(b, c.Const(0x80, 8))) {
		return c.ZExt(b, 32), 1
	}
	fn := th.w.eng.fn("unicode/utf8", "DecodeRuneInString")
	m := s.Len()
	if m > 4 {
		s = s.sub(0, 4)
	}
	t := th.invoke(&callee{fn: fn, code: th.w.code(fn)}, []Value{s}, nil, nil).(Tuple)
	return t[0].(*Term), int(th.p.Concretize(t[1].(*Term)))
}

func (th *Thread) encodeRune(r *Term) []*Term {
	c := th.w.ctx
	if th.p.Branch(c.ULt(r, c.Const(0x80, 32))) {
		return []*Term{c.Extract(r, 7, 0)}
	}
	if r.op == opConst {
		s := string(rune(int32(r.val)))
		return th.w.strBytes(Str{s: s})
	}
	k := func(v uint64) *Term { return c.Const(v, 8) }
	sh := func(n uint64, m uint64) *Term {
		return c.BAnd(c.Extract(c.LShr(r, c.Const(n, 32)), 7, 0), k(m))
	}
	if th.p.Branch(c.ULt(r, c.Const(0x800, 32))) {
		return []*Term{c.BOr(k(0xC0), sh(6, 0x1F)), c.BOr(k(0x80), sh(0, 0x3F))}
	}
	bad := c.Or(c.Not(c.ULt(r, c.Const(0x110000, 32))), c.And(c.ULe(c.Const(0xD800, 32), r), c.ULe(r, c.Const(0xDFFF, 32))))
	if th.p.Branch(bad) {
		return th.w.strBytes(Str{s: "\uFFFD"})
	}
	if th.p.Branch(c.ULt(r, c.Const(0x10000, 32))) {
		return []*Term{c.BOr(k(0xE0), sh(12, 0x0F)), c.BOr(k(0x80), sh(6, 0x3F)), c.BOr(k(0x80), sh(0, 0x3F))}
	}
	return []*Term{c.BOr(k(0xF0), sh(18, 0x07)), c.BOr(k(0x80), sh(12, 0x3F)), c.BOr(k(0x80), sh(6, 0x3F)), c.BOr(k(0x80), sh(0, 0x3F))}
}

// interfaces

func (k *compiler) typeAssert(x *ssa.TypeAssert) func(*Frame) {
	w := k.w
	d := k.regs[x]
	o := k.op(x.X)
	at := w.ti(x.AssertedType)
	var it *types.Interface
	var rt *RType
	if at.k == kIface {
		it = x.AssertedType.Underlying().(*types.Interface)
	} else {
		rt = w.rtype(x.AssertedType)
	}
	return func(f *Frame) {
		i := o.get(f).(Iface)
		ok := false
		var v Value
		if i.t != nil {
			if it != nil {
				ok = w.implements(i.t, it)
				v = i
			} else {
				ok = i.t == rt
				v = i.v
			}
		}
		if !ok {
			if !x.CommaOk {
				dyn := "nil"
				if i.t != nil {
					dyn = i.t.t.String()
				}
				f.th.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, x.AssertedType))
			}
			v = w.zero(at)
		}
		if x.CommaOk {
			f.regs[d] = Tuple{v, w.ctx.Bool(ok)}
		} else {
			f.regs[d] = v
		}
	}
}
