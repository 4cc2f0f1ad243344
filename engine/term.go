package main

import (
	"fmt"
	"math/bits"
)

// Terms: a hash-consed DAG of booleans (w==0) and bit-vectors (w in 1..64).

type Op uint8

const (
	opConst Op = iota
	opVar
	opNot // bool
	opAnd
	opOr
	opEq // any sort
	opIte
	opAdd
	opSub
	opMul
	opUDiv
	opURem
	opSDiv
	opSRem
	opShl
	opLShr
	opAShr
	opBAnd
	opBOr
	opBXor
	opBNot
	opNeg
	opULt
	opULe
	opSLt
	opSLe
	opZExt
	opSExt
	opExtract // val = hi<<8|lo
	opConcat
)

type Term struct {
	op      Op
	w       uint8 // 0: bool
	val     uint64
	a, b, c *Term
	name    string
	id      uint32
	lo, hi  uint64 // unsigned range (bit-vectors)
	vars    []uint32
	dom     *[4]uint64 // variables of up to 8 bits: the values allowed
	gen     uint32     // eval memo
	eval    uint64
	emitted bool
}

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

// Ctx owns the terms of one worker.
type Ctx struct {
	tab     map[tkey]*Term
	vars    map[string]*Term
	varList []*Term
	next    uint32
	tt, ff  *Term
	small   [65][]*Term
	gen     uint32
	nterms  int

	aff map[*Term]*affine
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, vars: map[string]*Term{}, aff: map[*Term]*affine{}}
	c.tt = c.mk(Term{op: opConst, val: 1, hi: 1})
	c.ff = c.mk(Term{op: opConst, val: 0, hi: 0, lo: 0, c: nil})
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func idOf(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mergeVars(x, y []uint32) []uint32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	// subset fast paths
	i, j := 0, 0
	n := 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] == y[j]:
			i++
			j++
		case x[i] < y[j]:
			i++
		default:
			j++
		}
		n++
	}
	n += len(x) - i + len(y) - j
	if n == len(x) {
		return x
	}
	if n == len(y) {
		return y
	}
	out := make([]uint32, 0, n)
	i, j = 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] == y[j]:
			out = append(out, x[i])
			i++
			j++
		case x[i] < y[j]:
			out = append(out, x[i])
			i++
		default:
			out = append(out, y[j])
			j++
		}
	}
	out = append(out, x[i:]...)
	out = append(out, y[j:]...)
	return out
}

func (c *Ctx) mk(t Term) *Term {
	k := tkey{t.op, t.w, t.val, idOf(t.a), idOf(t.b), idOf(t.c)}
	if t.op != opVar {
		if r, ok := c.tab[k]; ok {
			return r
		}
	}
	c.next++
	c.nterms++
	n := new(Term)
	*n = t
	n.id = c.next
	if t.op == opVar {
		n.val = uint64(len(c.varList))
		n.vars = []uint32{uint32(len(c.varList))}
		c.varList = append(c.varList, n)
	} else {
		if t.a != nil {
			n.vars = t.a.vars
		}
		if t.b != nil {
			n.vars = mergeVars(n.vars, t.b.vars)
		}
		if t.c != nil {
			n.vars = mergeVars(n.vars, t.c.vars)
		}
		c.tab[k] = n
	}
	return n
}

func (c *Ctx) Var(name string, w uint8) *Term {
	hi := mask(w)
	if w == 0 {
		hi = 1
	}
	return c.VarIn(name, w, 0, hi, nil)
}

// VarIn declares a variable restricted to [lo,hi] and (up to 8 bits) to the set dom.
func (c *Ctx) VarIn(name string, w uint8, lo, hi uint64, dom *[4]uint64) *Term {
	if v, ok := c.vars[name]; ok {
		if v.w != w || v.lo != lo || v.hi != hi || (v.dom == nil) != (dom == nil) || dom != nil && *dom != *v.dom {
			panic(fmt.Sprintf("variable %s redeclared", name))
		}
		return v
	}
	v := c.mk(Term{op: opVar, w: w, name: name, lo: lo, hi: hi, dom: dom})
	c.vars[name] = v
	return v
}

func inDom(d *[4]uint64, v uint64) bool { return v < 256 && d[v>>6]>>(v&63)&1 != 0 }

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tt
	}
	return c.ff
}

func (c *Ctx) Const(v uint64, w uint8) *Term {
	if w == 0 {
		return c.Bool(v != 0)
	}
	v &= mask(w)
	if v < 1024 {
		s := c.small[w]
		if s == nil {
			s = make([]*Term, 1024)
			c.small[w] = s
		}
		if t := s[v]; t != nil {
			return t
		}
		t := c.mk(Term{op: opConst, w: w, val: v, lo: v, hi: v})
		s[v] = t
		return t
	}
	return c.mk(Term{op: opConst, w: w, val: v, lo: v, hi: v})
}

func (t *Term) IsConst() bool { return t.op == opConst }
func (t *Term) True() bool    { return t.op == opConst && t.w == 0 && t.val == 1 }
func (t *Term) False() bool   { return t.op == opConst && t.w == 0 && t.val == 0 }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (c *Ctx) Not(a *Term) *Term {
	if a.op == opConst {
		return c.Bool(a.val == 0)
	}
	if a.op == opNot {
		return a.a
	}
	return c.mk(Term{op: opNot, a: a, hi: 1})
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.op == opConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == opConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == opNot && a.a == b || b.op == opNot && b.a == a {
		return c.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: opAnd, a: a, b: b, hi: 1})
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.op == opConst {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.op == opConst {
		if b.val != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == opNot && a.a == b || b.op == opNot && b.a == a {
		return c.tt
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: opOr, a: a, b: b, hi: 1})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tt
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == opConst && b.op == opConst {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.op == opConst {
			a, b = b, a
		}
		if b.op == opConst {
			if b.val != 0 {
				return a
			}
			return c.Not(a)
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return c.ff
		}
		if a.op == opConst {
			a, b = b, a
		}
		if b.op == opConst {
			switch a.op {
			case opVar:
				if a.dom != nil && !inDom(a.dom, b.val) {
					return c.ff
				}
			case opZExt:
				return c.Eq(a.a, c.Const(b.val, a.a.w))
			case opSExt:
				if uint64(sext(b.val&mask(a.a.w), a.a.w))&mask(a.w) == b.val {
					return c.Eq(a.a, c.Const(b.val, a.a.w))
				}
				return c.ff
			case opIte:
				// ite(c,k1,k2) == k
				if a.b.op == opConst && a.c.op == opConst {
					x, y := a.b.val == b.val, a.c.val == b.val
					switch {
					case x && y:
						return c.tt
					case x:
						return a.a
					case y:
						return c.Not(a.a)
					default:
						return c.ff
					}
				}
				if a.b.op == opConst && a.b.val != b.val {
					return c.And(c.Not(a.a), c.Eq(a.c, b))
				}
				if a.c.op == opConst && a.c.val != b.val {
					return c.And(a.a, c.Eq(a.b, b))
				}
			case opAdd:
				if a.b.op == opConst {
					return c.Eq(a.a, c.Const(b.val-a.b.val, a.w))
				}
			case opBXor:
				if a.b.op == opConst {
					return c.Eq(a.a, c.Const(b.val^a.b.val, a.w))
				}
			case opBNot:
				return c.Eq(a.a, c.Const(^b.val, a.w))
			case opSub:
				if a.a.op == opConst {
					return c.Eq(a.b, c.Const(a.a.val-b.val, a.w))
				}
			}
		} else if a.op == opZExt && b.op == opZExt && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		} else if a.op == opBNot && b.op == opBNot {
			return c.Eq(a.a, b.a)
		} else if a.op == opAdd && b.op == opAdd && a.b == b.b && a.b.op == opConst {
			return c.Eq(a.a, b.a)
		}
	}
	if a.w >= 16 && (a.op == opBXor || a.op == opBNot || b.op == opBXor || b.op == opBNot) {
		if x, y := c.canon(a), c.canon(b); x == y {
			return c.tt
		}
	}
	if a.id > b.id && b.op != opConst || a.op == opConst {
		a, b = b, a
	}
	return c.mk(Term{op: opEq, a: a, b: b, hi: 1})
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.op == opConst {
		if p.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.op == opConst {
			if a.val != 0 {
				return c.Or(p, b)
			}
			return c.And(c.Not(p), b)
		}
		if b.op == opConst {
			if b.val != 0 {
				return c.Or(c.Not(p), a)
			}
			return c.And(p, a)
		}
	}
	if p.op == opNot {
		p, a, b = p.a, b, a
	}
	if b.op == opIte && b.a == p {
		b = b.c
	}
	if a.op == opIte && a.a == p {
		a = a.b
	}
	if a == b {
		return a
	}
	lo, hi := min(a.lo, b.lo), max(a.hi, b.hi)
	return c.mk(Term{op: opIte, w: a.w, a: p, b: a, c: b, lo: lo, hi: hi})
}

func (c *Ctx) bv(op Op, w uint8, a, b *Term) *Term {
	return c.mkr(Term{op: op, w: w, a: a, b: b, lo: 0, hi: mask(w)})
}
func (c *Ctx) mkr(t Term) *Term {
	if t.lo == t.hi && t.w > 0 {
		return c.Const(t.lo, t.w)
	}
	return c.mk(t)
}

func (c *Ctx) Add(a, b *Term) *Term {
	w := a.w
	if a.op == opConst && b.op == opConst {
		return c.Const(a.val+b.val, w)
	}
	if a.op == opConst {
		a, b = b, a
	}
	if b.op == opConst {
		if b.val == 0 {
			return a
		}
		if a.op == opAdd && a.b.op == opConst {
			return c.Add(a.a, c.Const(a.b.val+b.val, w))
		}
		if a.op == opSub && a.a.op == opConst {
			return c.Sub(c.Const(a.a.val+b.val, w), a.b)
		}
		if a.op == opIte && a.b.op == opConst && a.c.op == opConst {
			return c.Ite(a.a, c.Add(a.b, b), c.Add(a.c, b))
		}
	} else if a.op == opAdd && a.b.op == opConst {
		return c.Add(c.Add(a.a, b), a.b)
	} else if b.op == opAdd && b.b.op == opConst {
		return c.Add(c.Add(a, b.a), b.b)
	} else if a.id > b.id {
		a, b = b, a
	}
	lo, hi := uint64(0), mask(w)
	slo, c1 := bits.Add64(a.lo, b.lo, 0)
	shi, c2 := bits.Add64(a.hi, b.hi, 0)
	if c1 == 0 && c2 == 0 && shi <= mask(w) {
		lo, hi = slo, shi
	} else if b.op == opConst {
		// adding a negative constant: whole range wraps
		nl, nh := (a.lo+b.val)&mask(w), (a.hi+b.val)&mask(w)
		if nl <= nh && nh-nl == a.hi-a.lo {
			lo, hi = nl, nh
		}
	}
	return c.mkr(Term{op: opAdd, w: w, a: a, b: b, lo: lo, hi: hi})
}

func (c *Ctx) Sub(a, b *Term) *Term {
	w := a.w
	if a.op == opConst && b.op == opConst {
		return c.Const(a.val-b.val, w)
	}
	if a == b {
		return c.Const(0, w)
	}
	if b.op == opConst {
		return c.Add(a, c.Const(-b.val, w))
	}
	if a.op == opAdd && a.b.op == opConst {
		return c.Add(c.Sub(a.a, b), a.b)
	}
	if b.op == opAdd && b.b.op == opConst {
		return c.Add(c.Sub(a, b.a), c.Const(-b.b.val, w))
	}
	lo, hi := uint64(0), mask(w)
	if a.lo >= b.hi {
		lo, hi = a.lo-b.hi, a.hi-b.lo
	}
	return c.mkr(Term{op: opSub, w: w, a: a, b: b, lo: lo, hi: hi})
}

func (c *Ctx) Mul(a, b *Term) *Term {
	w := a.w
	if a.op == opConst && b.op == opConst {
		return c.Const(a.val*b.val, w)
	}
	if a.op == opConst {
		a, b = b, a
	}
	if b.op == opConst {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	lo, hi := uint64(0), mask(w)
	h, l := bits.Mul64(a.hi, b.hi)
	if h == 0 && l <= mask(w) {
		lo, hi = a.lo*b.lo, l
	}
	return c.mkr(Term{op: opMul, w: w, a: a, b: b, lo: lo, hi: hi})
}

func (c *Ctx) UDiv(a, b *Term) *Term { // b != 0 assumed
	w := a.w
	if a.op == opConst && b.op == opConst && b.val != 0 {
		return c.Const(a.val/b.val, w)
	}
	if b.op == opConst && b.val == 1 {
		return a
	}
	if b.op == opConst && b.val != 0 {
		if b.val&(b.val-1) == 0 {
			return c.LShr(a, c.Const(uint64(bits.TrailingZeros64(b.val)), w))
		}
		return c.mkr(Term{op: opUDiv, w: w, a: a, b: b, lo: a.lo / b.val, hi: a.hi / b.val})
	}
	return c.bv(opUDiv, w, a, b)
}

func (c *Ctx) URem(a, b *Term) *Term {
	w := a.w
	if a.op == opConst && b.op == opConst && b.val != 0 {
		return c.Const(a.val%b.val, w)
	}
	if b.op == opConst && b.val != 0 {
		if a.hi < b.val {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return c.BAnd(a, c.Const(b.val-1, w))
		}
		return c.mkr(Term{op: opURem, w: w, a: a, b: b, lo: 0, hi: min(b.val-1, a.hi)})
	}
	return c.bv(opURem, w, a, b)
}

func (t *Term) nonneg() bool { return t.hi < uint64(1)<<(t.w-1) }

func (c *Ctx) SDiv(a, b *Term) *Term {
	w := a.w
	if a.op == opConst && b.op == opConst && b.val != 0 {
		x, y := sext(a.val, w), sext(b.val, w)
		if y == -1 {
			return c.Const(uint64(-x), w)
		}
		return c.Const(uint64(x/y), w)
	}
	if a.nonneg() && b.nonneg() {
		return c.UDiv(a, b)
	}
	return c.bv(opSDiv, w, a, b)
}

func (c *Ctx) SRem(a, b *Term) *Term {
	w := a.w
	if a.op == opConst && b.op == opConst && b.val != 0 {
		x, y := sext(a.val, w), sext(b.val, w)
		if y == -1 {
			return c.Const(0, w)
		}
		return c.Const(uint64(x%y), w)
	}
	if a.nonneg() && b.nonneg() {
		return c.URem(a, b)
	}
	return c.bv(opSRem, w, a, b)
}

// Shifts take the SMT meaning: amount >= w gives 0 (or sign fill).
func (c *Ctx) Shl(a, b *Term) *Term {
	w := a.w
	if b.op == opConst {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return c.Const(0, w)
		}
		if a.op == opConst {
			return c.Const(a.val<<b.val, w)
		}
		if r := c.xored(a, func(x uint64) uint64 { return x << b.val }, w); r != nil {
			return r
		}
		lo, hi := uint64(0), mask(w)
		if a.hi<<b.val>>b.val == a.hi && a.hi<<b.val <= mask(w) {
			lo, hi = a.lo<<b.val, a.hi<<b.val
		}
		return c.mkr(Term{op: opShl, w: w, a: a, b: b, lo: lo, hi: hi})
	}
	return c.bv(opShl, w, a, b)
}
func (c *Ctx) LShr(a, b *Term) *Term {
	w := a.w
	if b.op == opConst {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return c.Const(0, w)
		}
		if a.op == opConst {
			return c.Const(a.val>>b.val, w)
		}
		if r := c.xored(a, func(x uint64) uint64 { return x >> b.val }, w); r != nil {
			return r
		}
		return c.mkr(Term{op: opLShr, w: w, a: a, b: b, lo: a.lo >> b.val, hi: a.hi >> b.val})
	}
	return c.bv(opLShr, w, a, b)
}
func (c *Ctx) AShr(a, b *Term) *Term {
	w := a.w
	if a.nonneg() {
		return c.LShr(a, b)
	}
	if b.op == opConst {
		if b.val == 0 {
			return a
		}
		if a.op == opConst {
			s := b.val
			if s > 63 {
				s = 63
			}
			return c.Const(uint64(sext(a.val, w)>>s), w)
		}
	}
	return c.bv(opAShr, w, a, b)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	w := a.w
	if a.op == opConst && b.op == opConst {
		return c.Const(a.val&b.val, w)
	}
	if a.op == opConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == opConst {
		if b.val == 0 {
			return b
		}
		if b.val == mask(w) {
			return a
		}
		if b.val&(b.val+1) == 0 && a.hi <= b.val {
			return a
		}
		if a.op == opBAnd && a.b.op == opConst {
			return c.BAnd(a.a, c.Const(a.b.val&b.val, w))
		}
		if a.op == opZExt {
			return c.ZExt(c.BAnd(a.a, c.Const(b.val, a.a.w)), w)
		}
		if a.op == opIte && a.b.op == opConst && a.c.op == opConst {
			return c.Ite(a.a, c.BAnd(a.b, b), c.BAnd(a.c, b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mkr(Term{op: opBAnd, w: w, a: a, b: b, lo: 0, hi: min(a.hi, b.hi)})
}

func topMask(x uint64) uint64 {
	if x == 0 {
		return 0
	}
	return ^uint64(0) >> uint(bits.LeadingZeros64(x))
}

func (c *Ctx) BOr(a, b *Term) *Term {
	w := a.w
	if a.op == opConst && b.op == opConst {
		return c.Const(a.val|b.val, w)
	}
	if a.op == opConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == opConst {
		if b.val == 0 {
			return a
		}
		if b.val == mask(w) {
			return b
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mkr(Term{op: opBOr, w: w, a: a, b: b, lo: max(a.lo, b.lo), hi: topMask(a.hi | b.hi)})
}
func (c *Ctx) BXor(a, b *Term) *Term {
	w := a.w
	if a.op == opConst && b.op == opConst {
		return c.Const(a.val^b.val, w)
	}
	if a.op == opConst {
		a, b = b, a
	}
	if a == b {
		return c.Const(0, w)
	}
	if b.op == opConst {
		if b.val == 0 {
			return a
		}
		if a.op == opBXor && a.b.op == opConst {
			return c.BXor(a.a, c.Const(a.b.val^b.val, w))
		}
		if b.val == mask(w) {
			return c.BNot(a)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if w >= 8 {
		if x := c.affine(a); x != nil && len(x.bits) <= affEager {
			if y := c.affine(b); y != nil && len(y.bits) <= affEager {
				return c.fromAffine(affXor(x, y), w)
			}
		}
	}
	return c.mkr(Term{op: opBXor, w: w, a: a, b: b, lo: 0, hi: topMask(a.hi | b.hi)})
}
func (c *Ctx) BNot(a *Term) *Term {
	if a.op == opConst {
		return c.Const(^a.val, a.w)
	}
	if a.op == opBNot {
		return a.a
	}
	m := mask(a.w)
	if r := c.xored(a, func(x uint64) uint64 { return x }, a.w); r != nil {
		x := affXor(c.affine(a), &affine{konst: m})
		return c.fromAffine(x, a.w)
	}
	return c.mkr(Term{op: opBNot, w: a.w, a: a, lo: m - a.hi, hi: m - a.lo})
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Const(0, a.w), a) }

func (c *Ctx) ULt(a, b *Term) *Term {
	if a.hi < b.lo {
		return c.tt
	}
	if a.lo >= b.hi {
		return c.ff
	}
	if a == b {
		return c.ff
	}
	if a.op == opZExt && b.op == opConst && b.val <= mask(a.a.w) {
		return c.ULt(a.a, c.Const(b.val, a.a.w))
	}
	if b.op == opZExt && a.op == opConst && a.val <= mask(b.a.w) {
		return c.ULt(c.Const(a.val, b.a.w), b.a)
	}
	if a.op == opZExt && b.op == opZExt && a.a.w == b.a.w {
		return c.ULt(a.a, b.a)
	}
	if a.op == opVar && a.dom != nil && b.op == opConst {
		if r, ok := domLess(a.dom, b.val); ok {
			return c.Bool(r)
		}
	}
	if b.op == opVar && b.dom != nil && a.op == opConst {
		if r, ok := domLess(b.dom, a.val+1); ok {
			return c.Bool(!r)
		}
	}
	return c.mk(Term{op: opULt, a: a, b: b, hi: 1})
}

// domLess reports whether every (or no) member of d is below k.
func domLess(d *[4]uint64, k uint64) (bool, bool) {
	all, none := true, true
	for v := uint64(0); v < 256; v++ {
		if inDom(d, v) {
			if v < k {
				none = false
			} else {
				all = false
			}
		}
	}
	if all {
		return true, true
	}
	if none {
		return false, true
	}
	return false, false
}
func (c *Ctx) ULe(a, b *Term) *Term { return c.Not(c.ULt(b, a)) }

func (t *Term) srange() (int64, int64) {
	w := t.w
	half := uint64(1) << (w - 1)
	if t.hi < half || t.lo >= half {
		return sext(t.lo, w), sext(t.hi, w)
	}
	return sext(half, w), int64(half - 1)
}

func (c *Ctx) SLt(a, b *Term) *Term {
	al, ah := a.srange()
	bl, bh := b.srange()
	if ah < bl {
		return c.tt
	}
	if al >= bh {
		return c.ff
	}
	if a == b {
		return c.ff
	}
	if a.nonneg() && b.nonneg() {
		return c.ULt(a, b)
	}
	if a.op == opSExt && b.op == opConst {
		k := sext(b.val, b.w)
		n := a.a.w
		lo, hi := -(int64(1) << (n - 1)), int64(1)<<(n-1)-1
		if k >= lo && k <= hi {
			return c.SLt(a.a, c.Const(uint64(k), n))
		}
	}
	if b.op == opSExt && a.op == opConst {
		k := sext(a.val, a.w)
		n := b.a.w
		lo, hi := -(int64(1) << (n - 1)), int64(1)<<(n-1)-1
		if k >= lo && k <= hi {
			return c.SLt(c.Const(uint64(k), n), b.a)
		}
	}
	return c.mk(Term{op: opSLt, a: a, b: b, hi: 1})
}
func (c *Ctx) SLe(a, b *Term) *Term { return c.Not(c.SLt(b, a)) }

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == opConst {
		return c.Const(a.val, w)
	}
	if a.op == opZExt {
		return c.ZExt(a.a, w)
	}
	if a.op == opIte && a.b.op == opConst && a.c.op == opConst {
		return c.Ite(a.a, c.ZExt(a.b, w), c.ZExt(a.c, w))
	}
	return c.mk(Term{op: opZExt, w: w, a: a, lo: a.lo, hi: a.hi})
}
func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == opConst {
		return c.Const(uint64(sext(a.val, a.w)), w)
	}
	if a.nonneg() {
		return c.ZExt(a, w)
	}
	return c.bv(opSExt, w, a, nil)
}
func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.op == opConst {
		return c.Const(a.val>>lo, w)
	}
	switch a.op {
	case opZExt:
		if lo >= a.a.w {
			return c.Const(0, w)
		}
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
		if lo == 0 {
			return c.ZExt(a.a, w)
		}
	case opSExt:
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
	case opExtract:
		l2 := uint8(a.val & 0xff)
		return c.Extract(a.a, hi+l2, lo+l2)
	case opBAnd, opBOr, opBXor:
		if r := c.xored(a, func(x uint64) uint64 { return x >> lo }, w); r != nil {
			return r
		}
		x, y := c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo)
		switch a.op {
		case opBAnd:
			return c.BAnd(x, y)
		case opBOr:
			return c.BOr(x, y)
		default:
			return c.BXor(x, y)
		}
	case opIte:
		if a.b.op == opConst || a.c.op == opConst {
			return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.c, hi, lo))
		}
	case opAdd, opSub, opMul:
		if lo == 0 {
			x, y := c.Extract(a.a, hi, 0), c.Extract(a.b, hi, 0)
			switch a.op {
			case opAdd:
				return c.Add(x, y)
			case opSub:
				return c.Sub(x, y)
			default:
				return c.Mul(x, y)
			}
		}
	case opShl:
		if a.b.op == opConst {
			s := uint8(a.b.val)
			if lo >= s {
				return c.Extract(a.a, hi-s, lo-s)
			}
			if hi < s {
				return c.Const(0, w)
			}
		}
	case opLShr:
		if a.b.op == opConst {
			s := uint8(a.b.val)
			if uint64(hi)+uint64(s) < uint64(a.w) {
				return c.Extract(a.a, hi+s, lo+s)
			}
		}
	}
	l, h := uint64(0), mask(w)
	if lo == 0 && a.hi <= mask(w) {
		l, h = a.lo, a.hi
	} else if hi == a.w-1 {
		l, h = a.lo>>lo, a.hi>>lo
	}
	return c.mkr(Term{op: opExtract, w: w, val: uint64(hi)<<8 | uint64(lo), a: a, lo: l, hi: h})
}

// Mux returns tab[idx] as a term, 0 <= idx < len(tab) assumed.
func (c *Ctx) Mux(tab []*Term, idx *Term) *Term {
	n := len(tab)
	if n == 1 {
		return tab[0]
	}
	if idx.op == opConst {
		return tab[idx.val]
	}
	// affine over GF(2)? (checked on every entry)
	if n >= 16 && n&(n-1) == 0 && idx.hi < uint64(n) {
		allc := true
		for _, t := range tab {
			if t.op != opConst || t.w == 0 {
				allc = false
				break
			}
		}
		if allc {
			base := tab[0].val
			lin := true
			for i := 1; i < n && lin; i++ {
				low := i & (-i)
				if rest := i ^ low; rest != 0 {
					if tab[i].val^base != (tab[rest].val^base)^(tab[low].val^base) {
						lin = false
					}
				}
			}
			if lin {
				w := tab[0].w
				r := tab[0]
				zero := c.Const(0, w)
				for k := uint8(0); 1<<k < n; k++ {
					bit := c.Eq(c.Extract(idx, k, k), c.Const(1, 1))
					r = c.BXor(r, c.Ite(bit, c.Const(tab[1<<k].val^base, w), zero))
				}
				return r
			}
		}
	}
	return c.muxRange(tab, idx, 0)
}

func (c *Ctx) muxRange(tab []*Term, idx *Term, base int) *Term {
	n := len(tab)
	if n == 1 {
		return tab[0]
	}
	same := true
	for _, t := range tab {
		if t != tab[0] {
			same = false
			break
		}
	}
	if same {
		return tab[0]
	}
	h := n / 2
	l := c.muxRange(tab[:h], idx, base)
	r := c.muxRange(tab[h:], idx, base+h)
	return c.Ite(c.ULt(idx, c.Const(uint64(base+h), idx.w)), l, r)
}

// Eval evaluates t under the assignment m (indexed by variable number).
func (c *Ctx) Eval(t *Term, m []uint64) uint64 {
	c.gen++
	return c.ev(t, m)
}

func (c *Ctx) ev(t *Term, m []uint64) uint64 {
	switch t.op {
	case opConst:
		return t.val
	case opVar:
		if int(t.val) < len(m) {
			return m[t.val]
		}
		return 0
	}
	if t.gen == c.gen {
		return t.eval
	}
	var r uint64
	w := t.w
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case opNot:
		r = 1 - c.ev(t.a, m)
	case opAnd:
		r = c.ev(t.a, m)
		if r != 0 {
			r = c.ev(t.b, m)
		}
	case opOr:
		r = c.ev(t.a, m)
		if r == 0 {
			r = c.ev(t.b, m)
		}
	case opEq:
		r = b2u(c.ev(t.a, m) == c.ev(t.b, m))
	case opIte:
		if c.ev(t.a, m) != 0 {
			r = c.ev(t.b, m)
		} else {
			r = c.ev(t.c, m)
		}
	case opAdd:
		r = c.ev(t.a, m) + c.ev(t.b, m)
	case opSub:
		r = c.ev(t.a, m) - c.ev(t.b, m)
	case opMul:
		r = c.ev(t.a, m) * c.ev(t.b, m)
	case opUDiv:
		x, y := c.ev(t.a, m), c.ev(t.b, m)
		if y == 0 {
			r = mask(w)
		} else {
			r = x / y
		}
	case opURem:
		x, y := c.ev(t.a, m), c.ev(t.b, m)
		if y == 0 {
			r = x
		} else {
			r = x % y
		}
	case opSDiv:
		x, y := sext(c.ev(t.a, m), w), sext(c.ev(t.b, m), w)
		switch {
		case y == 0:
			if x < 0 {
				r = 1
			} else {
				r = mask(w)
			}
		case y == -1:
			r = uint64(-x)
		default:
			r = uint64(x / y)
		}
	case opSRem:
		x, y := sext(c.ev(t.a, m), w), sext(c.ev(t.b, m), w)
		switch {
		case y == 0:
			r = uint64(x)
		case y == -1:
			r = 0
		default:
			r = uint64(x % y)
		}
	case opShl:
		x, y := c.ev(t.a, m), c.ev(t.b, m)
		if y < uint64(w) {
			r = x << y
		}
	case opLShr:
		x, y := c.ev(t.a, m), c.ev(t.b, m)
		if y < uint64(w) {
			r = x >> y
		}
	case opAShr:
		x, y := sext(c.ev(t.a, m), w), c.ev(t.b, m)
		if y > 63 {
			y = 63
		}
		r = uint64(x >> y)
	case opBAnd:
		r = c.ev(t.a, m) & c.ev(t.b, m)
	case opBOr:
		r = c.ev(t.a, m) | c.ev(t.b, m)
	case opBXor:
		r = c.ev(t.a, m) ^ c.ev(t.b, m)
	case opBNot:
		r = ^c.ev(t.a, m)
	case opNeg:
		r = -c.ev(t.a, m)
	case opULt:
		r = b2u(c.ev(t.a, m) < c.ev(t.b, m))
	case opULe:
		r = b2u(c.ev(t.a, m) <= c.ev(t.b, m))
	case opSLt:
		r = b2u(sext(c.ev(t.a, m), t.a.w) < sext(c.ev(t.b, m), t.b.w))
	case opSLe:
		r = b2u(sext(c.ev(t.a, m), t.a.w) <= sext(c.ev(t.b, m), t.b.w))
	case opZExt:
		r = c.ev(t.a, m)
	case opSExt:
		r = uint64(sext(c.ev(t.a, m), t.a.w))
	case opExtract:
		r = c.ev(t.a, m) >> (t.val & 0xff)
	case opConcat:
		r = c.ev(t.a, m)<<t.b.w | c.ev(t.b, m)
	default:
		panic("eval op")
	}
	if w > 0 {
		r &= mask(w)
	}
	t.gen = c.gen
	t.eval = r
	return r
}
