package main

import "sort"

// Affine forms over GF(2): a bit-vector term that is an exclusive or of input bits. Two
// spellings of one linear function (a table lookup, a shift register) get one normal form.

type affBit struct {
	key  uint64 // variable number <<6 | bit
	mask uint64 // the result bits it flips
}

type affine struct {
	konst uint64
	bits  []affBit // sorted by key, mask != 0
}

func affXor(a, b *affine) *affine {
	out := &affine{konst: a.konst ^ b.konst, bits: make([]affBit, 0, len(a.bits)+len(b.bits))}
	i, j := 0, 0
	for i < len(a.bits) || j < len(b.bits) {
		switch {
		case j == len(b.bits) || i < len(a.bits) && a.bits[i].key < b.bits[j].key:
			out.bits = append(out.bits, a.bits[i])
			i++
		case i == len(a.bits) || b.bits[j].key < a.bits[i].key:
			out.bits = append(out.bits, b.bits[j])
			j++
		default:
			if m := a.bits[i].mask ^ b.bits[j].mask; m != 0 {
				out.bits = append(out.bits, affBit{a.bits[i].key, m})
			}
			i++
			j++
		}
	}
	return out
}

func (a *affine) each(f func(uint64) uint64) *affine {
	out := &affine{konst: f(a.konst), bits: make([]affBit, 0, len(a.bits))}
	for _, b := range a.bits {
		if m := f(b.mask); m != 0 {
			out.bits = append(out.bits, affBit{b.key, m})
		}
	}
	return out
}

const (
	affLimit = 4096
	affEager = 256 // normal forms of at most so many bits are built at once
)

func (c *Ctx) affine(t *Term) *affine {
	if t.w == 0 && t.op != opEq && t.op != opNot && t.op != opConst {
		return nil
	}
	if a, ok := c.aff[t]; ok {
		return a
	}
	a := c.mkAffine(t)
	if a != nil && len(a.bits) > affLimit {
		a = nil
	}
	c.aff[t] = a
	if a != nil {
		c.nterms += len(a.bits) / 8
	}
	return a
}

func (c *Ctx) mkAffine(t *Term) *affine {
	m := mask(t.w)
	if t.w == 0 {
		m = 1
	}
	un := func(f func(uint64) uint64) *affine {
		a := c.affine(t.a)
		if a == nil {
			return nil
		}
		return a.each(func(x uint64) uint64 { return f(x) & m })
	}
	switch t.op {
	case opConst:
		return &affine{konst: t.val}
	case opVar:
		if t.w == 0 {
			return nil
		}
		a := &affine{}
		for i := uint64(0); i < uint64(t.w); i++ {
			a.bits = append(a.bits, affBit{t.val<<6 | i, 1 << i})
		}
		sort.Slice(a.bits, func(i, j int) bool { return a.bits[i].key < a.bits[j].key })
		return a
	case opBXor:
		x, y := c.affine(t.a), c.affine(t.b)
		if x == nil || y == nil {
			return nil
		}
		return affXor(x, y)
	case opBNot, opNot:
		x := c.affine(t.a)
		if x == nil {
			return nil
		}
		return affXor(x, &affine{konst: m})
	case opShl:
		if t.b.op == opConst && t.b.val < 64 {
			return un(func(x uint64) uint64 { return x << t.b.val })
		}
	case opLShr:
		if t.b.op == opConst && t.b.val < 64 {
			return un(func(x uint64) uint64 { return x >> t.b.val })
		}
	case opBAnd:
		if t.b.op == opConst {
			return un(func(x uint64) uint64 { return x & t.b.val })
		}
	case opZExt:
		return un(func(x uint64) uint64 { return x })
	case opExtract:
		return un(func(x uint64) uint64 { return x >> (t.val & 0xff) })
	case opConcat:
		x, y := c.affine(t.a), c.affine(t.b)
		if x == nil || y == nil {
			return nil
		}
		n := uint64(t.b.w)
		return affXor(x.each(func(v uint64) uint64 { return v << n & m }), y)
	case opEq:
		if t.a.w == 1 {
			x, y := c.affine(t.a), c.affine(t.b)
			if x == nil || y == nil {
				return nil
			}
			return affXor(affXor(x, y), &affine{konst: 1})
		}
	case opIte:
		if t.b.op == opConst && t.c.op == opConst {
			p := c.affine(t.a)
			if p == nil {
				return nil
			}
			d := t.b.val ^ t.c.val
			r := p.each(func(x uint64) uint64 {
				if x&1 != 0 {
					return d
				}
				return 0
			})
			return affXor(r, &affine{konst: t.c.val})
		}
	case opBOr, opAdd:
		// no common bits: the same as exclusive or
		x, y := c.affine(t.a), c.affine(t.b)
		if x == nil || y == nil {
			return nil
		}
		u, v := x.konst, y.konst
		for _, b := range x.bits {
			u |= b.mask
		}
		for _, b := range y.bits {
			v |= b.mask
		}
		if u&v == 0 {
			return affXor(x, y)
		}
	}
	return nil
}

// canon gives the normal form of an affine term, and any other term as it is.
func (c *Ctx) canon(t *Term) *Term {
	switch t.op {
	case opZExt:
		return c.ZExt(c.canon(t.a), t.w)
	case opBXor, opBNot, opBOr, opConcat:
		if a := c.affine(t); a != nil {
			return c.fromAffine(a, t.w)
		}
	}
	return t
}

func (c *Ctx) fromAffine(a *affine, w uint8) *Term {
	r := c.Const(a.konst, w)
	zero := c.Const(0, w)
	one := c.Const(1, 1)
	any := a.konst
	for i := len(a.bits) - 1; i >= 0; i-- {
		b := a.bits[i]
		any |= b.mask
		n := uint8(b.key & 63)
		bit := c.Eq(c.Extract(c.varList[b.key>>6], n, n), one)
		r = c.mkr(Term{op: opBXor, w: w, a: r, b: c.Ite(bit, c.Const(b.mask, w), zero), hi: topMask(any)})
	}
	if len(a.bits) > 0 {
		c.aff[r] = a
	}
	return r
}

// xored handles operations whose result is affine again, where an operand is an exclusive or.
func (c *Ctx) xored(t *Term, f func(uint64) uint64, w uint8) *Term {
	if t.op != opBXor {
		return nil
	}
	a := c.affine(t)
	if a == nil {
		return nil
	}
	m := mask(w)
	return c.fromAffine(a.each(func(x uint64) uint64 { return f(x) & m }), w)
}
