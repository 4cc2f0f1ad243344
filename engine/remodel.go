package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"
)

// Regular expressions: the pattern is concrete; matching a symbolic text is a boolean term.

type reProg struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	err  error
}

func (w *Worker) regexpFor(pat string, posix bool) *reProg {
	k := pat
	if posix {
		k = "\x00posix" + pat
	}
	if r, ok := w.regexps[k]; ok {
		return r
	}
	r := &reProg{}
	if posix {
		r.re, r.err = regexp.CompilePOSIX(pat)
	} else {
		r.re, r.err = regexp.Compile(pat)
	}
	if r.err == nil {
		fl := syntax.Perl
		if posix {
			fl = syntax.POSIX
		}
		t, err := syntax.Parse(pat, fl)
		if err == nil {
			r.prog, r.err = syntax.Compile(t.Simplify())
		}
	}
	w.regexps[k] = r
	return r
}

func (th *Thread) reObj(r *reProg) Value {
	t := th.w.ti(th.w.eng.typ("regexp", "Regexp"))
	o := &Obj{slots: make([]Value, t.slots)}
	o.slots[0] = &Native{"regexp", r}
	return Ptr{o, 0}
}

func (th *Thread) reOf(v Value) *reProg {
	p := v.(Ptr)
	if p.obj == nil {
		th.nilDeref()
	}
	n, ok := th.rd(p.obj).slots[p.off].(*Native)
	if !ok {
		panic(unsupported("regexp of unknown origin"))
	}
	return n.v.(*reProg)
}

func (th *Thread) reMatch(r *reProg, s Str) Value {
	if s.t == nil {
		return th.ibool(r.re.MatchString(s.s))
	}
	c := th.w.ctx
	for _, b := range s.t {
		if !th.p.Branch(c.ULt(b, c.Const(0x80, 8))) {
			return th.ibool(r.re.MatchString(th.concStr(s)))
		}
	}
	return th.nfa(r, s)
}

// nfa simulates the compiled program over ASCII text; the result is the match condition.
func (th *Thread) nfa(r *reProg, s Str) *Term {
	c := th.w.ctx
	n := s.Len()
	prog := r.prog
	isWord := func(i int) *Term {
		if i < 0 || i >= n {
			return c.ff
		}
		b := th.w.strAt(s, i)
		rg := func(lo, hi byte) *Term {
			return c.And(c.ULe(c.Const(uint64(lo), 8), b), c.ULe(b, c.Const(uint64(hi), 8)))
		}
		return c.Or(c.Or(rg('a', 'z'), rg('A', 'Z')), c.Or(rg('0', '9'), c.Eq(b, c.Const('_', 8))))
	}
	nl := func(i int) *Term { return c.Eq(th.w.strAt(s, i), c.Const('\n', 8)) }
	cond := func(e syntax.EmptyOp, i int) *Term {
		t := c.tt
		if e&syntax.EmptyBeginText != 0 {
			t = c.And(t, c.Bool(i == 0))
		}
		if e&syntax.EmptyEndText != 0 {
			t = c.And(t, c.Bool(i == n))
		}
		if e&syntax.EmptyBeginLine != 0 && i != 0 {
			t = c.And(t, nl(i-1))
		}
		if e&syntax.EmptyEndLine != 0 && i != n {
			t = c.And(t, nl(i))
		}
		wb := func() *Term { return c.Not(c.Eq(isWord(i-1), isWord(i))) }
		if e&syntax.EmptyWordBoundary != 0 {
			t = c.And(t, wb())
		}
		if e&syntax.EmptyNoWordBoundary != 0 {
			t = c.And(t, c.Not(wb()))
		}
		return t
	}
	runeIn := func(in *syntax.Inst, b *Term) *Term {
		switch in.Op {
		case syntax.InstRuneAny:
			return c.tt
		case syntax.InstRuneAnyNotNL:
			return c.Not(c.Eq(b, c.Const('\n', 8)))
		}
		t := c.ff
		lo := -1
		for k := 0; k <= 128; k++ {
			m := k < 128 && in.MatchRune(rune(k))
			if m && lo < 0 {
				lo = k
			}
			if !m && lo >= 0 {
				t = c.Or(t, c.And(c.ULe(c.Const(uint64(lo), 8), b), c.ULe(b, c.Const(uint64(k-1), 8))))
				lo = -1
			}
		}
		return t
	}
	match := c.ff
	cur := make([]*Term, len(prog.Inst)) // threads waiting at consuming instructions
	add := func(set []*Term, pc uint32, i int, g *Term) {
		// closure by iterated relaxation over a work list
		reach := make([]*Term, len(prog.Inst))
		var walk func(pc uint32, g *Term)
		walk = func(pc uint32, g *Term) {
			if g.False() {
				return
			}
			if reach[pc] != nil {
				ng := c.Or(reach[pc], g)
				if ng == reach[pc] {
					return
				}
				reach[pc] = ng
			} else {
				reach[pc] = g
			}
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				walk(in.Out, g)
				walk(in.Arg, g)
			case syntax.InstCapture, syntax.InstNop:
				walk(in.Out, g)
			case syntax.InstEmptyWidth:
				walk(in.Out, c.And(g, cond(syntax.EmptyOp(in.Arg), i)))
			case syntax.InstMatch:
				match = c.Or(match, g)
			case syntax.InstFail:
			default:
				if set[pc] == nil {
					set[pc] = g
				} else {
					set[pc] = c.Or(set[pc], g)
				}
			}
		}
		walk(pc, g)
	}
	for i := 0; i <= n; i++ {
		add(cur, uint32(prog.Start), i, c.tt)
		if match.True() || i == n {
			break
		}
		next := make([]*Term, len(prog.Inst))
		b := th.w.strAt(s, i)
		for pc, g := range cur {
			if g == nil {
				continue
			}
			in := &prog.Inst[pc]
			add(next, in.Out, i+1, c.And(g, runeIn(in, b)))
		}
		cur = next
	}
	return match
}

func (th *Thread) ints(v []int) Slice {
	if v == nil {
		return Slice{esz: 1}
	}
	o := &Obj{slots: make([]Value, len(v))}
	for i, x := range v {
		o.slots[i] = th.i64(x)
	}
	return Slice{o, 0, len(v), len(v), 1}
}

func (th *Thread) strs(v []string) Slice {
	if v == nil {
		return Slice{esz: 1}
	}
	ss := make([]Str, len(v))
	for i, x := range v {
		ss[i] = Str{s: x}
	}
	return th.strSlice(ss)
}

func initRegexp() {
	comp := func(posix, must bool) func(th *Thread, a []Value) Value {
		return func(th *Thread, a []Value) Value {
			r := th.w.regexpFor(th.concStr(a[0].(Str)), posix)
			if must {
				if r.err != nil {
					th.goPanic(th.errString("regexp: Compile(" + th.concStr(a[0].(Str)) + "): " + r.err.Error()))
				}
				return th.reObj(r)
			}
			if r.err != nil {
				if e, ok := r.err.(*syntax.Error); ok {
					t := th.w.eng.typ("regexp/syntax", "Error")
					return Tuple{Ptr{}, Iface{th.w.rtype(types.NewPointer(t)), Ptr{&Obj{slots: []Value{Str{s: string(e.Code)}, Str{s: e.Expr}}}, 0}}}
				}
				return Tuple{Ptr{}, th.newError(r.err.Error())}
			}
			return Tuple{th.reObj(r), Iface{}}
		}
	}
	reg("regexp.Compile", comp(false, false))
	reg("regexp.MustCompile", comp(false, true))
	reg("regexp.CompilePOSIX", comp(true, false))
	reg("regexp.MustCompilePOSIX", comp(true, true))
	for _, n := range []string{"MatchString", "Match"} {
		reg("(*regexp.Regexp)."+n, func(th *Thread, a []Value) Value { return th.reMatch(th.reOf(a[0]), th.seq(a[1])) })
		c := comp(false, false)
		reg("regexp."+n, func(th *Thread, a []Value) Value {
			t := c(th, a[:1]).(Tuple)
			if t[1].(Iface).t != nil {
				return Tuple{th.ibool(false), t[1]}
			}
			return Tuple{th.reMatch(th.reOf(t[0]), th.seq(a[1])), Iface{}}
		})
	}
	R := "(*regexp.Regexp)."
	reg(R+"String", func(th *Thread, a []Value) Value { return Str{s: th.reOf(a[0]).re.String()} })
	reg(R+"NumSubexp", func(th *Thread, a []Value) Value { return th.i64(th.reOf(a[0]).re.NumSubexp()) })
	reg(R+"FindStringIndex", func(th *Thread, a []Value) Value {
		return th.ints(th.reOf(a[0]).re.FindStringIndex(th.concStr(a[1].(Str))))
	})
	reg(R+"FindIndex", func(th *Thread, a []Value) Value {
		return th.ints(th.reOf(a[0]).re.FindStringIndex(th.concStr(th.seq(a[1]))))
	})
	reg(R+"FindStringSubmatchIndex", func(th *Thread, a []Value) Value {
		return th.ints(th.reOf(a[0]).re.FindStringSubmatchIndex(th.concStr(a[1].(Str))))
	})
	reg(R+"FindString", func(th *Thread, a []Value) Value {
		return Str{s: th.reOf(a[0]).re.FindString(th.concStr(a[1].(Str)))}
	})
	reg(R+"FindStringSubmatch", func(th *Thread, a []Value) Value {
		return th.strs(th.reOf(a[0]).re.FindStringSubmatch(th.concStr(a[1].(Str))))
	})
	reg(R+"FindAllString", func(th *Thread, a []Value) Value {
		return th.strs(th.reOf(a[0]).re.FindAllString(th.concStr(a[1].(Str)), th.int(a[2])))
	})
	reg(R+"ReplaceAllString", func(th *Thread, a []Value) Value {
		return Str{s: th.reOf(a[0]).re.ReplaceAllString(th.concStr(a[1].(Str)), th.concStr(a[2].(Str)))}
	})
	reg(R+"ReplaceAllLiteralString", func(th *Thread, a []Value) Value {
		return Str{s: th.reOf(a[0]).re.ReplaceAllLiteralString(th.concStr(a[1].(Str)), th.concStr(a[2].(Str)))}
	})
	reg(R+"Split", func(th *Thread, a []Value) Value {
		return th.strs(th.reOf(a[0]).re.Split(th.concStr(a[1].(Str)), th.int(a[2])))
	})
}
