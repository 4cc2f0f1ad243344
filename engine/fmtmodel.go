package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// A model of package fmt: formatting runs here, over symbolic strings and integers.

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	widOK, precOK                   bool
	plusV, sharpV                   bool
}

func (f fmtFlags) verbStr(verb rune) string {
	s := "%"
	if f.plus || f.plusV {
		s += "+"
	}
	if f.minus {
		s += "-"
	}
	if f.sharp || f.sharpV {
		s += "#"
	}
	if f.space {
		s += " "
	}
	if f.zero {
		s += "0"
	}
	if f.widOK {
		s += strconv.Itoa(f.wid)
	}
	if f.precOK {
		s += "." + strconv.Itoa(f.prec)
	}
	return s + string(verb)
}

// typeName renders a type as package reflect does.
func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (th *Thread) pad(s Str, f fmtFlags) Str {
	if !f.widOK || f.wid == 0 {
		return s
	}
	n := th.int(runeCount(th, []Value{s}))
	if n >= f.wid {
		return s
	}
	fill := " "
	if f.zero && !f.minus {
		fill = "0"
	}
	p := Str{s: strings.Repeat(fill, f.wid-n)}
	if f.minus {
		return th.w.strCat(s, p)
	}
	return th.w.strCat(p, s)
}

func (th *Thread) cat(ss ...Str) Str {
	var r Str
	for _, s := range ss {
		r = th.w.strCat(r, s)
	}
	return r
}

func (th *Thread) badVerb(verb rune, v Iface) Str {
	if v.t == nil {
		return Str{s: "%!" + string(verb) + "(<nil>)"}
	}
	return th.cat(Str{s: "%!" + string(verb) + "(" + typeName(v.t.t) + "="}, th.printValue('v', fmtFlags{}, v.v, v.t.ti, v.t, 0, true, true), Str{s: ")"})
}

func (th *Thread) fmtValue(verb rune, f fmtFlags, v Iface, depth int) Str {
	if v.t == nil {
		switch verb {
		case 'T', 'v':
			return th.pad(Str{s: "<nil>"}, f)
		}
		return th.badVerb(verb, v)
	}
	switch verb {
	case 'T':
		return th.fmtString('s', f, Str{s: typeName(v.t.t)}, v)
	case 'p':
		return th.fmtPointer(verb, f, v.v, v)
	}
	if s, ok := th.handleMethods(verb, f, v); ok {
		return s
	}
	return th.printValue(verb, f, v.v, v.t.ti, v.t, depth, false, false)
}

func (th *Thread) hasMethod(rt *RType, name string, params, results string) *ssa.Function {
	m := th.w.method(rt, nil, name)
	if m == nil {
		return nil
	}
	sg := m.Signature
	if sg.Params().Len() != 0 && params == "" {
		return nil
	}
	if sg.Results().Len() != 1 || types.TypeString(sg.Results().At(0).Type(), nil) != results {
		return nil
	}
	return m
}

func (th *Thread) handleMethods(verb rune, f fmtFlags, v Iface) (out Str, ok bool) {
	if verb == 'w' {
		verb = 'v'
	}
	if m := th.w.method(v.t, nil, "Format"); m != nil {
		panic(unsupported("fmt.Formatter of " + v.t.t.String()))
	}
	var m *ssa.Function
	name := ""
	if f.sharpV {
		if m = th.hasMethod(v.t, "GoString", "", "string"); m == nil {
			return Str{}, false
		}
		name = "GoString"
	} else {
		switch verb {
		case 'v', 's', 'x', 'X', 'q':
		default:
			return Str{}, false
		}
		if m = th.hasMethod(v.t, "Error", "", "string"); m != nil {
			name = "Error"
		} else if m = th.hasMethod(v.t, "String", "", "string"); m != nil {
			name = "String"
		} else {
			return Str{}, false
		}
	}
	depth := th.depth
	defer func() {
		if r := recover(); r != nil {
			tp, isT := r.(*targetPanic)
			if !isT {
				panic(r)
			}
			th.depth = depth
			if p, isP := v.v.(Ptr); isP && p.obj == nil && v.t.ti.k == kPtr {
				out, ok = Str{s: "<nil>"}, true
				return
			}
			msg := th.panicVal(tp)
			out, ok = th.cat(Str{s: "%!" + string(verb) + "(PANIC=" + name + " method: "}, msg, Str{s: ")"}), true
		}
	}()
	s := th.callFn(m, v.v).(Str)
	if name == "GoString" {
		return th.pad(s, f), true
	}
	return th.fmtString(verb, f, s, v), true
}

func (th *Thread) panicVal(tp *targetPanic) Str {
	if tp.v.t == th.w.rtype(th.w.eng.rtErrorString) {
		return Str{s: "runtime error: " + tp.v.v.(Str).s}
	}
	return th.fmtValue('v', fmtFlags{}, tp.v, 0)
}

func (th *Thread) fmtString(verb rune, f fmtFlags, s Str, v Iface) Str {
	switch verb {
	case 'v', 's':
		if f.sharpV {
			return Str{s: fmt.Sprintf(f.verbStr('v'), th.concStr(s))}
		}
		if f.precOK {
			n := 0
			for i := 0; i < s.Len(); {
				if n == f.prec {
					s = s.sub(0, i)
					break
				}
				_, k := th.decodeRune(s.sub(i, s.Len()))
				i += k
				n++
			}
		}
		return th.pad(s, f)
	case 'x', 'X', 'q':
		return Str{s: fmt.Sprintf(f.verbStr(verb), th.concStr(s))}
	}
	return th.badVerb(verb, v)
}

func (th *Thread) fmtInt(verb rune, f fmtFlags, t *Term, ti *tinfo, v Iface) Str {
	if t.op != opConst {
		switch verb {
		case 'v', 'd':
			if f.sharpV && ti.k == kUint {
				break
			}
			b := th.itoa(t, ti.k == kInt)
			if f.precOK {
				break
			}
			neg := len(b) > 0 && b[0].op == opConst && b[0].val == '-'
			if (f.plus || f.space) && !neg {
				c := byte('+')
				if !f.plus {
					c = ' '
				}
				b = append([]*Term{th.w.ctx.Const(uint64(c), 8)}, b...)
				neg = true
			}
			if f.zero && f.widOK && !f.minus && neg && len(b) < f.wid {
				z := []*Term{b[0]}
				for i := len(b); i < f.wid; i++ {
					z = append(z, th.w.ctx.Const('0', 8))
				}
				b = append(z, b[1:]...)
			}
			return th.pad(mkStr(b), f)
		case 'o', 'x':
			if f == (fmtFlags{}) {
				return mkStr(th.itoaBase(t, ti.k == kInt, map[rune]int{'o': 8, 'x': 16}[verb]))
			}
		case 'c':
			return th.pad(mkStr(th.encodeRune(th.w.ctx.resize(t, 32, ti.k == kInt))), f)
		}
	}
	switch verb {
	case 'v', 'd', 'b', 'o', 'O', 'x', 'X', 'c', 'q', 'U':
	default:
		return th.badVerb(verb, v)
	}
	x := th.p.Concretize(t)
	if ti.k == kInt {
		return Str{s: fmt.Sprintf(f.verbStr(verb), sext(x, t.w))}
	}
	return Str{s: fmt.Sprintf(f.verbStr(verb), x)}
}

func (th *Thread) fmtPointer(verb rune, f fmtFlags, v Value, i Iface) Str {
	nilv := false
	switch x := v.(type) {
	case Ptr:
		nilv = x.obj == nil
	case *MapObj:
		nilv = x == nil
	case *Chan:
		nilv = x == nil
	case *Closure:
		nilv = x == nil
	case Slice:
		nilv = x.obj == nil
	default:
		return th.badVerb(verb, i)
	}
	if nilv && verb == 'v' {
		return th.pad(Str{s: "<nil>"}, f)
	}
	if nilv {
		return th.pad(Str{s: "%!" + string(verb) + "(" + typeName(i.t.t) + "=<nil>)"}, f)
	}
	th.p.tags["address printed"] = true
	return th.pad(Str{s: "0xc000012340"}, f)
}

// printValue formats a value of a kind; ro: reached through an unexported field.
func (th *Thread) printValue(verb rune, f fmtFlags, v Value, ti *tinfo, rt *RType, depth int, ro bool, noMeth bool) Str {
	if depth > 50 {
		panic(unsupported("deep value printed"))
	}
	me := Iface{rt, v}
	if depth > 0 && !ro && !noMeth && ti.k != kIface {
		if s, ok := th.handleMethods(verb, f, me); ok {
			return s
		}
	}
	if v == nil {
		v = th.w.zero(ti)
		me.v = v
	}
	sub := func(x Value, t *tinfo, ro2 bool) Str {
		return th.printValue(verb, f, x, t, th.w.rtype(t.t), depth+1, ro || ro2, false)
	}
	switch ti.k {
	case kBool:
		if verb != 't' && verb != 'v' {
			return th.badVerb(verb, me)
		}
		if th.p.Branch(v.(*Term)) {
			return th.pad(Str{s: "true"}, fmtFlags{wid: f.wid, widOK: f.widOK, minus: f.minus})
		}
		return th.pad(Str{s: "false"}, fmtFlags{wid: f.wid, widOK: f.widOK, minus: f.minus})
	case kInt, kUint:
		return th.fmtInt(verb, f, v.(*Term), ti, me)
	case kFloat:
		switch verb {
		case 'v', 'b', 'g', 'G', 'x', 'X', 'f', 'e', 'E', 'F':
			if ti.w == 32 {
				return Str{s: fmt.Sprintf(f.verbStr(verb), float32(v.(float64)))}
			}
			return Str{s: fmt.Sprintf(f.verbStr(verb), v.(float64))}
		}
		return th.badVerb(verb, me)
	case kComplex:
		return Str{s: fmt.Sprintf(f.verbStr(verb), v.(complex128))}
	case kString:
		return th.fmtString(verb, f, v.(Str), me)
	case kMap:
		m := th.rdMap(v.(*MapObj))
		open, cl, sep := "map[", "]", " "
		if f.sharpV {
			if m == nil {
				return Str{s: typeName(ti.t) + "(nil)"}
			}
			open, cl, sep = typeName(ti.t)+"{", "}", ", "
		}
		var es []*mapEnt
		if m != nil {
			for _, e := range m.ents {
				if !e.dead {
					es = append(es, e)
				}
			}
		}
		es = append([]*mapEnt(nil), es...)
		for i := 1; i < len(es); i++ {
			for j := i; j > 0 && th.keyLess(es[j].key, es[j-1].key, ti.key); j-- {
				es[j], es[j-1] = es[j-1], es[j]
			}
		}
		out := Str{s: open}
		for i, e := range es {
			if i > 0 {
				out = th.w.strCat(out, Str{s: sep})
			}
			out = th.cat(out, sub(e.key, ti.key, false), Str{s: ":"}, sub(e.val, ti.elem, false))
		}
		return th.w.strCat(out, Str{s: cl})
	case kStruct:
		st := ti.t.Underlying().(*types.Struct)
		out := Str{s: "{"}
		if f.sharpV {
			out = Str{s: typeName(ti.t) + "{"}
		}
		for i, ft := range ti.fields {
			if i > 0 {
				if f.sharpV {
					out = th.w.strCat(out, Str{s: ", "})
				} else {
					out = th.w.strCat(out, Str{s: " "})
				}
			}
			if f.plusV || f.sharpV {
				out = th.w.strCat(out, Str{s: st.Field(i).Name() + ":"})
			}
			fv := th.w.aggGet(v.(Agg), ti.offs[i], ft)
			// getField: an interface field is printed as its element
			if ft.k == kIface && fv.(Iface).t != nil {
				x := fv.(Iface)
				out = th.w.strCat(out, th.printValue(verb, f, x.v, x.t.ti, x.t, depth+1, ro || !st.Field(i).Exported(), false))
				continue
			}
			out = th.w.strCat(out, sub(fv, ft, !st.Field(i).Exported()))
		}
		return th.w.strCat(out, Str{s: "}"})
	case kIface:
		x := v.(Iface)
		if x.t == nil {
			if f.sharpV {
				return Str{s: typeName(ti.t) + "(nil)"}
			}
			return Str{s: "<nil>"}
		}
		return th.printValue(verb, f, x.v, x.t.ti, x.t, depth+1, ro, false)
	case kSlice, kArray:
		n := ti.n
		get := func(i int) Value { return nil }
		if ti.k == kSlice {
			s := v.(Slice)
			n = s.len
			get = func(i int) Value { return th.sliceGet(s, i, ti.elem) }
		} else {
			a := v.(Agg)
			get = func(i int) Value { return th.w.aggGet(a, i*ti.elem.slots, ti.elem) }
		}
		isByte := ti.elem.k == kUint && ti.elem.w == 8
		if isByte && strings.ContainsRune("sqxX", verb) {
			b := make([]*Term, n)
			for i := range b {
				b[i] = get(i).(*Term)
			}
			return th.fmtString(verb, f, mkStr(b), me)
		}
		if f.sharpV {
			if ti.k == kSlice && v.(Slice).obj == nil {
				return Str{s: typeName(ti.t) + "(nil)"}
			}
			out := Str{s: typeName(ti.t) + "{"}
			for i := 0; i < n; i++ {
				if i > 0 {
					out = th.w.strCat(out, Str{s: ", "})
				}
				if isByte {
					out = th.cat(out, Str{s: fmt.Sprintf("%#v", byte(th.p.Concretize(get(i).(*Term))))})
				} else {
					out = th.w.strCat(out, sub(get(i), ti.elem, false))
				}
			}
			return th.w.strCat(out, Str{s: "}"})
		}
		out := Str{s: "["}
		for i := 0; i < n; i++ {
			if i > 0 {
				out = th.w.strCat(out, Str{s: " "})
			}
			out = th.w.strCat(out, sub(get(i), ti.elem, false))
		}
		return th.w.strCat(out, Str{s: "]"})
	case kPtr:
		if p, ok := v.(Ptr); ok && depth == 0 && p.obj != nil {
			et := th.w.ti(deref(ti.t))
			switch et.k {
			case kArray, kSlice, kStruct, kMap:
				return th.w.strCat(Str{s: "&"}, sub(th.load(p, et), et, false))
			}
		}
		return th.fmtPointer(verb, f, v, me)
	default:
		return th.fmtPointer(verb, f, v, me)
	}
}

func (th *Thread) keyLess(a, b Value, ti *tinfo) bool {
	switch x := a.(type) {
	case Str:
		return th.p.Branch(th.w.strLt(x, b.(Str)))
	case *Term:
		if ti.k == kInt {
			return th.p.Branch(th.w.ctx.SLt(x, b.(*Term)))
		}
		return th.p.Branch(th.w.ctx.ULt(x, b.(*Term)))
	}
	panic(unsupported("printing a map keyed by " + ti.t.String()))
}

func (th *Thread) ifaces(v Value) []Iface {
	s := v.(Slice)
	out := make([]Iface, s.len)
	for i := range out {
		if x, ok := th.rd(s.obj).slots[s.off+i].(Iface); ok {
			out[i] = x
		}
	}
	return out
}

func (th *Thread) sprint(a []Iface) Str {
	var out Str
	prevString := false
	for i, x := range a {
		isStr := x.t != nil && x.t.ti.k == kString
		if i > 0 && !isStr && !prevString {
			out = th.w.strCat(out, Str{s: " "})
		}
		out = th.w.strCat(out, th.fmtValue('v', fmtFlags{}, x, 0))
		prevString = isStr
	}
	return out
}

func (th *Thread) sprintln(a []Iface) Str {
	var out Str
	for i, x := range a {
		if i > 0 {
			out = th.w.strCat(out, Str{s: " "})
		}
		out = th.w.strCat(out, th.fmtValue('v', fmtFlags{}, x, 0))
	}
	return th.w.strCat(out, Str{s: "\n"})
}

func (th *Thread) sprintf(format Str, a []Iface) (Str, []Iface) {
	c := th.w.ctx
	var out []*Term
	var wrapped []Iface
	emit := func(s Str) { out = append(out, th.w.strBytes(s)...) }
	n := format.Len()
	arg := 0
	for i := 0; i < n; {
		b := th.w.strAt(format, i)
		if !th.p.Branch(c.Eq(b, c.Const('%', 8))) {
			out = append(out, b)
			i++
			continue
		}
		i++
		var f fmtFlags
		cur := func() byte { return byte(th.p.Concretize(th.w.strAt(format, i))) }
		if format.t != nil && i < n {
			// a symbolic directive: only that byte becomes concrete
			_ = cur()
		}
	flags:
		for ; i < n; i++ {
			switch cur() {
			case '#':
				f.sharp = true
			case '0':
				f.zero = true
			case '+':
				f.plus = true
			case '-':
				f.minus = true
			case ' ':
				f.space = true
			default:
				break flags
			}
		}
		num := func() (int, bool) {
			v, ok := 0, false
			for i < n && cur() >= '0' && cur() <= '9' {
				v = v*10 + int(cur()-'0')
				ok = true
				i++
				if v > 1000000 {
					return 0, false
				}
			}
			return v, ok
		}
		if i < n && cur() == '[' {
			panic(unsupported("fmt argument index"))
		}
		if i < n && cur() == '*' {
			i++
			if arg < len(a) && a[arg].t != nil && (a[arg].t.ti.k == kInt) {
				f.wid, f.widOK = th.int(a[arg].v), true
				if f.wid < 0 {
					f.wid, f.minus, f.zero = -f.wid, true, false
				}
			} else {
				emit(Str{s: "%!(BADWIDTH)"})
			}
			arg++
		} else {
			f.wid, f.widOK = num()
		}
		if i < n && cur() == '.' {
			i++
			if i < n && cur() == '*' {
				i++
				if arg < len(a) && a[arg].t != nil && (a[arg].t.ti.k == kInt) && th.int(a[arg].v) >= 0 {
					f.prec, f.precOK = th.int(a[arg].v), true
				} else {
					emit(Str{s: "%!(BADPREC)"})
				}
				arg++
			} else {
				f.prec, _ = num()
				f.precOK = true
			}
		}
		if i >= n {
			emit(Str{s: "%!(NOVERB)"})
			break
		}
		verb, size := rune(cur()), 1
		if verb >= utf8.RuneSelf {
			r, k := th.decodeRune(format.sub(i, n))
			verb, size = rune(th.p.Concretize(r)), k
		}
		i += size
		switch {
		case verb == '%':
			emit(Str{s: "%"})
		case arg >= len(a):
			emit(Str{s: "%!" + string(verb) + "(MISSING)"})
		default:
			v := verb
			if v == 'w' {
				wrapped = append(wrapped, a[arg])
				v = 'v'
			}
			if v == 'v' {
				if f.sharp {
					f.sharp, f.sharpV = false, true
				}
				if f.plus {
					f.plus, f.plusV = false, true
				}
			}
			emit(th.fmtValue(v, f, a[arg], 0))
			arg++
		}
	}
	if arg < len(a) {
		emit(Str{s: "%!(EXTRA "})
		for k, x := range a[arg:] {
			if k > 0 {
				emit(Str{s: ", "})
			}
			if x.t == nil {
				emit(Str{s: "<nil>"})
			} else {
				emit(Str{s: typeName(x.t.t) + "="})
				emit(th.fmtValue('v', fmtFlags{}, x, 0))
			}
		}
		emit(Str{s: ")"})
	}
	return mkStr(out), wrapped
}

func (th *Thread) writeIface(wr Iface, s Str) Value {
	if wr.t == nil {
		th.nilDeref()
	}
	m := th.w.method(wr.t, nil, "Write")
	return th.invoke(th.w.callee(m), []Value{wr.v, th.bytesOf(s)}, nil, nil)
}

func initFmt() {
	stdout := func(th *Thread, s Str) Value {
		// through the variable os.Stdout, as package fmt does
		f := th.globalVal("os", "Stdout")
		if p, ok := f.(Ptr); ok && p.obj == nil {
			return Tuple{th.i64(0), th.globalVal("os", "ErrInvalid")}
		}
		return th.fileWrite(f, th.w.strBytes(s))
	}
	pf := func(th *Thread, f, a Value) Str { s, _ := th.sprintf(f.(Str), th.ifaces(a)); return s }
	reg("fmt.Sprintf", func(th *Thread, a []Value) Value { return pf(th, a[0], a[1]) })
	reg("fmt.Sprint", func(th *Thread, a []Value) Value { return th.sprint(th.ifaces(a[0])) })
	reg("fmt.Sprintln", func(th *Thread, a []Value) Value { return th.sprintln(th.ifaces(a[0])) })
	reg("fmt.Printf", func(th *Thread, a []Value) Value { return stdout(th, pf(th, a[0], a[1])) })
	reg("fmt.Print", func(th *Thread, a []Value) Value { return stdout(th, th.sprint(th.ifaces(a[0]))) })
	reg("fmt.Println", func(th *Thread, a []Value) Value { return stdout(th, th.sprintln(th.ifaces(a[0]))) })
	reg("fmt.Fprintf", func(th *Thread, a []Value) Value { return th.writeIface(a[0].(Iface), pf(th, a[1], a[2])) })
	reg("fmt.Fprint", func(th *Thread, a []Value) Value { return th.writeIface(a[0].(Iface), th.sprint(th.ifaces(a[1]))) })
	reg("fmt.Fprintln", func(th *Thread, a []Value) Value { return th.writeIface(a[0].(Iface), th.sprintln(th.ifaces(a[1]))) })
	app := func(f func(th *Thread, a []Value) Str) func(th *Thread, a []Value) Value {
		return func(th *Thread, a []Value) Value { return th.appendBytes(a[0].(Slice), th.w.strBytes(f(th, a))) }
	}
	reg("fmt.Appendf", app(func(th *Thread, a []Value) Str { return pf(th, a[1], a[2]) }))
	reg("fmt.Append", app(func(th *Thread, a []Value) Str { return th.sprint(th.ifaces(a[1])) }))
	reg("fmt.Appendln", app(func(th *Thread, a []Value) Str { return th.sprintln(th.ifaces(a[1])) }))
	reg("fmt.Errorf", func(th *Thread, a []Value) Value {
		s, wr := th.sprintf(a[0].(Str), th.ifaces(a[1]))
		if len(wr) == 1 && wr[0].t != nil && th.w.method(wr[0].t, nil, "Error") != nil {
			t := th.w.eng.typ("fmt", "wrapError")
			return Iface{th.w.rtype(types.NewPointer(t)), Ptr{&Obj{slots: []Value{s, wr[0]}}, 0}}
		}
		return th.callFn(th.w.eng.fn("errors", "New"), s)
	})
	for _, n := range []string{"log.Print", "log.Println", "log.Printf", "log.Fatal", "log.Fatalln", "log.Fatalf"} {
		n := n
		reg(n, func(th *Thread, a []Value) Value {
			var s Str
			switch {
			case strings.HasSuffix(n, "f"):
				s = pf(th, a[0], a[1])
			case strings.HasSuffix(n, "ln"):
				s = th.sprintln(th.ifaces(a[0]))
			default:
				s = th.sprint(th.ifaces(a[0]))
			}
			th.p.tags["log time stamp"] = true
			if s.Len() == 0 || !th.p.Branch(th.w.ctx.Eq(th.w.strAt(s, s.Len()-1), th.w.ctx.Const('\n', 8))) {
				s = th.w.strCat(s, Str{s: "\n"})
			}
			th.proc.stderrWrite(th, th.w.strCat(Str{s: "2000/01/01 00:00:00 "}, s))
			if strings.HasPrefix(n, "log.Fatal") {
				panic(exitSig{th.proc, 1, "exit"})
			}
			return nil
		})
	}
}

var _ = sort.Ints
