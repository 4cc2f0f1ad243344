package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integers), float64, complex128, Str, Slice, Ptr, SymPtr,
// *MapObj, *Chan, Iface, *Closure, Agg (struct or array, flattened), Tuple, *Native, nil (zero).
type Value interface{}

// Str is a string of known length; s when every byte is concrete, else t.
type Str struct {
	s string
	t []*Term
}

func (s Str) Len() int {
	if s.t != nil {
		return len(s.t)
	}
	return len(s.s)
}

// Obj is a flattened memory object: one slot per scalar.
type Obj struct {
	slots  []Value
	frozen bool
	id     int
}

type Ptr struct {
	obj *Obj
	off int
}

// SymPtr points to base+idx*1 of n scalar slots, idx in range.
type SymPtr struct {
	obj *Obj
	off int
	n   int
	idx *Term
}

type Slice struct {
	obj      *Obj
	off      int
	len, cap int
	esz      int
}

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn   *ssa.Function
	env  []Value
	nat  func(t *Thread, args []Value) Value
	name string
}

type Agg []Value
type Tuple []Value

type Native struct {
	kind string
	v    interface{}
}

type mapEnt struct {
	key, val Value
	dead     bool
}

type MapObj struct {
	ents   []*mapEnt
	live   int
	idx    map[string]int // concrete string/int keys
	sym    int            // number of live entries whose key is not concrete
	frozen bool
	kt     *tinfo
}

type waiter struct {
	th   *Thread
	v    Value
	ok   bool
	done bool
	sel  int
	grp  *selGroup
}

type selGroup struct{ fired bool }

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type kind uint8

const (
	kBool kind = iota
	kInt
	kUint
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kUnsafe
	kTuple
)

// tinfo is the layout of a type.
type tinfo struct {
	t      types.Type
	k      kind
	w      uint8 // integer width
	slots  int
	fields []*tinfo
	offs   []int
	elem   *tinfo // array, slice, pointer (lazily), map value, chan
	key    *tinfo
	n      int // array length
	r      *RType
	bsz    int // size in bytes (for slice growth)
	noscan bool
}

// RType is a canonical run-time type.
type RType struct {
	t       types.Type
	id      int
	ti      *tinfo
	methods map[string]*ssa.Function
	impl    map[*types.Interface]bool
}

func (ti *tinfo) scalar() bool { return ti.k != kStruct && ti.k != kArray }

func (w *Worker) ti(t types.Type) *tinfo {
	if x, ok := w.tis[t]; ok {
		return x
	}
	x := &tinfo{t: t, slots: 1}
	w.tis[t] = x
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			x.k = kUnsafe
		case u.Info()&types.IsBoolean != 0:
			x.k = kBool
		case u.Info()&types.IsInteger != 0:
			if u.Info()&types.IsUnsigned != 0 {
				x.k = kUint
			} else {
				x.k = kInt
			}
			switch u.Kind() {
			case types.Int8, types.Uint8:
				x.w = 8
			case types.Int16, types.Uint16:
				x.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				x.w = 32
			default:
				x.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			x.k = kFloat
			x.w = 64
			if u.Kind() == types.Float32 {
				x.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			x.k = kComplex
		case u.Info()&types.IsString != 0:
			x.k = kString
		case u.Kind() == types.UntypedNil:
			x.k = kPtr
		default:
			x.k = kTuple
		}
	case *types.Pointer:
		x.k = kPtr
	case *types.Slice:
		x.k = kSlice
		x.elem = w.ti(u.Elem())
	case *types.Map:
		x.k = kMap
		x.key = w.ti(u.Key())
		x.elem = w.ti(u.Elem())
	case *types.Chan:
		x.k = kChan
		x.elem = w.ti(u.Elem())
	case *types.Signature:
		x.k = kFunc
	case *types.Interface:
		x.k = kIface
	case *types.Struct:
		x.k = kStruct
		x.slots = 0
		for i := 0; i < u.NumFields(); i++ {
			f := w.ti(u.Field(i).Type())
			x.fields = append(x.fields, f)
			x.offs = append(x.offs, x.slots)
			x.slots += f.slots
		}
	case *types.Array:
		x.k = kArray
		x.elem = w.ti(u.Elem())
		x.n = int(u.Len())
		x.slots = x.n * x.elem.slots
	case *types.Tuple:
		x.k = kTuple
	default:
		x.k = kTuple
	}
	return x
}

// zero returns the zero value of a type.
func (w *Worker) zero(ti *tinfo) Value {
	switch ti.k {
	case kBool:
		return w.ctx.ff
	case kInt, kUint:
		return w.ctx.Const(0, ti.w)
	case kFloat:
		return float64(0)
	case kComplex:
		return complex(0, 0)
	case kString:
		return Str{}
	case kPtr, kUnsafe:
		return Ptr{}
	case kSlice:
		return Slice{esz: ti.elem.slots}
	case kMap:
		return (*MapObj)(nil)
	case kChan:
		return (*Chan)(nil)
	case kFunc:
		return (*Closure)(nil)
	case kIface:
		return Iface{}
	case kStruct, kArray:
		return make(Agg, ti.slots)
	}
	panic(fmt.Sprintf("zero of %v", ti.t))
}

func (w *Worker) rtype(t types.Type) *RType {
	if r, ok := w.rtByPtr[t]; ok {
		return r
	}
	if r := w.rts.At(t); r != nil {
		rt := r.(*RType)
		w.rtByPtr[t] = rt
		return rt
	}
	rt := &RType{t: t, id: w.rts.Len() + 1, ti: w.ti(t), methods: map[string]*ssa.Function{}, impl: map[*types.Interface]bool{}}
	w.rts.Set(t, rt)
	w.rtByPtr[t] = rt
	return rt
}

func (w *Worker) method(rt *RType, pkg *types.Package, name string) *ssa.Function {
	key := name
	if pkg != nil && !ast_IsExported(name) {
		key = pkg.Path() + "." + name
	}
	if f, ok := rt.methods[key]; ok {
		return f
	}
	var f *ssa.Function
	w.eng.lookMu.Lock()
	sel := w.eng.prog.MethodSets.MethodSet(rt.t).Lookup(pkg, name)
	if sel != nil {
		f = w.eng.prog.MethodValue(sel)
	}
	w.eng.lookMu.Unlock()
	rt.methods[key] = f
	return f
}

func ast_IsExported(name string) bool { return name[0] >= 'A' && name[0] <= 'Z' }

func (w *Worker) implements(rt *RType, it *types.Interface) bool {
	if v, ok := rt.impl[it]; ok {
		return v
	}
	w.eng.lookMu.Lock()
	v := types.Implements(rt.t, it)
	w.eng.lookMu.Unlock()
	rt.impl[it] = v
	return v
}

// strings

func cstr(s string) Str { return Str{s: s} }

func (w *Worker) strBytes(s Str) []*Term {
	if s.t != nil {
		return s.t
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = w.ctx.Const(uint64(s.s[i]), 8)
	}
	return out
}

func (w *Worker) strAt(s Str, i int) *Term {
	if s.t != nil {
		return s.t[i]
	}
	return w.ctx.Const(uint64(s.s[i]), 8)
}

func mkStr(t []*Term) Str {
	for _, x := range t {
		if x.op != opConst {
			return Str{t: t}
		}
	}
	b := make([]byte, len(t))
	for i, x := range t {
		b[i] = byte(x.val)
	}
	return Str{s: string(b)}
}

func (s Str) sub(i, j int) Str {
	if s.t != nil {
		if i == j {
			return Str{}
		}
		return mkStr(s.t[i:j:j])
	}
	return Str{s: s.s[i:j]}
}

func (w *Worker) strCat(a, b Str) Str {
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	if a.t == nil && b.t == nil {
		return Str{s: a.s + b.s}
	}
	out := make([]*Term, 0, a.Len()+b.Len())
	out = append(out, w.strBytes(a)...)
	out = append(out, w.strBytes(b)...)
	return Str{t: out}
}

func (w *Worker) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return w.ctx.ff
	}
	if a.t == nil && b.t == nil {
		return w.ctx.Bool(a.s == b.s)
	}
	r := w.ctx.tt
	for i := a.Len() - 1; i >= 0; i-- {
		r = w.ctx.And(w.ctx.Eq(w.strAt(a, i), w.strAt(b, i)), r)
		if r.False() {
			return r
		}
	}
	return r
}

func (w *Worker) strLt(a, b Str) *Term {
	if a.t == nil && b.t == nil {
		return w.ctx.Bool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	r := w.ctx.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := w.strAt(a, i), w.strAt(b, i)
		r = w.ctx.Or(w.ctx.ULt(x, y), w.ctx.And(w.ctx.Eq(x, y), r))
	}
	return r
}

func isConcrete(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Term:
		return x.op == opConst
	case Str:
		return x.t == nil
	case Agg:
		for _, e := range x {
			if !isConcrete(e) {
				return false
			}
		}
		return true
	case Iface:
		return isConcrete(x.v)
	}
	return true
}

// keyString gives a hashable form of a concrete key ("" if none).
func keyString(v Value, ti *tinfo) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op == opConst {
			return fmt.Sprintf("i%d", x.val), true
		}
	case Str:
		if x.t == nil {
			return "s" + x.s, true
		}
	}
	return "", false
}
