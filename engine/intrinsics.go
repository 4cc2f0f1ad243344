package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]intrinsic

type iargs = []Value

func reg(name string, f func(th *Thread, a []Value) Value) {
	intrinsics[name] = func(th *Thread, fn *ssa.Function, a []Value) Value { return f(th, a) }
}

func (th *Thread) ibool(b bool) Value { return th.w.ctx.Bool(b) }
func (th *Thread) int(v Value) int {
	t := v.(*Term)
	return int(sext(th.p.Concretize(t), t.w))
}

var nop = func(th *Thread, a []Value) Value { return nil }

func init() {
	intrinsics = map[string]intrinsic{}
	initBytes()
	initSync()
	initMisc()
	initStrconv()
	initOS()
	initZzv()
	initFmt()
	initRegexp()
}

// sequences of bytes: strings and byte slices alike
func (th *Thread) seq(v Value) Str {
	switch x := v.(type) {
	case Str:
		return x
	case Slice:
		return th.sliceStr(x)
	}
	panic(fmt.Sprintf("seq %T", v))
}

func (th *Thread) indexByte(s Str, b *Term) Value {
	if s.t == nil && b.op == opConst {
		return th.i64(strings.IndexByte(s.s, byte(b.val)))
	}
	if s.t == nil && len(s.s) > 1 {
		// membership in a fixed set: one decision, the position stays symbolic
		c := th.w.ctx
		in, at := c.Bool(false), th.i64(-1)
		for i := len(s.s) - 1; i >= 0; i-- {
			e := c.Eq(c.Const(uint64(s.s[i]), 8), b)
			in, at = c.Or(in, e), c.Ite(e, th.i64(i), at)
		}
		if th.p.Branch(in) {
			return at
		}
		return th.i64(-1)
	}
	for i := 0; i < s.Len(); i++ {
		if th.p.Branch(th.w.ctx.Eq(th.w.strAt(s, i), b)) {
			return th.i64(i)
		}
	}
	return th.i64(-1)
}

func (th *Thread) lastIndexByte(s Str, b *Term) Value {
	for i := s.Len() - 1; i >= 0; i-- {
		if th.p.Branch(th.w.ctx.Eq(th.w.strAt(s, i), b)) {
			return th.i64(i)
		}
	}
	return th.i64(-1)
}

func (th *Thread) index(s, sub Str) int {
	if s.t == nil && sub.t == nil {
		return strings.Index(s.s, sub.s)
	}
	n := sub.Len()
	for i := 0; i+n <= s.Len(); i++ {
		if th.p.Branch(th.w.strEq(s.sub(i, i+n), sub)) {
			return i
		}
	}
	return -1
}

func (th *Thread) lastIndex(s, sub Str) int {
	n := sub.Len()
	for i := s.Len() - n; i >= 0; i-- {
		if th.p.Branch(th.w.strEq(s.sub(i, i+n), sub)) {
			return i
		}
	}
	return -1
}

func (th *Thread) countByte(s Str, b *Term) Value {
	c := th.w.ctx
	n := c.Const(0, 64)
	for i := 0; i < s.Len(); i++ {
		n = c.Add(n, c.Ite(c.Eq(th.w.strAt(s, i), b), c.Const(1, 64), c.Const(0, 64)))
	}
	return n
}

func initBytes() {
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, func(th *Thread, a []Value) Value { return th.indexByte(th.seq(a[0]), a[1].(*Term)) })
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		reg(n, func(th *Thread, a []Value) Value { return th.lastIndexByte(th.seq(a[0]), a[1].(*Term)) })
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		reg(n, func(th *Thread, a []Value) Value { return th.i64(th.index(th.seq(a[0]), th.seq(a[1]))) })
	}
	for _, n := range []string{"strings.LastIndex", "bytes.LastIndex"} {
		reg(n, func(th *Thread, a []Value) Value { return th.i64(th.lastIndex(th.seq(a[0]), th.seq(a[1]))) })
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		reg(n, func(th *Thread, a []Value) Value { return th.countByte(th.seq(a[0]), a[1].(*Term)) })
	}
	for _, n := range []string{"strings.Count", "bytes.Count"} {
		reg(n, func(th *Thread, a []Value) Value {
			s, sub := th.seq(a[0]), th.seq(a[1])
			switch sub.Len() {
			case 0:
				f := th.w.eng.fn("unicode/utf8", "RuneCountInString")
				return th.w.ctx.Add(th.callFn(f, s).(*Term), th.i64(1))
			case 1:
				return th.countByte(s, th.w.strAt(sub, 0))
			}
			n := 0
			for {
				i := th.index(s, sub)
				if i < 0 {
					return th.i64(n)
				}
				n++
				s = s.sub(i+sub.Len(), s.Len())
			}
		})
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "bytes.Compare"} {
		reg(n, func(th *Thread, a []Value) Value {
			s, t := th.seq(a[0]), th.seq(a[1])
			c := th.w.ctx
			return c.Ite(th.w.strEq(s, t), th.i64(0), c.Ite(th.w.strLt(s, t), th.i64(-1), th.i64(1)))
		})
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		reg(n, func(th *Thread, a []Value) Value { return th.w.strEq(th.seq(a[0]), th.seq(a[1])) })
	}
	reg("internal/bytealg.MakeNoZero", func(th *Thread, a []Value) Value {
		n := th.int(a[0])
		c := roundup(n, true)
		return th.newSlice(n, c, 1)
	})
	for _, n := range []string{"strings.ToUpper", "strings.ToLower"} {
		up := strings.HasSuffix(n, "Upper")
		intrinsics[n] = func(th *Thread, fn *ssa.Function, a []Value) Value {
			s := a[0].(Str)
			if s.t == nil {
				if up {
					return Str{s: strings.ToUpper(s.s)}
				}
				return Str{s: strings.ToLower(s.s)}
			}
			c := th.w.ctx
			out := make([]*Term, len(s.t))
			for i, b := range s.t {
				if !th.p.Branch(c.ULt(b, c.Const(0x80, 8))) {
					return th.invoke(&callee{fn: fn, code: th.w.code(fn)}, a, nil, nil)
				}
				lo, hi, d := byte('A'), byte('Z'), byte(32)
				if up {
					lo, hi, d = 'a', 'z', 224
				}
				out[i] = c.Ite(c.And(c.ULe(c.Const(uint64(lo), 8), b), c.ULe(b, c.Const(uint64(hi), 8))), c.Add(b, c.Const(uint64(d), 8)), b)
			}
			return mkStr(out)
		}
	}
	intrinsics["strings.Fields"] = func(th *Thread, fn *ssa.Function, a []Value) Value {
		s, c := a[0].(Str), th.w.ctx
		out, from := []Str{}, -1
		for i := 0; i < s.Len(); i++ {
			b := th.w.strAt(s, i)
			if !th.p.Branch(c.ULt(b, c.Const(0x80, 8))) {
				return th.invoke(&callee{fn: fn, code: th.w.code(fn)}, a, nil, nil)
			}
			space := c.Or(c.Eq(b, c.Const(' ', 8)), c.And(c.ULe(c.Const('\t', 8), b), c.ULe(b, c.Const('\r', 8))))
			if th.p.Branch(space) {
				if from >= 0 {
					out = append(out, s.sub(from, i))
				}
				from = -1
			} else if from < 0 {
				from = i
			}
		}
		if from >= 0 {
			out = append(out, s.sub(from, s.Len()))
		}
		return th.strSlice(out)
	}
	dec := func(th *Thread, a []Value) Value {
		if x, ok := a[0].(Slice); ok && x.len > 4 {
			x.len = 4 // no character is longer
			a = []Value{x}
		}
		s := th.seq(a[0])
		if s.Len() == 0 {
			return Tuple{th.w.ctx.Const(0xFFFD, 32), th.i64(0)}
		}
		r, n := th.decodeRune(s)
		return Tuple{r, th.i64(n)}
	}
	reg("unicode/utf8.DecodeRuneInString", dec)
	reg("unicode/utf8.DecodeRune", dec)
	reg("unicode/utf8.AppendRune", func(th *Thread, a []Value) Value {
		b := th.encodeRune(a[1].(*Term))
		add := make([]Value, len(b))
		for i, t := range b {
			add[i] = t
		}
		return th.appendSlots(a[0].(Slice), add, len(b), th.w.ti(types.Typ[types.Uint8]))
	})
	reg("unicode/utf8.EncodeRune", func(th *Thread, a []Value) Value {
		b := th.encodeRune(a[1].(*Term))
		s := a[0].(Slice)
		if s.len < len(b) {
			th.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", len(b)-1, s.len))
		}
		th.putBytes(s, 0, b)
		return th.i64(len(b))
	})
	reg("unicode/utf8.RuneCountInString", runeCount)
	reg("unicode/utf8.RuneCount", runeCount)
	reg("bytes.growSlice", func(th *Thread, a []Value) Value {
		b, n := a[0].(Slice), th.int(a[1])
		c := max(b.len+n, 2*b.cap)
		s := th.newSlice(b.len, roundup(c, true), 1)
		th.putBytes(s, 0, th.sliceTerms(b))
		return s
	})
}

func runeCount(th *Thread, a []Value) Value {
	s := th.seq(a[0])
	n := 0
	for i := 0; i < s.Len(); {
		_, k := th.decodeRune(s.sub(i, s.Len()))
		i += k
		n++
	}
	return th.i64(n)
}

func initSync() {
	lock := func(write bool) func(th *Thread, a []Value) Value {
		return func(th *Thread, a []Value) Value { th.acquire(a[0].(Ptr), write); return nil }
	}
	unlock := func(write bool) func(th *Thread, a []Value) Value {
		return func(th *Thread, a []Value) Value { th.release(a[0].(Ptr), write); return nil }
	}
	for _, p := range []string{"sync", "internal/sync"} {
		reg("(*"+p+".Mutex).Lock", lock(true))
		reg("(*"+p+".Mutex).Unlock", unlock(true))
		reg("(*"+p+".Mutex).TryLock", func(th *Thread, a []Value) Value {
			if th.w.tmpl == 0 {
				th.yield()
				if l := th.p.lock(a[0].(Ptr)); l.held || l.readers > 0 {
					return th.ibool(false)
				}
			}
			th.acquire(a[0].(Ptr), true)
			return th.ibool(true)
		})
	}
	reg("(*sync.RWMutex).Lock", lock(true))
	reg("(*sync.RWMutex).Unlock", unlock(true))
	reg("(*sync.RWMutex).RLock", lock(false))
	reg("(*sync.RWMutex).RUnlock", unlock(false))
	// the state of these lives in slot 0 of the object
	cnt := func(th *Thread, p Ptr) int {
		if n, ok := th.rd(p.obj).slots[p.off].(*Native); ok {
			return n.v.(int)
		}
		return 0
	}
	set := func(th *Thread, p Ptr, n int) { th.wr(p.obj).slots[p.off] = &Native{"count", n} }
	add := func(th *Thread, p Ptr, d int) {
		th.yield()
		n := cnt(th, p) + d
		if n < 0 {
			th.goPanic(th.errString("sync: negative WaitGroup counter"))
		}
		set(th, p, n)
		if n == 0 {
			l := th.p.lock(p)
			for _, t := range l.waiters {
				t.blocked = false
			}
			l.waiters = nil
		}
	}
	reg("(*sync.WaitGroup).Add", func(th *Thread, a []Value) Value { add(th, a[0].(Ptr), th.int(a[1])); return nil })
	reg("(*sync.WaitGroup).Done", func(th *Thread, a []Value) Value { add(th, a[0].(Ptr), -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(th *Thread, a []Value) Value {
		th.yield()
		for cnt(th, a[0].(Ptr)) > 0 {
			l := th.p.lock(a[0].(Ptr))
			l.waiters = append(l.waiters, th)
			th.block()
		}
		return nil
	})
	reg("(*sync.Once).Do", func(th *Thread, a []Value) Value {
		p := a[0].(Ptr)
		if cnt(th, p) == 0 {
			set(th, p, 1)
			th.callClosure(a[1].(*Closure), nil, nil)
		}
		return nil
	})
	reg("(*sync.Once).doSlow", func(th *Thread, a []Value) Value {
		p := a[0].(Ptr)
		if cnt(th, p) == 0 {
			set(th, p, 1)
			th.callClosure(a[1].(*Closure), nil, nil)
		}
		return nil
	})
	reg("(*sync.Pool).Put", nop)
	intrinsics["(*sync.Pool).Get"] = func(th *Thread, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		pt := deref(fn.Signature.Recv().Type())
		st := pt.Underlying().(*types.Struct)
		ti := th.w.ti(pt)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				c, _ := th.rd(p.obj).slots[p.off+ti.offs[i]].(*Closure)
				if c != nil {
					return th.callClosure(c, nil, nil)
				}
			}
		}
		return Iface{}
	}
	// atomics: one thread runs at a time
	type at struct {
		n string
		t types.Type
	}
	for _, x := range []at{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", types.Typ[types.UnsafePointer]}} {
		x := x
		for _, pk := range []string{"sync/atomic"} {
			reg(pk+".Load"+x.n, func(th *Thread, a []Value) Value { th.yield(); return th.load(a[0], th.w.ti(x.t)) })
			reg(pk+".Store"+x.n, func(th *Thread, a []Value) Value {
				th.yield()
				th.store(a[0], a[1], th.w.ti(x.t))
				return nil
			})
			reg(pk+".Swap"+x.n, func(th *Thread, a []Value) Value {
				th.yield()
				o := th.load(a[0], th.w.ti(x.t))
				th.store(a[0], a[1], th.w.ti(x.t))
				return o
			})
			reg(pk+".CompareAndSwap"+x.n, func(th *Thread, a []Value) Value {
				th.yield()
				o := th.load(a[0], th.w.ti(x.t))
				if th.p.Branch(th.valEq(o, a[1], th.w.ti(x.t))) {
					th.store(a[0], a[2], th.w.ti(x.t))
					return th.ibool(true)
				}
				return th.ibool(false)
			})
			if x.n != "Pointer" {
				reg(pk+".Add"+x.n, func(th *Thread, a []Value) Value {
					th.yield()
					o := th.load(a[0], th.w.ti(x.t)).(*Term)
					n := th.w.ctx.Add(o, a[1].(*Term))
					th.store(a[0], n, th.w.ti(x.t))
					return n
				})
			}
		}
	}
}

func (th *Thread) errString(s string) Iface {
	return Iface{th.w.rtype(types.Typ[types.String]), Str{s: s}}
}

func initMisc() {
	id := func(th *Thread, a []Value) Value { return a[0] }
	reg("internal/abi.NoEscape", id)
	reg("internal/abi.Escape", id)
	reg("strings.noescape", id)
	reg("runtime.SetFinalizer", nop)
	reg("runtime.KeepAlive", nop)
	reg("runtime.GC", nop)
	reg("runtime.Gosched", func(th *Thread, a []Value) Value { th.yield(); return nil })
	reg("runtime.GOMAXPROCS", func(th *Thread, a []Value) Value { return th.i64(8) })
	reg("runtime.NumCPU", func(th *Thread, a []Value) Value { return th.i64(8) })
	reg("runtime.NumGoroutine", func(th *Thread, a []Value) Value { return th.i64(1) })
	reg("runtime/debug.SetGCPercent", func(th *Thread, a []Value) Value { return th.i64(100) })
	reg("internal/godebug.New", func(th *Thread, a []Value) Value { return Ptr{} })
	reg("(*internal/godebug.Setting).Value", func(th *Thread, a []Value) Value { return Str{} })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/cpu.Initialize", nop)
	reg("internal/testlog.Getenv", nop)
	reg("internal/testlog.Open", nop)
	reg("internal/testlog.Stat", nop)
	reg("internal/race.Acquire", nop)
	reg("internal/race.Release", nop)
	reg("sync.runtime_registerPoolCleanup", nop)
	reg("os.runtime_beforeExit", nop)
	reg("os.checkPidfdOnce", func(th *Thread, a []Value) Value { return Iface{} })
	reg("errors.Is", func(th *Thread, a []Value) Value { return th.ibool(th.errorsIs(a[0].(Iface), a[1].(Iface))) })
	reg("errors.As", func(th *Thread, a []Value) Value { return th.ibool(th.errorsAs(a[0].(Iface), a[1].(Iface))) })
	intrinsics["errors.AsType"] = func(th *Thread, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Results().At(0).Type()
		tgt := Ptr{&Obj{slots: make([]Value, th.w.ti(t).slots)}, 0}
		ok := th.asTarget(a[0].(Iface), tgt, t)
		return Tuple{th.load(tgt, th.w.ti(t)), th.ibool(ok)}
	}
	reg("(syscall.Errno).Error", func(th *Thread, a []Value) Value {
		return Str{s: syscall.Errno(th.p.Concretize(a[0].(*Term))).Error()}
	})
	reg("(syscall.Signal).String", func(th *Thread, a []Value) Value {
		return Str{s: syscall.Signal(th.int(a[0])).String()}
	})
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		reg(n, func(th *Thread, a []Value) Value {
			x := a[0].(Iface).v.(Slice)
			less := a[1].(*Closure)
			o := th.wr(x.obj)
			swap := func(i, j int) {
				for k := 0; k < x.esz; k++ {
					p, q := x.off+i*x.esz+k, x.off+j*x.esz+k
					o.slots[p], o.slots[q] = o.slots[q], o.slots[p]
				}
			}
			for i := 1; i < x.len; i++ {
				for j := i; j > 0; j-- {
					r := th.callClosure(less, []Value{th.i64(j), th.i64(j - 1)}, nil).(*Term)
					if !th.p.Branch(r) {
						break
					}
					swap(j, j-1)
				}
			}
			return nil
		})
	}
	reg("reflect.DeepEqual", func(th *Thread, a []Value) Value {
		return th.ibool(th.deepEqual(a[0].(Iface), a[1].(Iface)))
	})
	// the clock stands still at the zero time
	intrinsics["time.Now"] = func(th *Thread, fn *ssa.Function, a []Value) Value {
		return th.w.zero(th.w.ti(fn.Signature.Results().At(0).Type()))
	}
	reg("time.Sleep", func(th *Thread, a []Value) Value { th.yield(); return nil })
	reg("math.Float64bits", func(th *Thread, a []Value) Value { panic(unsupported("float bits")) })
	for n, f := range map[string]func(float64) float64{} {
		f := f
		reg("math."+n, func(th *Thread, a []Value) Value { return f(a[0].(float64)) })
	}
}

func (th *Thread) errMethod(e Iface, name string) *ssa.Function {
	if e.t == nil {
		return nil
	}
	return th.w.method(e.t, nil, name)
}

func (th *Thread) errorsIs(e, target Iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	cmp := types.Comparable(target.t.t)
	for {
		if cmp && e.t == target.t && th.p.Branch(th.ifaceEq(e, target)) {
			return true
		}
		if f := th.errMethod(e, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if th.p.Branch(th.callFn(f, e.v, target).(*Term)) {
				return true
			}
		}
		f := th.errMethod(e, "Unwrap")
		if f == nil {
			return false
		}
		switch r := th.callFn(f, e.v).(type) {
		case Iface:
			if r.t == nil {
				return false
			}
			e = r
		case Slice:
			ti := th.w.ti(th.w.eng.errType)
			for i := 0; i < r.len; i++ {
				if x := th.sliceGet(r, i, ti).(Iface); x.t != nil && th.errorsIs(x, target) {
					return true
				}
			}
			return false
		}
	}
}

func (th *Thread) errorsAs(e, target Iface) bool {
	if e.t == nil {
		return false
	}
	if target.t == nil {
		th.goPanic(th.errString("errors: target cannot be nil"))
	}
	return th.asTarget(e, target.v, deref(target.t.t))
}

func (th *Thread) asTarget(e Iface, target Value, t types.Type) bool {
	for e.t != nil {
		if it, ok := t.Underlying().(*types.Interface); ok {
			if th.w.implements(e.t, it) {
				th.store(target, e, th.w.ti(t))
				return true
			}
		} else if e.t == th.w.rtype(t) {
			th.store(target, e.v, th.w.ti(t))
			return true
		}
		f := th.errMethod(e, "Unwrap")
		if f == nil {
			return false
		}
		switch r := th.callFn(f, e.v).(type) {
		case Iface:
			e = r
		case Slice:
			ti := th.w.ti(th.w.eng.errType)
			for i := 0; i < r.len; i++ {
				if th.asTarget(th.sliceGet(r, i, ti).(Iface), target, t) {
					return true
				}
			}
			return false
		}
	}
	return false
}

func (th *Thread) deepEqual(a, b Iface) bool {
	if a.t == nil || b.t == nil {
		return a.t == b.t
	}
	return a.t == b.t && th.deepVal(a.v, b.v, a.t.ti, 0)
}

func (th *Thread) deepVal(a, b Value, ti *tinfo, depth int) bool {
	if depth > 100 {
		panic(unsupported("deep value in reflect.DeepEqual"))
	}
	switch ti.k {
	case kSlice:
		x, y := a.(Slice), b.(Slice)
		if (x.obj == nil) != (y.obj == nil) || x.len != y.len {
			return false
		}
		for i := 0; i < x.len; i++ {
			if !th.deepVal(th.sliceGet(x, i, ti.elem), th.sliceGet(y, i, ti.elem), ti.elem, depth+1) {
				return false
			}
		}
		return true
	case kPtr:
		x, y := a.(Ptr), b.(Ptr)
		if x == y || x.obj == nil || y.obj == nil {
			return x == y
		}
		et := th.w.ti(deref(ti.t))
		return th.deepVal(th.load(x, et), th.load(y, et), et, depth+1)
	case kIface:
		return th.deepEqual(a.(Iface), b.(Iface))
	case kStruct:
		for i, ft := range ti.fields {
			if !th.deepVal(th.w.aggGet(a.(Agg), ti.offs[i], ft), th.w.aggGet(b.(Agg), ti.offs[i], ft), ft, depth+1) {
				return false
			}
		}
		return true
	case kArray:
		for i := 0; i < ti.n; i++ {
			o := i * ti.elem.slots
			if !th.deepVal(th.w.aggGet(a.(Agg), o, ti.elem), th.w.aggGet(b.(Agg), o, ti.elem), ti.elem, depth+1) {
				return false
			}
		}
		return true
	case kMap:
		x, y := th.rdMap(a.(*MapObj)), th.rdMap(b.(*MapObj))
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil || x == y {
			return true
		}
		if x.live != y.live {
			return false
		}
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			i := th.mapFind(y, e.key, ti.key)
			if i < 0 {
				return false
			}
			p, q := e.val, y.ents[i].val
			if p == nil {
				p = th.w.zero(ti.elem)
			}
			if q == nil {
				q = th.w.zero(ti.elem)
			}
			if !th.deepVal(p, q, ti.elem, depth+1) {
				return false
			}
		}
		return true
	}
	return th.p.Branch(th.valEq(a, b, ti))
}

func initStrconv() {
	reg("strconv.Itoa", func(th *Thread, a []Value) Value { return mkStr(th.itoa(a[0].(*Term), true)) })
	reg("strconv.FormatInt", func(th *Thread, a []Value) Value { return mkStr(th.itoaBase(a[0].(*Term), true, th.int(a[1]))) })
	reg("strconv.FormatUint", func(th *Thread, a []Value) Value { return mkStr(th.itoaBase(a[0].(*Term), false, th.int(a[1]))) })
	app := func(sg bool) func(th *Thread, a []Value) Value {
		return func(th *Thread, a []Value) Value {
			b := th.itoaBase(a[1].(*Term), sg, th.int(a[2]))
			return th.appendBytes(a[0].(Slice), b)
		}
	}
	reg("strconv.AppendInt", app(true))
	reg("strconv.AppendUint", app(false))
	reg("strconv.Quote", func(th *Thread, a []Value) Value { return Str{s: strconv.Quote(th.concStr(a[0].(Str)))} })
	reg("strconv.AppendQuote", func(th *Thread, a []Value) Value {
		return th.appendBytes(a[0].(Slice), th.w.strBytes(Str{s: strconv.Quote(th.concStr(a[1].(Str)))}))
	})
	reg("strconv.QuoteRune", func(th *Thread, a []Value) Value { return Str{s: strconv.QuoteRune(rune(th.int(a[0])))} })
	reg("strconv.ParseFloat", func(th *Thread, a []Value) Value {
		s := th.concStr(a[0].(Str))
		f, err := strconv.ParseFloat(s, th.int(a[1]))
		if err != nil {
			panic(unsupported("strconv.ParseFloat error"))
		}
		return Tuple{f, Iface{}}
	})
}

func (th *Thread) appendBytes(s Slice, b []*Term) Slice {
	add := make([]Value, len(b))
	for i, t := range b {
		add[i] = t
	}
	if len(b) == 0 {
		return s
	}
	return th.appendSlots(s, add, len(b), th.w.ti(types.Typ[types.Uint8]))
}

type itoaMemo struct {
	id  uint32
	out []*Term
}

var pow10 = func() (p [20]uint64) {
	p[0] = 1
	for i := 1; i < 20; i++ {
		p[i] = p[i-1] * 10
	}
	return
}()

func bitsFor(v uint64) uint8 {
	n := uint8(1)
	for n < 64 && v>>n != 0 {
		n++
	}
	return n
}

// itoa renders an integer in decimal.
func (th *Thread) itoa(t *Term, signed bool) []*Term {
	c := th.w.ctx
	if t.op == opConst {
		if signed {
			return th.w.strBytes(Str{s: strconv.FormatInt(sext(t.val, t.w), 10)})
		}
		return th.w.strBytes(Str{s: strconv.FormatUint(t.val, 10)})
	}
	if t.op == opZExt {
		t, signed = t.a, false
	}
	t = c.canon(t)
	if signed && th.p.Branch(c.SLt(t, c.Const(0, t.w))) {
		return append([]*Term{c.Const('-', 8)}, th.itoa(c.Neg(t), false)...)
	}
	k := 1
	for k < 20 {
		if bitsFor(pow10[k]-1) > t.w || th.p.Branch(c.ULt(t, c.Const(pow10[k], t.w))) {
			break
		}
		k++
	}
	for _, m := range th.p.itoa {
		if m.id == t.id {
			return m.out
		}
	}
	zero := c.Const('0', 8)
	var out []*Term
	nb := t.w
	if k < 20 {
		nb = min(t.w, bitsFor(pow10[k]-1))
	}
	x := t
	if nb < t.w {
		x = c.Extract(t, nb-1, 0)
	} else if k == 20 {
		// the sum of twenty digits does not fit into 64 bits
		return th.w.strBytes(Str{s: strconv.FormatUint(th.p.Concretize(t), 10)})
	} else if n := bitsFor(pow10[k] - 1); n > nb {
		nb = n
		x = c.ZExt(t, nb)
	}
	switch {
	case k == 1:
		out = []*Term{c.Add(zero, c.resize(x, 8, false))}
	case k <= 2:
		for i := k - 1; i >= 0; i-- {
			q := c.UDiv(x, c.Const(pow10[i], nb))
			if i < k-1 {
				q = c.URem(q, c.Const(10, nb))
			}
			out = append(out, c.Add(zero, c.resize(q, 8, false)))
		}
	default:
		// fresh digits d with sum d*10^i = x
		v := c.Eval(x, th.p.model)
		sum := c.Const(0, nb)
		ds := make([]*Term, k)
		name := th.p.fresh("digits")
		for i := k - 1; i >= 0; i-- {
			lo := uint64(0)
			if i == k-1 {
				lo = 1
			}
			d := c.VarIn(fmt.Sprintf("%s.%d@%d", name, i, lo), 8, lo, 9, nil)
			for len(th.p.model) <= int(d.val) {
				th.p.model = append(th.p.model, 0)
			}
			th.p.model[d.val] = v / pow10[i] % 10
			th.p.derived = append(th.p.derived, derived{uint32(d.val), x, pow10[i]})
			ds[k-1-i] = d
			sum = c.Add(sum, c.Mul(c.resize(d, nb, false), c.Const(pow10[i], nb)))
		}
		if nb < 8 {
			panic("itoa width")
		}
		th.p.addCons(c.Eq(sum, x))
		for _, d := range ds {
			out = append(out, c.Add(zero, d))
		}
	}
	th.p.itoa = append(th.p.itoa, itoaMemo{t.id, out})
	return out
}

// itoaBits writes a number in digits of so many bits.
func (th *Thread) itoaBits(t *Term, signed bool, bits int) []*Term {
	c := th.w.ctx
	if signed && th.p.Branch(c.SLt(t, c.Const(0, t.w))) {
		return append([]*Term{c.Const('-', 8)}, th.itoaBits(c.Neg(t), false, bits)...)
	}
	n := 1
	for n*bits < int(t.w) && !th.p.Branch(c.ULt(t, c.Const(1<<uint(n*bits), t.w))) {
		n++
	}
	var out []*Term
	for i := n - 1; i >= 0; i-- {
		d := c.resize(c.Extract(t, uint8(min((i+1)*bits, int(t.w))-1), uint8(i*bits)), 8, false)
		if bits == 4 {
			out = append(out, c.Ite(c.ULt(d, c.Const(10, 8)), c.Add(d, c.Const('0', 8)), c.Add(d, c.Const('a'-10, 8))))
		} else {
			out = append(out, c.Add(d, c.Const('0', 8)))
		}
	}
	return out
}

func (th *Thread) itoaBase(t *Term, signed bool, base int) []*Term {
	if base == 10 {
		return th.itoa(t, signed)
	}
	if t.op != opConst && (base == 2 || base == 8 || base == 16) && !(base == 2 && t.w > 8) {
		return th.itoaBits(t, signed, map[int]int{2: 1, 8: 3, 16: 4}[base])
	}
	v := th.p.Concretize(t)
	if signed {
		return th.w.strBytes(Str{s: strconv.FormatInt(sext(v, t.w), base)})
	}
	return th.w.strBytes(Str{s: strconv.FormatUint(v, base)})
}

func initOS() {
	reg("os.runtime_args", func(th *Thread, a []Value) Value { return th.strSlice(th.proc.args) })
	reg("syscall.runtime_envs", func(th *Thread, a []Value) Value { return th.strSlice(nil) })
	reg("os.Exit", func(th *Thread, a []Value) Value {
		panic(exitSig{th.proc, th.int(a[0]), "exit"})
	})
	reg("runtime.Goexit", func(th *Thread, a []Value) Value { panic(unsupported("runtime.Goexit")) })
	reg("syscall.Exit", func(th *Thread, a []Value) Value { panic(exitSig{th.proc, th.int(a[0]), "exit"}) })
	reg("os.NewFile", func(th *Thread, a []Value) Value {
		fd := th.int(a[0])
		if fd < 0 || fd > 2 {
			panic(unsupported("os.NewFile"))
		}
		return th.proc.stdFile(fd)
	})
	reg("os.OpenFile", func(th *Thread, a []Value) Value {
		return th.openFile(a[0].(Str), th.int(a[1]), uint32(th.p.Concretize(a[2].(*Term))))
	})
	reg("(*os.File).Read", func(th *Thread, a []Value) Value { return th.fileRead(a[0], a[1].(Slice)) })
	reg("(*os.File).ReadAt", func(th *Thread, a []Value) Value { return th.fileReadAt(a[0], a[1].(Slice), a[2].(*Term)) })
	reg("(*os.File).Write", func(th *Thread, a []Value) Value { return th.fileWrite(a[0], th.sliceTerms(a[1].(Slice))) })
	reg("(*os.File).WriteString", func(th *Thread, a []Value) Value { return th.fileWrite(a[0], th.w.strBytes(a[1].(Str))) })
	reg("(*os.File).Close", func(th *Thread, a []Value) Value { return th.fileClose(a[0]) })
	reg("(*os.File).Sync", func(th *Thread, a []Value) Value {
		if e, ok := th.checkFile(th.fileOf(a[0]), "sync"); !ok {
			return e
		}
		return Iface{}
	})
	reg("(*os.File).Name", func(th *Thread, a []Value) Value {
		f := th.fileOf(a[0])
		if f == nil {
			th.nilDeref()
		}
		return f.name
	})
	reg("(*os.File).Fd", func(th *Thread, a []Value) Value {
		f := th.fileOf(a[0])
		if f != nil && f.std >= 0 {
			return th.w.ctx.Const(uint64(f.std), 64)
		}
		return th.w.ctx.Const(7, 64)
	})
	reg("(*os.File).checkValid", func(th *Thread, a []Value) Value {
		e, _ := th.checkFile(th.fileOf(a[0]), "")
		if f := th.fileOf(a[0]); f != nil {
			return Iface{}
		}
		return e
	})
	reg("(*os.File).writeTo", func(th *Thread, a []Value) Value { return Tuple{th.i64(0), th.ibool(false), Iface{}} })
	reg("(*os.File).readFrom", func(th *Thread, a []Value) Value { return Tuple{th.i64(0), th.ibool(false), Iface{}} })
	reg("(*os.File).Stat", func(th *Thread, a []Value) Value {
		f := th.fileOf(a[0])
		if e, ok := th.checkFile(f, "stat"); !ok {
			return Tuple{Iface{}, e}
		}
		if f.std >= 0 {
			return Tuple{th.fileInfo(f.name, &inode{mode: modePipe | 0600}), Iface{}}
		}
		return Tuple{th.fileInfo(f.name, f.ino), Iface{}}
	})
	reg("(*os.File).Seek", func(th *Thread, a []Value) Value {
		f := th.fileOf(a[0])
		if e, ok := th.checkFile(f, "seek"); !ok {
			return Tuple{th.i64(0), e}
		}
		if f.std >= 0 {
			return Tuple{th.i64(0), th.pathError("seek", f.name, syscall.ESPIPE)}
		}
		o, wh := th.int(a[1]), th.int(a[2])
		switch wh {
		case 1:
			o += f.off
		case 2:
			o += len(f.ino.data)
		}
		if o < 0 {
			return Tuple{th.i64(0), th.pathError("seek", f.name, syscall.EINVAL)}
		}
		f.off = o
		return Tuple{th.i64(o), Iface{}}
	})
	reg("(*os.File).Truncate", func(th *Thread, a []Value) Value {
		f := th.fileOf(a[0])
		if e, ok := th.checkFile(f, "truncate"); !ok {
			return e
		}
		if c, _ := th.crashPoint(0); c {
			th.crashNow()
		}
		n := th.int(a[1])
		d := append([]*Term(nil), f.ino.data...)
		for len(d) < n {
			d = append(d, th.w.ctx.Const(0, 8))
		}
		f.ino.data = d[:n]
		return Iface{}
	})
	reg("(*os.File).Chmod", func(th *Thread, a []Value) Value {
		f := th.fileOf(a[0])
		if e, ok := th.checkFile(f, "chmod"); !ok {
			return e
		}
		f.ino.mode = f.ino.mode&^0777 | uint32(th.p.Concretize(a[1].(*Term)))&0777
		return Iface{}
	})
	reg("os.Chmod", func(th *Thread, a []Value) Value {
		ino, _, e := th.lookup(a[0].(Str), true)
		if e != 0 {
			return th.pathError("chmod", a[0].(Str), e)
		}
		ino.mode = ino.mode&^0777 | uint32(th.p.Concretize(a[1].(*Term)))&0777
		return Iface{}
	})
	reg("os.Stat", func(th *Thread, a []Value) Value { return th.statName(a[0].(Str), true) })
	reg("os.Lstat", func(th *Thread, a []Value) Value { return th.statName(a[0].(Str), false) })
	reg("os.Rename", func(th *Thread, a []Value) Value { return th.rename(a[0].(Str), a[1].(Str)) })
	reg("os.Remove", func(th *Thread, a []Value) Value { return th.remove(a[0].(Str)) })
	reg("os.nextRandom", func(th *Thread, a []Value) Value {
		th.p.runs++
		return Str{s: strconv.Itoa(1000000 + th.p.runs)}
	})
	reg("os.TempDir", func(th *Thread, a []Value) Value { return Str{s: "."} })
	reg("os.Getwd", func(th *Thread, a []Value) Value { return Tuple{Str{s: "/scratch"}, Iface{}} })
	reg("os.Getenv", func(th *Thread, a []Value) Value { s, _ := th.getenv(a[0].(Str)); return s })
	reg("syscall.Getenv", func(th *Thread, a []Value) Value {
		s, ok := th.getenv(a[0].(Str))
		return Tuple{s, th.ibool(ok)}
	})
	reg("os.LookupEnv", intrinsicOf("syscall.Getenv"))
	reg("os.Environ", func(th *Thread, a []Value) Value {
		var out []Str
		for _, e := range th.proc.env {
			out = append(out, th.w.strCat(th.w.strCat(e[0], Str{s: "="}), e[1]))
		}
		return th.strSlice(out)
	})
	reg("os.Setenv", func(th *Thread, a []Value) Value {
		k := a[0].(Str)
		for i, e := range th.proc.env {
			if e[0].Len() == k.Len() && th.p.Branch(th.w.strEq(e[0], k)) {
				th.proc.env[i][1] = a[1].(Str)
				return Iface{}
			}
		}
		th.proc.env = append(th.proc.env, [2]Str{k, a[1].(Str)})
		return Iface{}
	})
	reg("os.Unsetenv", func(th *Thread, a []Value) Value {
		k := a[0].(Str)
		var out [][2]Str
		for _, e := range th.proc.env {
			if e[0].Len() == k.Len() && th.p.Branch(th.w.strEq(e[0], k)) {
				continue
			}
			out = append(out, e)
		}
		th.proc.env = out
		return Iface{}
	})
	reg("os.Getpid", func(th *Thread, a []Value) Value { return th.i64(4242) })
	reg("os.Getppid", func(th *Thread, a []Value) Value { return th.i64(4241) })
	reg("os.Getuid", func(th *Thread, a []Value) Value { return th.i64(0) })
	reg("os.Geteuid", func(th *Thread, a []Value) Value { return th.i64(0) })
	// processes: only the request is recorded
	intrinsics["os.FindProcess"] = func(th *Thread, fn *ssa.Function, a []Value) Value {
		pt := fn.Signature.Results().At(0).Type()
		ti := th.w.ti(deref(pt))
		o := &Obj{slots: make([]Value, ti.slots)}
		st := deref(pt).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Pid" {
				o.slots[ti.offs[i]] = a[0]
			}
		}
		return Tuple{Ptr{o, 0}, Iface{}}
	}
	sendSig := func(th *Thread, pid, sig *Term) syscall.Errno {
		n := len(th.proc.signals)
		th.proc.signals = append(th.proc.signals, sigRec{pid, sig})
		switch {
		case n < 8 && th.proc.killFail>>n&1 == 0:
			return 0
		case th.proc.killFail>>8 != 0:
			return syscall.EPERM
		case th.proc.killFail == 0:
			return 0
		}
		return syscall.ESRCH
	}
	intrinsics["(*os.Process).Signal"] = func(th *Thread, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		if p.obj == nil {
			th.nilDeref()
		}
		pt := fn.Signature.Recv().Type()
		ti := th.w.ti(deref(pt))
		st := deref(pt).Underlying().(*types.Struct)
		var pid *Term
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Pid" {
				pid, _ = p.obj.slots[p.off+ti.offs[i]].(*Term)
			}
		}
		if pid == nil {
			pid = th.i64(0)
		}
		c := th.w.ctx
		if th.p.Branch(c.Eq(pid, th.i64(-1))) {
			return th.newError("os: process already released")
		}
		if th.p.Branch(c.Eq(pid, th.i64(0))) {
			return th.newError("os: process not initialized")
		}
		s := a[1].(Iface)
		if s.t != th.w.rtype(th.w.eng.typ("syscall", "Signal")) {
			return th.newError("os: unsupported signal type")
		}
		switch e := sendSig(th, pid, s.v.(*Term)); e {
		case 0:
			return Iface{}
		case syscall.ESRCH:
			return th.globalVal("os", "ErrProcessDone")
		default:
			return th.errno(e)
		}
	}
	reg("syscall.Kill", func(th *Thread, a []Value) Value {
		if e := sendSig(th, a[0].(*Term), a[1].(*Term)); e != 0 {
			return th.errno(e)
		}
		return Iface{}
	})
}

func intrinsicOf(n string) func(th *Thread, a []Value) Value {
	f := intrinsics[n]
	return func(th *Thread, a []Value) Value { return f(th, nil, a) }
}

var _ = os.Exit
