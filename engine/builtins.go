package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (k *compiler) builtin(name string, cc *ssa.CallCommon) func(f *Frame, a []Value) Value {
	w := k.w
	c := w.ctx
	var ti, rt *tinfo
	if len(cc.Args) > 0 {
		ti = w.ti(cc.Args[0].Type())
	}
	if r := cc.Signature().Results(); r.Len() == 1 {
		rt = w.ti(r.At(0).Type())
	}
	i64 := func(n int) Value { return c.Const(uint64(int64(n)), 64) }
	switch name {
	case "len", "cap":
		cp := name == "cap"
		return func(f *Frame, a []Value) Value {
			switch x := a[0].(type) {
			case Str:
				return i64(x.Len())
			case Slice:
				if cp {
					return i64(x.cap)
				}
				return i64(x.len)
			case *MapObj:
				x = f.th.rdMap(x)
				if x == nil {
					return i64(0)
				}
				return i64(x.live)
			case *Chan:
				if x == nil {
					return i64(0)
				}
				if cp {
					return i64(x.cap)
				}
				return i64(len(x.buf))
			case Ptr, Agg:
				t := ti
				if t.k == kPtr {
					t = w.ti(deref(t.t))
				}
				return i64(t.n)
			}
			panic(fmt.Sprintf("len of %T", a[0]))
		}
	case "append":
		esz := ti.elem.slots
		return func(f *Frame, a []Value) Value {
			s := a[0].(Slice)
			var add []Value
			n := 0
			switch y := a[1].(type) {
			case Str:
				n = y.Len()
				add = make([]Value, n)
				for i := range add {
					add[i] = w.strAt(y, i)
				}
			case Slice:
				n = y.len
				if n > 0 {
					add = f.th.rd(y.obj).slots[y.off : y.off+n*esz]
				}
			}
			if n == 0 {
				return s
			}
			return f.th.appendSlots(s, add, n, ti.elem)
		}
	case "copy":
		return func(f *Frame, a []Value) Value {
			d := a[0].(Slice)
			switch y := a[1].(type) {
			case Str:
				n := min(d.len, y.Len())
				if n > 0 {
					o := f.th.wr(d.obj)
					for i := 0; i < n; i++ {
						o.slots[d.off+i] = w.strAt(y, i)
					}
				}
				return i64(n)
			case Slice:
				n := min(d.len, y.len)
				if n > 0 {
					so := f.th.rd(y.obj)
					o := f.th.wr(d.obj)
					if d.obj == y.obj {
						so = o
					}
					copy(o.slots[d.off:d.off+n*d.esz], so.slots[y.off:y.off+n*d.esz])
				}
				return i64(n)
			}
			panic("copy")
		}
	case "delete":
		return func(f *Frame, a []Value) Value {
			f.th.mapDelete(a[0].(*MapObj), a[1], ti)
			return nil
		}
	case "clear":
		return func(f *Frame, a []Value) Value {
			switch x := a[0].(type) {
			case *MapObj:
				f.th.mapClear(x)
			case Slice:
				if x.len > 0 {
					o := f.th.wr(x.obj)
					for i := 0; i < x.len*x.esz; i++ {
						o.slots[x.off+i] = nil
					}
				}
			}
			return nil
		}
	case "close":
		return func(f *Frame, a []Value) Value {
			f.th.chanClose(a[0].(*Chan))
			return nil
		}
	case "panic":
		return func(f *Frame, a []Value) Value {
			f.th.goPanic(a[0].(Iface))
			return nil
		}
	case "recover":
		return func(f *Frame, a []Value) Value {
			d := f.deferOf
			if d != nil && d.panicking != nil {
				v := d.panicking.v
				d.panicking = nil
				return v
			}
			return Iface{}
		}
	case "print", "println":
		return func(f *Frame, a []Value) Value {
			var s Str
			for i, v := range a {
				if i > 0 && name == "println" {
					s = w.strCat(s, Str{s: " "})
				}
				s = w.strCat(s, f.th.fmtValue('v', fmtFlags{}, Iface{w.rtype(cc.Args[i].Type()), v}, 0))
			}
			if name == "println" {
				s = w.strCat(s, Str{s: "\n"})
			}
			f.th.proc.stderrWrite(f.th, s)
			return nil
		}
	case "min", "max":
		mx := name == "max"
		return func(f *Frame, a []Value) Value {
			r := a[0]
			for _, y := range a[1:] {
				switch p := r.(type) {
				case *Term:
					q := y.(*Term)
					var lt *Term
					if ti.k == kInt {
						lt = c.SLt(p, q)
					} else {
						lt = c.ULt(p, q)
					}
					if mx {
						r = c.Ite(lt, q, p)
					} else {
						r = c.Ite(lt, p, q)
					}
				case Str:
					q := y.(Str)
					if f.th.p.Branch(w.strLt(p, q)) == mx {
						r = q
					}
				case float64:
					if mx {
						r = max(p, y.(float64))
					} else {
						r = min(p, y.(float64))
					}
				}
			}
			return r
		}
	case "real":
		return func(f *Frame, a []Value) Value { return real(a[0].(complex128)) }
	case "imag":
		return func(f *Frame, a []Value) Value { return imag(a[0].(complex128)) }
	case "complex":
		return func(f *Frame, a []Value) Value { return complex(a[0].(float64), a[1].(float64)) }
	case "ssa:wrapnilchk":
		return func(f *Frame, a []Value) Value {
			if p, ok := a[0].(Ptr); ok && p.obj == nil {
				f.th.nilDeref()
			}
			return a[0]
		}
	case "ssa:deferstack":
		return func(f *Frame, a []Value) Value { return Ptr{} }
	case "String": // unsafe.String
		return func(f *Frame, a []Value) Value {
			n := int(f.th.p.Concretize(a[1].(*Term)))
			p := a[0].(Ptr)
			if n == 0 {
				return Str{}
			}
			if p.off+n > len(p.obj.slots) {
				panic(unsupported("unsafe.String past its object"))
			}
			return f.th.sliceStr(Slice{p.obj, p.off, n, n, 1})
		}
	case "StringData":
		return func(f *Frame, a []Value) Value {
			s := f.th.bytesOf(a[0].(Str))
			return Ptr{s.obj, 0}
		}
	case "Slice":
		return func(f *Frame, a []Value) Value {
			n := int(f.th.p.Concretize(a[1].(*Term)))
			p := a[0].(Ptr)
			esz := rt.elem.slots
			if p.obj == nil {
				return Slice{esz: esz}
			}
			if p.off+n*esz > len(p.obj.slots) {
				panic(unsupported("unsafe.Slice past its object"))
			}
			return Slice{p.obj, p.off, n, n, esz}
		}
	case "SliceData":
		return func(f *Frame, a []Value) Value {
			s := a[0].(Slice)
			if s.obj == nil {
				return Ptr{}
			}
			return Ptr{s.obj, s.off}
		}
	}
	return func(f *Frame, a []Value) Value { panic(unsupported("builtin " + name)) }
}

func (th *Thread) appendSlots(s Slice, add []Value, n int, et *tinfo) Slice {
	esz := et.slots
	if s.len+n <= s.cap {
		o := th.wr(s.obj)
		copy(o.slots[s.off+s.len*esz:s.off+(s.len+n)*esz], add)
		return Slice{s.obj, s.off, s.len + n, s.cap, esz}
	}
	nc := th.w.growCap(s.cap, s.len+n, et)
	o := &Obj{slots: make([]Value, nc*esz)}
	if s.len > 0 {
		copy(o.slots, th.rd(s.obj).slots[s.off:s.off+s.len*esz])
	}
	copy(o.slots[s.len*esz:], add)
	return Slice{o, 0, s.len + n, nc, esz}
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int, noscan bool) int {
	req := n
	if !noscan && req > 512 {
		req += 8
	}
	if req <= 32768 {
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - n)
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

// growCap follows the runtime's slice growth: the capacity decides what append aliases.
func (w *Worker) growCap(old, need int, et *tinfo) int {
	if et.bsz == 0 {
		et.bsz = int(gcSizes.Sizeof(et.t))
		et.noscan = noPointers(et.t)
	}
	nc := old
	switch {
	case need > 2*old:
		nc = need
	case old < 256:
		nc = 2 * old
	default:
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if et.bsz == 0 {
		return need
	}
	return roundup(nc*et.bsz, et.noscan) / et.bsz
}

var gcSizes = types.SizesFor("gc", "amd64")

func noPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString == 0 && u.Kind() != types.UnsafePointer
	case *types.Array:
		return noPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !noPointers(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}
