package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const zzvPkg = modPath + "/zzv"

func (th *Thread) cstr(v Value) string {
	s := v.(Str)
	if s.t != nil {
		panic("zzv: a name must be concrete")
	}
	return s.s
}

func initZzv() {
	z := func(n string, f func(th *Thread, a []Value) Value) { reg(zzvPkg+"."+n, f) }
	z("Int", func(th *Thread, a []Value) Value {
		lo, hi := th.int(a[1]), th.int(a[2])
		if lo > hi {
			panic(pathEnd{"assume", "empty range"})
		}
		c := th.w.ctx
		if lo >= 0 {
			return th.p.input(th.cstr(a[0]), 64, uint64(lo), uint64(hi), nil)
		}
		// a signed range: offset from lo
		off := th.p.inputAt(th.cstr(a[0]), lo, hi)
		return c.Add(off, th.i64(lo))
	})
	z("Byte", func(th *Thread, a []Value) Value { return th.p.input(th.cstr(a[0]), 8, 0, 255, nil) })
	z("ByteIn", func(th *Thread, a []Value) Value {
		var d [4]uint64
		al := th.cstr(a[1])
		lo, hi := 255, 0
		for i := 0; i < len(al); i++ {
			b := al[i]
			d[b>>6] |= 1 << (b & 63)
			lo, hi = min(lo, int(b)), max(hi, int(b))
		}
		return th.p.input(th.cstr(a[0]), 8, uint64(lo), uint64(hi), &d)
	})
	z("Bool", func(th *Thread, a []Value) Value { return th.p.input(th.cstr(a[0]), 0, 0, 1, nil) })
	z("Fix", func(th *Thread, a []Value) Value { return th.i64(th.int(a[0])) })
	z("FixStr", func(th *Thread, a []Value) Value { return Str{s: th.concStr(a[0].(Str))} })
	z("Assume", func(th *Thread, a []Value) Value { th.p.Assume(a[0].(*Term)); return nil })
	z("Assert", func(th *Thread, a []Value) Value {
		th.p.Assert(a[0].(*Term), th.modelStr(a[1].(Str)))
		return nil
	})
	z("Observe", func(th *Thread, a []Value) Value {
		th.p.obs = append(th.p.obs, obsRec{th.cstr(a[0]), a[1].(Str)})
		return nil
	})
	z("Bound", func(th *Thread, a []Value) Value {
		th.w.eng.bound(th.modelStr(a[0].(Str)))
		return nil
	})
	z("Witness", func(th *Thread, a []Value) Value {
		th.p.tags["witness:"+th.modelStr(a[0].(Str))] = true
		return nil
	})
	z("Thorough", func(th *Thread, a []Value) Value { return th.ibool(th.w.eng.thorough) })
	z("AnyMapOrder", func(th *Thread, a []Value) Value { th.p.mapAny = true; return nil })
	z("AnySchedule", func(th *Thread, a []Value) Value {
		th.p.schedAny = true
		th.p.maxPreempt = th.int(a[0])
		return nil
	})
	z("Steps", func(th *Thread, a []Value) Value { th.p.limit = th.p.steps + int64(th.int(a[0])); return nil })
	z("run", func(th *Thread, a []Value) Value { return th.runCommand(a) })
	z("Eq", func(th *Thread, a []Value) Value { return th.w.strEq(a[0].(Str), a[1].(Str)) })
}

// inputAt declares an input of a signed range, held as its distance from lo.
func (p *Path) inputAt(name string, lo, hi int) *Term {
	full := p.fresh(name)
	n := uint64(hi) - uint64(lo)
	t := p.ctx.VarIn(fmt.Sprintf("%s@%d+%d", full, lo, n), 64, 0, n, nil)
	p.declare(t)
	p.inputs = append(p.inputs, inputRec{full, p.ctx.Add(t, p.ctx.Const(uint64(int64(lo)), 64))})
	return t
}

func (th *Thread) strsOf(v Value) []Str {
	s := v.(Slice)
	out := make([]Str, s.len)
	for i := range out {
		if x, ok := th.rd(s.obj).slots[s.off+i].(Str); ok {
			out[i] = x
		}
	}
	return out
}

func (th *Thread) intsOf(v Value) []*Term {
	s := v.(Slice)
	out := make([]*Term, s.len)
	for i := range out {
		out[i] = th.i64(0)
		if x, ok := th.rd(s.obj).slots[s.off+i].(*Term); ok {
			out[i] = x
		}
	}
	return out
}

// runCommand executes a command's main function as a process of its own.
func (th *Thread) runCommand(a []Value) Value {
	p := th.p
	name := th.cstr(a[0])
	pkg := th.w.eng.pkgs[modPath+"/cmd/"+name]
	if pkg == nil {
		panic(unsupported("no command " + name))
	}
	fs := newFS()
	proc := newProc(fs)
	proc.args = append([]Str{{s: name}}, th.strsOf(a[1])...)
	proc.stdin = th.w.strBytes(a[2].(Str))
	for _, e := range th.strsOf(a[3]) {
		i := -1
		for k := 0; k < e.Len(); k++ {
			if t := th.w.strAt(e, k); t.op == opConst && t.val == '=' {
				i = k
				break
			}
		}
		if i < 0 {
			continue
		}
		proc.env = append(proc.env, [2]Str{e.sub(0, i), e.sub(i+1, e.Len())})
	}
	fn, fd, fm := th.strsOf(a[4]), th.strsOf(a[5]), th.intsOf(a[6])
	for i := range fn {
		m := int(p.Concretize(fm[i]))
		ino := &inode{mode: uint32(m & 0777)}
		if m&04000 != 0 {
			ino.mode |= modeSetuid
		}
		if m&02000 != 0 {
			ino.mode |= modeSetgid
		}
		if m&01000 != 0 {
			ino.mode |= modeSticky
		}
		n := th.cstr(fn[i])
		switch m >> 12 {
		case 0:
			ino.data = th.w.strBytes(fd[i])
		case 1:
			ino.mode |= modeDir
			ino.size = 4096
		case 2:
			ino.mode = modeSymlink | 0777
			ino.link = th.cstr(fd[i])
		case 3:
			ino.mode |= modePipe
		case 4:
			ino.mode = modeSocket | 0755
		case 5:
			ino.mode = modeSymlink | 0777
			ino.link = ".dev-null"
			fs.names[".dev-null"] = &inode{mode: modeDevice | modeChar | 0666}
		}
		fs.names[clean(n)] = ino
	}
	if cs := th.intsOf(a[7]); len(cs) > 0 {
		proc.chunks = cs
	}
	proc.faultOps = th.cstr(a[8])
	if t := a[9].(*Term); !(t.op == opConst && t.val == 0) {
		proc.faultVar = t
	}
	if t := a[10].(*Term); !(t.op == opConst && t.val == 0) {
		proc.crashVar = t
	}
	if t := a[11].(*Term); !(t.op == opConst && t.val == 0) {
		proc.partial = t
	}
	if t := a[12].(*Term); !(t.op == opConst && t.val == 0) {
		proc.errVar = t
	}
	proc.killFail = int(a[13].(*Term).val) // fixed by the harness
	old := th.proc
	from := len(p.threads)
	depth := th.depth
	th.proc = proc
	p.preempts = 0
	code := 0
	func() {
		defer func() {
			r := recover()
			p.killThreads(from)
			th.proc = old
			th.depth = depth
			if r == nil {
				return
			}
			switch x := r.(type) {
			case exitSig:
				if x.proc == proc {
					code = x.code
					if code != -9 {
						code &= 0xff
					}
					return
				}
			case *targetPanic:
				code = 2
				th.proc = proc
				msg := th.panicText(x)
				th.proc = old
				proc.crashMsg = "panic: " + msg
				proc.stderrWrite(th, Str{s: "panic: " + msg + "\n\ngoroutine 1 [running]:\n"})
				return
			}
			panic(r)
		}()
		th.startProc(pkg)
		th.callFn(pkg.Func("main"))
	}()
	if proc.crashMsg != "" {
		code = 1002 // zzv.Run reports it
		p.tags["a command crashed: "+strings.SplitN(proc.crashMsg, "\n", 2)[0]] = true
	}
	var names []string
	var data []Str
	for _, n := range fs.list() {
		if ino := fs.names[n]; ino.mode&modeType == 0 {
			names = append(names, n)
			data = append(data, mkStr(ino.data))
		}
	}
	var sigs []Value
	for _, s := range proc.signals {
		sigs = append(sigs, s.pid, s.sig)
	}
	so := Slice{esz: 1}
	if len(sigs) > 0 {
		so = Slice{&Obj{slots: sigs}, 0, len(sigs), len(sigs), 1}
	}
	return Tuple{mkStr(proc.stdout), mkStr(proc.stderr), th.i64(code), th.strs(names), th.strSlice(data), so}
}

var _ *ssa.Function
