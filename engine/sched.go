package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

// Thread is a goroutine of the program under test; one runs at a time.
type Thread struct {
	w       *Worker
	p       *Path
	proc    *Proc
	id      int
	depth   int
	wake    chan struct{}
	kill    bool
	done    bool
	blocked bool
	gone    chan struct{}
}

type killSig struct{}
type exitSig struct {
	proc *Proc
	code int
	why  string
}

func (th *Thread) spawn(c *Closure, args []Value) {
	p := th.p
	if th.w.tmpl > 0 {
		panic(unsupported("goroutine in package initialisation"))
	}
	n := &Thread{w: th.w, p: p, proc: th.proc, id: len(p.threads), wake: make(chan struct{}), gone: make(chan struct{})}
	p.threads = append(p.threads, n)
	p.spawned++
	go func() {
		defer close(n.gone)
		<-n.wake
		if n.kill {
			return
		}
		defer func() {
			n.done = true
			if r := recover(); r != nil {
				switch x := r.(type) {
				case killSig:
					return
				case *targetPanic:
					p.crash(n, x)
				default:
					if _, isErr := r.(runtime.Error); isErr && os.Getenv("ZZV_DEBUG") != "" {
						debug.PrintStack()
					}
					if p.abort == nil {
						p.abort = r
					}
				}
				if n.kill {
					return
				}
				p.handToMain(n)
				return
			}
			// finished: let somebody else run
			p.runNext(n)
		}()
		n.callClosure(c, args, nil)
	}()
	th.yield()
}

// crash records an uncaught panic in a goroutine other than the main one.
func (p *Path) crash(n *Thread, tp *targetPanic) {
	if p.abort == nil {
		msg := "?"
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(*targetPanic); !ok {
						p.abort = r
					}
				}
			}()
			msg = n.panicText(tp)
		}()
		if p.abort == nil {
			n.proc.crashMsg = "panic: " + msg
			n.proc.stderrWrite(n, Str{s: "panic: " + msg + "\n\ngoroutine 1 [running]:\n"})
			p.abort = exitSig{n.proc, 2, "panic"}
		}
	}
}

func (p *Path) mainOf(proc *Proc) *Thread { return p.threads[0] }

// handToMain gives the baton to thread 0, which will see p.abort.
func (p *Path) handToMain(from *Thread) {
	m := p.threads[0]
	m.blocked = false
	m.wake <- struct{}{}
}

func (p *Path) runnable(except *Thread) []*Thread {
	var out []*Thread
	for _, t := range p.threads {
		if t != except && !t.done && !t.blocked {
			out = append(out, t)
		}
	}
	return out
}

// runNext is called by a finished thread.
func (p *Path) runNext(n *Thread) {
	if n.kill {
		return
	}
	rs := p.runnable(n)
	if len(rs) == 0 {
		p.deadlock(n)
		p.handToMain(n)
		return
	}
	i := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				p.abort = r
			}
		}()
		if p.schedAny {
			i = p.Pick(len(rs))
		} else {
			for j, t := range rs {
				if t.id > n.id {
					i = j
					break
				}
			}
		}
	}()
	if p.abort != nil {
		p.handToMain(n)
		return
	}
	rs[i].wake <- struct{}{}
}

func (p *Path) deadlock(n *Thread) {
	m := p.threads[0]
	m.proc.crashMsg = "fatal error: all goroutines are asleep - deadlock!"
	m.proc.stderrWrite(m, Str{s: "fatal error: all goroutines are asleep - deadlock!\n"})
	p.abort = exitSig{m.proc, 2, "deadlock"}
}

func (th *Thread) switchTo(n *Thread) {
	if n == th {
		return
	}
	th.p.switches++
	n.wake <- struct{}{}
	<-th.wake
	th.woke()
}

func (th *Thread) woke() {
	if th.kill {
		panic(killSig{})
	}
	if th.id == 0 && th.p.abort != nil {
		r := th.p.abort
		th.p.abort = nil
		panic(r)
	}
}

// block parks the thread until another unblocks it.
func (th *Thread) block() {
	if th.w.tmpl > 0 {
		panic(unsupported("blocking in package initialisation"))
	}
	th.blocked = true
	p := th.p
	rs := p.runnable(th)
	if len(rs) == 0 {
		p.deadlock(th)
		if th.id == 0 {
			th.blocked = false
			th.woke()
		}
		p.handToMain(th)
		<-th.wake
		th.woke()
		return
	}
	i := 0
	if p.schedAny {
		i = p.Pick(len(rs))
	} else {
		for j, t := range rs {
			if t.id > th.id {
				i = j
				break
			}
		}
	}
	th.switchTo(rs[i])
}

// yield is a preemption point.
func (th *Thread) yield() {
	p := th.p
	if !p.schedAny || p.preempts >= p.maxPreempt || len(p.threads) < 2 {
		return
	}
	rs := p.runnable(th)
	if len(rs) == 0 {
		return
	}
	i := p.Pick(1 + len(rs))
	if i == 0 {
		return
	}
	p.preempts++
	th.switchTo(rs[i-1])
}

// killThreads ends every goroutine of a process but thread 0.
func (p *Path) killThreads(from int) {
	for _, t := range p.threads[from:] {
		if t.id == 0 {
			continue
		}
		t.kill = true
		select {
		case <-t.gone:
		case t.wake <- struct{}{}:
			<-t.gone
		}
	}
	p.threads = p.threads[:from]
}

func (th *Thread) wakeUp(o *Thread) { o.blocked = false }

func pruneQ(q []*waiter) []*waiter {
	for len(q) > 0 && (q[0].done || q[0].grp != nil && q[0].grp.fired) {
		q = q[1:]
	}
	return q
}

func (th *Thread) chanSend(c *Chan, v Value) {
	th.yield()
	if c == nil {
		th.block()
		return
	}
	if c.closed {
		th.goPanic(th.plainError("send on closed channel"))
	}
	if th.trySend(c, v) {
		th.yield()
		return
	}
	wt := &waiter{th: th, v: v}
	c.sendq = append(c.sendq, wt)
	for !wt.done {
		th.block()
	}
	if !wt.ok {
		th.goPanic(th.plainError("send on closed channel"))
	}
}

func (th *Thread) trySend(c *Chan, v Value) bool {
	c.recvq = pruneQ(c.recvq)
	if len(c.recvq) > 0 {
		r := c.recvq[0]
		c.recvq = c.recvq[1:]
		r.v, r.ok, r.done = v, true, true
		if r.grp != nil {
			r.grp.fired = true
		}
		th.wakeUp(r.th)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (th *Thread) tryRecv(c *Chan) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		c.sendq = pruneQ(c.sendq)
		if len(c.sendq) > 0 {
			s := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, s.v)
			s.ok, s.done = true, true
			if s.grp != nil {
				s.grp.fired = true
			}
			th.wakeUp(s.th)
		}
		return v, true, true
	}
	c.sendq = pruneQ(c.sendq)
	if len(c.sendq) > 0 {
		s := c.sendq[0]
		c.sendq = c.sendq[1:]
		s.ok, s.done = true, true
		if s.grp != nil {
			s.grp.fired = true
		}
		th.wakeUp(s.th)
		return s.v, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (th *Thread) chanRecv(c *Chan) (Value, bool) {
	th.yield()
	if c == nil {
		th.block()
		return nil, false
	}
	if v, ok, done := th.tryRecv(c); done {
		th.yield()
		return v, ok
	}
	wt := &waiter{th: th}
	c.recvq = append(c.recvq, wt)
	for !wt.done {
		th.block()
	}
	return wt.v, wt.ok
}

func (th *Thread) chanClose(c *Chan) {
	th.yield()
	if c == nil {
		th.goPanic(th.plainError("close of nil channel"))
	}
	if c.closed {
		th.goPanic(th.plainError("close of closed channel"))
	}
	c.closed = true
	for _, r := range c.recvq {
		if r.done || r.grp != nil && r.grp.fired {
			continue
		}
		r.v, r.ok, r.done = nil, false, true
		if r.grp != nil {
			r.grp.fired = true
		}
		th.wakeUp(r.th)
	}
	c.recvq = nil
	for _, s := range c.sendq {
		if s.done || s.grp != nil && s.grp.fired {
			continue
		}
		s.ok, s.done = false, true
		if s.grp != nil {
			s.grp.fired = true
		}
		th.wakeUp(s.th)
	}
	c.sendq = nil
}

func (k *compiler) selectStmt(x *ssa.Select) func(*Frame) {
	w := k.w
	d := k.regs[x]
	type cs struct {
		c, v opnd
		send bool
		et   *tinfo
	}
	var cases []cs
	for _, s := range x.States {
		c := cs{c: k.op(s.Chan), send: s.Dir == types.SendOnly, et: w.ti(s.Chan.Type()).elem}
		if c.send {
			c.v = k.op(s.Send)
		}
		cases = append(cases, c)
	}
	return func(f *Frame) {
		th := f.th
		th.yield()
		finish := func(i int, v Value, ok bool) {
			t := Tuple{w.ctx.Const(uint64(int64(i)), 64), w.ctx.Bool(ok)}
			for j, c := range cases {
				if c.send {
					continue
				}
				if j == i && v != nil {
					t = append(t, v)
				} else {
					t = append(t, w.zero(c.et))
				}
			}
			f.regs[d] = t
		}
		var ready []int
		for i, c := range cases {
			ch := c.c.get(f).(*Chan)
			if ch == nil {
				continue
			}
			if c.send {
				ch.recvq = pruneQ(ch.recvq)
				if ch.closed || len(ch.recvq) > 0 || len(ch.buf) < ch.cap {
					ready = append(ready, i)
				}
			} else {
				ch.sendq = pruneQ(ch.sendq)
				if ch.closed || len(ch.sendq) > 0 || len(ch.buf) > 0 {
					ready = append(ready, i)
				}
			}
		}
		if len(ready) > 0 {
			i := ready[0]
			if th.p.schedAny {
				i = ready[th.p.Pick(len(ready))]
			}
			ch := cases[i].c.get(f).(*Chan)
			if cases[i].send {
				if ch.closed {
					th.goPanic(th.plainError("send on closed channel"))
				}
				th.trySend(ch, cases[i].v.get(f))
				finish(i, nil, false)
			} else {
				v, ok, _ := th.tryRecv(ch)
				finish(i, v, ok)
			}
			return
		}
		if !x.Blocking {
			finish(-1, nil, false)
			return
		}
		g := &selGroup{}
		var ws []*waiter
		for i, c := range cases {
			ch := c.c.get(f).(*Chan)
			wt := &waiter{th: th, grp: g, sel: i}
			ws = append(ws, wt)
			if ch == nil {
				continue
			}
			if c.send {
				wt.v = c.v.get(f)
				ch.sendq = append(ch.sendq, wt)
			} else {
				ch.recvq = append(ch.recvq, wt)
			}
		}
		for !g.fired {
			th.block()
		}
		for _, wt := range ws {
			if wt.done {
				if cases[wt.sel].send {
					if !wt.ok {
						th.goPanic(th.plainError("send on closed channel"))
					}
					finish(wt.sel, nil, false)
				} else {
					finish(wt.sel, wt.v, wt.ok)
				}
				return
			}
		}
		panic("select fired without a case")
	}
}

// plainError is a runtime.Error panic value (runtime.plainError).
func (th *Thread) plainError(msg string) Iface {
	return Iface{th.w.rtype(th.w.eng.rtErrorString), Str{s: msg}}
}

// panicText renders an uncaught panic value.
func (th *Thread) panicText(tp *targetPanic) string {
	v := tp.v
	if v.t == th.w.rtype(th.w.eng.rtErrorString) {
		return "runtime error: " + v.v.(Str).s
	}
	s := th.fmtValue('v', fmtFlags{}, v, 0)
	return th.modelStr(s)
}

// modelStr shows a string under the current model (for messages only).
func (th *Thread) modelStr(s Str) string {
	if s.t == nil {
		return s.s
	}
	b := make([]byte, len(s.t))
	for i, t := range s.t {
		b[i] = byte(th.p.ctx.Eval(t, th.p.model))
	}
	return string(b)
}

// locks

type lockState struct {
	held    bool
	readers int
	waiters []*Thread
}

func (p *Path) lock(k Ptr) *lockState {
	l := p.locks[k]
	if l == nil {
		l = &lockState{}
		p.locks[k] = l
	}
	return l
}

func (th *Thread) acquire(k Ptr, write bool) {
	if th.w.tmpl > 0 {
		return
	}
	th.yield()
	l := th.p.lock(k)
	for l.held || write && l.readers > 0 {
		l.waiters = append(l.waiters, th)
		th.block()
	}
	if write {
		l.held = true
	} else {
		l.readers++
	}
}

func (th *Thread) release(k Ptr, write bool) {
	if th.w.tmpl > 0 {
		return
	}
	l := th.p.lock(k)
	if write {
		if !l.held {
			th.fatal("fatal error: sync: unlock of unlocked mutex")
		}
		l.held = false
	} else {
		l.readers--
	}
	for _, t := range l.waiters {
		t.blocked = false
	}
	l.waiters = nil
	th.yield()
}

func (th *Thread) fatal(msg string) {
	th.proc.crashMsg = msg
	th.proc.stderrWrite(th, Str{s: msg + "\n"})
	panic(exitSig{th.proc, 2, msg})
}

var _ = fmt.Sprint
