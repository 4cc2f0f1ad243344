package main

func (th *Thread) rdMap(m *MapObj) *MapObj {
	if m != nil && m.frozen && th.proc.ovm != nil {
		if n, ok := th.proc.ovm[m]; ok {
			return n
		}
	}
	return m
}

func (th *Thread) wrMap(m *MapObj) *MapObj {
	if !m.frozen {
		return m
	}
	if n, ok := th.proc.ovm[m]; ok {
		return n
	}
	n := &MapObj{live: m.live, sym: m.sym, kt: m.kt}
	for _, e := range m.ents {
		c := *e
		n.ents = append(n.ents, &c)
	}
	if m.idx != nil {
		n.idx = map[string]int{}
		for k, v := range m.idx {
			n.idx[k] = v
		}
	}
	if th.proc.ovm == nil {
		th.proc.ovm = map[*MapObj]*MapObj{}
	}
	th.proc.ovm[m] = n
	return n
}

func (th *Thread) mapFind(m *MapObj, key Value, kt *tinfo) int {
	if kt.k == kIface {
		if i := key.(Iface); i.t != nil {
			switch i.t.ti.k {
			case kSlice, kMap, kFunc:
				th.rtPanic("hash of unhashable type " + i.t.t.String())
			}
		}
	}
	ks, conc := keyString(key, kt)
	if conc {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := keyString(e.key, kt); ec {
				continue
			}
		}
		if th.p.Branch(th.eqAny(key, e.key, kt)) {
			return i
		}
	}
	return -1
}

func (th *Thread) eqAny(a, b Value, ti *tinfo) *Term {
	if ti.k == kIface {
		return th.ifaceEq(a.(Iface), b.(Iface))
	}
	return th.valEq(a, b, ti)
}

func (th *Thread) mapGet(m *MapObj, key Value, mti *tinfo) (Value, bool) {
	m = th.rdMap(m)
	if m != nil {
		if i := th.mapFind(m, key, mti.key); i >= 0 {
			v := m.ents[i].val
			if v == nil {
				v = th.w.zero(mti.elem)
			}
			return v, true
		}
	}
	return th.w.zero(mti.elem), false
}

func (th *Thread) mapSet(m *MapObj, key, val Value, mti *tinfo) {
	if m == nil {
		th.goPanic(th.plainError("assignment to entry in nil map"))
	}
	m = th.wrMap(m)
	if i := th.mapFind(m, key, mti.key); i >= 0 {
		m.ents[i].val = val
		return
	}
	m.ents = append(m.ents, &mapEnt{key: key, val: val})
	m.live++
	if ks, ok := keyString(key, mti.key); ok {
		if m.idx == nil {
			m.idx = map[string]int{}
		}
		m.idx[ks] = len(m.ents) - 1
	} else {
		m.sym++
	}
}

func (th *Thread) mapDelete(m *MapObj, key Value, mti *tinfo) {
	if m == nil {
		return
	}
	m = th.wrMap(m)
	if i := th.mapFind(m, key, mti.key); i >= 0 {
		e := m.ents[i]
		e.dead = true
		m.live--
		if ks, ok := keyString(e.key, mti.key); ok {
			delete(m.idx, ks)
		} else {
			m.sym--
		}
	}
}

func (th *Thread) mapClear(m *MapObj) {
	if m == nil {
		return
	}
	m = th.wrMap(m)
	for _, e := range m.ents {
		e.dead = true
	}
	m.ents = nil
	m.idx = nil
	m.live = 0
	m.sym = 0
}

type mapIter struct {
	left []*mapEnt
	any  bool
}

func (th *Thread) mapRange(m *MapObj, repo bool) *mapIter {
	it := &mapIter{any: repo && th.p.mapAny}
	m = th.rdMap(m)
	if m != nil {
		for _, e := range m.ents {
			if !e.dead {
				it.left = append(it.left, e)
			}
		}
	}
	return it
}

func (th *Thread) mapNext(it *mapIter, kti, vti *tinfo) Tuple {
	w := th.w
	live := it.left[:0]
	for _, e := range it.left {
		if !e.dead {
			live = append(live, e)
		}
	}
	it.left = live
	zero := func(ti *tinfo) Value {
		if ti == nil {
			return nil
		}
		return w.zero(ti)
	}
	if len(live) == 0 {
		return Tuple{w.ctx.ff, zero(kti), zero(vti)}
	}
	i := 0
	if it.any {
		i = th.p.Pick(len(live))
	}
	e := live[i]
	it.left = append(append([]*mapEnt(nil), live[:i]...), live[i+1:]...)
	v := e.val
	if v == nil && vti != nil {
		v = w.zero(vti)
	}
	return Tuple{w.ctx.tt, e.key, v}
}
