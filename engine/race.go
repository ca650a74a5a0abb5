package main

import (
	"fmt"
)

// Data races: every path of a job with "race": true carries vector clocks.
// Two accesses to the same memory, one of them a write, that no chain of
// synchronisation orders are a data race, whatever the order in which the path
// happens to execute them. Accesses are attributed to the innermost function of
// the module or of the harness; what two harness functions do to each other is
// not reported.

type vclock []uint32

func (v *vclock) at(i int) uint32 {
	if i < len(*v) {
		return (*v)[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (g *G) acquire(v vclock) { g.vc.join(v) }

func (g *G) release() vclock {
	v := g.vc.clone()
	g.tick()
	return v
}

func (g *G) acqrel(v *vclock) {
	g.vc.join(*v)
	*v = append((*v)[:0], g.vc...)
	g.tick()
}

// hbG is g if its next synchronisation operation orders memory accesses: the
// transport of the harness does not (a network does not either).
func (m *Machine) hbG(g *G) *G {
	if !m.race || g == nil || m.inTimer {
		return nil
	}
	if n := len(g.stack); n > 0 {
		if o := g.stack[n-1].owner; o != nil && o.nohb {
			return nil
		}
	}
	return g
}

func (m *Machine) hbSend(ch *Chan, s *G) {
	if !m.race || ch.cap == 0 {
		return
	}
	p := ch.slot(ch.sendx)
	ch.sendx++
	if s != nil {
		s.acqrel(p)
	} else if m.inTimer {
		p.join(m.timerVC)
	}
}

func (m *Machine) hbRecv(ch *Chan, r *G) {
	if !m.race || ch.cap == 0 {
		return
	}
	p := ch.slot(ch.recvx)
	ch.recvx++
	if r != nil {
		r.acqrel(p)
	}
}

func (ch *Chan) slot(i int) *vclock {
	if ch.slots == nil {
		n := ch.cap
		if n > 1024 {
			n = 1024
		}
		ch.slots = make([]vclock, n)
	}
	return &ch.slots[i%len(ch.slots)]
}

// hbPair orders the two sides of a rendezvous.
func (m *Machine) hbPair(ch *Chan, s, r *G) {
	if !m.race || ch.cap != 0 {
		return
	}
	if s == nil && m.inTimer && r != nil {
		r.acquire(m.timerVC)
	}
	if s == nil || r == nil {
		return
	}
	s.vc.join(r.vc)
	r.vc.join(s.vc)
	s.tick()
	r.tick()
}

// hbJoinHarness lets g, a goroutine of the harness that waited for the others,
// see what the other goroutines of the harness did.
func (m *Machine) hbJoinHarness(g *G) {
	if !m.race || !g.harness {
		return
	}
	for _, o := range m.gs {
		if o != g && o.harness {
			g.acquire(o.vc)
			o.tick()
		}
	}
}

type access struct {
	g     int32 // -1: none
	c     uint32
	owner *Func
}

type shadow struct {
	w    access
	wAt  bool // the last write is atomic
	r    access
	more []access // further concurrent reads
}

func (m *Machine) shadowOf(k interface{}) *shadow {
	s := m.shadows[k]
	if s == nil {
		s = &shadow{w: access{g: -1}, r: access{g: -1}}
		m.shadows[k] = s
	}
	return s
}

func (m *Machine) rdKey(k interface{}, atomic bool) {
	g := m.cur
	s := m.shadowOf(k)
	me := access{int32(g.id), g.vc.at(g.id), g.stack[len(g.stack)-1].owner}
	if s.w.g >= 0 && s.w.g != me.g && s.w.c > g.vc.at(int(s.w.g)) && !(s.wAt && atomic) {
		m.reportRace("write", s.w, "read", me)
	}
	if s.r.g < 0 || s.r.g == me.g || s.r.c <= g.vc.at(int(s.r.g)) {
		s.r = me
		return
	}
	for i := range s.more {
		if s.more[i].g == me.g {
			s.more[i] = me
			return
		}
	}
	s.more = append(s.more, me)
}

func (m *Machine) wrKey(k interface{}, atomic bool) {
	g := m.cur
	s := m.shadowOf(k)
	me := access{int32(g.id), g.vc.at(g.id), g.stack[len(g.stack)-1].owner}
	conc := func(a access) bool { return a.g >= 0 && a.g != me.g && a.c > g.vc.at(int(a.g)) }
	if conc(s.w) && !(s.wAt && atomic) {
		m.reportRace("write", s.w, "write", me)
	}
	if !atomic {
		if conc(s.r) {
			m.reportRace("read", s.r, "write", me)
		}
		for _, a := range s.more {
			if conc(a) {
				m.reportRace("read", a, "write", me)
			}
		}
	}
	s.w = me
	s.wAt = atomic
	s.r = access{g: -1}
	s.more = nil
}

func (m *Machine) reportRace(k1 string, a access, k2 string, b access) {
	if (a.owner == nil || a.owner.harness) && (b.owner == nil || b.owner.harness) {
		return
	}
	nm := func(f *Func) string {
		if f == nil {
			return "?"
		}
		return f.name
	}
	panic(violation{msg: fmt.Sprintf("data race: %s in %s and %s in %s", k1, nm(a.owner), k2, nm(b.owner)), kind: "race"})
}

func (m *Machine) racing() bool { return m.race && m.started && len(m.gs) > 1 && !m.inTimer }

// rd and wr record an access to the memory at p, field by field.
func (m *Machine) rd(p *Value) {
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			m.rd(&x[i])
		}
	case Array:
		for i := range x {
			m.rd(&x[i])
		}
	default:
		m.rdKey(p, false)
	}
}

func (m *Machine) wr(p *Value) {
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			m.wr(&x[i])
		}
	case Array:
		for i := range x {
			m.wr(&x[i])
		}
	default:
		m.wrKey(p, false)
	}
}

func (m *Machine) rdSlice(s []Value) {
	if m.racing() {
		for i := range s {
			m.rd(&s[i])
		}
	}
}

func (m *Machine) wrSlice(s []Value) {
	if m.racing() {
		for i := range s {
			m.wr(&s[i])
		}
	}
}

func (m *Machine) rdMap(mp *Map) {
	if mp != nil && m.racing() {
		m.rdKey(mp, false)
	}
}

func (m *Machine) wrMap(mp *Map) {
	if mp != nil && m.racing() {
		m.wrKey(mp, false)
	}
}

// atomicAt is called when an atomic operation on p takes place.
func (m *Machine) atomicAt(g *G, p *Value, write bool) {
	if h := m.hbG(g); h != nil {
		v := m.atomics[p]
		if v == nil {
			v = new(vclock)
			m.atomics[p] = v
		}
		h.acqrel(v)
	}
	if m.racing() {
		if write {
			m.wrKey(p, true)
		} else {
			m.rdKey(p, true)
		}
	}
}
