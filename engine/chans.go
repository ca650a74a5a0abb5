package main

import "fmt"

type Chan struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	elem   *tinfo
	recvq  []*waiter
	sendq  []*waiter
	vc     vclock // of close
	slots  []vclock
	sendx  int
	recvx  int
}

type selWait struct{ done bool }

type waiter struct {
	g    *G
	val  Value // value to send
	sel  *selWait
	recv func(v Value, ok bool)
	sent func(closed bool)
	nohb bool // does not order memory accesses
}

func (w *waiter) hb() *G {
	if w.nohb {
		return nil
	}
	return w.g
}

func (m *Machine) newChan(n int, elem *tinfo) *Chan {
	m.nchan++
	return &Chan{id: m.nchan, cap: n, elem: elem}
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil {
			if w.sel.done {
				continue
			}
			w.sel.done = true
		}
		return w
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.done {
			return true
		}
	}
	return false
}

// tryRecv performs a receive if it can proceed without blocking.
func (m *Machine) tryRecv(ch *Chan) (v Value, ok, done bool) {
	if len(ch.buf) > 0 {
		v = ch.buf[0]
		ch.buf = ch.buf[1:]
		m.hbRecv(ch, m.hbG(m.cur))
		if w := popWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			m.hbSend(ch, w.hb())
			w.sent(false)
			m.ready(w.g)
		}
		return v, true, true
	}
	if w := popWaiter(&ch.sendq); w != nil {
		v = w.val
		m.hbPair(ch, w.hb(), m.hbG(m.cur))
		w.sent(false)
		m.ready(w.g)
		return v, true, true
	}
	if ch.closed {
		if h := m.hbG(m.cur); h != nil {
			h.acquire(ch.vc)
		}
		return ch.elem.zero(), false, true
	}
	return nil, false, false
}

func (m *Machine) trySend(ch *Chan, v Value) bool {
	if ch.closed {
		panic(goPanic{m.rtErrPlain("send on closed channel")})
	}
	if w := popWaiter(&ch.recvq); w != nil {
		m.hbSend(ch, m.hbG(m.cur))
		m.hbRecv(ch, w.hb())
		m.hbPair(ch, m.hbG(m.cur), w.hb())
		w.recv(v, true)
		m.ready(w.g)
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		m.hbSend(ch, m.hbG(m.cur))
		return true
	}
	return false
}

func (m *Machine) canRecv(ch *Chan) bool {
	return len(ch.buf) > 0 || ch.closed || hasWaiter(ch.sendq)
}

func (m *Machine) canSend(ch *Chan) bool {
	return ch.closed || len(ch.buf) < ch.cap || hasWaiter(ch.recvq)
}

func (m *Machine) chanRecv(g *G, fr *frame, ci *cinstr, ch *Chan) bool {
	set := func(v Value, ok bool) {
		if ci.dst < 0 {
			return
		}
		if ci.flag {
			fr.regs[ci.dst] = Tuple{v, ok}
		} else {
			fr.regs[ci.dst] = v
		}
	}
	if ch == nil {
		m.park(g, "receive from nil channel")
		return true
	}
	if v, ok, done := m.tryRecv(ch); done {
		set(v, ok)
		return false
	}
	m.park(g, fmt.Sprintf("receive from channel %d", ch.id))
	ch.recvq = append(ch.recvq, &waiter{g: g, nohb: m.hbG(g) == nil, recv: set})
	return true
}

func (m *Machine) chanSend(g *G, fr *frame, ch *Chan, v Value) bool {
	if ch == nil {
		m.park(g, "send to nil channel")
		return true
	}
	if m.trySend(ch, v) {
		return false
	}
	m.park(g, fmt.Sprintf("send to channel %d", ch.id))
	ch.sendq = append(ch.sendq, &waiter{g: g, nohb: m.hbG(g) == nil, val: v, sent: func(closed bool) {
		if closed {
			g.wakePanic = m.rtErrPlain("send on closed channel")
		}
	}})
	return true
}

func (m *Machine) chanClose(ch *Chan) {
	if ch == nil {
		panic(goPanic{m.rtErrPlain("close of nil channel")})
	}
	if ch.closed {
		panic(goPanic{m.rtErrPlain("close of closed channel")})
	}
	ch.closed = true
	if h := m.hbG(m.cur); h != nil {
		ch.vc = h.release()
	}
	for {
		w := popWaiter(&ch.recvq)
		if w == nil {
			break
		}
		if h := w.hb(); h != nil {
			h.acquire(ch.vc)
		}
		w.recv(ch.elem.zero(), false)
		m.ready(w.g)
	}
	for {
		w := popWaiter(&ch.sendq)
		if w == nil {
			break
		}
		w.sent(true)
		m.ready(w.g)
	}
}

// doSelect executes a select statement; true if the goroutine parked.
func (m *Machine) doSelect(g *G, fr *frame, ci *cinstr) bool {
	in := ci.aux.(*selInfo)
	n := len(in.dirs)
	chans := make([]*Chan, n)
	var ready []int
	for i := 0; i < n; i++ {
		ch, _ := m.get(fr, ci.args[2*i]).(*Chan)
		chans[i] = ch
		if ch == nil {
			continue
		}
		if in.dirs[i] {
			if m.canSend(ch) {
				ready = append(ready, i)
			}
		} else if m.canRecv(ch) {
			ready = append(ready, i)
		}
	}
	result := func(idx int, v Value, ok bool) Tuple {
		t := make(Tuple, 2, 2+len(in.recvIdx))
		t[0] = uint64(int64(idx))
		t[1] = ok
		for _, k := range in.recvIdx {
			if k == idx {
				t = append(t, v)
			} else {
				t = append(t, in.elems[k].zero())
			}
		}
		return t
	}
	if len(ready) > 0 {
		k := 0
		for m.started && k < len(ready)-1 && m.delays > 0 {
			m.nsched++
			if !m.forkBool(boolVal(m.freshBool("select")), "select") {
				break
			}
			m.delays--
			m.delayed++
			k++
		}
		i := ready[k]
		if in.dirs[i] {
			m.trySend(chans[i], copyVal(m.get(fr, ci.args[2*i+1])))
			fr.regs[ci.dst] = result(i, nil, false)
		} else {
			v, ok, _ := m.tryRecv(chans[i])
			fr.regs[ci.dst] = result(i, v, ok)
		}
		return false
	}
	if !ci.flag {
		fr.regs[ci.dst] = result(-1, nil, false)
		return false
	}
	sw := &selWait{}
	why := "select on"
	for i := 0; i < n; i++ {
		ch := chans[i]
		if ch == nil {
			continue
		}
		i := i
		why += fmt.Sprintf(" %d", ch.id)
		if in.dirs[i] {
			ch.sendq = append(ch.sendq, &waiter{g: g, nohb: m.hbG(g) == nil, sel: sw, val: copyVal(m.get(fr, ci.args[2*i+1])), sent: func(closed bool) {
				if closed {
					g.wakePanic = m.rtErrPlain("send on closed channel")
					return
				}
				fr.regs[ci.dst] = result(i, nil, false)
			}})
		} else {
			ch.recvq = append(ch.recvq, &waiter{g: g, nohb: m.hbG(g) == nil, sel: sw, recv: func(v Value, ok bool) {
				fr.regs[ci.dst] = result(i, v, ok)
			}})
		}
	}
	m.park(g, why)
	return true
}

// ---- mutexes, condition variables, wait groups ----

type mutexSt struct {
	locked  bool
	readers int
	wait    []*G
	vc, rvc vclock
}

type condSt struct {
	next uint64
	wait []condWaiter
	pre  map[uint64]bool // tickets notified before they were waited for
	out  []uint64        // tickets handed out and not yet notified
}

type condWaiter struct {
	g *G
	t uint64
}

type wgSt struct {
	n    int64
	wait []*G
	vc   vclock
}

func (m *Machine) mu(p Value) *mutexSt {
	s, ok := m.mutexes[p]
	if !ok {
		s = &mutexSt{}
		m.mutexes[p] = s
	}
	return s
}

func (m *Machine) wakeAll(q *[]*G) {
	for _, g := range *q {
		m.ready(g)
	}
	*q = nil
}

func (m *Machine) lock(g *G, p Value) istat {
	if pv, ok := p.(*Value); ok && pv == nil {
		panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
	}
	if m.schedPoint(g) {
		return stRetry
	}
	s := m.mu(p)
	if s.locked || s.readers > 0 {
		s.wait = append(s.wait, g)
		m.park(g, "mutex lock")
		return stRetry
	}
	s.locked = true
	if h := m.hbG(g); h != nil {
		h.acquire(s.vc)
		h.acquire(s.rvc)
	}
	return stDone
}

func (m *Machine) unlock(g *G, p Value) {
	s := m.mu(p)
	if !s.locked {
		panic(violation{msg: "fatal error: sync: unlock of unlocked mutex", kind: "panic"})
	}
	s.locked = false
	if h := m.hbG(g); h != nil {
		s.vc = h.release()
	}
	m.wakeAll(&s.wait)
}

func (m *Machine) rlock(g *G, p Value) istat {
	if m.schedPoint(g) {
		return stRetry
	}
	s := m.mu(p)
	if s.locked {
		s.wait = append(s.wait, g)
		m.park(g, "rwmutex rlock")
		return stRetry
	}
	s.readers++
	if h := m.hbG(g); h != nil {
		h.acquire(s.vc)
	}
	return stDone
}

func (m *Machine) runlock(g *G, p Value) {
	s := m.mu(p)
	if s.readers <= 0 {
		panic(violation{msg: "fatal error: sync: RUnlock of unlocked RWMutex", kind: "panic"})
	}
	s.readers--
	if h := m.hbG(g); h != nil {
		s.rvc.join(h.release())
	}
	if s.readers == 0 {
		m.wakeAll(&s.wait)
	}
}

// ---- virtual time ----

type timerSt struct {
	when   Value // int64 ns
	seq    int
	active bool
	fire   func()
	ch     *Chan
	period Value
	vc     vclock
}

func (m *Machine) addTime(a, b Value) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x + y
	}
	return intVal(m.ts.Bin(OAdd, m.intTerm(a, 64), m.intTerm(b, 64)))
}

func (m *Machine) leTime(a, b Value) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return int64(x) <= int64(y)
	}
	return boolVal(m.ts.Sle(m.intTerm(a, 64), m.intTerm(b, 64)))
}

// deadline returns now+max(d,0).
func (m *Machine) deadline(d Value) Value {
	switch x := d.(type) {
	case uint64:
		if int64(x) < 0 {
			d = uint64(0)
		}
	case *Term:
		if m.forkBool(boolVal(m.ts.Slt(x, m.ts.Const(0, 64))), "negative duration") {
			d = uint64(0)
		}
	}
	return m.addTime(m.now, d)
}

func (m *Machine) startTimer(t *timerSt) {
	t.active = true
	m.tseq++
	t.seq = m.tseq
	m.timers = append(m.timers, t)
}

func (m *Machine) stopTimer(t *timerSt) bool {
	was := t.active
	t.active = false
	for i, x := range m.timers {
		if x == t {
			m.timers = append(append([]*timerSt(nil), m.timers[:i]...), m.timers[i+1:]...)
			break
		}
	}
	return was
}

// fireTimers advances the clock to the earliest timer and fires it.
func (m *Machine) fireTimers() bool {
	if len(m.timers) == 0 {
		return false
	}
	best := m.timers[0]
	for _, t := range m.timers[1:] {
		le := m.leTime(best.when, t.when)
		if !m.forkBool(le, "timer order") {
			best = t
		}
	}
	m.stopTimer(best)
	// the clock never goes backwards: a timer set with a past deadline fires now
	if m.forkBool(m.leTime(m.now, best.when), "clock") {
		m.now = best.when
	}
	m.inTimer, m.timerVC = true, best.vc
	best.fire()
	m.inTimer = false
	return true
}
