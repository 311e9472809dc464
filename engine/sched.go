package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the program run on host goroutines that hand a baton around,
// so exactly one runs at a time and every switch point is under engine control.

type G struct {
	id    int
	wake  chan bool // true = run, false = die
	ready func() bool
	why   string
	done  bool
	cur   *Frame
	vc    vclock
	timer bool
}

type sched struct {
	gs       []*G
	g        *G // running
	explore  bool
	preempt  int
	delays   bool
	mainDone chan struct{}
	race     *raceState
	timerVC  vclock // while a timer fires
	switches int
	rr       int
}

func newSched() sched {
	g := &G{id: 0, wake: make(chan bool, 1)}
	return sched{gs: []*G{g}, g: g}
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	et     types.Type
	vcs    []vclock
	cvc    vclock
}

type selState struct {
	fired bool
	idx   int
	v     Value
	ok    bool
	panik bool
}

type waiter struct {
	sel *selState
	idx int
	v   Value // value to send
	g   *G
}

func (m *Mach) spawn(fn Value, args []Value, ci *cinstr) {
	if m.initMode > 0 {
		return
	}
	g := &G{id: len(m.gs), wake: make(chan bool, 1)}
	if len(m.gs) > 64 {
		panic(unsupported("too many goroutines"))
	}
	m.gs = append(m.gs, g)
	if m.race != nil {
		m.raceFork(m.g, g)
	}
	go func() {
		if !<-g.wake {
			g.done = true
			m.ackKill()
			return
		}
		why := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case goExit:
					case targetPanic:
						// an unrecovered panic in a goroutine kills the process
						why = "PANIC"
						m.goPanic = m.showPanic(x.v)
						m.goPanicStack = m.stackTrace()
					case pathAbort:
						why = x.why
					case unsupportedErr:
						why = "unsupported: " + x.why + m.where()
					default:
						m.hostPanic = r
						why = "HOST"
					}
				}
			}()
			m.cur = nil
			m.call(nil, fn, args)
		}()
		g.done = true
		if m.killing {
			m.ackKill()
			return
		}
		if why != "" {
			// end the whole path: wake main with the reason
			m.pathEnd = why
			m.resumeMain()
			return
		}
		m.switchFrom(g)
	}()
	m.preemptPoint("go")
}

func (m *Mach) ackKill() { m.killAck <- struct{}{} }

func (m *Mach) resumeMain() {
	m.g = m.gs[0]
	m.gs[0].wake <- true
}

// switchFrom is called by a goroutine that cannot continue (done or blocked);
// it hands the baton to another runnable goroutine.
func (m *Mach) switchFrom(g *G) {
	n := m.pickNext()
	if n == nil {
		m.pathEnd = "deadlock"
		m.deadWhy = m.blockedList()
		n = m.gs[0]
	}
	m.g = n
	n.wake <- true
}

func (m *Mach) runnable() []*G {
	var out []*G
	for _, g := range m.gs {
		if g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			out = append(out, g)
		}
	}
	return out
}

func (m *Mach) pickNext() (res *G) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathAbort:
				m.pathEnd = x.why
			case unsupportedErr:
				m.pathEnd = "unsupported: " + x.why
			default:
				m.hostPanic = r
				m.pathEnd = "HOST"
			}
			res = m.gs[0]
		}
	}()
	for {
		rs := m.runnable()
		if len(rs) == 0 {
			if m.fireTimer() {
				continue
			}
			return nil
		}
		if len(rs) == 1 {
			return rs[0]
		}
		m.switches++
		if m.explore {
			if m.switches > 200 {
				m.abort("schedule bound")
			}
			g := m.pickG(rs, m.roundRobin(rs))
			m.rr = g.id
			return g
		}
		g := m.roundRobin(rs)
		m.rr = g.id
		return g
	}
}

// block suspends the running goroutine until ready() holds.
func (m *Mach) block(why string, ready func() bool) {
	if m.initMode > 0 {
		panic(unsupported("blocking in init: %s", why))
	}
	g := m.g
	for {
		if ready() && !(m.explore && false) {
			return
		}
		g.ready = ready
		g.why = why
		g.cur = m.cur
		n := m.pickNext()
		if n == nil {
			m.pathEnd = "deadlock"
			m.deadWhy = m.blockedList()
			n = m.gs[0]
		}
		if n != g {
			m.g = n
			n.wake <- true
			if !<-g.wake {
				panic(pathAbort{"killed"})
			}
		}
		m.g = g
		g.ready = nil
		m.cur = g.cur
		if g.id == 0 && m.pathEnd != "" {
			why := m.pathEnd
			if m.hostPanic != nil {
				panic(m.hostPanic)
			}
			panic(pathAbort{why})
		}
		if ready() {
			return
		}
	}
}

func (m *Mach) blockedList() string {
	s := ""
	for _, g := range m.gs {
		if !g.done {
			s += " " + g.why
			if g.cur != nil {
				s += "@" + g.cur.fn.fn.Name()
			}
		}
	}
	return s
}

func (m *Mach) roundRobin(rs []*G) *G {
	for _, g := range rs {
		if g.id > m.rr {
			return g
		}
	}
	return rs[0]
}

// pickG chooses the goroutine that runs next. With delay bounding, only a
// limited number of choices differ from the default schedule.
func (m *Mach) pickG(rs []*G, def *G) *G {
	if !m.delays {
		return rs[m.chooseN("sched", len(rs))]
	}
	if m.preempt <= 0 {
		return def
	}
	l := []*G{def}
	for _, g := range rs {
		if g != def {
			l = append(l, g)
		}
	}
	k := m.chooseN("sched", len(l))
	if k > 0 {
		m.preempt--
	}
	return l[k]
}

// yield lets another goroutine run if the schedule says so.
func (m *Mach) yield() {
	g := m.g
	g.ready = nil
	g.why = "yield"
	g.cur = m.cur
	rs := m.runnable()
	if len(rs) <= 1 {
		return
	}
	var n *G
	if m.explore {
		def := rs[0]
		for _, r := range rs {
			if r.id > g.id {
				def = r
				break
			}
		}
		n = m.pickG(rs, def)
	} else {
		// next in id order
		for _, r := range rs {
			if r.id > g.id {
				n = r
				break
			}
		}
		if n == nil {
			n = rs[0]
		}
	}
	m.handTo(g, n)
}

func (m *Mach) handTo(g, n *G) {
	if n == g {
		return
	}
	m.g = n
	g.cur = m.cur
	n.wake <- true
	if !<-g.wake {
		panic(pathAbort{"killed"})
	}
	m.g = g
	m.cur = g.cur
	if g.id == 0 && m.pathEnd != "" {
		if m.hostPanic != nil {
			panic(m.hostPanic)
		}
		panic(pathAbort{m.pathEnd})
	}
}

// preemptPoint is a possible context switch at a synchronisation operation.
func (m *Mach) preemptPoint(why string) {
	if !m.explore || m.preempt <= 0 || m.initMode > 0 || len(m.gs) < 2 {
		return
	}
	rs := m.runnable()
	var others []*G
	for _, r := range rs {
		if r != m.g {
			others = append(others, r)
		}
	}
	if len(others) == 0 {
		return
	}
	k := m.chooseN("preempt", len(others)+1)
	if k == 0 {
		return
	}
	m.preempt--
	g := m.g
	g.ready = nil
	m.handTo(g, others[k-1])
}

// killAll ends every other host goroutine of the path.
func (m *Mach) killAll() {
	m.killing = true
	m.killAck = make(chan struct{})
	for _, g := range m.gs[1:] {
		if !g.done {
			g.wake <- false
			<-m.killAck
		}
	}
	m.killing = false
	m.pathEnd = ""
	m.lastDead = m.deadWhy
	m.deadWhy = ""
	if m.hostPanic != nil {
		p := m.hostPanic
		m.hostPanic = nil
		panic(p)
	}
}

// ---- channels

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func liveWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (m *Mach) trySend(c *Chan, v Value) bool {
	if c.closed {
		m.throwRuntime("send on closed channel")
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.v = v
		w.sel.ok = true
		if m.race != nil {
			if m.timerVC != nil {
				m.raceAcquire(w.g, m.timerVC)
			} else {
				m.raceSyncPair(m.g, w.g)
			}
		}
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		if m.race != nil {
			if m.timerVC != nil {
				c.vcs = append(c.vcs, m.timerVC.clone())
			} else {
				c.vcs = append(c.vcs, m.raceRelease(m.g))
			}
		}
		return true
	}
	return false
}

func (m *Mach) tryRecv(c *Chan) (v Value, ok, got bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if m.race != nil && len(c.vcs) > 0 {
			m.raceAcquire(m.g, c.vcs[0])
			c.vcs = c.vcs[1:]
		}
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			w.sel.fired = true
			w.sel.idx = w.idx
			if m.race != nil {
				c.vcs = append(c.vcs, m.raceRelease(w.g))
			}
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
		if m.race != nil {
			m.raceSyncPair(m.g, w.g)
		}
		return w.v, true, true
	}
	if c.closed {
		if m.race != nil && c.cvc != nil {
			m.raceAcquire(m.g, c.cvc)
		}
		return zero(c.et), false, true
	}
	return nil, false, false
}

func (m *Mach) asChan(v Value) *Chan {
	c, ok := v.(*Chan)
	if !ok {
		if p, ok := v.(Poison); ok {
			panic(unsupported("poison: %s", p.why))
		}
		panic(unsupported("channel %T", v))
	}
	return c
}

func (m *Mach) chanSend(cv, v Value) {
	c := m.asChan(cv)
	m.preemptPoint("send")
	if c == nil {
		m.block("send on nil chan", func() bool { return false })
	}
	if m.trySend(c, v) {
		return
	}
	sel := &selState{}
	c.sendq = append(c.sendq, &waiter{sel: sel, v: v, g: m.g})
	m.block("chan send", func() bool { return sel.fired })
	if sel.panik {
		m.throwRuntime("send on closed channel")
	}
}

func (m *Mach) chanRecv(cv Value, et types.Type) (Value, bool) {
	c := m.asChan(cv)
	m.preemptPoint("recv")
	if c == nil {
		m.block("recv on nil chan", func() bool { return false })
	}
	if v, ok, got := m.tryRecv(c); got {
		return v, ok
	}
	sel := &selState{}
	c.recvq = append(c.recvq, &waiter{sel: sel, g: m.g})
	m.block("chan recv", func() bool { return sel.fired })
	if !sel.ok {
		if m.race != nil && c.cvc != nil {
			m.raceAcquire(m.g, c.cvc)
		}
		return zero(et), false
	}
	return sel.v, true
}

func (m *Mach) chanClose(c *Chan) {
	if c == nil {
		m.throwRuntime("close of nil channel")
	}
	if c.closed {
		m.throwRuntime("close of closed channel")
	}
	m.preemptPoint("close")
	c.closed = true
	if m.race != nil {
		c.cvc = m.raceRelease(m.g)
	}
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.ok = false
		w.sel.v = zero(c.et)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.sel.fired = true
		w.sel.panik = true
	}
}

func (m *Mach) selectOp(fr *Frame, ci *cinstr, in *ssa.Select) Value {
	type st struct {
		c    *Chan
		send bool
		v    Value
	}
	m.preemptPoint("select")
	sts := make([]st, len(in.States))
	// operands: for each state Chan, then Send (if any), interleaved
	k := 0
	for i, s := range in.States {
		c := m.asChan(fr.get(&ci.ops[k]))
		k++
		sts[i] = st{c: c, send: s.Dir == types.SendOnly}
		if s.Send != nil {
			sts[i].v = fr.get(&ci.ops[k])
		}
		k++
	}
	mk := func(idx int, ok bool, v Value) Value {
		r := Tuple{uint64(int64(idx)), ok}
		for i, s := range in.States {
			if s.Dir == types.RecvOnly {
				var x Value
				if i == idx {
					x = v
				} else {
					x = zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
				}
				r = append(r, x)
			}
		}
		return r
	}
	var avail []int
	for i, s := range sts {
		if s.c == nil {
			continue
		}
		if s.send {
			if s.c.closed || len(s.c.buf) < s.c.cap || liveWaiter(s.c.recvq) {
				avail = append(avail, i)
			}
		} else if len(s.c.buf) > 0 || s.c.closed || liveWaiter(s.c.sendq) {
			avail = append(avail, i)
		}
	}
	if len(avail) > 0 {
		i := avail[0]
		if len(avail) > 1 && m.explore {
			i = avail[m.chooseN("select", len(avail))]
		}
		if sts[i].send {
			m.trySend(sts[i].c, sts[i].v)
			return mk(i, false, nil)
		}
		v, ok, _ := m.tryRecv(sts[i].c)
		return mk(i, ok, v)
	}
	if !in.Blocking {
		return mk(-1, false, nil)
	}
	sel := &selState{}
	for i, s := range sts {
		if s.c == nil {
			continue
		}
		w := &waiter{sel: sel, idx: i, v: s.v, g: m.g}
		if s.send {
			s.c.sendq = append(s.c.sendq, w)
		} else {
			s.c.recvq = append(s.c.recvq, w)
		}
	}
	m.block("select", func() bool { return sel.fired })
	if sel.panik {
		m.throwRuntime("send on closed channel")
	}
	if m.race != nil && !sts[sel.idx].send && !sel.ok && sts[sel.idx].c.cvc != nil {
		m.raceAcquire(m.g, sts[sel.idx].c.cvc)
	}
	return mk(sel.idx, sel.ok, sel.v)
}
