package main

import "fmt"

// Happens-before race detection on the explored schedules (optional).

type vclock []int

func (v vclock) get(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}
func (v vclock) clone() vclock { return append(vclock(nil), v...) }

type acc struct {
	wg, wc int
	wpos   string
	wset   bool
	r      map[int]int
	rpos   map[int]string
}

type raceState struct {
	cells map[any]*acc
	sync  map[any]vclock
}

func (m *Mach) vc(g *G) *vclock {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
	return &g.vc
}

func (m *Mach) raceFork(p, c *G) {
	if m.timerVC != nil {
		c.vc = m.timerVC.clone()
		m.vc(c)
		return
	}
	v := m.vc(p)
	c.vc = v.clone()
	(*v)[p.id]++
	m.vc(c)
}

func (m *Mach) raceRelease(g *G) vclock {
	v := m.vc(g)
	r := v.clone()
	(*v)[g.id]++
	return r
}
func (m *Mach) raceAcquire(g *G, o vclock) {
	m.vc(g)
	g.vc = g.vc.join(o)
}
func (m *Mach) raceSyncPair(a, b *G) {
	x := m.raceRelease(a)
	y := m.raceRelease(b)
	m.raceAcquire(a, y)
	m.raceAcquire(b, x)
}
func (m *Mach) syncAcq(k any) {
	if m.race != nil {
		if v, ok := m.race.sync[k]; ok {
			m.raceAcquire(m.g, v)
		}
	}
}
func (m *Mach) syncRel(k any) {
	if m.race != nil {
		m.race.sync[k] = m.race.sync[k].clone().join(m.raceRelease(m.g))
	}
}

func (m *Mach) accOf(k any) *acc {
	a := m.race.cells[k]
	if a == nil {
		a = &acc{}
		m.race.cells[k] = a
	}
	return a
}

func (m *Mach) pos() string {
	for f := m.cur; f != nil; f = f.caller {
		if f.ci != nil && f.ci.in.Pos().IsValid() {
			return f.fn.fn.String() + " " + m.w.prog.Fset.Position(f.ci.in.Pos()).String()
		}
	}
	return "?"
}

func (m *Mach) inScope() bool {
	// only accesses made directly by repository code are reported
	return m.cur != nil && m.cur.fn.inRepo
}

func (m *Mach) raceAccess(k any, write bool) {
	if len(m.gs) < 2 || m.initMode > 0 || !m.inScope() {
		return
	}
	a := m.accOf(k)
	v := *m.vc(m.g)
	id := m.g.id
	if a.wset && a.wg != id && v.get(a.wg) < a.wc {
		m.raceReport(a.wpos, write)
	}
	if write {
		for g, c := range a.r {
			if g != id && v.get(g) < c {
				m.raceReport(a.rpos[g], write)
			}
		}
		a.wset = true
		a.wg, a.wc, a.wpos = id, v.get(id), m.pos()
		a.r = nil
	} else {
		if a.r == nil {
			a.r = map[int]int{}
			a.rpos = map[int]string{}
		}
		a.r[id] = v.get(id)
		a.rpos[id] = m.pos()
	}
}

func (m *Mach) raceReport(other string, write bool) {
	m.violation("race", "data race", fmt.Sprintf("%s vs %s", m.pos(), other), m.p.model)
}

func (m *Mach) raceRead(p *Value)  { m.raceAccess(p, false) }
func (m *Mach) raceWrite(p *Value) { m.raceAccess(p, true) }
func (m *Mach) raceMap(mp *Map, w bool) {
	m.raceAccess(mp, w)
}
func (m *Mach) raceSlice(s Slice, w bool) {
	for i := 0; i < s.len; i++ {
		m.raceAccess(&s.arr[i], w)
	}
}
