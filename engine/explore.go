package main

import (
	"fmt"
	"math/bits"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// Decision is one recorded branch outcome; V is the value tried for
// concretisations.
type Decision struct {
	B bool
	V uint64
	F bool // the other outcome is impossible
}

type WorkItem struct {
	dec   []Decision
	model map[string]uint64
}

type Violation struct {
	Label  string
	Kind   string // assert, panic, deadlock, race
	Detail string
	Model  map[string]uint64
	Inputs map[string]any
	Order  []string
	Stack  []string
	// Schedule lists the choices of the path that native runs don't control.
	Schedule []string
}

type pathAbort struct{ why string } // ends a path; not visible to the program

// Path is the state of the path being executed by one Mach.
type Path struct {
	schedule []string
	dec      []Decision
	pos      int
	cond     []*Term
	byVar    map[*Term][]*Term
	multi    map[*Term]bool
	dom      map[*Term]*[4]uint64
	iv       map[*Term][2]uint64
	ne       map[*Term][]uint64
	model    map[string]uint64
	names    map[string]int
	inputs   []inputVar
	steps    int64
	reached  map[string]bool
	observe  []string
	obsTerm  []obsItem
	assumed  int
	nodes    []node
}

type inputVar struct {
	name string
	kind string // int, bool, bytes
	t    []Value
	w    uint8
	sgn  bool
}

type obsItem struct {
	label string
	v     Value
}

type Stats struct {
	Paths, Infeasible, Inconclusive int64
	Steps                           int64
	Decisions                       int64
	DomainDecisions                 int64
	CertQueries, CoverQueries       int64
	CoverTrivial, CoverUnknown      int64
	CertTime, CoverTime             time.Duration
	SolverDecisions                 int64
	GuessDecisions                  int64
	AssertsConst, AssertsSolver     int64
	Queries                         int64
	SolverTime                      time.Duration
	Unknown                         int64
	MaxDepth                        int
}

// Explorer coordinates workers on one harness.
type Explorer struct {
	mu       sync.Mutex
	cv       *sync.Cond
	queue    []WorkItem
	idle     int
	nworkers int
	stop     bool
	stats    Stats
	viol     map[string]*Violation
	inconc   map[string]int
	reached  map[string]int
	samples  []Sample
	deadline time.Time
	maxPaths int64
	timedOut bool
	fnMu     sync.Mutex
	fns      map[string]bool
	sampleN  int
}

type Sample struct {
	Inputs  map[string]any
	Order   []string
	Observe []string
}

func (e *Explorer) put(w WorkItem) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	e.mu.Unlock()
	e.cv.Signal()
}

func (e *Explorer) get() (WorkItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return WorkItem{}, false
		}
		if n := len(e.queue); n > 0 {
			w := e.queue[0]
			e.queue = e.queue[1:]
			return w, true
		}
		e.idle++
		if e.idle == e.nworkers {
			e.stop = true
			e.cv.Broadcast()
			return WorkItem{}, false
		}
		e.cv.Wait()
		e.idle--
	}
}

func (e *Explorer) hungry() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.idle > 0 && len(e.queue) < e.idle
}

func newPath(w WorkItem) *Path {
	return &Path{dec: w.dec, model: w.model, byVar: map[*Term][]*Term{}, multi: map[*Term]bool{}, dom: map[*Term]*[4]uint64{}, iv: map[*Term][2]uint64{}, ne: map[*Term][]uint64{},
		names: map[string]int{}, reached: map[string]bool{}}
}

// ---- constraint bookkeeping

func (m *Mach) evalModel(t *Term) uint64 {
	return t.Eval(m.p.model, map[*Term]uint64{})
}

func fullDom(w uint8) [4]uint64 {
	var d [4]uint64
	n := 1 << w
	if w == 0 {
		n = 2
	}
	for i := 0; i < n; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return d
}

func (p *Path) domOf(v *Term) [4]uint64 {
	if d := p.dom[v]; d != nil {
		return *d
	}
	return fullDom(v.w)
}

func (m *Mach) addCond(c *Term) {
	p := m.p
	if c.op == OConst {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			m.addCond(a)
		}
		return
	}
	if c.op == ONot && c.args[0].op == OOr {
		for _, a := range c.args[0].args {
			m.addCond(m.tb.Not(a))
		}
		return
	}
	p.cond = append(p.cond, c)
	vs := c.Vars()
	for _, v := range vs {
		p.byVar[v] = append(p.byVar[v], c)
	}
	if len(vs) == 1 && vs[0].w <= 8 {
		d := p.domOf(vs[0])
		m.certDom(c)
		cd := c.Domain()
		for i := range d {
			d[i] &= cd[i]
		}
		p.dom[vs[0]] = &d
		return
	}
	if v, lo, hi, ok := c.interval(); ok {
		m.certIv(c, v, lo, hi)
		l, h := p.ivOf(v)
		p.iv[v] = [2]uint64{max(l, lo), min(h, hi)}
		return
	}
	if v, x, ok := c.excludes(); ok {
		m.certNe(c, v, x)
		p.ne[v] = append(p.ne[v], x)
		return
	}
	for _, v := range vs {
		p.multi[v] = true
	}
}

func (p *Path) ivOf(v *Term) (uint64, uint64) {
	if r, ok := p.iv[v]; ok {
		return r[0], r[1]
	}
	return 0, mask(v.w)
}

// pickIv finds a value for v in the interval that is not excluded.
func (p *Path) pickIv(v *Term, l, h uint64, asg map[string]uint64) tri {
	if p.multi[v] {
		return triUnknown
	}
next:
	for {
		for _, x := range p.ne[v] {
			if x == l {
				if l == h {
					return triNo
				}
				l++
				continue next
			}
		}
		asg[v.name] = l
		return triYes
	}
}

func domEmpty(d *[4]uint64) bool { return d[0]|d[1]|d[2]|d[3] == 0 }

func domPick(d *[4]uint64) uint64 {
	for i, x := range d {
		if x != 0 {
			return uint64(i*64 + bits.TrailingZeros64(x))
		}
	}
	return 0
}

type tri int

const (
	triUnknown tri = iota
	triYes
	triNo
)

// quick decides path ∧ c without the solver when it can; asg holds variable
// values to change in the current model.
func (m *Mach) quick(c *Term, asg map[string]uint64) tri {
	p := m.p
	switch c.op {
	case OConst:
		if c.val == 1 {
			return triYes
		}
		return triNo
	case OAnd:
		seen := map[*Term]bool{}
		res := triYes
		for _, a := range c.args {
			vs := a.Vars()
			if len(vs) != 1 || vs[0].w > 8 || seen[vs[0]] {
				res = triUnknown
				continue
			}
			seen[vs[0]] = true
			switch m.quick(a, asg) {
			case triNo:
				return triNo
			case triUnknown:
				res = triUnknown
			}
		}
		return res
	case OOr:
		all := true
		for _, a := range c.args {
			sub := map[string]uint64{}
			switch m.quick(a, sub) {
			case triYes:
				for k, v := range sub {
					asg[k] = v
				}
				return triYes
			case triUnknown:
				all = false
			}
		}
		if all {
			return triNo
		}
		return triUnknown
	case ONot:
		in := c.args[0]
		if in.op == OAnd || in.op == OOr {
			neg := make([]*Term, len(in.args))
			for i, a := range in.args {
				neg[i] = m.tb.Not(a)
			}
			if in.op == OAnd {
				return m.quick(m.tb.Or(neg...), asg)
			}
			return m.quick(m.tb.And(neg...), asg)
		}
	}
	if v, lo, hi, ok := c.interval(); ok {
		m.certIv(c, v, lo, hi)
		l, h := p.ivOf(v)
		l, h = max(l, lo), min(h, hi)
		if l > h {
			return triNo
		}
		return p.pickIv(v, l, h, asg)
	}
	if v, x, ok := c.excludes(); ok {
		m.certNe(c, v, x)
		l, h := p.ivOf(v)
		if l == x && h == x {
			return triNo
		}
		p.ne[v] = append(p.ne[v], x)
		r := p.pickIv(v, l, h, asg)
		p.ne[v] = p.ne[v][:len(p.ne[v])-1]
		return r
	}
	vs := c.Vars()
	if len(vs) != 1 || vs[0].w > 8 {
		return triUnknown
	}
	v := vs[0]
	d := p.domOf(v)
	m.certDom(c)
	cd := c.Domain()
	for i := range d {
		d[i] &= cd[i]
	}
	if domEmpty(&d) {
		return triNo
	}
	if !p.multi[v] {
		asg[v.name] = domPick(&d)
		return triYes
	}
	return triUnknown
}

// guess tries to repair the current model for a unary condition on a variable
// that also occurs in wider constraints.
func (m *Mach) guess(c *Term) map[string]uint64 {
	p := m.p
	vs := c.Vars()
	if len(vs) != 1 || vs[0].w > 8 {
		return nil
	}
	v := vs[0]
	d := p.domOf(v)
	cd := c.Domain()
	for i := range d {
		d[i] &= cd[i]
	}
	for try := 0; try < 6 && !domEmpty(&d); try++ {
		x := domPick(&d)
		d[x>>6] &^= 1 << (x & 63)
		m2 := make(map[string]uint64, len(p.model)+1)
		for k, y := range p.model {
			m2[k] = y
		}
		m2[v.name] = x
		ok := true
		memo := map[*Term]uint64{}
		for _, q := range p.byVar[v] {
			if q.Eval(m2, memo) == 0 {
				ok = false
				break
			}
		}
		if ok {
			return m2
		}
	}
	return nil
}

// feasible decides path ∧ c; on yes it returns a model.
func (m *Mach) feasible(c *Term) (Res, map[string]uint64) {
	asg := map[string]uint64{}
	switch m.quick(c, asg) {
	case triNo:
		m.st.DomainDecisions++
		return Unsat, nil
	case triYes:
		m.st.DomainDecisions++
		m2 := make(map[string]uint64, len(m.p.model)+1)
		for k, y := range m.p.model {
			m2[k] = y
		}
		for k, y := range asg {
			m2[k] = y
		}
		return Sat, m2
	}
	if g := m.guess(c); g != nil {
		m.st.GuessDecisions++
		return Sat, g
	}
	m.st.SolverDecisions++
	r, mod := m.solver.Check(m.p.cond, c)
	if r == Unknown {
		m.inconclusive("solver unknown at a branch")
	}
	return r, mod
}

func (m *Mach) fork(d Decision, model map[string]uint64) {
	p := m.p
	dec := make([]Decision, p.pos+1)
	copy(dec, p.dec[:p.pos])
	dec[p.pos] = d
	m.pending = append(m.pending, WorkItem{dec, model})
	if m.ex.hungry() {
		// give away the shallowest
		m.ex.put(m.pending[0])
		m.pending = m.pending[1:]
	}
}

// truth decides a boolean value, forking the path when both outcomes are
// possible.
func (m *Mach) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		if x.op == OConst {
			return x.val == 1
		}
		return m.decide(x, 0)
	case Poison:
		panic(unsupported("poison: %s", x.why))
	}
	panic(unsupported("truth of %T", v))
}

func (p *Path) note(c *Term, forced bool) {
	k := node{c, nodeFork}
	if forced {
		k.kind = nodeForced
	}
	p.nodes = append(p.nodes, k)
}

func (m *Mach) decide(c *Term, val uint64) bool {
	p := m.p
	if p == nil {
		panic(unsupported("symbolic branch outside a path"))
	}
	if p.pos < len(p.dec) {
		d := p.dec[p.pos]
		p.pos++
		if !d.B {
			c = m.tb.Not(c)
		}
		m.addCond(c)
		p.note(c, d.F)
		return d.B
	}
	m.st.Decisions++
	side := m.evalModel(c) == 1
	other := c
	if side {
		other = m.tb.Not(c)
	}
	r, mod := m.feasible(other)
	if r == Sat {
		m.fork(Decision{!side, val, false}, mod)
	}
	p.dec = append(p.dec[:p.pos:p.pos], Decision{side, val, r != Sat})
	p.pos++
	if len(p.dec) > m.st.MaxDepth {
		m.st.MaxDepth = len(p.dec)
	}
	if !side {
		c = m.tb.Not(c)
	}
	m.addCond(c)
	p.note(c, r != Sat)
	if m.p.pos > 20000 {
		m.abort("decision bound")
	}
	return side
}

// concretize picks a concrete value for t, forking over all feasible ones.
func (m *Mach) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	for n := 0; ; n++ {
		if n > 5000 {
			m.abort("concretisation bound")
		}
		var v uint64
		if m.p.pos < len(m.p.dec) {
			v = m.p.dec[m.p.pos].V
		} else {
			v = m.evalModel(t)
		}
		if m.decideC(m.tb.Eq(t, m.tb.Const(t.w, v)), v) {
			return v
		}
	}
}

func (m *Mach) decideC(c *Term, v uint64) bool {
	if c.op == OConst {
		return c.val == 1
	}
	return m.decide(c, v)
}

func (m *Mach) assume(v Value) {
	switch x := v.(type) {
	case bool:
		if !x {
			panic(pathAbort{"infeasible"})
		}
	case *Term:
		if m.evalModel(x) == 0 {
			r, mod := m.feasible(x)
			if r != Sat {
				m.p.nodes = append(m.p.nodes, node{m.tb.Not(x), nodeForced})
				panic(pathAbort{"infeasible"})
			}
			m.p.model = mod
		}
		m.addCond(x)
		m.p.nodes = append(m.p.nodes, node{x, nodeAssume})
	default:
		panic(unsupported("assume %T", v))
	}
}

func (m *Mach) assert(v Value, label string) {
	switch x := v.(type) {
	case bool:
		m.st.AssertsConst++
		if !x {
			// the path condition itself is the counterexample; have the
			// solver confirm it.
			r, mod := m.solver.Check(m.p.cond, m.tb.T)
			m.st.AssertsSolver++
			if r == Sat {
				m.violation("assert", label, "", mod)
			} else if r == Unknown {
				m.violation("assert", label, "", m.p.model)
			}
			panic(pathAbort{"violated"})
		}
	case *Term:
		m.st.AssertsSolver++
		r, mod := m.solver.Check(m.p.cond, m.tb.Not(x))
		switch r {
		case Sat:
			m.violation("assert", label, "", mod)
			// continue under the assertion when possible
			m.assume(x)
			return
		case Unknown:
			m.inconclusive("solver unknown on assertion " + label)
		}
		m.addCond(x)
		m.p.nodes = append(m.p.nodes, node{x, nodeForced})
	default:
		panic(unsupported("assert %T", v))
	}
}

func (m *Mach) abort(why string) { panic(unsupportedErr{why}) }

func (m *Mach) inconclusive(why string) {
	m.ex.mu.Lock()
	m.ex.inconc[why]++
	m.ex.mu.Unlock()
}

func (m *Mach) violation(kind, label, detail string, model map[string]uint64) {
	m.ex.mu.Lock()
	defer m.ex.mu.Unlock()
	key := kind + ":" + label
	if _, ok := m.ex.viol[key]; ok {
		return
	}
	if len(m.ex.viol) > 40 {
		return
	}
	in, order := m.inputsUnder(model)
	if os.Getenv("VSYM_DUMP") != "" {
		for _, c := range m.p.cond {
			fmt.Println("COND", c, c.Eval(model, map[*Term]uint64{}))
		}
		fmt.Println("MODEL", model)
	}
	m.ex.viol[key] = &Violation{Label: label, Kind: kind, Detail: detail, Model: model, Inputs: in, Order: order, Stack: m.stackTrace(), Schedule: append([]string(nil), m.p.schedule...)}
}

func (m *Mach) goViolation(kind, label, detail string) {
	m.violation(kind, label, detail, m.p.model)
	m.ex.mu.Lock()
	if v := m.ex.viol[kind+":"+label]; v != nil {
		v.Stack = m.goPanicStack
	}
	m.ex.mu.Unlock()
}

// inputsUnder renders the harness inputs under a model.
func (m *Mach) inputsUnder(model map[string]uint64) (map[string]any, []string) {
	out := map[string]any{}
	var order []string
	memo := map[*Term]uint64{}
	ev := func(v Value) uint64 {
		switch x := v.(type) {
		case uint64:
			return x
		case bool:
			return b2u(x)
		case *Term:
			return x.Eval(model, memo)
		}
		return 0
	}
	for _, iv := range m.p.inputs {
		order = append(order, iv.name)
		switch iv.kind {
		case "bytes":
			s := ""
			for _, b := range iv.t {
				s += fmt.Sprintf("%02x", ev(b))
			}
			out[iv.name] = map[string]string{"hex": s}
		case "bool":
			out[iv.name] = ev(iv.t[0]) == 1
		default:
			v := ev(iv.t[0])
			if iv.sgn {
				out[iv.name] = fmt.Sprint(sext(v, iv.w))
			} else {
				out[iv.name] = fmt.Sprint(v)
			}
		}
	}
	return out, order
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// runWorker explores until the queue is empty.
func (m *Mach) runWorker(entry func(m *Mach)) {
	defer func() {
		m.ex.mu.Lock()
		s := &m.ex.stats
		s.Steps += m.st.Steps
		s.Paths += m.st.Paths
		s.Infeasible += m.st.Infeasible
		s.Inconclusive += m.st.Inconclusive
		s.Decisions += m.st.Decisions
		s.DomainDecisions += m.st.DomainDecisions
		s.CertQueries += m.st.CertQueries
		s.CoverQueries += m.st.CoverQueries
		s.CoverTrivial += m.st.CoverTrivial
		s.CoverUnknown += m.st.CoverUnknown
		s.CertTime += m.st.CertTime
		s.CoverTime += m.st.CoverTime
		s.SolverDecisions += m.st.SolverDecisions
		s.GuessDecisions += m.st.GuessDecisions
		s.AssertsConst += m.st.AssertsConst
		s.AssertsSolver += m.st.AssertsSolver
		s.Queries += m.solver.queries + m.st.CertQueries + m.st.CoverQueries
		s.SolverTime += m.solver.dur + m.st.CertTime + m.st.CoverTime
		if m.auxS != nil {
			m.auxS.Close()
		}
		s.Unknown += m.solver.unknown
		if m.st.MaxDepth > s.MaxDepth {
			s.MaxDepth = m.st.MaxDepth
		}
		m.ex.mu.Unlock()
	}()
	m.begun = time.Now()
	for {
		var w WorkItem
		if n := len(m.pending); n > 0 {
			w = m.pending[n-1]
			m.pending = m.pending[:n-1]
		} else {
			var ok bool
			if w, ok = m.ex.get(); !ok {
				return
			}
		}
		if m.ex.maxPaths > 0 && m.st.Paths*int64(m.ex.nworkers) > m.ex.maxPaths || time.Now().After(m.ex.deadline) {
			m.ex.mu.Lock()
			m.ex.timedOut = true
			m.ex.stop = true
			m.ex.mu.Unlock()
			m.ex.cv.Broadcast()
			return
		}
		m.runPath(w, entry)
		if len(m.tb.tab) > 3000000 {
			m.tb = NewTB()
			m.solver.Close()
			m.solver.start()
			if m.auxS != nil {
				m.auxS.Close()
				m.auxS.start()
			}
		}
	}
}

func (m *Mach) runPath(w WorkItem, entry func(m *Mach)) {
	m.p = newPath(w)
	m.resetPathState()
	ab := m.protect(func() { entry(m) })
	m.killAll()
	m.cover()
	m.st.Steps += m.p.steps
	switch {
	case ab == "":
		m.st.Paths++
		m.finishSample()
	case ab == "infeasible":
		m.st.Infeasible++
	case ab == "violated":
		m.st.Paths++
	case strings.HasPrefix(ab, "panic escaped: "):
		m.st.Paths++
		m.violation("panic", strings.TrimPrefix(ab, "panic escaped: "), "", m.p.model)
	case ab == "PANIC":
		m.st.Paths++
		m.goViolation("panic", m.goPanic, "in a goroutine")
	case ab == "deadlock" && m.shadow["deadlock"] != nil:
		m.st.Paths++
		m.violation("deadlock", m.shadow["deadlock"].(string), m.lastDead, m.p.model)
	case ab == "deadlock":
		m.st.Paths++
		m.st.Inconclusive++
		m.inconclusive(ab + m.lastDead)
	default:
		m.st.Paths++
		m.st.Inconclusive++
		m.inconclusive(ab)
	}
	if ab != "infeasible" {
		m.ex.mu.Lock()
		for k := range m.p.reached {
			m.ex.reached[k]++
		}
		m.ex.mu.Unlock()
	}
	m.rollback()
	m.p = nil
}

func (m *Mach) finishSample() {
	m.ex.mu.Lock()
	defer m.ex.mu.Unlock()
	m.ex.sampleN++
	n := m.ex.sampleN
	keep := n <= 3 || n&(n-1) == 0 || n%97 == 0
	if !keep {
		return
	}
	in, order := m.inputsUnder(m.p.model)
	s := Sample{Inputs: in, Order: order}
	for _, o := range m.p.obsTerm {
		s.Observe = append(s.Observe, o.label+"="+m.render(o.v, m.p.model))
	}
	if len(m.ex.samples) < 24 {
		m.ex.samples = append(m.ex.samples, s)
	} else {
		m.ex.samples[4+n%20] = s
	}
}
