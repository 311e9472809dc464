package main

import (
	"fmt"
	"strings"
	"sync"
	"time"
)

// The engine prunes branches with exact value sets of single byte-sized inputs
// and with intervals of wider ones. The solver certifies each such set: for
// every atom c over a variable v it decides that c(v) holds for exactly the
// values in the set, for all v. What remains is intersecting certified sets.

var (
	certMu   sync.Mutex
	certDone = map[string]bool{}
)

// shape renders an atom over one variable with the variable's name left out.
func shape(c *Term) string {
	ids := map[*Term]int{}
	var sb strings.Builder
	var rec func(*Term) string
	rec = func(t *Term) string {
		switch t.op {
		case OConst:
			return smtConst(t.w, t.val)
		case OVar:
			return fmt.Sprintf("v%d", t.w)
		}
		if n, ok := ids[t]; ok {
			return fmt.Sprintf("n%d", n)
		}
		var as []string
		for _, a := range t.args {
			as = append(as, rec(a))
		}
		n := len(ids)
		ids[t] = n
		fmt.Fprintf(&sb, "n%d:%d=%s(%s);", n, t.w, t.head(), strings.Join(as, ","))
		return fmt.Sprintf("n%d", n)
	}
	rec(c)
	return sb.String()
}

func (m *Mach) certify(c *Term, claim func(v string) string) {
	if c.cert {
		return
	}
	c.cert = true
	key := shape(c)
	certMu.Lock()
	done := certDone[key]
	certDone[key] = true
	certMu.Unlock()
	if done {
		return
	}
	m.st.CertQueries++
	s := m.aux()
	t0 := time.Now()
	switch s.checkText([]*Term{c}, func() string {
		return fmt.Sprintf("(not (= %s %s))", s.ref(c), claim(smtName(c.Vars()[0].name)))
	}) {
	case Unsat:
		m.st.CertTime += time.Since(t0)
		return
	case Sat:
		m.inconclusive("the solver refutes a value set: " + c.String())
	default:
		m.inconclusive("the solver cannot certify a value set: " + c.String())
	}
	m.st.CertTime += time.Since(t0)
}

// certDom certifies the value set of an atom over a variable of up to 8 bits.
func (m *Mach) certDom(c *Term) {
	if c.cert || c.op == OVar || c.op == OConst {
		return
	}
	d := c.Domain()
	w := c.Vars()[0].w
	m.certify(c, func(v string) string {
		if w == 0 {
			return fmt.Sprintf("(ite %s %v %v)", v, d[0]&2 != 0, d[0]&1 != 0)
		}
		var sb strings.Builder
		sb.WriteString("(or false")
		n := 1 << w
		in := func(i int) bool { return i < n && d[i>>6]&(1<<(i&63)) != 0 }
		for i := 0; i < n; i++ {
			if !in(i) {
				continue
			}
			j := i
			for in(j + 1) {
				j++
			}
			fmt.Fprintf(&sb, " (and (bvuge %s %s) (bvule %s %s))", v, smtConst(w, uint64(i)), v, smtConst(w, uint64(j)))
			i = j
		}
		sb.WriteString(")")
		return sb.String()
	})
}

func (m *Mach) certIv(c *Term, v *Term, lo, hi uint64) {
	if c.cert {
		return
	}
	m.certify(c, func(n string) string {
		if lo > hi {
			return "false"
		}
		return fmt.Sprintf("(and (bvuge %s %s) (bvule %s %s))", n, smtConst(v.w, lo), n, smtConst(v.w, hi))
	})
}

func (m *Mach) certNe(c *Term, v *Term, x uint64) {
	if c.cert {
		return
	}
	m.certify(c, func(n string) string {
		return fmt.Sprintf("(not (= %s %s))", n, smtConst(v.w, x))
	})
}

func (m *Mach) aux() *Solver {
	if m.auxS == nil {
		m.auxS = NewSolver(m.solver.binary, 10000)
	}
	return m.auxS
}

// checkText decides one formula given as text over the given terms. What it
// defines stays defined.
func (s *Solver) checkText(terms []*Term, text func() string) Res {
	s.queries++
	s.n++
	if s.n > 20000 || len(s.defs[0]) > 100000 {
		s.Close()
		s.start()
	}
	for _, t := range terms {
		s.define(t)
	}
	fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n(check-sat)\n(pop 1)\n", text())
	switch line := s.readLine(); line {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	default:
		s.unknown++
		s.Close()
		s.start()
		return Unknown
	}
}

// A node is one step of a path: a branch of which both sides are explored
// (fork), an assumption, or a condition that was found to hold always given
// those before it (forced).
type node struct {
	c    *Term
	kind uint8
}

const (
	nodeFork = iota
	nodeAssume
	nodeForced
)

// cover has the solver decide that no input that takes the path's forks
// violates a condition that was taken for granted along it. Over all the paths
// of a unit that shows that they cover every input within the bounds.
func (m *Mach) cover() {
	p := m.p
	last := -1
	for i, n := range p.nodes {
		if n.kind == nodeForced && n.c.op != OConst {
			last = i
		}
	}
	if last < 0 {
		m.st.CoverTrivial++
		return
	}
	if m.st.CoverTime > 4*time.Second+time.Since(m.begun)/6 {
		return
	}
	t0 := time.Now()
	s := m.aux()
	var terms []*Term
	for _, n := range p.nodes {
		if n.c.op != OConst {
			terms = append(terms, n.c)
		}
	}
	r := s.checkText(terms, func() string {
		var sb strings.Builder
		sb.WriteString("(and true")
		for _, n := range p.nodes {
			if n.kind == nodeFork {
				sb.WriteString(" ")
				sb.WriteString(s.ref(n.c))
			}
		}
		par := 1
		for i, n := range p.nodes[:last+1] {
			switch {
			case i == last:
				fmt.Fprintf(&sb, " (not %s)", s.ref(n.c))
			case n.kind == nodeForced:
				fmt.Fprintf(&sb, " (or (not %s)", s.ref(n.c))
				par++
			case n.kind == nodeAssume:
				fmt.Fprintf(&sb, " (and %s", s.ref(n.c))
				par++
			}
		}
		sb.WriteString(strings.Repeat(")", par))
		return sb.String()
	})
	m.st.CoverTime += time.Since(t0)
	switch r {
	case Unsat:
		m.st.CoverQueries++
	case Sat:
		m.inconclusive("the solver found an input that no explored path covers")
	default:
		m.st.CoverUnknown++
	}
}
