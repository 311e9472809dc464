package main

// Hash-consed SMT terms: Booleans (w==0) and bit-vectors (w 1..64).

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OExtract // val = hi<<8|lo
	OConcat
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

type Term struct {
	op   Op
	w    uint8
	args []*Term
	val  uint64
	name string
	id   int
	vars []*Term // cached sorted set of variables
	vset bool
	dom  *[4]uint64 // for single-var (w<=8) Bool terms
	cert bool       // the solver certified the value set
}

type TB struct {
	tab  map[string]*Term
	next int
	T, F *Term
	keyb []byte
}

func NewTB() *TB {
	b := &TB{tab: map[string]*Term{}}
	b.T = b.mk(OConst, 0, 1, "")
	b.F = b.mk(OConst, 0, 0, "")
	return b
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (b *TB) mk(op Op, w uint8, val uint64, name string, args ...*Term) *Term {
	k := b.keyb[:0]
	k = append(k, byte(op), w)
	for i := 0; i < 8; i++ {
		k = append(k, byte(val>>(8*i)))
	}
	for _, a := range args {
		id := a.id
		k = append(k, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	k = append(k, name...)
	b.keyb = k
	if t, ok := b.tab[string(k)]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, id: b.next}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	b.next++
	b.tab[string(k)] = t
	return t
}

func (b *TB) Const(w uint8, v uint64) *Term { return b.mk(OConst, w, v&mask(w), "") }
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}
func (b *TB) Var(name string, w uint8) *Term { return b.mk(OVar, w, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }

func (t *Term) Vars() []*Term {
	if t.vset {
		return t.vars
	}
	t.vset = true
	if t.op == OVar {
		t.vars = []*Term{t}
		return t.vars
	}
	switch len(t.args) {
	case 0:
	case 1:
		t.vars = t.args[0].Vars()
	default:
		base := t.args[0].Vars()
		same := true
		for _, a := range t.args[1:] {
			v := a.Vars()
			if len(v) == 0 {
				continue
			}
			if len(base) == 0 {
				base = v
				continue
			}
			if len(v) == len(base) {
				eq := true
				for i := range v {
					if v[i] != base[i] {
						eq = false
						break
					}
				}
				if eq {
					continue
				}
			}
			same = false
			break
		}
		if same {
			t.vars = base
		} else {
			m := map[*Term]bool{}
			for _, a := range t.args {
				for _, v := range a.Vars() {
					m[v] = true
				}
			}
			for v := range m {
				t.vars = append(t.vars, v)
			}
			sort.Slice(t.vars, func(i, j int) bool { return t.vars[i].id < t.vars[j].id })
		}
	}
	return t.vars
}

func (b *TB) Not(x *Term) *Term {
	switch x.op {
	case OConst:
		return b.Bool(x.val == 0)
	case ONot:
		return x.args[0]
	}
	return b.mk(ONot, 0, 0, "", x)
}

func (b *TB) And(xs ...*Term) *Term { return b.nary(OAnd, xs) }
func (b *TB) Or(xs ...*Term) *Term  { return b.nary(OOr, xs) }

func (b *TB) nary(op Op, xs []*Term) *Term {
	unit, zero := b.T, b.F
	if op == OOr {
		unit, zero = b.F, b.T
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero || seen[b.Not(x)] {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return b.mk(op, 0, 0, "", out...)
}

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width %d %d", x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.val == y.val)
	}
	if x.isConst() {
		x, y = y, x
	}
	if x.w == 0 {
		if y.isConst() {
			if y.val == 1 {
				return x
			}
			return b.Not(x)
		}
	}
	if y.isConst() {
		switch x.op {
		case OZExt:
			in := x.args[0]
			if y.val > mask(in.w) {
				return b.F
			}
			return b.Eq(in, b.Const(in.w, y.val))
		case OIte:
			if x.args[1].isConst() || x.args[2].isConst() {
				return b.Or(b.And(x.args[0], b.Eq(x.args[1], y)), b.And(b.Not(x.args[0]), b.Eq(x.args[2], y)))
			}
		case OAdd:
			if x.args[1].isConst() {
				return b.Eq(x.args[0], b.Const(x.w, y.val-x.args[1].val))
			}
		case OConcat:
			hi, lo := x.args[0], x.args[1]
			return b.And(b.Eq(hi, b.Const(hi.w, y.val>>lo.w)), b.Eq(lo, b.Const(lo.w, y.val)))
		case OBOr:
			// (zext hi << k) | zext lo with disjoint bits: leave to the solver
		}
	} else if x.op == OZExt && y.op == OZExt && x.args[0].w == y.args[0].w {
		return b.Eq(x.args[0], y.args[0])
	} else if x.w > 0 {
		bx, cx := x.split()
		by, cy := y.split()
		if bx == by {
			return b.Bool((uint64(cx)^uint64(cy))&mask(x.w) == 0)
		}
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return b.mk(OEq, 0, 0, "", x, y)
}

func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		return b.Or(b.And(c, x), b.And(b.Not(c), y))
	}
	return b.mk(OIte, x.w, 0, "", c, x, y)
}

func evalBin(op Op, w uint8, a, c uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + c) & m
	case OSub:
		return (a - c) & m
	case OMul:
		return (a * c) & m
	case OUDiv:
		if c == 0 {
			return m
		}
		return a / c
	case OURem:
		if c == 0 {
			return a
		}
		return a % c
	case OSDiv:
		x, y := sext(a, w), sext(c, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(c, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & c
	case OBOr:
		return a | c
	case OBXor:
		return a ^ c
	case OShl:
		if c >= uint64(w) {
			return 0
		}
		return (a << c) & m
	case OLShr:
		if c >= uint64(w) {
			return 0
		}
		return a >> c
	case OAShr:
		s := c
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext(a, w)>>s) & m
	}
	panic("evalBin")
}

func (b *TB) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Bin %s width %d %d", opNames[op], x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return b.Const(x.w, evalBin(op, x.w, x.val, y.val))
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if x.isConst() {
			x, y = y, x
		}
	}
	if y.isConst() {
		switch op {
		case OAdd:
			if y.val == 0 {
				return x
			}
			if x.op == OAdd && x.args[1].isConst() {
				return b.Bin(OAdd, x.args[0], b.Const(x.w, x.args[1].val+y.val))
			}
		case OSub:
			return b.Bin(OAdd, x, b.Const(x.w, -y.val))
		case OBOr, OBXor, OShl, OLShr, OAShr:
			if y.val == 0 {
				return x
			}
		case OMul:
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
		case OUDiv, OSDiv:
			if y.val == 1 {
				return x
			}
		case OBAnd:
			if y.val == 0 {
				return y
			}
			if y.val == mask(x.w) {
				return x
			}
			// mask of a zero-extension
			if x.op == OZExt && y.val&mask(x.args[0].w) == mask(x.args[0].w) {
				return x
			}
		case OURem:
			if y.val != 0 && y.val&(y.val-1) == 0 {
				return b.Bin(OBAnd, x, b.Const(x.w, y.val-1))
			}
		}
		if (op == OLShr || op == OShl) && y.val >= uint64(x.w) {
			return b.Const(x.w, 0)
		}
		if op == OLShr && x.op == OZExt && y.val >= uint64(x.args[0].w) {
			return b.Const(x.w, 0)
		}
	}
	if op == OSub {
		bx, cx := x.split()
		by, cy := y.split()
		if bx == by {
			return b.Const(x.w, uint64(cx)-uint64(cy))
		}
		if cy != 0 {
			return b.Bin(OAdd, b.Bin(OSub, bx, by), b.Const(x.w, uint64(cx)-uint64(cy)))
		}
	}
	if op == OBXor && x == y {
		return b.Const(x.w, 0)
	}
	if (op == OBAnd || op == OBOr) && x == y {
		return x
	}
	return b.mk(op, x.w, 0, "", x, y)
}

// upper bound (unsigned) on a term's value, cheap.
func (t *Term) umax() uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZExt:
		return t.args[0].umax()
	case OBAnd:
		a, c := t.args[0].umax(), t.args[1].umax()
		if a < c {
			return a
		}
		return c
	case OBOr, OBXor:
		a, c := t.args[0].umax(), t.args[1].umax()
		l := bits.Len64(a | c)
		if l >= 64 {
			return ^uint64(0)
		}
		return (uint64(1) << l) - 1
	case OIte:
		a, c := t.args[1].umax(), t.args[2].umax()
		if a > c {
			return a
		}
		return c
	case OAdd:
		a, c := t.args[0].umax(), t.args[1].umax()
		if s := a + c; s >= a && s <= mask(t.w) {
			return s
		}
	case OShl:
		if t.args[1].isConst() {
			a := t.args[0].umax()
			s := t.args[1].val
			if s < 64 && bits.Len64(a)+int(s) <= int(t.w) {
				return a << s
			}
		}
	case OLShr:
		if t.args[1].isConst() && t.args[1].val < 64 {
			return t.args[0].umax() >> t.args[1].val
		}
	}
	return mask(t.w)
}

// srange is a cheap bound on the signed value of a 64-bit term.
func (t *Term) srange() (lo, hi int64, ok bool) {
	const lim = 1 << 62
	if t.w != 64 {
		return 0, 0, false
	}
	switch t.op {
	case OConst:
		v := int64(t.val)
		return v, v, v > -lim && v < lim
	case OZExt:
		m := t.args[0].umax()
		return 0, int64(m), m < lim
	case OMul:
		if l, h, ok := t.args[0].srange(); ok && t.args[1].isConst() && t.args[1].val > 0 && t.args[1].val < lim {
			c := int64(t.args[1].val)
			return l * c, h * c, l > -lim/c && h < lim/c
		}
	case OSub:
		l1, h1, ok1 := t.args[0].srange()
		l2, h2, ok2 := t.args[1].srange()
		return l1 - h2, h1 - l2, ok1 && ok2 && l1-h2 > -lim && h1-l2 < lim
	case OAdd:
		l1, h1, ok1 := t.args[0].srange()
		l2, h2, ok2 := t.args[1].srange()
		return l1 + l2, h1 + h2, ok1 && ok2 && l1+l2 > -lim && h1+h2 < lim
	}
	return 0, 0, false
}

// split returns base and c with t = base + c.
func (t *Term) split() (*Term, int64) {
	if t.op == OAdd && t.args[1].isConst() {
		return t.args[0], int64(t.args[1].val)
	}
	return t, 0
}

func (b *TB) Cmp(op Op, x, y *Term) *Term {
	if x.w == 64 && y.w == 64 && (!x.isConst() || !y.isConst()) && x != y {
		lx, hx, okx := x.srange()
		ly, hy, oky := y.srange()
		uns := op == OUlt || op == OUle
		if okx && oky && (!uns || lx >= 0 && ly >= 0) {
			strict := op == OUlt || op == OSlt
			switch {
			case hx < ly || !strict && hx <= ly:
				return b.T
			case lx > hy || strict && lx >= hy:
				return b.F
			}
			bx, cx := x.split()
			by, cy := y.split()
			if bx == by {
				return b.Bool(cx < cy || !strict && cx == cy)
			}
			// x*c < k is x < ceil(k/c), x*c <= k is x <= floor(k/c)
			if x.op == OMul && y.isConst() && !uns {
				c, k := int64(x.args[1].val), int64(y.val)
				q, r := k/c, k%c
				if r < 0 {
					q, r = q-1, r+c
				}
				if strict && r != 0 {
					q++
				}
				return b.Cmp(op, x.args[0], b.Const(64, uint64(q)))
			}
			// k < x*c is floor(k/c) < x, k <= x*c is ceil(k/c) <= x
			if y.op == OMul && x.isConst() && !uns {
				c, k := int64(y.args[1].val), int64(x.val)
				q, r := k/c, k%c
				if r < 0 {
					q, r = q-1, r+c
				}
				if !strict && r != 0 {
					q++
				}
				return b.Cmp(op, b.Const(64, uint64(q)), y.args[0])
			}
			if y.isConst() && cx != 0 && int64(y.val)-cx >= 0 {
				return b.Cmp(op, bx, b.Const(64, uint64(int64(y.val)-cx)))
			}
			if x.isConst() && cy != 0 && int64(x.val)-cy >= 0 {
				return b.Cmp(op, b.Const(64, uint64(int64(x.val)-cy)), by)
			}
		}
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Cmp width %d %d", x.w, y.w))
	}
	if x == y {
		return b.Bool(op == OUle || op == OSle)
	}
	if x.isConst() && y.isConst() {
		switch op {
		case OUlt:
			return b.Bool(x.val < y.val)
		case OUle:
			return b.Bool(x.val <= y.val)
		case OSlt:
			return b.Bool(sext(x.val, x.w) < sext(y.val, y.w))
		case OSle:
			return b.Bool(sext(x.val, x.w) <= sext(y.val, y.w))
		}
	}
	// signed compare of provably non-negative values is unsigned compare
	if op == OSlt || op == OSle {
		half := mask(x.w) >> 1
		if x.umax() <= half && y.umax() <= half {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		} else if x.isConst() && sext(x.val, x.w) < 0 && y.umax() <= half {
			return b.T
		} else if y.isConst() && sext(y.val, y.w) < 0 && x.umax() <= half {
			return b.F
		}
	}
	if op == OUlt || op == OUle {
		if y.isConst() {
			m := x.umax()
			if op == OUlt && m < y.val || op == OUle && m <= y.val {
				return b.T
			}
			if op == OUlt && y.val == 0 {
				return b.F
			}
		}
		if x.isConst() {
			m := y.umax()
			if op == OUlt && x.val >= m || op == OUle && x.val > m {
				return b.F
			}
			if op == OUle && x.val == 0 {
				return b.T
			}
		}
		if x.op == OZExt && y.isConst() && y.val <= mask(x.args[0].w) {
			return b.Cmp(op, x.args[0], b.Const(x.args[0].w, y.val))
		}
		if y.op == OZExt && x.isConst() && x.val <= mask(y.args[0].w) {
			return b.Cmp(op, b.Const(y.args[0].w, x.val), y.args[0])
		}
		if x.op == OZExt && y.op == OZExt && x.args[0].w == y.args[0].w {
			return b.Cmp(op, x.args[0], y.args[0])
		}
	}
	return b.mk(op, 0, 0, "", x, y)
}

func (b *TB) BNot(x *Term) *Term {
	if x.isConst() {
		return b.Const(x.w, ^x.val)
	}
	if x.op == OBNot {
		return x.args[0]
	}
	return b.mk(OBNot, x.w, 0, "", x)
}
func (b *TB) Neg(x *Term) *Term {
	if x.isConst() {
		return b.Const(x.w, -x.val)
	}
	return b.mk(ONeg, x.w, 0, "", x)
}

func (b *TB) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	if x.isConst() {
		return b.Const(w, x.val>>lo)
	}
	if x.op == OZExt || x.op == OSExt {
		in := x.args[0]
		if hi < in.w {
			return b.Extract(in, hi, lo)
		}
		if x.op == OZExt {
			if lo >= in.w {
				return b.Const(w, 0)
			}
			if lo == 0 {
				return b.ZExt(in, w)
			}
		}
	}
	if lo == 0 {
		switch x.op {
		case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
			return b.Bin(x.op, b.Extract(x.args[0], hi, 0), b.Extract(x.args[1], hi, 0))
		case OIte:
			return b.Ite(x.args[0], b.Extract(x.args[1], hi, 0), b.Extract(x.args[2], hi, 0))
		}
	}
	if x.op == OLShr && x.args[1].isConst() && x.args[1].val+uint64(hi) < uint64(x.w) {
		s := uint8(x.args[1].val)
		return b.Extract(x.args[0], hi+s, lo+s)
	}
	if x.op == OShl && x.args[1].isConst() && x.args[1].val <= uint64(lo) {
		s := uint8(x.args[1].val)
		return b.Extract(x.args[0], hi-s, lo-s)
	}
	if x.op == OBOr && lo > 0 {
		return b.Bin(OBOr, b.Extract(x.args[0], hi, lo), b.Extract(x.args[1], hi, lo))
	}
	return b.mk(OExtract, w, uint64(hi)<<8|uint64(lo), "", x)
}

func (b *TB) ZExt(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isConst() {
		return b.Const(w, x.val)
	}
	if x.op == OZExt {
		x = x.args[0]
	}
	return b.mk(OZExt, w, 0, "", x)
}
func (b *TB) SExt(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isConst() {
		return b.Const(w, uint64(sext(x.val, x.w)))
	}
	if x.op == OZExt {
		return b.ZExt(x.args[0], w)
	}
	return b.mk(OSExt, w, 0, "", x)
}

// Eval under a model (missing variables are 0).
func (t *Term) Eval(m map[string]uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t.name] & mask(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	v := t.evalWith(func(x *Term) uint64 { return x.Eval(m, memo) })
	memo[t] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (t *Term) evalWith(e func(*Term) uint64) uint64 {
	switch t.op {
	case ONot:
		return 1 - e(t.args[0])
	case OAnd:
		for _, a := range t.args {
			if e(a) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, a := range t.args {
			if e(a) == 1 {
				return 1
			}
		}
		return 0
	case OEq:
		return b2u(e(t.args[0]) == e(t.args[1]))
	case OIte:
		if e(t.args[0]) == 1 {
			return e(t.args[1])
		}
		return e(t.args[2])
	case OUlt:
		return b2u(e(t.args[0]) < e(t.args[1]))
	case OUle:
		return b2u(e(t.args[0]) <= e(t.args[1]))
	case OSlt:
		w := t.args[0].w
		return b2u(sext(e(t.args[0]), w) < sext(e(t.args[1]), w))
	case OSle:
		w := t.args[0].w
		return b2u(sext(e(t.args[0]), w) <= sext(e(t.args[1]), w))
	case OBNot:
		return ^e(t.args[0]) & mask(t.w)
	case ONeg:
		return -e(t.args[0]) & mask(t.w)
	case OZExt:
		return e(t.args[0])
	case OSExt:
		return uint64(sext(e(t.args[0]), t.args[0].w)) & mask(t.w)
	case OExtract:
		return (e(t.args[0]) >> (t.val & 0xff)) & mask(t.w)
	case OConcat:
		return (e(t.args[0])<<t.args[1].w | e(t.args[1])) & mask(t.w)
	}
	return evalBin(t.op, t.w, e(t.args[0]), e(t.args[1]))
}

// interval recognises conditions lo <= v <= hi on one variable of more than 8
// bits.
func (t *Term) interval() (v *Term, lo, hi uint64, ok bool) {
	not := false
	if t.op == ONot {
		t, not = t.args[0], true
	}
	if (t.op == OUlt || t.op == OUle || t.op == OEq && !not) && len(t.args) == 2 {
		x, y := t.args[0], t.args[1]
		switch {
		case x.op == OVar && x.w > 8 && y.isConst():
			v, lo, hi = x, 0, y.val
			if t.op == OEq {
				return v, hi, hi, true
			}
			if t.op == OUlt {
				if hi == 0 {
					if not {
						return v, 0, mask(v.w), true
					}
					return v, 1, 0, true
				}
				hi--
			}
			if not {
				if hi == mask(v.w) {
					return v, 1, 0, true
				}
				return v, hi + 1, mask(v.w), true
			}
			return v, lo, hi, true
		case y.op == OVar && y.w > 8 && x.isConst():
			v, lo, hi = y, x.val, mask(y.w)
			if t.op == OEq {
				return v, lo, lo, true
			}
			if t.op == OUlt {
				if lo == mask(v.w) {
					if not {
						return v, 0, mask(v.w), true
					}
					return v, 1, 0, true
				}
				lo++
			}
			if not {
				if lo == 0 {
					return v, 1, 0, true
				}
				return v, 0, lo - 1, true
			}
			return v, lo, hi, true
		}
	}
	return nil, 0, 0, false
}

// excludes recognises v != c.
func (t *Term) excludes() (*Term, uint64, bool) {
	if t.op == ONot && t.args[0].op == OEq {
		x, y := t.args[0].args[0], t.args[0].args[1]
		if x.op == OVar && x.w > 8 && y.isConst() {
			return x, y.val, true
		}
	}
	return nil, 0, false
}

// Domain returns, for a Boolean term over exactly one variable of width<=8,
// the set of values that make it true.
func (t *Term) Domain() *[4]uint64 {
	if t.dom != nil {
		return t.dom
	}
	v := t.Vars()[0]
	var d [4]uint64
	n := uint64(1) << v.w
	if v.w == 0 {
		n = 2
	}
	for x := uint64(0); x < n; x++ {
		memo := map[*Term]uint64{}
		var ev func(*Term) uint64
		ev = func(y *Term) uint64 {
			switch y.op {
			case OConst:
				return y.val
			case OVar:
				return x
			}
			if r, ok := memo[y]; ok {
				return r
			}
			r := y.evalWith(ev)
			memo[y] = r
			return r
		}
		if ev(t) == 1 {
			d[x>>6] |= 1 << (x & 63)
		}
	}
	t.dom = &d
	return t.dom
}

func smtConst(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtName(n string) string {
	return "|" + strings.ReplaceAll(n, "|", "!") + "|"
}

func (t *Term) head() string {
	switch t.op {
	case OZExt:
		return fmt.Sprintf("(_ zero_extend %d)", t.w-t.args[0].w)
	case OSExt:
		return fmt.Sprintf("(_ sign_extend %d)", t.w-t.args[0].w)
	case OExtract:
		return fmt.Sprintf("(_ extract %d %d)", t.val>>8, t.val&0xff)
	}
	return opNames[t.op]
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		return smtConst(t.w, t.val)
	case OVar:
		return t.name
	}
	s := "(" + t.head()
	for _, a := range t.args {
		s += " " + a.String()
		if len(s) > 400 {
			return s + "...)"
		}
	}
	return s + ")"
}
