package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value representation:
//
//	bool | *Term(w=0)           booleans
//	uint64 | *Term(w=n)         integers (truncated to their width)
//	float64, complex128         floats (concrete only) | *SymFloat
//	string | *SymStr            strings
//	*Value (nil ok) | *SymPtr   pointers
//	Struct, Array               aggregates (copied on load/store)
//	Slice                       slices
//	*Map, *Chan, Iface, *Closure, *ssa.Function, *ssa.Builtin, *NativeFn
//	Tuple
//	*Opaque                     host-side objects
//	Poison                      value of something the engine could not run
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

type Slice struct {
	arr []Value // backing store from off 0 with full capacity; nil => nil slice
	len int
	nn  bool // non-nil
}

type SymStr struct{ b []Value }

// SymPtr is &arr[idx] for a symbolic index already known to be in range.
type SymPtr struct {
	arr []Value
	idx *Term
}

// SymFloat is float64(i)/d for an int64 term i and an integer d > 0 (0 means
// 1). Comparisons are those of the rationals, which are the ones of the
// float64 values as long as |i| stays below 2^50 and d is small.
type SymFloat struct {
	i *Term
	d int64
}

func (f *SymFloat) den() int64 {
	if f.d == 0 {
		return 1
	}
	return f.d
}

// FloatBits is a float with symbolic bits; it can only be passed around.
type FloatBits struct{ t *Term }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type NativeFn struct {
	name string
	f    func(fr *Frame, args []Value) Value
}

type Opaque struct {
	kind string
	v    any
}

type Poison struct{ why string }

type mapEntry struct {
	k, v    Value
	hash    string
	symkey  bool
	deleted bool
}

type Map struct {
	entries []*mapEntry
	idx     map[string]*mapEntry
	nsym    int
	n       int
	kt      types.Type
}

func slen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("slen %T", v))
}

func sbyte(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("sbyte")
}

// mkStr makes a string from byte values, concrete when possible.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{b: append([]Value(nil), b...)}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(byte(x.(uint64)))
	}
	return sb.String()
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = byteVals[s[i]]
		}
		return out
	case *SymStr:
		return append([]Value(nil), s.b...)
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

var byteVals [256]Value

func init() {
	for i := range byteVals {
		byteVals[i] = uint64(i)
	}
}

func substr(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("substr")
}

func concat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	return mkStr(append(strBytes(a), strBytes(b)...))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		out := make(Struct, len(x))
		for i, y := range x {
			switch y.(type) {
			case Struct, Array:
				out[i] = copyVal(y)
			default:
				out[i] = y
			}
		}
		return out
	case Array:
		out := make(Array, len(x))
		for i, y := range x {
			switch y.(type) {
			case Struct, Array:
				out[i] = copyVal(y)
			default:
				out[i] = y
			}
		}
		return out
	}
	return v
}

var uzero Value = uint64(0)
var vfalse Value = false
var vtrue Value = true
var vemptys Value = ""
var nilIface Value = Iface{}
var nilPtr Value = (*Value)(nil)
var nilMap Value = (*Map)(nil)
var nilChan Value = (*Chan)(nil)
var nilFunc Value = (*Closure)(nil)
var nilSlice Value = Slice{}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return nilIface
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Info()&types.IsBoolean != 0:
			return vfalse
		case u.Info()&types.IsInteger != 0:
			return uzero
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return vemptys
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return nilSlice
	case *types.Map:
		return nilMap
	case *types.Chan:
		return nilChan
	case *types.Signature:
		return nilFunc
	case *types.Interface:
		return nilIface
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<22 {
			panic(unsupported("huge array"))
		}
		a := make(Array, n)
		if n > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = copyVal(z)
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = zero(u.At(i).Type())
		}
		return tt
	case *types.TypeParam:
		panic(unsupported("zero of type param"))
	}
	panic(unsupported("zero of %s", t))
}

type unsupportedErr struct{ why string }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }

// hashKey returns a canonical encoding of a concrete map key, ok=false if it
// has symbolic parts.
func (m *Mach) hashKey(v Value) (string, bool) {
	var sb strings.Builder
	ok := m.hashInto(&sb, v)
	return sb.String(), ok
}

func (m *Mach) hashInto(sb *strings.Builder, v Value) bool {
	switch x := v.(type) {
	case bool:
		fmt.Fprintf(sb, "b%v", x)
	case uint64:
		fmt.Fprintf(sb, "i%d", x)
	case float64:
		fmt.Fprintf(sb, "f%v", x)
	case string:
		fmt.Fprintf(sb, "s%d:%s", len(x), x)
	case *SymStr, *Term, *SymFloat:
		return false
	case *Value:
		fmt.Fprintf(sb, "p%p", x)
	case *Map:
		fmt.Fprintf(sb, "m%p", x)
	case *Chan:
		fmt.Fprintf(sb, "c%p", x)
	case *Opaque:
		fmt.Fprintf(sb, "o%p", x)
	case Iface:
		if x.t == nil {
			sb.WriteString("nil")
			return true
		}
		fmt.Fprintf(sb, "I%d(", m.typeID(x.t))
		if !m.hashInto(sb, x.v) {
			return false
		}
		sb.WriteString(")")
	case Struct:
		sb.WriteString("{")
		for _, y := range x {
			if !m.hashInto(sb, y) {
				return false
			}
			sb.WriteString(",")
		}
		sb.WriteString("}")
	case Array:
		sb.WriteString("[")
		for _, y := range x {
			if !m.hashInto(sb, y) {
				return false
			}
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case Poison:
		panic(unsupported("poison: %s", x.why))
	default:
		m.throwRuntime(fmt.Sprintf("hash of unhashable type %T", v))
	}
	return true
}

// eq returns bool or *Term.
func (m *Mach) eq(a, b Value) Value {
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			return m.simp(m.tb.Eq(m.tb.Bool(x), y))
		}
	case uint64:
		switch y := b.(type) {
		case uint64:
			return x == y
		case *Term:
			return m.simp(m.tb.Eq(m.tb.Const(y.w, x), y))
		}
	case *Term:
		switch y := b.(type) {
		case bool:
			return m.simp(m.tb.Eq(x, m.tb.Bool(y)))
		case uint64:
			return m.simp(m.tb.Eq(x, m.tb.Const(x.w, y)))
		case *Term:
			return m.simp(m.tb.Eq(x, y))
		case float64:
		}
	case float64:
		switch y := b.(type) {
		case float64:
			return x == y
		case *SymFloat:
			return m.symFloatOp(token.EQL, y, x, false)
		}
	case *SymFloat:
		switch y := b.(type) {
		case float64:
			return m.eq(y, x)
		case *SymFloat:
			return m.symFloatOp(token.EQL, x, y, false)
		}
	case complex128:
		if y, ok := b.(complex128); ok {
			return x == y
		}
	case string, *SymStr:
		if xs, ok := a.(string); ok {
			if ys, ok := b.(string); ok {
				return xs == ys
			}
		}
		n := slen(a)
		if n != slen(b) {
			return false
		}
		if a == b {
			return true
		}
		cs := make([]*Term, 0, n)
		for i := 0; i < n; i++ {
			p, q := sbyte(a, i), sbyte(b, i)
			pu, ok1 := p.(uint64)
			qu, ok2 := q.(uint64)
			if ok1 && ok2 {
				if pu != qu {
					return false
				}
				continue
			}
			cs = append(cs, m.tb.Eq(m.term(p, 8), m.term(q, 8)))
		}
		return m.simp(m.tb.And(cs...))
	case *Value:
		switch y := b.(type) {
		case *Value:
			return x == y
		case *SymPtr:
			return false
		}
	case *Map:
		if y, ok := b.(*Map); ok {
			return x == y
		}
	case *Chan:
		if y, ok := b.(*Chan); ok {
			return x == y
		}
	case *Closure:
		switch y := b.(type) {
		case *Closure:
			return x == y
		default:
			return x == nil && isNilFunc(y)
		}
	case *ssa.Function, *NativeFn, *ssa.Builtin:
		if y, ok := b.(*Closure); ok && y == nil {
			return false
		}
		return a == b
	case Slice:
		if y, ok := b.(Slice); ok { // only against nil
			if !y.nn {
				return !x.nn
			}
			if !x.nn {
				return !y.nn
			}
		}
	case *Opaque:
		y, ok := b.(*Opaque)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !m.identical(x.t, y.t) {
			return false
		}
		return m.eq(x.v, y.v)
	case Struct:
		y := b.(Struct)
		return m.eqSeq([]Value(x), []Value(y))
	case Array:
		y := b.(Array)
		return m.eqSeq([]Value(x), []Value(y))
	case Poison:
		panic(unsupported("poison: %s", x.why))
	}
	if y, ok := b.(Poison); ok {
		panic(unsupported("poison: %s", y.why))
	}
	panic(unsupported("eq %T %T", a, b))
}

func isNilFunc(v Value) bool {
	c, ok := v.(*Closure)
	return ok && c == nil
}

func (m *Mach) eqSeq(x, y []Value) Value {
	var cs []*Term
	for i := range x {
		e := m.eq(x[i], y[i])
		if b, ok := e.(bool); ok {
			if !b {
				return false
			}
			continue
		}
		cs = append(cs, e.(*Term))
	}
	return m.simp(m.tb.And(cs...))
}

// simp turns constant terms back into host values.
func (m *Mach) simp(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.val == 1
		}
		return t.val
	}
	return t
}

func (m *Mach) term(v Value, w uint8) *Term {
	switch x := v.(type) {
	case uint64:
		return m.tb.Const(w, x)
	case bool:
		return m.tb.Bool(x)
	case *Term:
		if x.w != w {
			panic(fmt.Sprintf("term width %d want %d: %s", x.w, w, x))
		}
		return x
	case Poison:
		panic(unsupported("poison: %s", x.why))
	}
	panic(unsupported("term of %T", v))
}

// ---- maps

func (m *Mach) newMap(kt types.Type) *Map {
	return &Map{idx: map[string]*mapEntry{}, kt: kt}
}

func (m *Mach) mapFind(mp *Map, k Value) *mapEntry {
	if mp == nil {
		return nil
	}
	h, conc := m.hashKey(k)
	if conc {
		if e := mp.idx[h]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.entries {
		if e.deleted || (conc && !e.symkey) {
			continue
		}
		if !m.mapKeyMaybeEq(e.k, k) {
			continue
		}
		if m.truth(m.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Mach) mapKeyMaybeEq(a, b Value) bool {
	if x, ok := a.(Iface); ok {
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return m.identical(x.t, y.t)
	}
	return true
}

func (m *Mach) mapSet(mp *Map, k, v Value) {
	if mp == nil {
		m.throwPlain("assignment to entry in nil map")
	}
	if e := m.mapFind(mp, k); e != nil {
		old := e.v
		e.v = copyVal(v)
		m.undo(func() { e.v = old })
		return
	}
	h, conc := m.hashKey(k)
	e := &mapEntry{k: copyVal(k), v: copyVal(v), hash: h, symkey: !conc}
	n := len(mp.entries)
	mp.entries = append(mp.entries, e)
	mp.n++
	if conc {
		mp.idx[h] = e
	} else {
		mp.nsym++
	}
	m.undo(func() {
		mp.entries = mp.entries[:n]
		if !e.deleted {
			mp.n--
			if conc {
				delete(mp.idx, h)
			} else {
				mp.nsym--
			}
		}
	})
}

func (m *Mach) mapDelete(mp *Map, k Value) {
	if mp == nil {
		return
	}
	if e := m.mapFind(mp, k); e != nil {
		m.mapDelEntry(mp, e)
	}
}

func (m *Mach) mapDelEntry(mp *Map, e *mapEntry) {
	e.deleted = true
	mp.n--
	if e.symkey {
		mp.nsym--
	} else {
		delete(mp.idx, e.hash)
	}
	m.undo(func() {
		e.deleted = false
		mp.n++
		if e.symkey {
			mp.nsym++
		} else {
			mp.idx[e.hash] = e
		}
	})
}
