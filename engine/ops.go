package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func (m *Mach) unop(fr *Frame, in *ssa.UnOp, ci *cinstr) Value {
	x := fr.get(&ci.ops[0])
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			if v, ok := globalOverride(m, g); ok {
				return v
			}
		}
		v := m.load(x)
		if li, ok := v.(*lazyIte); ok {
			w, _ := intInfo(in.Type())
			return m.iteOf(li.p, w)
		}
		return v
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Term:
			return m.simp(m.tb.Not(b))
		}
	case token.SUB:
		switch b := x.(type) {
		case uint64:
			return -b & mask(ci.w)
		case *Term:
			return m.simp(m.tb.Neg(b))
		case float64:
			return -b
		case complex128:
			return -b
		}
	case token.XOR:
		switch b := x.(type) {
		case uint64:
			return ^b & mask(ci.w)
		case *Term:
			return m.simp(m.tb.BNot(b))
		}
	case token.ARROW:
		v, ok := m.chanRecv(x, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	if p, ok := x.(Poison); ok {
		panic(unsupported("poison: %s", p.why))
	}
	panic(unsupported("unop %s %T", in.Op, x))
}

var binOps = map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OBAnd, token.OR: OBOr, token.XOR: OBXor}

func (m *Mach) binop(op token.Token, w uint8, sgn bool, x, y Value, xt, yt types.Type) Value {
	if p, ok := x.(Poison); ok {
		panic(unsupported("poison: %s", p.why))
	}
	if p, ok := y.(Poison); ok {
		panic(unsupported("poison: %s", p.why))
	}
	switch op {
	case token.EQL:
		return m.eqTyped(x, y, xt, yt)
	case token.NEQ:
		e := m.eqTyped(x, y, xt, yt)
		if b, ok := e.(bool); ok {
			return !b
		}
		return m.simp(m.tb.Not(e.(*Term)))
	}
	if isStr(xt) {
		switch op {
		case token.ADD:
			return concat(x, y)
		case token.LSS:
			return m.strLess(x, y, false)
		case token.LEQ:
			return m.strLess(x, y, true)
		case token.GTR:
			return m.strLess(y, x, false)
		case token.GEQ:
			return m.strLess(y, x, true)
		}
	}
	if w > 0 {
		if op == token.SHL || op == token.SHR {
			return m.shift(op, w, sgn, x, y, yt)
		}
		a, ok1 := x.(uint64)
		b, ok2 := y.(uint64)
		if ok1 && ok2 {
			return m.intop(op, w, sgn, a, b)
		}
		tx, ty := m.term(x, w), m.term(y, w)
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return m.simp(m.tb.Bin(binOps[op], tx, ty))
		case token.AND_NOT:
			return m.simp(m.tb.Bin(OBAnd, tx, m.tb.BNot(ty)))
		case token.QUO, token.REM:
			if m.truth(m.simp(m.tb.Eq(ty, m.tb.Const(w, 0)))) {
				m.throwRuntime("integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && sgn:
				o = OSDiv
			case op == token.REM && sgn:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			if sgn && tx.umax() <= mask(w)>>1 && ty.umax() <= mask(w)>>1 {
				if o == OSDiv {
					o = OUDiv
				} else {
					o = OURem
				}
			}
			return m.simp(m.tb.Bin(o, tx, ty))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			o1, o2 := OUlt, OUle
			if sgn {
				o1, o2 = OSlt, OSle
			}
			switch op {
			case token.LSS:
				return m.simp(m.tb.Cmp(o1, tx, ty))
			case token.LEQ:
				return m.simp(m.tb.Cmp(o2, tx, ty))
			case token.GTR:
				return m.simp(m.tb.Cmp(o1, ty, tx))
			default:
				return m.simp(m.tb.Cmp(o2, ty, tx))
			}
		}
	}
	if sf, ok := x.(*SymFloat); ok {
		return m.symFloatOp(op, sf, y, false)
	}
	if sf, ok := y.(*SymFloat); ok {
		return m.symFloatOp(op, sf, x, true)
	}
	if a, ok := x.(float64); ok {
		b := y.(float64)
		f32 := xt.Underlying().(*types.Basic).Kind() == types.Float32
		r := 0.0
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		default:
			panic(unsupported("float op %s", op))
		}
		if f32 {
			r = float64(float32(r))
		}
		return r
	}
	if a, ok := x.(complex128); ok {
		b := y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	}
	if a, ok := x.(bool); ok {
		if b, ok := y.(bool); ok {
			switch op {
			case token.AND:
				return a && b
			case token.OR:
				return a || b
			}
		}
	}
	panic(unsupported("binop %s %T %T", op, x, y))
}

func (m *Mach) symFloatOp(op token.Token, s *SymFloat, o Value, swapped bool) Value {
	var os *SymFloat
	switch y := o.(type) {
	case *SymFloat:
		os = y
	case float64:
		d := s.den()
		if op == token.QUO || op == token.MUL {
			d = 1
		}
		n := y * float64(d)
		if float64(int64(n)) != n || n > 1<<52 || n < -1<<52 {
			if op == token.EQL {
				return false
			}
			panic(unsupported("symbolic float with fraction"))
		}
		os = &SymFloat{m.tb.Const(64, uint64(int64(n))), d}
	}
	a, b := s, os
	if swapped {
		a, b = b, a
	}
	if op == token.QUO {
		if !b.i.isConst() || b.den() != 1 || int64(b.i.val) <= 0 {
			panic(unsupported("symbolic float division"))
		}
		return m.mkFloat(a.i, a.den()*int64(b.i.val))
	}
	x, y, d := a.i, b.i, a.den()
	if a.den() != b.den() {
		d = a.den() * b.den()
		x = m.tb.Bin(OMul, x, m.tb.Const(64, uint64(b.den())))
		y = m.tb.Bin(OMul, y, m.tb.Const(64, uint64(a.den())))
	}
	switch op {
	case token.EQL:
		return m.simp(m.tb.Eq(x, y))
	case token.LSS:
		return m.simp(m.tb.Cmp(OSlt, x, y))
	case token.LEQ:
		return m.simp(m.tb.Cmp(OSle, x, y))
	case token.GTR:
		return m.simp(m.tb.Cmp(OSlt, y, x))
	case token.GEQ:
		return m.simp(m.tb.Cmp(OSle, y, x))
	case token.ADD:
		return m.mkFloat(m.tb.Bin(OAdd, x, y), d)
	case token.SUB:
		return m.mkFloat(m.tb.Bin(OSub, x, y), d)
	}
	panic(unsupported("symbolic float op %s", op))
}

func (m *Mach) mkFloat(t *Term, d int64) Value {
	if t.isConst() {
		return float64(int64(t.val)) / float64(d)
	}
	return &SymFloat{t, d}
}

func (m *Mach) eqTyped(x, y Value, xt, yt types.Type) Value {
	// mixed interface / concrete comparison
	_, xi := x.(Iface)
	_, yi := y.(Iface)
	if xi && !yi {
		y = Iface{t: yt, v: y}
	} else if yi && !xi {
		x = Iface{t: xt, v: x}
	}
	return m.eq(x, y)
}

func (m *Mach) intop(op token.Token, w uint8, sgn bool, a, b uint64) Value {
	mk := mask(w)
	switch op {
	case token.ADD:
		return (a + b) & mk
	case token.SUB:
		return (a - b) & mk
	case token.MUL:
		return (a * b) & mk
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.QUO:
		if b == 0 {
			m.throwRuntime("integer divide by zero")
		}
		if sgn {
			return evalBin(OSDiv, w, a, b)
		}
		return a / b
	case token.REM:
		if b == 0 {
			m.throwRuntime("integer divide by zero")
		}
		if sgn {
			return evalBin(OSRem, w, a, b)
		}
		return a % b
	}
	if sgn {
		p, q := sext(a, w), sext(b, w)
		switch op {
		case token.LSS:
			return p < q
		case token.LEQ:
			return p <= q
		case token.GTR:
			return p > q
		case token.GEQ:
			return p >= q
		}
	}
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic(unsupported("intop %s", op))
}

func (m *Mach) shift(op token.Token, w uint8, sgn bool, x, y Value, yt types.Type) Value {
	yw, ysgn := intInfo(yt)
	if b, ok := y.(uint64); ok {
		if ysgn && sext(b, yw) < 0 {
			m.throwRuntime("negative shift amount")
		}
		if a, ok := x.(uint64); ok {
			if op == token.SHL {
				return evalBin(OShl, w, a, b)
			}
			if sgn {
				return evalBin(OAShr, w, a, b)
			}
			return evalBin(OLShr, w, a, b)
		}
		t := m.term(x, w)
		if b >= uint64(w) {
			if op == token.SHR && sgn {
				b = uint64(w) - 1
			} else {
				return uzero
			}
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if sgn && t.umax() > mask(w)>>1 {
				o = OAShr
			}
		}
		return m.simp(m.tb.Bin(o, t, m.tb.Const(w, b)))
	}
	ty := m.term(y, yw)
	if ysgn {
		if m.truth(m.simp(m.tb.Cmp(OSlt, ty, m.tb.Const(yw, 0)))) {
			m.throwRuntime("negative shift amount")
		}
	}
	if m.truth(m.simp(m.tb.Cmp(OUle, m.tb.Const(yw, uint64(w)&mask(yw)), ty))) {
		if op == token.SHR && sgn {
			return m.shift(op, w, sgn, x, uint64(w-1), types.Typ[types.Uint64])
		}
		return uzero
	}
	var sh *Term
	if yw > w {
		sh = m.tb.Extract(ty, w-1, 0)
	} else {
		sh = m.tb.ZExt(ty, w)
	}
	o := OShl
	if op == token.SHR {
		o = OLShr
		if sgn {
			o = OAShr
		}
	}
	return m.simp(m.tb.Bin(o, m.term(x, w), sh))
}

// strLess builds x<y (or x<=y) over bytes.
func (m *Mach) strLess(x, y Value, orEq bool) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			if orEq {
				return a <= b
			}
			return a < b
		}
	}
	nx, ny := slen(x), slen(y)
	n := nx
	if ny < n {
		n = ny
	}
	var r *Term
	if orEq {
		r = m.tb.Bool(nx <= ny)
	} else {
		r = m.tb.Bool(nx < ny)
	}
	for i := n - 1; i >= 0; i-- {
		a, b := m.term(sbyte(x, i), 8), m.term(sbyte(y, i), 8)
		r = m.tb.Or(m.tb.Cmp(OUlt, a, b), m.tb.And(m.tb.Eq(a, b), r))
	}
	return m.simp(r)
}

func (m *Mach) convert(x Value, from, to types.Type) Value {
	if f, ok := x.(*FloatBits); ok {
		if isFloat(to) {
			return f
		}
		panic(unsupported("conversion of symbolic float bits"))
	}
	if p, ok := x.(Poison); ok {
		panic(unsupported("poison: %s", p.why))
	}
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return x
		case t.Info()&types.IsInteger != 0:
			tw, _ := intInfo(t)
			if isInt(fu) {
				fw, fs := intInfo(fu)
				switch v := x.(type) {
				case uint64:
					if fs {
						return uint64(sext(v, fw)) & mask(tw)
					}
					return v & mask(tw)
				case *Term:
					if tw < fw {
						return m.simp(m.tb.Extract(v, tw-1, 0))
					}
					if fs {
						return m.simp(m.tb.SExt(v, tw))
					}
					return m.simp(m.tb.ZExt(v, tw))
				}
			}
			if f, ok := x.(float64); ok {
				_, s := intInfo(t)
				if s {
					return uint64(int64(f)) & mask(tw)
				}
				if f < 0 {
					return uint64(int64(f)) & mask(tw)
				}
				return uint64(f) & mask(tw)
			}
			if f, ok := x.(*SymFloat); ok {
				if f.den() != 1 {
					panic(unsupported("conversion of a symbolic fraction"))
				}
				if tw < 64 {
					return m.simp(m.tb.Extract(f.i, tw-1, 0))
				}
				return f.i
			}
			if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				if p, ok := x.(*Value); ok {
					return uint64(uintptr(unsafe.Pointer(p)))
				}
			}
		case t.Info()&types.IsFloat != 0:
			if isInt(fu) {
				fw, fs := intInfo(fu)
				switch v := x.(type) {
				case uint64:
					var f float64
					if fs {
						f = float64(sext(v, fw))
					} else {
						f = float64(v)
					}
					if t.Kind() == types.Float32 {
						f = float64(float32(f))
					}
					return f
				case *Term:
					if fs {
						return &SymFloat{i: m.tb.SExt(v, 64)}
					}
					return &SymFloat{i: m.tb.ZExt(v, 64)}
				}
			}
			if f, ok := x.(float64); ok {
				if t.Kind() == types.Float32 {
					return float64(float32(f))
				}
				return f
			}
			if f, ok := x.(*SymFloat); ok {
				return f
			}
		case t.Info()&types.IsComplex != 0:
			return x
		case t.Info()&types.IsString != 0:
			switch f := fu.(type) {
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return x
				}
				if f.Info()&types.IsInteger != 0 {
					switch v := x.(type) {
					case uint64:
						fw, fs := intInfo(f)
						r := int64(v)
						if fs {
							r = sext(v, fw)
						}
						if r < 0 || r > utf8.MaxRune {
							r = utf8.RuneError
						}
						return string(rune(r))
					case *Term:
						return m.runeToStr(v)
					}
				}
			case *types.Slice:
				s := x.(Slice)
				if isByteElem(f.Elem()) {
					if m.race != nil {
						m.raceSlice(s, false)
					}
					return mkStr(s.arr[:s.len])
				}
				// []rune
				var out Value = ""
				for i := 0; i < s.len; i++ {
					switch v := s.arr[i].(type) {
					case uint64:
						out = concat(out, string(rune(sext(v, 32))))
					case *Term:
						out = concat(out, m.runeToStr(v))
					}
				}
				return out
			}
		}
	case *types.Slice:
		if isStr(fu) {
			if isByteElem(t.Elem()) {
				b := strBytes(x)
				return Slice{arr: b, len: len(b), nn: true}
			}
			var out []Value
			it := &strIter{s: x}
			for {
				r := it.next(m).(Tuple)
				if !r[0].(bool) {
					break
				}
				out = append(out, r[2])
			}
			return Slice{arr: out, len: len(out), nn: true}
		}
		if _, ok := fu.(*types.Slice); ok {
			return x
		}
	case *types.Pointer:
		return x
	case *types.Array:
		if s, ok := x.(Slice); ok {
			n := int(t.Len())
			if s.len < n {
				m.throwRuntime("cannot convert slice to array: length too short")
			}
			return copyVal(Array(s.arr[:n]))
		}
		return x
	default:
		return x
	}
	panic(unsupported("convert %s to %s (%T)", from, to, x))
}

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *Mach) runeToStr(t *Term) Value {
	if t.w < 32 {
		t = m.tb.ZExt(t, 32)
	} else if t.w > 32 {
		t = m.tb.Extract(t, 31, 0)
	}
	if m.truth(m.simp(m.tb.Cmp(OUlt, t, m.tb.Const(32, 0x80)))) {
		return mkStr([]Value{m.simp(m.tb.Extract(t, 7, 0))})
	}
	s := m.callByName("unicode/utf8", "AppendRune", []Value{Slice{}, m.simp(t)}).(Slice)
	return mkStr(s.arr[:s.len])
}

// ---- builtins

func (m *Mach) callBuiltin(fr *Frame, b *ssa.Builtin, args []Value, ci *cinstr) Value {
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			panic(unsupported("poison: %s", p.why))
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(slen(x))
		case Slice:
			return uint64(x.len)
		case *Map:
			if x == nil {
				return uzero
			}
			if m.race != nil {
				m.raceMap(x, false)
			}
			return uint64(x.n)
		case *Chan:
			if x == nil {
				return uzero
			}
			return uint64(len(x.buf))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(len(x.arr))
		case *Chan:
			if x == nil {
				return uzero
			}
			return uint64(x.cap)
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch t := args[1].(type) {
		case Slice:
			if m.race != nil {
				m.raceSlice(t, false)
			}
			add = t.arr[:t.len]
		case string, *SymStr:
			add = strBytes(t)
		default:
			panic(unsupported("append %T", t))
		}
		if len(add) == 0 {
			return s
		}
		n := s.len + len(add)
		if n <= len(s.arr) {
			// in place
			tmp := make([]Value, len(add))
			for i, v := range add {
				tmp[i] = copyVal(v)
			}
			for i, v := range tmp {
				if m.race != nil {
					m.raceWrite(&s.arr[s.len+i])
				}
				m.assign(&s.arr[s.len+i], v)
			}
			return Slice{arr: s.arr, len: n, nn: true}
		}
		c := growCap(len(s.arr), n)
		arr := make([]Value, c)
		copy(arr, s.arr[:s.len])
		for i := range arr[:s.len] {
			arr[i] = copyVal(arr[i])
		}
		for i, v := range add {
			arr[s.len+i] = copyVal(v)
		}
		if c > n {
			st := b.Type().(*types.Signature).Params().At(0).Type().Underlying()
			if sl, ok := st.(*types.Slice); ok {
				z := zero(sl.Elem())
				for i := n; i < c; i++ {
					arr[i] = copyVal(z)
				}
			}
		}
		return Slice{arr: arr, len: n, nn: true}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch t := args[1].(type) {
		case Slice:
			src = t.arr[:t.len]
		case string, *SymStr:
			src = strBytes(t)
		}
		n := d.len
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if m.race != nil {
				m.raceWrite(&d.arr[i])
			}
			m.assign(&d.arr[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		mp := args[0].(*Map)
		if m.race != nil && mp != nil {
			m.raceMap(mp, true)
		}
		m.mapDelete(mp, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.entries {
					if !e.deleted {
						m.mapDelEntry(x, e)
					}
				}
			}
		case Slice:
			st := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice)
			z := zero(st.Elem())
			for i := 0; i < x.len; i++ {
				m.assign(&x.arr[i], z)
			}
		}
		return nil
	case "close":
		m.chanClose(args[0].(*Chan))
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		return m.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			r = m.minmax(b, r, y)
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.throwRuntime(fmt.Sprintf("value method called using nil pointer"))
		}
		return args[0]
	case "ssa:deferstack":
		return &Opaque{"deferstack", fr}
	case "String": // unsafe.String
		n := m.concInt(args[1])
		if n == 0 {
			return ""
		}
		return mkStr(unsafe.Slice(args[0].(*Value), n))
	case "StringData":
		bs := strBytes(args[0])
		if len(bs) == 0 {
			return nilPtr
		}
		return &bs[0]
	case "SliceData":
		s := args[0].(Slice)
		if !s.nn || len(s.arr) == 0 {
			return nilPtr
		}
		return &s.arr[0]
	case "Slice":
		n := m.concInt(args[1])
		if args[0].(*Value) == nil {
			return Slice{}
		}
		return Slice{arr: unsafe.Slice(args[0].(*Value), n), len: n, nn: true}
	case "Add":
		p := args[0].(*Value)
		n := m.concInt(args[1])
		if n == 0 {
			return p
		}
	}
	var ts []string
	for _, a := range args {
		ts = append(ts, fmt.Sprintf("%T", a))
	}
	panic(unsupported("builtin %s %v", b.Name(), ts))
}

func (m *Mach) minmax(b *ssa.Builtin, x, y Value) Value {
	t := b.Type().(*types.Signature).Params().At(0).Type()
	isMin := b.Name() == "min"
	if f, ok := x.(float64); ok {
		g := y.(float64)
		if isMin {
			return math.Min(f, g)
		}
		return math.Max(f, g)
	}
	w, sgn := intInfo(t)
	lt := m.binop(token.LSS, w, sgn, x, y, t, t)
	if bb, ok := lt.(bool); ok {
		if bb == isMin {
			return x
		}
		return y
	}
	c := lt.(*Term)
	if isStr(t) {
		if m.truth(c) == isMin {
			return x
		}
		return y
	}
	if isMin {
		return m.simp(m.tb.Ite(c, m.term(x, w), m.term(y, w)))
	}
	return m.simp(m.tb.Ite(c, m.term(y, w), m.term(x, w)))
}

func growCap(old, n int) int {
	if old*2 >= n && old < 256 {
		return old * 2
	}
	if old >= 256 {
		c := old
		for c < n {
			c += (c + 768) / 4
		}
		return c
	}
	return n
}
