package main

import (
	"fmt"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// fmt is modelled: formats are interpreted directly so that symbolic strings
// flow through %s and %v without forking.

func (m *Mach) fmtArg(fr *Frame, verb byte, flags string, a Value) Value {
	i, ok := a.(Iface)
	if !ok {
		return "?"
	}
	if i.t == nil {
		if verb == 'd' || verb == 's' {
			return "%!" + string(verb) + "(<nil>)"
		}
		return "<nil>"
	}
	if _, ok := i.v.(Poison); ok {
		return "?"
	}
	if _, ok := i.v.(*Opaque); ok {
		return "opaque"
	}
	if verb == 'T' {
		return types.TypeString(i.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'x' || verb == 'X' {
		var s Value
		if flags != "#" {
			if m.hasMethod(i.t, "Error") && types.Implements(i.t, errorIface) {
				if p, ok := i.v.(*Value); ok && p == nil {
					s = "<nil>"
				} else {
					s = m.method(fr, i, nil, "Error")
				}
			} else if m.hasMethod(i.t, "String") {
				f := m.lookupMethod(i.t, nil, "String")
				if f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isStr(f.Signature.Results().At(0).Type()) {
					if p, ok := i.v.(*Value); ok && p == nil {
						s = "<nil>"
					} else {
						s = m.callFn(fr, f, []Value{i.v}, nil)
					}
				}
			}
		}
		if s == nil {
			switch u := i.t.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					s = i.v
				}
			case *types.Slice:
				if isByteElem(u.Elem()) && verb != 'v' {
					sl := i.v.(Slice)
					s = mkStr(sl.arr[:sl.len])
				}
			case *types.Array:
				if isByteElem(u.Elem()) && verb != 'v' {
					s = mkStr([]Value(i.v.(Array)))
				}
			}
		}
		if s != nil {
			switch verb {
			case 'q':
				if c, ok := s.(string); ok {
					return strconv.Quote(c)
				}
				return concat(concat("\"", s), "\"")
			case 'x', 'X':
				b := strBytes(s)
				if c, ok := concBytes(b); ok {
					return fmt.Sprintf("%"+string(verb), c)
				}
				sl := m.callByName("encoding/hex", "AppendEncode", []Value{Slice{}, sliceOf(b)}).(Slice)
				return mkStr(sl.arr[:sl.len])
			}
			if flags == "#" {
				return concat(concat("\"", s), "\"")
			}
			return s
		}
	}
	switch u := i.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if m.truth(i.v) {
				return "true"
			}
			return "false"
		case u.Info()&types.IsInteger != 0:
			w, sgn := intInfo(u)
			var x uint64
			switch t := i.v.(type) {
			case uint64:
				x = t
			case *Term:
				return m.fmtSymInt(fr, t, w, sgn, verb, flags)
			}
			if verb == 'v' {
				verb = 'd'
			}
			if verb == 's' {
				return "%!s(int)"
			}
			f := "%" + flags + string(verb)
			if sgn {
				return fmt.Sprintf(f, sext(x, w))
			}
			return fmt.Sprintf(f, x)
		case u.Info()&types.IsFloat != 0:
			if f, ok := i.v.(float64); ok {
				return fmt.Sprintf("%"+flags+string(verb), f)
			}
			return "float"
		}
	case *types.Slice:
		s := i.v.(Slice)
		var out Value = "["
		for k := 0; k < s.len; k++ {
			if k > 0 {
				out = concat(out, " ")
			}
			e := s.arr[k]
			if _, ok := e.(Iface); !ok {
				e = Iface{u.Elem(), e}
			}
			out = concat(out, m.fmtArg(fr, verb, flags, e))
		}
		return concat(out, "]")
	case *types.Pointer:
		if p, ok := i.v.(*Value); ok && p == nil {
			return "<nil>"
		}
		return "&{}"
	case *types.Struct:
		var out Value = "{"
		if s, ok := i.v.(Struct); ok && verb != 'T' {
			for k := range s {
				if k > 0 {
					out = concat(out, " ")
				}
				switch s[k].(type) {
				case string, *SymStr, uint64, bool, *Term:
					out = concat(out, m.fmtArg(fr, verb, flags, Iface{u.Field(k).Type(), s[k]}))
				default:
					out = concat(out, "_")
				}
			}
		}
		return concat(out, "}")
	}
	return "<" + i.t.String() + ">"
}

func (m *Mach) fmtSymInt(fr *Frame, t *Term, w uint8, sgn bool, verb byte, flags string) Value {
	if verb == 'c' {
		return m.runeToStr(t)
	}
	base := uint64(10)
	if verb == 'x' {
		base = 16
	}
	if verb == 'x' && flags == "02" && w == 8 {
		s := m.callByName("encoding/hex", "AppendEncode", []Value{Slice{}, sliceOf([]Value{t})}).(Slice)
		return mkStr(s.arr[:s.len])
	}
	if sgn {
		return m.callByName("strconv", "FormatInt", []Value{m.simp(m.tb.SExt(t, 64)), base})
	}
	return m.callByName("strconv", "FormatUint", []Value{m.simp(m.tb.ZExt(t, 64)), base})
}

func (m *Mach) sprintf(fr *Frame, format string, args []Value) Value {
	var out Value = ""
	n := 0
	lit := func(s string) { out = concat(out, s) }
	for i := 0; i < len(format); {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		if j > i {
			lit(format[i:j])
		}
		if j >= len(format) {
			break
		}
		i = j + 1
		fl := i
		for i < len(format) {
			c := format[i]
			if c == '#' || c == '+' || c == '-' || c == ' ' || c == '.' || c >= '0' && c <= '9' {
				i++
				continue
			}
			if c == '*' {
				panic(unsupported("fmt *"))
			}
			break
		}
		flags := format[fl:i]
		if i >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			lit("%")
			continue
		}
		if n >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			verb = 'v'
		}
		if flags == "+" && verb == 'v' {
			flags = ""
		}
		out = concat(out, m.fmtArg(fr, verb, flags, a))
	}
	return out
}

func (m *Mach) sprint(fr *Frame, args []Value, spaces bool) Value {
	var out Value = ""
	prevStr := true
	for i, a := range args {
		ifc, _ := a.(Iface)
		isS := ifc.t != nil && isStr(ifc.t)
		if i > 0 && (spaces || !isS && !prevStr) {
			out = concat(out, " ")
		}
		prevStr = isS
		out = concat(out, m.fmtArg(fr, 'v', "", a))
	}
	if spaces {
		out = concat(out, "\n")
	}
	return out
}

func vargs(v Value) []Value {
	s := v.(Slice)
	return s.arr[:s.len]
}

func init() {
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.sprintf(fr, m.concStr(a[0]), vargs(a[1]))
	}, "fmt.Sprintf")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return m.sprint(fr, vargs(a[0]), false) }, "fmt.Sprint")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return m.sprint(fr, vargs(a[0]), true) }, "fmt.Sprintln")
	write := func(m *Mach, fr *Frame, w Value, s Value) Value {
		b := strBytes(s)
		return m.method(fr, w, nil, "Write", sliceOf(b))
	}
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return write(m, fr, a[0], m.sprintf(fr, m.concStr(a[1]), vargs(a[2])))
	}, "fmt.Fprintf")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return write(m, fr, a[0], m.sprint(fr, vargs(a[1]), false))
	}, "fmt.Fprint")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return write(m, fr, a[0], m.sprint(fr, vargs(a[1]), true))
	}, "fmt.Fprintln")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := strBytes(m.sprintf(fr, m.concStr(a[1]), vargs(a[2])))
		d := a[0].(Slice)
		return sliceOf(append(append([]Value(nil), d.arr[:d.len]...), s...))
	}, "fmt.Appendf")
	reg(nop, "fmt.Printf", "fmt.Println", "fmt.Print")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		format := m.concStr(a[0])
		args := vargs(a[1])
		msg := m.sprintf(fr, format, args)
		// which arguments are wrapped?
		var wrapped []Value
		n := 0
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				continue
			}
			i++
			for i < len(format) && (format[i] == '#' || format[i] == '+' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
				i++
			}
			if i >= len(format) {
				break
			}
			if format[i] == '%' {
				continue
			}
			if format[i] == 'w' && n < len(args) {
				if x, ok := args[n].(Iface); ok && x.t != nil && types.Implements(x.t, errorIface) {
					wrapped = append(wrapped, x)
				}
			}
			n++
		}
		c := new(Value)
		switch len(wrapped) {
		case 0:
			return m.mkError(msg)
		case 1:
			*c = Struct{msg, wrapped[0]}
			return Iface{t: types.NewPointer(m.namedType("fmt", "wrapError")), v: c}
		}
		*c = Struct{msg, sliceOf(wrapped)}
		return Iface{t: types.NewPointer(m.namedType("fmt", "wrapErrors")), v: c}
	}, "fmt.Errorf")
}
