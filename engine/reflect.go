package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Reflection over engine values: reflect.Type is a pointer to a per-type cell,
// reflect.Value carries an *RV in its ptr field.

type RV struct {
	t    types.Type
	addr Value // pointer when addressable
	v    Value
	ro   bool
	ero  bool // ro only because the field is embedded: does not extend to its fields
}

func (m *Mach) rtCell(t types.Type) *Value {
	id := m.typeID(t)
	if m.rtypes == nil {
		m.rtypes = map[int]*Value{}
		m.rtOf = map[*Value]types.Type{}
	}
	c := m.rtypes[id]
	if c == nil {
		c = new(Value)
		*c = Struct{uzero}
		m.rtypes[id] = c
		m.rtOf[c] = t
	}
	return c
}

func (m *Mach) rtypePtr() types.Type {
	if m.rtPtrT == nil {
		m.rtPtrT = types.NewPointer(m.namedType("reflect", "rtype"))
	}
	return m.rtPtrT
}

func (m *Mach) mkType(t types.Type) Value {
	if t == nil {
		return nilIface
	}
	return Iface{m.rtypePtr(), m.rtCell(t)}
}

func (m *Mach) typeOf(v Value) types.Type {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			m.nilDeref()
		}
		v = i.v
	}
	c, ok := v.(*Value)
	if !ok {
		panic(unsupported("reflect type %T", v))
	}
	t := m.rtOf[c]
	if t == nil {
		panic(unsupported("unknown reflect type"))
	}
	return t
}

func (m *Mach) mkRV(r *RV) Value {
	return Struct{m.rtCell(r.t), &Opaque{kind: "rv", v: r}, uint64(1)}
}

func (m *Mach) rv(v Value) *RV {
	s, ok := v.(Struct)
	if !ok {
		panic(unsupported("reflect.Value %T", v))
	}
	if o, ok := s[1].(*Opaque); ok {
		return o.v.(*RV)
	}
	return nil
}

func (m *Mach) rvOK(v Value, what string) *RV {
	r := m.rv(v)
	if r == nil {
		m.throwRuntime("reflect: call of " + what + " on zero Value")
	}
	return r
}

func (m *Mach) rvGet(r *RV) Value {
	if r.addr != nil {
		return m.load(r.addr)
	}
	return r.v
}

var basicKinds = map[types.BasicKind]uint64{
	types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
	types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12,
	types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26,
}

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicKinds[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	panic(unsupported("kind of %s", t))
}

func (m *Mach) mkIface(t types.Type, v Value) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return Iface{t, copyVal(v)}
}

// toType adapts a value of type from for a variable of type to.
func (m *Mach) toType(v Value, from, to types.Type) Value {
	_, ti := to.Underlying().(*types.Interface)
	_, fi := from.Underlying().(*types.Interface)
	if ti && !fi {
		return Iface{from, copyVal(v)}
	}
	return v
}

func (m *Mach) rvSet(r *RV, v Value) {
	if r.addr == nil || r.ro {
		m.throwRuntime("reflect: reflect.Value.Set using unaddressable value")
	}
	m.store(r.addr, copyVal(v))
}

func (m *Mach) rvField(r *RV, i int) *RV {
	st := r.t.Underlying().(*types.Struct)
	if i < 0 || i >= st.NumFields() {
		m.throwRuntime("reflect: Field index out of range")
	}
	f := st.Field(i)
	ro, ero := r.ro && !r.ero, false
	if !f.Exported() && !ro {
		ro, ero = true, f.Embedded()
	}
	if r.addr != nil {
		c := m.cell(r.addr)
		return &RV{t: f.Type(), addr: &(*c).(Struct)[i], ro: ro, ero: ero}
	}
	return &RV{t: f.Type(), v: r.v.(Struct)[i], ro: ro, ero: ero}
}

func (m *Mach) rvElem(r *RV) *RV {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p := m.rvGet(r)
		if q, ok := p.(*Value); ok && q == nil {
			return nil
		}
		return &RV{t: u.Elem(), addr: p, ro: r.ro, ero: r.ero}
	case *types.Interface:
		i := m.rvGet(r).(Iface)
		if i.t == nil {
			return nil
		}
		return &RV{t: i.t, v: i.v, ro: r.ro, ero: r.ero}
	}
	m.throwRuntime("reflect: call of Elem on " + r.t.String())
	return nil
}

func (m *Mach) rvIndex(r *RV, i int) *RV {
	switch u := r.t.Underlying().(type) {
	case *types.Slice:
		s := m.rvGet(r).(Slice)
		if i < 0 || i >= s.len {
			m.throwRuntime("reflect: slice index out of range")
		}
		return &RV{t: u.Elem(), addr: &s.arr[i], ro: r.ro}
	case *types.Array:
		if i < 0 || int64(i) >= u.Len() {
			m.throwRuntime("reflect: array index out of range")
		}
		if r.addr != nil {
			c := m.cell(r.addr)
			return &RV{t: u.Elem(), addr: &(*c).(Array)[i], ro: r.ro}
		}
		return &RV{t: u.Elem(), v: r.v.(Array)[i], ro: r.ro}
	case *types.Basic:
		s := m.rvGet(r)
		if i < 0 || i >= slen(s) {
			m.throwRuntime("reflect: string index out of range")
		}
		return &RV{t: types.Typ[types.Uint8], v: sbyte(s, i)}
	}
	panic(unsupported("reflect Index of %s", r.t))
}

func (m *Mach) rvLen(r *RV) Value {
	v := m.rvGet(r)
	switch x := v.(type) {
	case Slice:
		return uint64(x.len)
	case Array:
		return uint64(len(x))
	case string, *SymStr:
		return uint64(slen(v))
	case *Map:
		if x == nil {
			return uzero
		}
		return uint64(x.n)
	case *Value: // pointer to array
		if p, ok := r.t.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return uint64(a.Len())
			}
		}
	}
	panic(unsupported("reflect Len of %s", r.t))
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case *Value:
		return x == nil
	case Slice:
		return !x.nn
	case *Map:
		return x == nil
	case *Chan:
		return x == nil
	case *Closure:
		return x == nil
	case Iface:
		return x.t == nil
	}
	return false
}

func (m *Mach) rvZero(r *RV) Value {
	v := m.rvGet(r)
	var z func(t types.Type, v Value) Value
	z = func(t types.Type, v Value) Value {
		switch x := v.(type) {
		case Struct:
			st := t.Underlying().(*types.Struct)
			var cs []*Term
			for i := range x {
				cs = append(cs, m.term(z(st.Field(i).Type(), x[i]), 0))
			}
			return m.simp(m.tb.And(cs...))
		case Array:
			et := t.Underlying().(*types.Array).Elem()
			var cs []*Term
			for i := range x {
				cs = append(cs, m.term(z(et, x[i]), 0))
			}
			return m.simp(m.tb.And(cs...))
		case Slice, *Map, *Chan, *Closure, Iface, *Value:
			return isNilVal(v)
		case *ssa.Function, *SymPtr, *Opaque, *NativeFn:
			return false
		}
		return m.eq(v, zero(t))
	}
	return z(r.t, v)
}

func (m *Mach) strSlice(ss []types.Type) Value {
	var out []Value
	for _, t := range ss {
		out = append(out, m.mkType(t))
	}
	return sliceOf(out)
}

func structTypeField(m *Mach, st *types.Struct, i int) Value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	return Struct{f.Name(), pkg, m.mkType(f.Type()), st.Tag(i), uzero, sliceOf([]Value{uint64(i)}), f.Embedded()}
}

// findField resolves a possibly promoted field.
func findField(t types.Type, name string) (idx []int, ok bool) {
	st, isS := t.Underlying().(*types.Struct)
	if !isS {
		return nil, false
	}
	type node struct {
		st  *types.Struct
		idx []int
	}
	level := []node{{st, nil}}
	for len(level) > 0 {
		var next []node
		var hit [][]int
		for _, n := range level {
			for i := 0; i < n.st.NumFields(); i++ {
				f := n.st.Field(i)
				ix := append(append([]int(nil), n.idx...), i)
				if f.Name() == name {
					hit = append(hit, ix)
				}
				if f.Embedded() {
					ft := f.Type()
					if p, ok := ft.Underlying().(*types.Pointer); ok {
						ft = p.Elem()
					}
					if s, ok := ft.Underlying().(*types.Struct); ok {
						next = append(next, node{s, ix})
					}
				}
			}
		}
		if len(hit) == 1 {
			return hit[0], true
		}
		if len(hit) > 1 {
			return nil, false
		}
		level = next
		if len(idx) > 8 {
			break
		}
	}
	return nil, false
}

func (m *Mach) exportedMethods(t types.Type) []*types.Selection {
	ms := m.w.prog.MethodSets.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

func (m *Mach) boundMethod(r *RV, name string) Value {
	recv, t := m.rvGet(r), r.t
	if i, ok := recv.(Iface); ok {
		recv, t = i.v, i.t
	}
	f := m.lookupMethod(t, nil, name)
	if f == nil {
		panic(unsupported("reflect method %s", name))
	}
	sig := f.Signature
	ft := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	nf := &NativeFn{name: name, f: func(fr *Frame, args []Value) Value {
		return m.callFn(fr, f, append([]Value{recv}, args...), nil)
	}}
	return m.mkRV(&RV{t: ft, v: nf})
}

func idxList(v Value) []Value {
	s := v.(Slice)
	return s.arr[:s.len]
}

func qual(p *types.Package) string { return p.Name() }

func init() {
	type fn = modelFn
	T := func(name string, f func(m *Mach, t types.Type, a []Value) Value) {
		reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return f(m, m.typeOf(a[0]), a) }, "(*reflect.rtype)."+name)
	}
	V := func(name string, f func(m *Mach, r *RV, a []Value) Value) {
		reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return f(m, m.rvOK(a[0], name), a) }, "(reflect.Value)."+name)
	}
	F := func(name string, f func(m *Mach, a []Value) Value) {
		reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return f(m, a) }, name)
	}
	typeOfAny := func(m *Mach, a []Value) Value {
		i := a[0].(Iface)
		return m.mkType(i.t)
	}
	F("reflect.TypeOf", typeOfAny)
	F("internal/reflectlite.TypeOf", typeOfAny)
	F("internal/abi.TypeOf", func(m *Mach, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return nilPtr
		}
		return m.rtCell(i.t)
	})
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.mkType(fn.TypeArgs()[0])
	}, "reflect.TypeFor")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.rtCell(fn.TypeArgs()[0])
	}, "internal/abi.TypeFor")
	T("Kind", func(m *Mach, t types.Type, a []Value) Value { return kindOf(t) })
	T("Elem", func(m *Mach, t types.Type, a []Value) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return m.mkType(u.Elem())
		case *types.Slice:
			return m.mkType(u.Elem())
		case *types.Array:
			return m.mkType(u.Elem())
		case *types.Map:
			return m.mkType(u.Elem())
		case *types.Chan:
			return m.mkType(u.Elem())
		}
		m.throwRuntime("reflect: Elem of invalid type " + t.String())
		return nil
	})
	T("Key", func(m *Mach, t types.Type, a []Value) Value { return m.mkType(t.Underlying().(*types.Map).Key()) })
	T("Len", func(m *Mach, t types.Type, a []Value) Value { return uint64(t.Underlying().(*types.Array).Len()) })
	T("Name", func(m *Mach, t types.Type, a []Value) Value {
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			return x.Obj().Name()
		case *types.Basic:
			return x.Name()
		}
		return ""
	})
	T("PkgPath", func(m *Mach, t types.Type, a []Value) Value {
		if x, ok := types.Unalias(t).(*types.Named); ok && x.Obj().Pkg() != nil {
			return x.Obj().Pkg().Path()
		}
		return ""
	})
	T("String", func(m *Mach, t types.Type, a []Value) Value { return types.TypeString(t, qual) })
	T("NumField", func(m *Mach, t types.Type, a []Value) Value {
		return uint64(t.Underlying().(*types.Struct).NumFields())
	})
	T("Field", func(m *Mach, t types.Type, a []Value) Value {
		return structTypeField(m, t.Underlying().(*types.Struct), m.concInt(a[1]))
	})
	T("FieldByIndex", func(m *Mach, t types.Type, a []Value) Value {
		var out Value
		for k, x := range idxList(a[1]) {
			if k > 0 {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
			}
			st := t.Underlying().(*types.Struct)
			i := m.concInt(x)
			out = structTypeField(m, st, i)
			t = st.Field(i).Type()
		}
		return out
	})
	T("FieldByName", func(m *Mach, t types.Type, a []Value) Value {
		idx, ok := findField(t, m.concStr(a[1]))
		if !ok {
			return Tuple{zero(m.namedType("reflect", "StructField")), false}
		}
		var out Struct
		var ix []Value
		for k, i := range idx {
			if k > 0 {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
			}
			st := t.Underlying().(*types.Struct)
			out = structTypeField(m, st, i).(Struct)
			t = st.Field(i).Type()
			ix = append(ix, uint64(i))
		}
		out[5] = sliceOf(ix)
		return Tuple{out, true}
	})
	T("Implements", func(m *Mach, t types.Type, a []Value) Value {
		it, ok := m.typeOf(a[1]).Underlying().(*types.Interface)
		if !ok {
			m.throwRuntime("reflect: non-interface type passed to Type.Implements")
		}
		return types.Implements(t, it)
	})
	T("AssignableTo", func(m *Mach, t types.Type, a []Value) Value { return types.AssignableTo(t, m.typeOf(a[1])) })
	T("ConvertibleTo", func(m *Mach, t types.Type, a []Value) Value { return types.ConvertibleTo(t, m.typeOf(a[1])) })
	T("Comparable", func(m *Mach, t types.Type, a []Value) Value { return types.Comparable(t) })
	T("NumMethod", func(m *Mach, t types.Type, a []Value) Value {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		return uint64(len(m.exportedMethods(t)))
	})
	T("NumIn", func(m *Mach, t types.Type, a []Value) Value {
		return uint64(t.Underlying().(*types.Signature).Params().Len())
	})
	T("NumOut", func(m *Mach, t types.Type, a []Value) Value {
		return uint64(t.Underlying().(*types.Signature).Results().Len())
	})
	T("In", func(m *Mach, t types.Type, a []Value) Value {
		return m.mkType(t.Underlying().(*types.Signature).Params().At(m.concInt(a[1])).Type())
	})
	T("Out", func(m *Mach, t types.Type, a []Value) Value {
		return m.mkType(t.Underlying().(*types.Signature).Results().At(m.concInt(a[1])).Type())
	})
	T("IsVariadic", func(m *Mach, t types.Type, a []Value) Value { return t.Underlying().(*types.Signature).Variadic() })
	sz := types.SizesFor("gc", "amd64")
	T("Size", func(m *Mach, t types.Type, a []Value) Value { return uint64(sz.Sizeof(t)) })
	T("Bits", func(m *Mach, t types.Type, a []Value) Value { return uint64(sz.Sizeof(t) * 8) })
	T("Align", func(m *Mach, t types.Type, a []Value) Value { return uint64(sz.Alignof(t)) })
	overInt := func(m *Mach, t types.Type, x Value) Value {
		w, _ := intInfo(t)
		if w == 64 {
			return false
		}
		switch y := x.(type) {
		case uint64:
			return sext(y, w) != int64(y)
		case *Term:
			return m.simp(m.tb.Not(m.tb.Eq(m.tb.SExt(m.tb.Extract(y, w-1, 0), 64), y)))
		}
		panic(unsupported("overflow"))
	}
	overUint := func(m *Mach, t types.Type, x Value) Value {
		w, _ := intInfo(t)
		if w == 64 {
			return false
		}
		switch y := x.(type) {
		case uint64:
			return y&mask(w) != y
		case *Term:
			return m.simp(m.tb.Not(m.tb.Eq(m.tb.ZExt(m.tb.Extract(y, w-1, 0), 64), y)))
		}
		panic(unsupported("overflow"))
	}
	T("OverflowInt", func(m *Mach, t types.Type, a []Value) Value { return overInt(m, t, a[1]) })
	T("OverflowUint", func(m *Mach, t types.Type, a []Value) Value { return overUint(m, t, a[1]) })
	F("reflect.PointerTo", func(m *Mach, a []Value) Value { return m.mkType(types.NewPointer(m.typeOf(a[0]))) })
	F("reflect.PtrTo", func(m *Mach, a []Value) Value { return m.mkType(types.NewPointer(m.typeOf(a[0]))) })
	F("reflect.SliceOf", func(m *Mach, a []Value) Value { return m.mkType(types.NewSlice(m.typeOf(a[0]))) })
	F("reflect.MapOf", func(m *Mach, a []Value) Value {
		return m.mkType(types.NewMap(m.typeOf(a[0]), m.typeOf(a[1])))
	})

	F("reflect.ValueOf", func(m *Mach, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return zero(m.namedType("reflect", "Value"))
		}
		return m.mkRV(&RV{t: i.t, v: i.v})
	})
	F("reflect.New", func(m *Mach, a []Value) Value {
		t := m.typeOf(a[0])
		c := new(Value)
		*c = zero(t)
		return m.mkRV(&RV{t: types.NewPointer(t), v: c})
	})
	F("reflect.Zero", func(m *Mach, a []Value) Value {
		t := m.typeOf(a[0])
		return m.mkRV(&RV{t: t, v: zero(t)})
	})
	F("reflect.MakeSlice", func(m *Mach, a []Value) Value {
		t := m.typeOf(a[0])
		return m.mkRV(&RV{t: t, v: m.makeSlice(t.Underlying().(*types.Slice).Elem(), m.concInt(a[1]), m.concInt(a[2]))})
	})
	mkmap := func(m *Mach, a []Value) Value {
		t := m.typeOf(a[0])
		return m.mkRV(&RV{t: t, v: m.newMap(t.Underlying().(*types.Map).Key())})
	}
	F("reflect.MakeMap", mkmap)
	F("reflect.MakeMapWithSize", mkmap)
	F("reflect.Indirect", func(m *Mach, a []Value) Value {
		r := m.rv(a[0])
		if r == nil || kindOf(r.t) != 22 {
			return a[0]
		}
		e := m.rvElem(r)
		if e == nil {
			return zero(m.namedType("reflect", "Value"))
		}
		return m.mkRV(e)
	})
	F("reflect.Append", func(m *Mach, a []Value) Value {
		r := m.rvOK(a[0], "Append")
		s := m.rvGet(r).(Slice)
		et := r.t.Underlying().(*types.Slice).Elem()
		arr := append([]Value(nil), s.arr[:s.len]...)
		for _, x := range idxList(a[1]) {
			e := m.rv(x)
			arr = append(arr, copyVal(m.toType(m.rvGet(e), e.t, et)))
		}
		return m.mkRV(&RV{t: r.t, v: sliceOf(arr)})
	})
	F("reflect.AppendSlice", func(m *Mach, a []Value) Value {
		r, r2 := m.rvOK(a[0], "AppendSlice"), m.rvOK(a[1], "AppendSlice")
		s, s2 := m.rvGet(r).(Slice), m.rvGet(r2).(Slice)
		arr := append([]Value(nil), s.arr[:s.len]...)
		for _, x := range s2.arr[:s2.len] {
			arr = append(arr, copyVal(x))
		}
		return m.mkRV(&RV{t: r.t, v: sliceOf(arr)})
	})
	F("reflect.Copy", func(m *Mach, a []Value) Value {
		d, s := m.rvOK(a[0], "Copy"), m.rvOK(a[1], "Copy")
		n := min(m.concInt(m.rvLen(d)), m.concInt(m.rvLen(s)))
		var vals []Value
		for i := 0; i < n; i++ {
			vals = append(vals, m.rvGet(m.rvIndex(s, i)))
		}
		for i := 0; i < n; i++ {
			m.rvSet(m.rvIndex(d, i), vals[i])
		}
		return uint64(n)
	})
	F("reflect.DeepEqual", func(m *Mach, a []Value) Value { return m.deepEq(a[0], a[1], 0) })
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		i, ok := a[0].(Iface)
		if !ok || i.t == nil {
			m.throwRuntime("reflect: Swapper of nil")
		}
		s := i.v.(Slice)
		return &NativeFn{name: "swap", f: func(fr *Frame, b []Value) Value {
			x, y := m.concInt(b[0]), m.concInt(b[1])
			p, q := copyVal(s.arr[x]), copyVal(s.arr[y])
			m.assign(&s.arr[x], q)
			m.assign(&s.arr[y], p)
			return nil
		}}
	}, "reflect.Swapper", "internal/reflectlite.Swapper")
	F("internal/reflectlite.ValueOf", func(m *Mach, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Struct{nilPtr, nilPtr, uzero}
		}
		return m.mkRV(&RV{t: i.t, v: i.v})
	})
	F("(internal/reflectlite.Value).Len", func(m *Mach, a []Value) Value { return m.rvLen(m.rvOK(a[0], "Len")) })

	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := m.rv(a[0])
		if r == nil {
			return uzero
		}
		return kindOf(r.t)
	}, "(reflect.Value).Kind")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return m.rv(a[0]) != nil }, "(reflect.Value).IsValid")
	V("Type", func(m *Mach, r *RV, a []Value) Value { return m.mkType(r.t) })
	V("IsNil", func(m *Mach, r *RV, a []Value) Value { return isNilVal(m.rvGet(r)) })
	V("IsZero", func(m *Mach, r *RV, a []Value) Value { return m.rvZero(r) })
	V("Elem", func(m *Mach, r *RV, a []Value) Value {
		e := m.rvElem(r)
		if e == nil {
			return zero(m.namedType("reflect", "Value"))
		}
		return m.mkRV(e)
	})
	V("Field", func(m *Mach, r *RV, a []Value) Value { return m.mkRV(m.rvField(r, m.concInt(a[1]))) })
	V("NumField", func(m *Mach, r *RV, a []Value) Value {
		return uint64(r.t.Underlying().(*types.Struct).NumFields())
	})
	byIndex := func(m *Mach, r *RV, idx []int) (*RV, bool) {
		for k, i := range idx {
			if k > 0 && kindOf(r.t) == 22 {
				r = m.rvElem(r)
				if r == nil {
					return nil, false
				}
			}
			r = m.rvField(r, i)
		}
		return r, true
	}
	ints := func(m *Mach, v Value) []int {
		var out []int
		for _, x := range idxList(v) {
			out = append(out, m.concInt(x))
		}
		return out
	}
	V("FieldByIndex", func(m *Mach, r *RV, a []Value) Value {
		f, ok := byIndex(m, r, ints(m, a[1]))
		if !ok {
			m.throwRuntime("reflect: indirection through nil pointer to embedded struct")
		}
		return m.mkRV(f)
	})
	V("FieldByIndexErr", func(m *Mach, r *RV, a []Value) Value {
		f, ok := byIndex(m, r, ints(m, a[1]))
		if !ok {
			return Tuple{zero(m.namedType("reflect", "Value")), m.mkError("reflect: nil embedded pointer")}
		}
		return Tuple{m.mkRV(f), nilIface}
	})
	V("FieldByName", func(m *Mach, r *RV, a []Value) Value {
		idx, ok := findField(r.t, m.concStr(a[1]))
		if ok {
			if f, ok := byIndex(m, r, idx); ok {
				return m.mkRV(f)
			}
		}
		return zero(m.namedType("reflect", "Value"))
	})
	V("Index", func(m *Mach, r *RV, a []Value) Value { return m.mkRV(m.rvIndex(r, m.concInt(a[1]))) })
	V("Len", func(m *Mach, r *RV, a []Value) Value { return m.rvLen(r) })
	V("Cap", func(m *Mach, r *RV, a []Value) Value {
		switch x := m.rvGet(r).(type) {
		case Slice:
			return uint64(len(x.arr))
		case Array:
			return uint64(len(x))
		}
		panic(unsupported("reflect Cap"))
	})
	V("Bool", func(m *Mach, r *RV, a []Value) Value { return m.rvGet(r) })
	V("Int", func(m *Mach, r *RV, a []Value) Value {
		w, _ := intInfo(r.t)
		switch x := m.rvGet(r).(type) {
		case uint64:
			return uint64(sext(x, w))
		case *Term:
			return m.simp(m.tb.SExt(x, 64))
		}
		m.throwRuntime("reflect: call of Int on " + r.t.String())
		return nil
	})
	V("Uint", func(m *Mach, r *RV, a []Value) Value {
		switch x := m.rvGet(r).(type) {
		case uint64:
			return x
		case *Term:
			return m.simp(m.tb.ZExt(x, 64))
		}
		m.throwRuntime("reflect: call of Uint on " + r.t.String())
		return nil
	})
	V("Float", func(m *Mach, r *RV, a []Value) Value { return m.rvGet(r) })
	V("String", func(m *Mach, r *RV, a []Value) Value {
		if kindOf(r.t) == 24 {
			return m.rvGet(r)
		}
		return "<" + types.TypeString(r.t, qual) + " Value>"
	})
	V("Bytes", func(m *Mach, r *RV, a []Value) Value {
		switch x := m.rvGet(r).(type) {
		case Slice:
			return x
		case Array:
			if r.addr != nil {
				arr := []Value((*m.cell(r.addr)).(Array))
				return sliceOf(arr)
			}
		}
		panic(unsupported("reflect Bytes"))
	})
	V("Interface", func(m *Mach, r *RV, a []Value) Value {
		if r.ro {
			m.throwRuntime("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.mkIface(r.t, m.rvGet(r))
	})
	V("CanInterface", func(m *Mach, r *RV, a []Value) Value { return !r.ro })
	V("CanAddr", func(m *Mach, r *RV, a []Value) Value { return r.addr != nil })
	V("CanSet", func(m *Mach, r *RV, a []Value) Value { return r.addr != nil && !r.ro })
	V("Addr", func(m *Mach, r *RV, a []Value) Value {
		if r.addr == nil {
			m.throwRuntime("reflect.Value.Addr of unaddressable value")
		}
		return m.mkRV(&RV{t: types.NewPointer(r.t), v: r.addr, ro: r.ro})
	})
	V("UnsafePointer", func(m *Mach, r *RV, a []Value) Value { return m.rvGet(r) })
	V("Set", func(m *Mach, r *RV, a []Value) Value {
		x := m.rvOK(a[1], "Set")
		if !types.AssignableTo(x.t, r.t) {
			m.throwRuntime("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + r.t.String())
		}
		m.rvSet(r, m.toType(m.rvGet(x), x.t, r.t))
		return nil
	})
	V("SetZero", func(m *Mach, r *RV, a []Value) Value { m.rvSet(r, zero(r.t)); return nil })
	setv := func(m *Mach, r *RV, a []Value) Value { m.rvSet(r, a[1]); return nil }
	V("SetBool", setv)
	V("SetString", setv)
	V("SetBytes", setv)
	V("SetFloat", func(m *Mach, r *RV, a []Value) Value {
		v := a[1]
		if f, ok := v.(float64); ok && kindOf(r.t) == 13 {
			v = float64(float32(f))
		}
		m.rvSet(r, v)
		return nil
	})
	seti := func(m *Mach, r *RV, a []Value) Value {
		w, _ := intInfo(r.t)
		switch x := a[1].(type) {
		case uint64:
			m.rvSet(r, x&mask(w))
		case *Term:
			if w < 64 {
				m.rvSet(r, m.simp(m.tb.Extract(x, w-1, 0)))
			} else {
				m.rvSet(r, x)
			}
		}
		return nil
	}
	V("SetInt", seti)
	V("SetUint", seti)
	V("OverflowInt", func(m *Mach, r *RV, a []Value) Value { return overInt(m, r.t, a[1]) })
	V("OverflowUint", func(m *Mach, r *RV, a []Value) Value { return overUint(m, r.t, a[1]) })
	V("OverflowFloat", func(m *Mach, r *RV, a []Value) Value { return false })
	V("SetLen", func(m *Mach, r *RV, a []Value) Value {
		s := m.rvGet(r).(Slice)
		n := m.concInt(a[1])
		if n < 0 || n > len(s.arr) {
			m.throwRuntime("reflect: slice length out of range in SetLen")
		}
		s.len = n
		m.rvSet(r, s)
		return nil
	})
	V("SetCap", func(m *Mach, r *RV, a []Value) Value {
		s := m.rvGet(r).(Slice)
		s.arr = s.arr[:m.concInt(a[1])]
		m.rvSet(r, s)
		return nil
	})
	V("Grow", func(m *Mach, r *RV, a []Value) Value {
		s := m.rvGet(r).(Slice)
		n := m.concInt(a[1])
		if s.len+n <= len(s.arr) {
			return nil
		}
		et := r.t.Underlying().(*types.Slice).Elem()
		c := growCap(len(s.arr), s.len+n)
		arr := make([]Value, c)
		for i := range arr {
			if i < s.len {
				arr[i] = copyVal(s.arr[i])
			} else {
				arr[i] = zero(et)
			}
		}
		m.rvSet(r, Slice{arr: arr, len: s.len, nn: true})
		return nil
	})
	V("Slice", func(m *Mach, r *RV, a []Value) Value {
		lo, hi := m.concInt(a[1]), m.concInt(a[2])
		switch x := m.rvGet(r).(type) {
		case Slice:
			if lo < 0 || hi < lo || hi > len(x.arr) {
				m.throwRuntime("reflect.Value.Slice: slice index out of bounds")
			}
			return m.mkRV(&RV{t: r.t, v: Slice{arr: x.arr[lo:], len: hi - lo, nn: true}})
		case string, *SymStr:
			return m.mkRV(&RV{t: r.t, v: substr(x, lo, hi)})
		case Array:
			if r.addr != nil {
				arr := []Value((*m.cell(r.addr)).(Array))
				return m.mkRV(&RV{t: types.NewSlice(r.t.Underlying().(*types.Array).Elem()), v: Slice{arr: arr[lo:], len: hi - lo, nn: true}})
			}
		}
		panic(unsupported("reflect Slice"))
	})
	V("MapIndex", func(m *Mach, r *RV, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		k := m.rvOK(a[1], "MapIndex")
		mp := m.rvGet(r).(*Map)
		if e := m.mapFind(mp, m.toType(m.rvGet(k), k.t, mt.Key())); e != nil {
			return m.mkRV(&RV{t: mt.Elem(), v: copyVal(e.v)})
		}
		return zero(m.namedType("reflect", "Value"))
	})
	V("SetMapIndex", func(m *Mach, r *RV, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		k := m.rvOK(a[1], "SetMapIndex")
		mp := m.rvGet(r).(*Map)
		kk := m.toType(m.rvGet(k), k.t, mt.Key())
		e := m.rv(a[2])
		if e == nil {
			m.mapDelete(mp, kk)
			return nil
		}
		m.mapSet(mp, kk, m.toType(m.rvGet(e), e.t, mt.Elem()))
		return nil
	})
	V("MapKeys", func(m *Mach, r *RV, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		it := m.rangeIter(m.rvGet(r), r.t).(*mapIter)
		var out []Value
		for {
			t := it.next(m).(Tuple)
			if t[0] == false {
				break
			}
			out = append(out, m.mkRV(&RV{t: mt.Key(), v: t[1]}))
		}
		return sliceOf(out)
	})
	type miter struct {
		it   *mapIter
		mt   *types.Map
		k, v Value
	}
	V("MapRange", func(m *Mach, r *RV, a []Value) Value {
		c := new(Value)
		*c = zero(m.namedType("reflect", "MapIter"))
		m.shadow[c] = &miter{it: m.rangeIter(m.rvGet(r), r.t).(*mapIter), mt: r.t.Underlying().(*types.Map)}
		return c
	})
	mi := func(m *Mach, a []Value) *miter { return m.shadow[m.cell(a[0])].(*miter) }
	F("(*reflect.MapIter).Next", func(m *Mach, a []Value) Value {
		x := mi(m, a)
		t := x.it.next(m).(Tuple)
		x.k, x.v = t[1], t[2]
		return t[0]
	})
	F("(*reflect.MapIter).Key", func(m *Mach, a []Value) Value {
		x := mi(m, a)
		return m.mkRV(&RV{t: x.mt.Key(), v: x.k})
	})
	F("(*reflect.MapIter).Value", func(m *Mach, a []Value) Value {
		x := mi(m, a)
		return m.mkRV(&RV{t: x.mt.Elem(), v: x.v})
	})
	V("SetIterKey", func(m *Mach, r *RV, a []Value) Value {
		x := mi(m, a[1:])
		m.rvSet(r, m.toType(x.k, x.mt.Key(), r.t))
		return nil
	})
	V("SetIterValue", func(m *Mach, r *RV, a []Value) Value {
		x := mi(m, a[1:])
		m.rvSet(r, m.toType(x.v, x.mt.Elem(), r.t))
		return nil
	})
	V("NumMethod", func(m *Mach, r *RV, a []Value) Value {
		if it, ok := r.t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		return uint64(len(m.exportedMethods(r.t)))
	})
	V("MethodByName", func(m *Mach, r *RV, a []Value) Value {
		n := m.concStr(a[1])
		if !token.IsExported(n) || !m.hasMethod(r.t, n) {
			return zero(m.namedType("reflect", "Value"))
		}
		return m.boundMethod(r, n)
	})
	V("Method", func(m *Mach, r *RV, a []Value) Value {
		return m.boundMethod(r, m.exportedMethods(r.t)[m.concInt(a[1])].Obj().Name())
	})
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := m.rvOK(a[0], "Call")
		sig := r.t.Underlying().(*types.Signature)
		in := idxList(a[1])
		var args []Value
		np := sig.Params().Len()
		for i := 0; i < np; i++ {
			pt := sig.Params().At(i).Type()
			if sig.Variadic() && i == np-1 {
				et := pt.Underlying().(*types.Slice).Elem()
				var rest []Value
				for _, x := range in[i:] {
					e := m.rv(x)
					rest = append(rest, copyVal(m.toType(m.rvGet(e), e.t, et)))
				}
				if rest == nil {
					args = append(args, nilSlice)
				} else {
					args = append(args, sliceOf(rest))
				}
				break
			}
			e := m.rv(in[i])
			args = append(args, copyVal(m.toType(m.rvGet(e), e.t, pt)))
		}
		res := m.call(fr, m.rvGet(r), args)
		var out []Value
		switch n := sig.Results().Len(); n {
		case 0:
		case 1:
			out = append(out, m.mkRV(&RV{t: sig.Results().At(0).Type(), v: res}))
		default:
			for i := 0; i < n; i++ {
				out = append(out, m.mkRV(&RV{t: sig.Results().At(i).Type(), v: res.(Tuple)[i]}))
			}
		}
		return sliceOf(out)
	}, "(reflect.Value).Call")
	V("Convert", func(m *Mach, r *RV, a []Value) Value {
		t := m.typeOf(a[1])
		if _, ok := t.Underlying().(*types.Interface); ok {
			return m.mkRV(&RV{t: t, v: m.toType(m.rvGet(r), r.t, t)})
		}
		if types.Identical(r.t.Underlying(), t.Underlying()) {
			return m.mkRV(&RV{t: t, v: m.rvGet(r)})
		}
		return m.mkRV(&RV{t: t, v: m.convert(m.rvGet(r), r.t, t)})
	})
	V("CanConvert", func(m *Mach, r *RV, a []Value) Value { return types.ConvertibleTo(r.t, m.typeOf(a[1])) })
	kindIn := func(lo, hi uint64) func(m *Mach, r *RV, a []Value) Value {
		return func(m *Mach, r *RV, a []Value) Value { k := kindOf(r.t); return k >= lo && k <= hi }
	}
	V("CanInt", kindIn(2, 6))
	V("CanUint", kindIn(7, 12))
	V("CanFloat", kindIn(13, 14))
	V("Comparable", func(m *Mach, r *RV, a []Value) Value { return types.Comparable(r.t) })
	V("Equal", func(m *Mach, r *RV, a []Value) Value {
		return m.eq(m.mkIface(r.t, m.rvGet(r)), m.mkIface(m.rvOK(a[1], "Equal").t, m.rvGet(m.rv(a[1]))))
	})
	V("Pointer", func(m *Mach, r *RV, a []Value) Value {
		// only used as an identity or nil test
		if isNilVal(m.rvGet(r)) {
			return uzero
		}
		return uint64(0xc000000000)
	})
	V("Clear", func(m *Mach, r *RV, a []Value) Value {
		switch x := m.rvGet(r).(type) {
		case *Map:
			for _, e := range append([]*mapEntry(nil), x.entries...) {
				if !e.deleted {
					m.mapDelEntry(x, e)
				}
			}
		case Slice:
			et := r.t.Underlying().(*types.Slice).Elem()
			for i := 0; i < x.len; i++ {
				m.assign(&x.arr[i], zero(et))
			}
		}
		return nil
	})
}

// deepEq is reflect.DeepEqual on interface values.
func (m *Mach) deepEq(a, b Value, depth int) Value {
	x, y := a.(Iface), b.(Iface)
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if !m.identical(x.t, y.t) {
		return false
	}
	return m.deepEqT(x.t, x.v, y.v, depth)
}

func (m *Mach) deepEqT(t types.Type, a, b Value, depth int) Value {
	if depth > 40 {
		panic(unsupported("DeepEqual depth"))
	}
	var cs []*Term
	add := func(v Value) bool {
		if bv, ok := v.(bool); ok {
			return bv
		}
		cs = append(cs, v.(*Term))
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return m.deepEq(a, b, depth+1)
	case *types.Pointer:
		if isNilVal(a) || isNilVal(b) {
			return isNilVal(a) && isNilVal(b)
		}
		if a == b {
			return true
		}
		return m.deepEqT(u.Elem(), m.load(a), m.load(b), depth+1)
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		for i := range x {
			if !add(m.deepEqT(u.Field(i).Type(), x[i], y[i], depth+1)) {
				return false
			}
		}
	case *types.Array:
		x, y := a.(Array), b.(Array)
		for i := range x {
			if !add(m.deepEqT(u.Elem(), x[i], y[i], depth+1)) {
				return false
			}
		}
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if x.nn != y.nn || x.len != y.len {
			return false
		}
		for i := 0; i < x.len; i++ {
			if !add(m.deepEqT(u.Elem(), x.arr[i], y.arr[i], depth+1)) {
				return false
			}
		}
	case *types.Map:
		x, y := a.(*Map), b.(*Map)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.n != y.n {
			return false
		}
		for _, e := range x.entries {
			if e.deleted {
				continue
			}
			f := m.mapFind(y, e.k)
			if f == nil || !add(m.deepEqT(u.Elem(), e.v, f.v, depth+1)) {
				return false
			}
		}
	case *types.Signature:
		return isNilVal(a) && isNilVal(b)
	default:
		return m.eq(a, b)
	}
	return m.simp(m.tb.And(cs...))
}
