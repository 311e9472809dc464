package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The configuration is cloned and compared through yaml.Marshal and
// yaml.Unmarshal, again and again with the same concrete values. The library
// runs for real the first time; the result is remembered for the same input.

var yamlMarshalMemo, yamlUnmarshalMemo sync.Map

func init() {
	reg(yamlMarshal, "gopkg.in/yaml.v3.Marshal")
	reg(yamlUnmarshal, "gopkg.in/yaml.v3.Unmarshal")
}

type yamlBail struct{}

// quietBody runs the body without scheduling points, so that it makes no
// difference to the schedule whether the result was remembered.
func (m *Mach) quietBody(fr *Frame, fn *ssa.Function, args []Value) Value {
	p := m.preempt
	m.preempt = 0
	defer func() { m.preempt = p }()
	return m.body(fr, fn, args)
}

func yamlMarshal(m *Mach, fr *Frame, fn *ssa.Function, args []Value) Value {
	if m.race != nil {
		return m.body(fr, fn, args)
	}
	var sb strings.Builder
	in, ok := args[0].(Iface)
	if !ok || in.t == nil || !m.dumpIface(&sb, in) {
		return m.body(fr, fn, args)
	}
	key := sb.String()
	if v, ok := yamlMarshalMemo.Load(key); ok {
		return Tuple{m.bytesSlice(v.(string)), nilIface}
	}
	r := m.quietBody(fr, fn, args)
	if t, ok := r.(Tuple); ok {
		if e, ok := t[1].(Iface); ok && e.t == nil {
			if s, ok := concSlice(t[0]); ok {
				yamlMarshalMemo.Store(key, s)
			}
		}
	}
	return r
}

func (m *Mach) bytesSlice(s string) Value {
	arr := make([]Value, len(s))
	for i := range arr {
		arr[i] = byteVals[s[i]]
	}
	return Slice{arr: arr, len: len(s), nn: true}
}

func concSlice(v Value) (string, bool) {
	s, ok := v.(Slice)
	if !ok {
		return "", false
	}
	b := make([]byte, s.len)
	for i := range b {
		x, ok := s.arr[i].(uint64)
		if !ok {
			return "", false
		}
		b[i] = byte(x)
	}
	return string(b), true
}

func yamlUnmarshal(m *Mach, fr *Frame, fn *ssa.Function, args []Value) Value {
	if m.race != nil {
		return m.body(fr, fn, args)
	}
	src, ok := concSlice(args[0])
	out, ok2 := args[1].(Iface)
	if !ok || !ok2 || out.t == nil {
		return m.body(fr, fn, args)
	}
	p, ok := out.v.(*Value)
	if !ok || p == nil || !isZeroVal(*p) {
		return m.body(fr, fn, args)
	}
	key := fmt.Sprintf("%d:%s", m.typeID(out.t), src)
	if v, ok := yamlUnmarshalMemo.Load(key); ok {
		c, _ := m.deepCopy(v, 0)
		m.assign(p, c)
		return nilIface
	}
	r := m.quietBody(fr, fn, args)
	if e, ok := r.(Iface); ok && e.t == nil {
		if c, ok := m.deepCopy(*p, 0); ok {
			yamlUnmarshalMemo.Store(key, c)
		}
	}
	return r
}

func isZeroVal(v Value) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case string:
		return x == ""
	case *Value:
		return x == nil
	case *Map:
		return x == nil
	case *Chan:
		return x == nil
	case *Closure:
		return x == nil
	case Slice:
		return x.arr == nil && !x.nn && x.len == 0
	case Iface:
		return x.t == nil
	case Struct:
		for _, y := range x {
			if !isZeroVal(y) {
				return false
			}
		}
		return true
	case Array:
		for _, y := range x {
			if !isZeroVal(y) {
				return false
			}
		}
		return true
	}
	return false
}

// deepCopy copies a concrete tree; ok is false if it has other parts.
func (m *Mach) deepCopy(v Value, depth int) (Value, bool) {
	if depth > 200 {
		return nil, false
	}
	seq := func(in []Value) ([]Value, bool) {
		out := make([]Value, len(in))
		for i, y := range in {
			c, ok := m.deepCopy(y, depth+1)
			if !ok {
				return nil, false
			}
			out[i] = c
		}
		return out, true
	}
	switch x := v.(type) {
	case bool, uint64, float64, string:
		return v, true
	case *Value:
		if x == nil {
			return v, true
		}
		c, ok := m.deepCopy(*x, depth+1)
		if !ok {
			return nil, false
		}
		n := new(Value)
		*n = c
		return n, true
	case *Map:
		if x == nil {
			return v, true
		}
		n := m.newMap(x.kt)
		for _, e := range x.entries {
			if e.deleted {
				continue
			}
			if e.symkey || !plainKey(e.k) {
				return nil, false
			}
			c, ok := m.deepCopy(e.v, depth+1)
			if !ok {
				return nil, false
			}
			ne := &mapEntry{k: copyVal(e.k), v: c, hash: e.hash}
			n.entries = append(n.entries, ne)
			n.idx[e.hash] = ne
			n.n++
		}
		return n, true
	case *Chan:
		return v, x == nil
	case *Closure:
		return v, x == nil
	case Slice:
		if x.arr == nil {
			return x, true
		}
		a, ok := seq(x.arr)
		return Slice{arr: a, len: x.len, nn: x.nn}, ok
	case Iface:
		if x.t == nil {
			return x, true
		}
		c, ok := m.deepCopy(x.v, depth+1)
		return Iface{x.t, c}, ok
	case Struct:
		a, ok := seq(x)
		return Struct(a), ok
	case Array:
		a, ok := seq(x)
		return Array(a), ok
	}
	return nil, false
}

func plainKey(v Value) bool {
	switch x := v.(type) {
	case bool, uint64, string:
		return true
	case Iface:
		return x.t != nil && plainKey(x.v)
	}
	return false
}

var customYAML sync.Map // types.Type -> bool

func hasCustomYAML(t types.Type) bool {
	if v, ok := customYAML.Load(t); ok {
		return v.(bool)
	}
	r := false
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "MarshalYAML", "MarshalText", "IsZero", "UnmarshalYAML", "UnmarshalText":
				r = true
			}
		}
	}
	customYAML.Store(t, r)
	return r
}

func (m *Mach) dumpIface(sb *strings.Builder, x Iface) bool {
	fmt.Fprintf(sb, "I%d(", m.typeID(x.t))
	if !m.dump(sb, x.v, x.t, 0) {
		return false
	}
	sb.WriteString(")")
	return true
}

// dump writes what yaml.Marshal can see of a concrete value.
func (m *Mach) dump(sb *strings.Builder, v Value, t types.Type, depth int) bool {
	if depth > 100 {
		return false
	}
	if _, ok := t.(*types.Named); ok && hasCustomYAML(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case bool:
			fmt.Fprintf(sb, "b%v", x)
		case uint64:
			fmt.Fprintf(sb, "i%d", x)
		case float64:
			fmt.Fprintf(sb, "f%v", x)
		case string:
			fmt.Fprintf(sb, "s%d:%s", len(x), x)
		default:
			return false
		}
		return true
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok {
			return false
		}
		if p == nil {
			sb.WriteString("nil")
			return true
		}
		sb.WriteString("&")
		return m.dump(sb, *p, u.Elem(), depth+1)
	case *types.Slice:
		x, ok := v.(Slice)
		if !ok {
			return false
		}
		fmt.Fprintf(sb, "%v%d[", x.nn || x.arr != nil, x.len)
		for i := 0; i < x.len; i++ {
			if !m.dump(sb, x.arr[i], u.Elem(), depth+1) {
				return false
			}
			sb.WriteString(",")
		}
		sb.WriteString("]")
		return true
	case *types.Array:
		x, ok := v.(Array)
		if !ok {
			return false
		}
		sb.WriteString("[")
		for _, y := range x {
			if !m.dump(sb, y, u.Elem(), depth+1) {
				return false
			}
			sb.WriteString(",")
		}
		sb.WriteString("]")
		return true
	case *types.Map:
		x, ok := v.(*Map)
		if !ok {
			return false
		}
		if x == nil {
			sb.WriteString("nilmap")
			return true
		}
		var l []string
		for _, e := range x.entries {
			if e.deleted {
				continue
			}
			if e.symkey || !plainKey(e.k) {
				return false
			}
			var s strings.Builder
			if !m.dump(&s, e.k, u.Key(), depth+1) {
				return false
			}
			s.WriteString("=>")
			if !m.dump(&s, e.v, u.Elem(), depth+1) {
				return false
			}
			l = append(l, s.String())
		}
		sort.Strings(l)
		fmt.Fprintf(sb, "m%d{%s}", len(l), strings.Join(l, ";"))
		return true
	case *types.Interface:
		x, ok := v.(Iface)
		if !ok {
			return false
		}
		if x.t == nil {
			sb.WriteString("nil")
			return true
		}
		return m.dumpIface(sb, x)
	case *types.Struct:
		x, ok := v.(Struct)
		if !ok {
			return false
		}
		sb.WriteString("{")
		for i, y := range x {
			f := u.Field(i)
			if !f.Exported() && !f.Anonymous() || reflect.StructTag(u.Tag(i)).Get("yaml") == "-" {
				continue
			}
			if !m.dump(sb, y, f.Type(), depth+1) {
				return false
			}
			sb.WriteString(",")
		}
		sb.WriteString("}")
		return true
	}
	return false
}
