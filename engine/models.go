package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"os"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(m *Mach, fr *Frame, fn *ssa.Function, args []Value) Value

var models = map[string]modelFn{}
var modelCache sync.Map // *ssa.Function -> modelFn

func modelFor(m *Mach, fn *ssa.Function) modelFn {
	if v, ok := modelCache.Load(fn); ok {
		if v == nil {
			return nil
		}
		f, _ := v.(modelFn)
		return f
	}
	name := fnName(fn)
	f := models[name]
	if rf := m.w.replace[name]; rf != nil {
		f = func(m *Mach, fr *Frame, _ *ssa.Function, args []Value) Value { return m.callFn(fr, rf, args, nil) }
	}
	if f == nil && fn.Synthetic == "" || f == nil && fn.Origin() != nil {
		p := fnPkgPath(fn)
		if pm := pkgModels[p]; pm != nil {
			f = pm(fn, name)
		}
	}
	modelCache.Store(fn, f)
	return f
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// pkgModels give a default model for a whole package.
var pkgModels = map[string]func(fn *ssa.Function, name string) modelFn{}

func reg(f modelFn, names ...string) {
	for _, n := range names {
		models[n] = f
	}
}

func nop(m *Mach, fr *Frame, fn *ssa.Function, args []Value) Value {
	return zeroResult(fn)
}

// body runs the real function body, bypassing the model.
func (m *Mach) body(fr *Frame, fn *ssa.Function, args []Value) Value {
	if fn.Blocks == nil {
		panic(unsupported("no body: %s", fn))
	}
	if fn.Pkg != nil {
		m.ensureInit(fn.Pkg)
	}
	c := m.w.compile(fn)
	f := &Frame{m: m, fn: c, caller: fr, regs: make([]Value, c.nslots)}
	if fr != nil {
		f.depth = fr.depth + 1
	}
	copy(f.regs, args)
	return m.run(f)
}

func globalOverride(m *Mach, g *ssa.Global) (Value, bool) { return nil, false }

func opaqueMethod(m *Mach, o *Opaque, name string) Value {
	panic(unsupported("method %s on opaque %s", name, o.kind))
}

// host conversions
func (m *Mach) concStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			switch y := x.(type) {
			case uint64:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(m.concretize(y))
			}
		}
		return string(b)
	case Poison:
		panic(unsupported("poison: %s", s.why))
	}
	panic(unsupported("concStr %T", v))
}

func isSymStr(v Value) bool { _, ok := v.(*SymStr); return ok }

func bytesOf(v Value) []Value {
	switch x := v.(type) {
	case Slice:
		return x.arr[:x.len]
	case string, *SymStr:
		return strBytes(x)
	case Array:
		return []Value(x)
	}
	panic(unsupported("bytesOf %T", v))
}

func concBytes(b []Value) ([]byte, bool) {
	out := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		out[i] = byte(u)
	}
	return out, true
}

func mkBytes(b []byte) Slice {
	arr := make([]Value, len(b))
	for i, x := range b {
		arr[i] = byteVals[x]
	}
	return Slice{arr: arr, len: len(b), nn: true}
}

func sliceOf(vs []Value) Slice { return Slice{arr: vs, len: len(vs), nn: true} }

func (m *Mach) cell(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		if q, ok := v.(Poison); ok {
			panic(unsupported("poison: %s", q.why))
		}
		panic(unsupported("pointer expected, got %T", v))
	}
	if p == nil {
		m.nilDeref()
	}
	return p
}

// mkError makes an error value from the program's own errors.New.
func (m *Mach) mkError(msg Value) Value {
	return m.callByName("errors", "New", []Value{msg})
}

func (m *Mach) namedType(pkg, name string) types.Type {
	p := m.w.byPath[pkg]
	if p == nil {
		panic(unsupported("no package %s", pkg))
	}
	t := p.Type(name)
	if t == nil {
		panic(unsupported("no type %s.%s", pkg, name))
	}
	return t.Type()
}

func (m *Mach) globalVar(pkg, name string) Value {
	p := m.w.byPath[pkg]
	if p == nil {
		panic(unsupported("no package %s", pkg))
	}
	g := p.Var(name)
	if g == nil {
		panic(unsupported("no var %s.%s", pkg, name))
	}
	m.ensureInit(p)
	return *m.globalCell(g)
}

// method calls a method on a concrete or interface value.
func (m *Mach) method(fr *Frame, v Value, t types.Type, name string, args ...Value) Value {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			m.nilDeref()
		}
		v, t = i.v, i.t
	}
	if o, ok := v.(*Opaque); ok {
		return m.call(fr, opaqueMethod(m, o, name), append([]Value{v}, args...))
	}
	f := m.lookupMethod(t, nil, name)
	if f == nil {
		panic(unsupported("no method %s on %s", name, t))
	}
	return m.callFn(fr, f, append([]Value{v}, args...), nil)
}

func (m *Mach) hasMethod(t types.Type, name string) bool {
	ms := m.w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// ---- vsym

func (m *Mach) addInput(name, kind string, w uint8, sgn bool, t ...Value) {
	k := m.p.names["in:"+name]
	m.p.names["in:"+name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	m.p.inputs = append(m.p.inputs, inputVar{name: name, kind: kind, t: t, w: w, sgn: sgn})
}

func symInt(w uint8, sgn bool) modelFn {
	return func(m *Mach, fr *Frame, fn *ssa.Function, args []Value) Value {
		name := args[0].(string)
		t := m.freshVar(name, w)
		m.addInput(name, "int", w, sgn, t)
		return t
	}
}

func (m *Mach) symBytes(name string, lo, hi int) []Value {
	n := lo
	if hi > lo {
		t := m.freshVar(name+".len", 8)
		if hi-lo > 250 {
			panic(unsupported("symbolic length range"))
		}
		m.assume(m.simp(m.tb.Cmp(OUle, t, m.tb.Const(8, uint64(hi-lo)))))
		n = lo + int(m.concretize(t))
	}
	out := make([]Value, n)
	base := m.p.names[name]
	m.p.names[name] = base + 1
	for i := range out {
		out[i] = m.tb.Var(fmt.Sprintf("%s@%d[%d]", name, base, i), 8)
	}
	m.addInput(name, "bytes", 8, false, out...)
	return out
}

func (m *Mach) boolTerms(v Value) []*Term {
	s := v.(Slice)
	out := make([]*Term, s.len)
	for i := range out {
		out[i] = m.term(s.arr[i], 0)
	}
	return out
}

func init() {
	const V = "github.com/c2FmZQ/tlsproxy/proxy/internal/vsym."
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return false }, V+"Native")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.freshVar(a[0].(string), 0)
		m.addInput(a[0].(string), "bool", 0, false, t)
		return t
	}, V+"Bool")
	reg(symInt(8, false), V+"Byte")
	reg(symInt(16, false), V+"Uint16")
	reg(symInt(32, false), V+"Uint32")
	reg(symInt(64, false), V+"Uint64")
	reg(symInt(64, true), V+"Int64")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		name := a[0].(string)
		lo, hi := m.concInt(a[1]), m.concInt(a[2])
		if hi < lo {
			panic(pathAbort{"infeasible"})
		}
		if lo == hi {
			m.addInput(name, "int", 64, true, uint64(int64(lo)))
			return uint64(int64(lo))
		}
		w := uint8(64)
		switch {
		case hi-lo < 256:
			w = 8
		case hi-lo < 65536:
			w = 16
		case hi-lo < 1<<48:
			w = uint8(bits.Len64(uint64(hi - lo)))
		}
		t := m.freshVar(name, w)
		m.assume(m.simp(m.tb.Cmp(OUle, t, m.tb.Const(w, uint64(hi-lo)))))
		v := m.simp(m.tb.Bin(OAdd, m.tb.ZExt(t, 64), m.tb.Const(64, uint64(int64(lo)))))
		m.addInput(name, "int", 64, true, v)
		return v
	}, V+"Int")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		name := a[0].(string)
		n := m.concInt(a[1])
		k := m.chooseN(name, n)
		m.addInput(name, "int", 64, true, uint64(k))
		return uint64(k)
	}, V+"Choose")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		name := a[0].(string)
		o := a[1].(Slice)
		k := m.chooseN(name, o.len)
		m.addInput(name, "int", 64, true, uint64(k))
		return o.arr[k]
	}, V+"Pick")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return sliceOf(m.symBytes(a[0].(string), m.concInt(a[1]), m.concInt(a[2])))
	}, V+"Bytes")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkStr(m.symBytes(a[0].(string), m.concInt(a[1]), m.concInt(a[2])))
	}, V+"String")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { m.assume(a[0]); return nil }, V+"Assume")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.assert(a[0], m.concStr(a[1]))
		return nil
	}, V+"Assert")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.assert(false, m.concStr(a[0]))
		return nil
	}, V+"Fail")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.p.reached[a[0].(string)] = true
		return nil
	}, V+"Reach")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.p.obsTerm = append(m.p.obsTerm, obsItem{a[0].(string), m.snap(a[1])})
		return nil
	}, V+"Observe")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return uint64(int64(m.concInt(a[0])))
	}, V+"Concrete")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.simp(m.tb.And(m.boolTerms(a[0])...))
	}, V+"And")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.simp(m.tb.Or(m.boolTerms(a[0])...))
	}, V+"Or")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.simp(m.tb.Or(m.tb.Not(m.term(a[0], 0)), m.term(a[1], 0)))
	}, V+"Implies")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := m.term(a[0], 0), m.term(a[1], 0)
		return m.simp(m.tb.Or(m.tb.And(x, y), m.tb.And(m.tb.Not(x), m.tb.Not(y))))
	}, V+"Iff")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.simp(m.tb.Ite(m.term(a[0], 0), m.term(a[1], 64), m.term(a[2], 64)))
	}, V+"Ite")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return m.eq(a[0], a[1]) }, V+"Eq")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.explore = true
		if n := m.concInt(a[0]); n < 0 {
			m.explore = false
		}
		m.preempt = m.concInt(a[0])
		m.delays = false
		return nil
	}, V+"Explore")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.explore = true
		m.preempt = m.concInt(a[0])
		m.delays = true
		return nil
	}, V+"ExploreDelays")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.race = &raceState{cells: map[any]*acc{}, sync: map[any]vclock{}}
		return nil
	}, V+"DetectRaces")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.opts["maporder"] = m.concInt(a[0])
		return nil
	}, V+"MapOrder")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { m.opts["notimers"] = 1; return nil }, V+"NoTimers")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.shadow["deadlock"] = a[0].(string)
		return nil
	}, V+"DeadlockFails")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { m.yield(); return nil }, V+"Yield")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { m.settle(); return nil }, V+"Settle")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		switch n := a[0].(type) {
		case uint64:
			m.clock.tick += int64(n) * 1e9
		case *Term:
			if m.clock.sec == nil {
				m.clock.sec = n
			} else {
				m.clock.sec = m.tb.Bin(OAdd, m.clock.sec, n)
			}
		}
		return nil
	}, V+"Advance")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if v, ok := m.w.cfg.Params[a[0].(string)]; ok {
			return uint64(v)
		}
		return a[1]
	}, V+"Param")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := false
		var msg Value = ""
		func() {
			saved := m.cur
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					p = true
					msg = m.showPanic(tp.v)
					if os.Getenv("VSYM_VERBOSE") != "" {
						fmt.Println("PANIC", msg, m.stackTrace())
					}
					m.cur = saved
				}
			}()
			m.call(fr, a[0], nil)
		}()
		return Tuple{p, msg}
	}, V+"TryPanic")
}

// snap deep-copies slices so later mutation does not change an observation.
func (m *Mach) snap(v Value) Value {
	switch x := v.(type) {
	case Iface:
		return Iface{x.t, m.snap(x.v)}
	case Slice:
		return Slice{arr: append([]Value(nil), x.arr[:x.len]...), len: x.len, nn: x.nn}
	}
	return v
}

// render formats an observed value under a model exactly like vsym.render.
func (m *Mach) render(v Value, model map[string]uint64) string {
	memo := map[*Term]uint64{}
	ev := func(x Value) uint64 {
		switch y := x.(type) {
		case uint64:
			return y
		case bool:
			return b2u(y)
		case *Term:
			return y.Eval(model, memo)
		}
		return 0
	}
	str := func(x Value) string {
		b := strBytes(x)
		o := make([]byte, len(b))
		for i := range b {
			o[i] = byte(ev(b[i]))
		}
		return string(o)
	}
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("%v", v)
	}
	if i.t == nil {
		return "nil"
	}
	if types.Implements(i.t, errorIface) {
		return "error"
	}
	switch t := i.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			return strconv.Quote(str(i.v))
		case t.Info()&types.IsBoolean != 0:
			return fmt.Sprint(ev(i.v) == 1)
		case t.Info()&types.IsInteger != 0:
			w, s := intInfo(t)
			if s {
				return fmt.Sprint(sext(ev(i.v), w))
			}
			return fmt.Sprint(ev(i.v))
		}
	case *types.Slice:
		s := i.v.(Slice)
		if isByteElem(t.Elem()) {
			var sb strings.Builder
			for _, b := range s.arr[:s.len] {
				fmt.Fprintf(&sb, "%02x", ev(b))
			}
			return sb.String()
		}
		if isStr(t.Elem()) {
			var q []string
			for _, e := range s.arr[:s.len] {
				q = append(q, strconv.Quote(str(e)))
			}
			return "[" + strings.Join(q, ",") + "]"
		}
	}
	return "?"
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// settle lets all other goroutines run until none can.
func (m *Mach) settle() {
	g := m.g
	for n := 0; n < 10000; n++ {
		rs := m.runnable()
		var others []*G
		for _, r := range rs {
			if r != g {
				others = append(others, r)
			}
		}
		if len(others) == 0 {
			return
		}
		var t *G
		if m.explore && len(others) > 1 {
			t = m.pickG(others, others[n%len(others)])
		} else {
			t = others[n%len(others)]
		}
		// the settling goroutine only resumes when nobody else can run
		ready := func() bool {
			for _, o := range m.gs {
				if o != g && !o.done && (o.ready == nil || o.ready()) {
					return false
				}
			}
			return true
		}
		g.ready = ready
		m.handTo(g, t)
		g.ready = nil
	}
}
