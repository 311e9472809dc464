package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- compiled form (shared by all machines)

type opnd struct {
	kind uint8 // 0 none, 1 slot, 2 const, 3 global, 4 func
	slot int
	val  Value
	glob *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int
	w   uint8 // width for ints
	sgn bool
	k   uint8 // misc kind
}

type cblock struct {
	phis []*cinstr
	code []*cinstr
	b    *ssa.BasicBlock
}

type cfunc struct {
	fn     *ssa.Function
	nslots int
	blocks []*cblock
	params int
	inRepo bool
}

type World struct {
	prog    *ssa.Program
	mu      sync.Mutex
	cfs     map[*ssa.Function]*cfunc
	sizes   types.Sizes
	typeMu  sync.Mutex
	typeIDs typeutil.Map
	canon   []types.Type
	byPath  map[string]*ssa.Package
	repo    string
	cfg     *RunConfig
	embeds  map[string]string
	replace map[string]*ssa.Function // symbolic-only stand-ins for library functions
}

func (w *World) compile(fn *ssa.Function) *cfunc {
	w.mu.Lock()
	defer w.mu.Unlock()
	if c, ok := w.cfs[fn]; ok {
		return c
	}
	c := &cfunc{fn: fn}
	slots := map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		i := len(slots)
		slots[v] = i
		return i
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	c.params = len(fn.Params)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	mkop := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{}
		case *ssa.Const:
			return opnd{kind: 2, val: constValue(x)}
		case *ssa.Global:
			return opnd{kind: 3, glob: x}
		case *ssa.Function:
			return opnd{kind: 4, val: x}
		case *ssa.Builtin:
			return opnd{kind: 4, val: x}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %s in %s", v, fn))
		}
		return opnd{kind: 1, slot: s}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b}
		for _, in := range b.Instrs {
			ci := &cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range x.Edges {
					ci.ops = append(ci.ops, mkop(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.BinOp:
				ci.w, ci.sgn = intInfo(x.X.Type())
			case *ssa.UnOp:
				ci.w, ci.sgn = intInfo(x.Type())
			}
			for _, o := range in.Operands(nil) {
				if *o == nil {
					ci.ops = append(ci.ops, opnd{})
				} else {
					ci.ops = append(ci.ops, mkop(*o))
				}
			}
			cb.code = append(cb.code, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	c.nslots = len(slots)
	if p := fnPkgPath(fn); strings.HasPrefix(p, "github.com/c2FmZQ/tlsproxy") {
		c.inRepo = true
	}
	w.cfs[fn] = c
	return c
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return ob.Pkg().Path()
		}
	}
	return ""
}

func intInfo(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := c.Type().(*types.TypeParam); ok {
		_ = tp
		return Poison{"const of type param"}
	}
	b, ok := t.(*types.Basic)
	if !ok {
		return Poison{"const " + c.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, _ := intInfo(b)
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return uint64(i) & mask(w)
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return u & mask(w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	}
	return Poison{"const " + c.String()}
}

// ---- machine

type Mach struct {
	w       *World
	ex      *Explorer
	tb      *TB
	solver  *Solver
	auxS    *Solver
	begun   time.Time
	p       *Path
	st      Stats
	pending []WorkItem

	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	initMode int
	journal  []func()
	jcells   []jcell

	sched
	clock        clockState
	shadow       map[any]any // per-path host state keyed by cell or object
	nonce        uint64
	cur          *Frame
	maxSteps     int64
	fns          map[*cfunc]bool
	ltCache      map[types.Type]int
	methCache    map[methKey]*ssa.Function
	panicking    bool
	harnessDB    bool
	initWhy      map[string]int
	opts         map[string]int
	uniq         map[string]*Value
	goPanic      string
	lastDead     string
	rtypes       map[int]*Value
	rtOf         map[*Value]types.Type
	rtPtrT       types.Type
	goPanicStack []string
	hostPanic    any
	killing      bool
	killAck      chan struct{}
	pathEnd      string
	deadWhy      string
	timerFires   int
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type jcell struct {
	p   *Value
	old Value
}

func NewMach(w *World, ex *Explorer, solverBin string) *Mach {
	m := &Mach{w: w, ex: ex, tb: NewTB(), solver: NewSolver(solverBin, 20000),
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		fns: map[*cfunc]bool{}, ltCache: map[types.Type]int{}, methCache: map[methKey]*ssa.Function{}, maxSteps: 30000000,
		initWhy: map[string]int{}}
	m.resetPathState()
	return m
}

func (m *Mach) resetPathState() {
	m.shadow = map[any]any{}
	m.nonce = 0
	m.timerFires = 0
	m.sched = newSched()
	m.clock = clockState{}
	m.opts = map[string]int{}
	m.cur = nil
}

func (m *Mach) undo(f func()) {
	if m.initMode == 0 && m.p != nil {
		m.journal = append(m.journal, f)
		m.jcells = append(m.jcells, jcell{nil, nil})
	}
}

func (m *Mach) rollback() {
	j := len(m.journal)
	for i := len(m.jcells) - 1; i >= 0; i-- {
		c := m.jcells[i]
		if c.p == nil {
			j--
			m.journal[j]()
			m.journal[j] = nil
		} else {
			*c.p = c.old
		}
		m.jcells[i] = jcell{}
	}
	m.jcells = m.jcells[:0]
	m.journal = m.journal[:0]
}

// set writes a scalar cell with journaling.
func (m *Mach) set(p *Value, v Value) {
	if m.initMode == 0 && m.p != nil {
		m.jcells = append(m.jcells, jcell{p, *p})
	}
	*p = v
}

func (m *Mach) typeID(t types.Type) int {
	if id, ok := m.ltCache[t]; ok {
		return id
	}
	m.w.typeMu.Lock()
	defer m.w.typeMu.Unlock()
	var id int
	if v := m.w.typeIDs.At(t); v != nil {
		id = v.(int)
	} else {
		id = len(m.w.canon) + 1
		m.w.canon = append(m.w.canon, t)
		m.w.typeIDs.Set(t, id)
	}
	m.ltCache[t] = id
	return id
}

func (m *Mach) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	return m.typeID(a) == m.typeID(b)
}

// ---- panics

type targetPanic struct{ v Value } // v is an Iface

type goExit struct{}

func (m *Mach) runtimeError(msg string) Value {
	if pk := m.w.byPath["runtime"]; pk != nil {
		if t := pk.Type("errorString"); t != nil {
			return Iface{t: t.Type(), v: msg}
		}
	}
	return Iface{t: types.Typ[types.String], v: "runtime error: " + msg}
}

func (m *Mach) throwRuntime(msg string) { panic(targetPanic{m.runtimeError(msg)}) }
func (m *Mach) throwPlain(msg string)   { panic(targetPanic{m.runtimeError(msg)}) }

// protect runs f and maps path-ending host panics to a reason; "" = finished.
func (m *Mach) protect(f func()) (why string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathAbort:
				why = x.why
			case unsupportedErr:
				why = "unsupported: " + x.why + m.where()
			case targetPanic:
				why = "panic escaped: " + m.showPanic(x.v)
			case runtime.Error:
				why = "engine failure: " + x.Error() + m.where()
				if os.Getenv("VSYM_DEBUG") != "" {
					fmt.Println(why)
					debug.PrintStack()
				}
			default:
				panic(r)
			}
		}
	}()
	f()
	return ""
}

func (m *Mach) where() string {
	if m.cur == nil {
		return ""
	}
	s := ""
	n := 0
	for f := m.cur; f != nil && n < 6; f = f.caller {
		s += " < " + f.fn.fn.String()
		if f.ci != nil {
			if p := f.ci.in.Pos(); p.IsValid() {
				pos := m.w.prog.Fset.Position(p)
				s += fmt.Sprintf(":%d", pos.Line)
			}
		}
		n++
	}
	return s
}

func (m *Mach) stackTrace() []string {
	var out []string
	for f := m.cur; f != nil && len(out) < 25; f = f.caller {
		s := f.fn.fn.String()
		if f.ci != nil {
			if p := f.ci.in.Pos(); p.IsValid() {
				s += " " + m.w.prog.Fset.Position(p).String()
			}
		}
		out = append(out, s)
	}
	return out
}

func (m *Mach) showPanic(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("%v", v)
	}
	if i.t == nil {
		return "nil"
	}
	switch x := i.v.(type) {
	case string:
		return x
	}
	return fmt.Sprintf("%s value %v", i.t, i.v)
}

// ---- frames

type deferred struct {
	fn   Value
	args []Value
	ci   *cinstr
}

type Frame struct {
	m          *Mach
	fn         *cfunc
	regs       []Value
	caller     *Frame
	defers     []deferred
	result     Value
	panicV     *targetPanic
	recov      bool
	block      int
	prev       int
	ci         *cinstr
	isDefer    bool
	depth      int
	goexit     bool
	deferOwner *Frame
}

func (fr *Frame) get(o *opnd) Value {
	switch o.kind {
	case 1:
		return fr.regs[o.slot]
	case 2:
		return o.val
	case 3:
		return fr.m.globalCell(o.glob)
	case 4:
		return o.val
	}
	return nil
}

func (m *Mach) globalCell(g *ssa.Global) *Value {
	if c, ok := m.globals[g]; ok {
		return c
	}
	m.ensureInit(g.Pkg)
	if c, ok := m.globals[g]; ok {
		return c
	}
	c := new(Value)
	*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = c
	return c
}

// call runs fn with args on the current goroutine.
func (m *Mach) call(caller *Frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return m.callFn(caller, f, args, nil)
	case *Closure:
		if f == nil {
			m.throwRuntime("invalid memory address or nil pointer dereference")
		}
		return m.callFn(caller, f.fn, args, f.env)
	case *NativeFn:
		return f.f(caller, args)
	case *ssa.Builtin:
		return m.callBuiltin(caller, f, args, nil)
	case Poison:
		panic(unsupported("call of poison: %s", f.why))
	}
	panic(unsupported("call of %T", fn))
}

func (m *Mach) callFn(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	if mod := modelFor(m, fn); mod != nil {
		return mod(m, caller, fn, args)
	}
	if fn.Blocks == nil {
		panic(unsupported("no body: %s", fn))
	}
	if fn.Pkg != nil {
		m.ensureInit(fn.Pkg)
	}
	c := m.w.compile(fn)
	if c.inRepo && !m.fns[c] {
		m.fns[c] = true
	}
	fr := &Frame{m: m, fn: c, caller: caller, regs: make([]Value, c.nslots)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 2000 {
			panic(unsupported("call depth"))
		}
	}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], env)
	if len(args) != c.params {
		panic(unsupported("arg count %s: %d vs %d", fn, len(args), c.params))
	}
	return m.run(fr)
}

func (m *Mach) run(fr *Frame) (res Value) {
	saved := m.cur
	m.cur = fr
	fr.block = 0
	fr.prev = -1
	for {
		done := m.runBody(fr)
		if done {
			break
		}
	}
	m.cur = saved
	return fr.result
}

// runBody executes until return (true) or until a panic was recovered and
// execution must continue at the Recover block (false).
func (m *Mach) runBody(fr *Frame) (done bool) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		m.cur = fr
		switch x := r.(type) {
		case targetPanic:
			fr.panicV = &x
			fr.goexit = false
		case goExit:
			fr.goexit = true
		case nil:
			panic("runtime.Goexit or nil panic in engine")
		default:
			if re, isRE := r.(runtime.Error); isRE {
				if os.Getenv("VSYM_DEBUG") != "" {
					fmt.Println("ENGINE", re, m.where())
					debug.PrintStack()
				}
				r = unsupportedErr{"engine failure: " + re.Error() + m.where()}
			}
			panic(r)
		}
		m.runDefers(fr)
		if fr.goexit {
			panic(goExit{})
		}
		if fr.panicV != nil {
			panic(*fr.panicV)
		}
		// recovered
		if fr.fn.fn.Recover == nil {
			fr.result = zeroResult(fr.fn.fn)
			done = true
			return
		}
		fr.prev = -1
		fr.block = fr.fn.fn.Recover.Index
		done = false
	}()
	for {
		b := fr.fn.blocks[fr.block]
		if len(b.phis) > 0 {
			var tmp [16]Value
			vals := tmp[:0]
			pi := 0
			for i, p := range b.b.Preds {
				if p.Index == fr.prev {
					pi = i
					break
				}
			}
			for _, ph := range b.phis {
				vals = append(vals, fr.get(&ph.ops[pi]))
			}
			for i, ph := range b.phis {
				fr.regs[ph.dst] = vals[i]
			}
		}
		if m.p != nil {
			m.p.steps += int64(len(b.code))
			if fnProf != nil {
				fnProf.add(fr, int64(len(b.code)))
			}
			if m.p.steps > m.maxSteps {
				panic(unsupported("step bound"))
			}
		}
		next := -1
		for _, ci := range b.code {
			fr.ci = ci
			n := m.exec(fr, ci)
			if n == execReturn {
				ok = true
				return true
			}
			if n >= 0 {
				next = n
			}
		}
		if next < 0 {
			panic(fmt.Sprintf("block without successor in %s", fr.fn.fn))
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (m *Mach) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.runDefer(fr, d)
	}
}

func (m *Mach) runDefer(fr *Frame, d deferred) {
	ok := false
	defer func() {
		if ok {
			return
		}
		switch x := recover().(type) {
		case targetPanic:
			fr.panicV = &x // replaces
			fr.goexit = false
			m.cur = fr
		case goExit:
			fr.goexit = true
			fr.panicV = nil
			m.cur = fr
		case nil:
		default:
			panic(x)
		}
	}()
	// a deferred call's recover() looks at its caller frame
	saved := m.cur
	m.cur = fr
	pseudo := &Frame{m: m, fn: fr.fn, caller: fr, deferOwner: fr, depth: fr.depth}
	switch f := d.fn.(type) {
	case *ssa.Builtin:
		if f.Name() == "recover" {
			break
		}
		m.callBuiltin(fr, f, d.args, d.ci)
	default:
		m.call(pseudo, d.fn, d.args)
	}
	m.cur = saved
	ok = true
}

// doRecover implements recover() called from frame fr.
func (m *Mach) doRecover(fr *Frame) Value {
	// fr is the deferred function's frame; its caller is the pseudo frame
	if fr != nil && fr.caller != nil && fr.caller.deferOwner != nil {
		own := fr.caller.deferOwner
		if own.panicV != nil {
			v := own.panicV.v
			own.panicV = nil
			return v
		}
	}
	return nilIface
}

const (
	execNext   = -1
	execReturn = -2
)

func (m *Mach) nilDeref() {
	m.throwRuntime("invalid memory address or nil pointer dereference")
}

func (m *Mach) load(p Value) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			m.nilDeref()
		}
		if m.race != nil {
			m.raceRead(x)
		}
		v := *x
		switch v.(type) {
		case Struct, Array:
			return copyVal(v)
		}
		return v
	case *SymPtr:
		return m.symLoad(x)
	case Poison:
		panic(unsupported("load poison: %s", x.why))
	case *Opaque:
		panic(unsupported("load through opaque %s", x.kind))
	}
	panic(unsupported("load %T", p))
}

func (m *Mach) symLoad(x *SymPtr) Value {
	// ite chain over integer elements; otherwise concretise
	w := uint8(0)
	for _, e := range x.arr {
		switch t := e.(type) {
		case uint64:
		case *Term:
			w = t.w
		default:
			i := m.concretize(x.idx)
			return m.load(&x.arr[i])
		}
	}
	_ = w
	return &lazyIte{x}
}

// lazyIte is resolved by the caller, which knows the width.
type lazyIte struct{ p *SymPtr }

func (m *Mach) iteOf(p *SymPtr, w uint8) Value {
	// group equal values
	groups := map[uint64][]*Term{}
	var order []uint64
	var rest *Term
	for i, e := range p.arr {
		c := m.tb.Eq(p.idx, m.tb.Const(p.idx.w, uint64(i)))
		if c == m.tb.F {
			continue
		}
		switch t := e.(type) {
		case uint64:
			if _, ok := groups[t]; !ok {
				order = append(order, t)
			}
			groups[t] = append(groups[t], c)
		case *Term:
			if rest == nil {
				rest = t
			} else {
				rest = m.tb.Ite(c, t, rest)
			}
		}
	}
	if len(order) == 0 {
		return m.simp(rest)
	}
	// the most frequent constant is the default
	best := order[0]
	for _, v := range order {
		if len(groups[v]) > len(groups[best]) {
			best = v
		}
	}
	var r *Term
	if rest == nil {
		r = m.tb.Const(w, best)
	} else {
		r = rest
		r = m.tb.Ite(m.tb.Or(groups[best]...), m.tb.Const(w, best), r)
	}
	for _, v := range order {
		if v == best {
			continue
		}
		r = m.tb.Ite(m.tb.Or(groups[v]...), m.tb.Const(w, v), r)
	}
	return m.simp(r)
}

func (m *Mach) store(p Value, v Value) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			m.nilDeref()
		}
		if m.race != nil {
			m.raceWrite(x)
		}
		m.assign(x, v)
	case *SymPtr:
		for i := range x.arr {
			c := m.tb.Eq(x.idx, m.tb.Const(x.idx.w, uint64(i)))
			if c == m.tb.F {
				continue
			}
			old := x.arr[i]
			switch v.(type) {
			case uint64, *Term, bool:
				var w uint8
				if t, ok := v.(*Term); ok {
					w = t.w
				} else if t, ok := old.(*Term); ok {
					w = t.w
				} else if _, ok := v.(bool); ok {
					w = 0
				} else {
					i := m.concretize(x.idx)
					m.store(&x.arr[i], v)
					return
				}
				m.set(&x.arr[i], m.simp(m.tb.Ite(c, m.term(v, w), m.term(old, w))))
			default:
				i := m.concretize(x.idx)
				m.store(&x.arr[i], v)
				return
			}
		}
	case Poison:
		panic(unsupported("store poison: %s", x.why))
	default:
		panic(unsupported("store %T", p))
	}
}

// assign copies v into the cell, keeping the identity of nested cells.
func (m *Mach) assign(x *Value, v Value) {
	switch nv := v.(type) {
	case Struct:
		if old, ok := (*x).(Struct); ok && len(old) == len(nv) {
			for i := range nv {
				m.assign(&old[i], nv[i])
			}
			return
		}
		m.set(x, copyVal(v))
	case Array:
		if old, ok := (*x).(Array); ok && len(old) == len(nv) {
			for i := range nv {
				m.assign(&old[i], nv[i])
			}
			return
		}
		m.set(x, copyVal(v))
	default:
		m.set(x, v)
	}
}

func (m *Mach) exec(fr *Frame, ci *cinstr) int {
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		fr.regs[ci.dst] = m.unop(fr, in, ci)
	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(in.Op, ci.w, ci.sgn, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.X.Type(), in.Y.Type())
	case *ssa.Call:
		r := m.doCall(fr, ci, &in.Call)
		if li, ok := r.(*lazyIte); ok {
			w, _ := intInfo(in.Type())
			r = m.iteOf(li.p, w)
		}
		fr.regs[ci.dst] = r
	case *ssa.If:
		if m.truth(fr.get(&ci.ops[0])) {
			return in.Block().Succs[0].Index
		}
		return in.Block().Succs[1].Index
	case *ssa.Jump:
		return in.Block().Succs[0].Index
	case *ssa.Return:
		switch len(ci.ops) {
		case 0:
			fr.result = nil
		case 1:
			fr.result = fr.get(&ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				t[i] = fr.get(&ci.ops[i])
			}
			fr.result = t
		}
		return execReturn
	case *ssa.Alloc:
		c := new(Value)
		*c = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = c
	case *ssa.Store:
		m.store(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.FieldAddr:
		p := fr.get(&ci.ops[0])
		switch x := p.(type) {
		case *Value:
			if x == nil {
				m.nilDeref()
			}
			switch s := (*x).(type) {
			case Struct:
				fr.regs[ci.dst] = &s[in.Field]
			case Poison:
				panic(unsupported("field of poison: %s", s.why))
			default:
				panic(unsupported("fieldaddr in %T (%s)", *x, in.X.Type()))
			}
		case Poison:
			panic(unsupported("poison: %s", x.why))
		case *Opaque:
			panic(unsupported("field of opaque %s", x.kind))
		case *SymPtr:
			i := m.concretize(x.idx)
			fr.regs[ci.dst] = &x.arr[i].(Struct)[in.Field]
		default:
			panic(unsupported("fieldaddr %T", p))
		}
	case *ssa.Field:
		switch s := fr.get(&ci.ops[0]).(type) {
		case Struct:
			fr.regs[ci.dst] = s[in.Field]
		case Poison:
			panic(unsupported("poison: %s", s.why))
		default:
			panic(unsupported("field of %T", s))
		}
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = m.indexAddr(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.Index.Type())
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		idx := fr.get(&ci.ops[1])
		switch a := x.(type) {
		case Array:
			p := m.indexInto([]Value(a), len(a), idx, in.Index.Type())
			fr.regs[ci.dst] = m.loadW(p, in.Type())
		case string, *SymStr:
			fr.regs[ci.dst] = m.strIndex(a, idx, in.Index.Type())
		default:
			panic(unsupported("index %T", x))
		}
	case *ssa.Extract:
		t := fr.get(&ci.ops[0])
		tt, ok := t.(Tuple)
		if !ok {
			if p, ok := t.(Poison); ok {
				panic(unsupported("poison: %s", p.why))
			}
			panic(unsupported("extract of %T", t))
		}
		fr.regs[ci.dst] = tt[in.Index]
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{t: in.X.Type(), v: fr.get(&ci.ops[0])}
	case *ssa.Convert:
		fr.regs[ci.dst] = m.convert(fr.get(&ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.convert(fr.get(&ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			m.throwRuntime("cannot convert slice to array pointer: length too short")
		}
		if !s.nn {
			fr.regs[ci.dst] = nilPtr
		} else {
			c := new(Value)
			*c = Array(s.arr[:n:n])
			fr.regs[ci.dst] = c
		}
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = m.typeAssert(in, fr.get(&ci.ops[0]))
	case *ssa.Phi:
		panic("phi")
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = fr.get(&ci.ops[i+1])
		}
		fr.regs[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		fr.regs[ci.dst] = m.newMap(in.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeSlice:
		n := m.concInt(fr.get(&ci.ops[0]))
		c := m.concInt(fr.get(&ci.ops[1]))
		if n < 0 || n > 1<<26 {
			m.throwRuntime("makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			m.throwRuntime("makeslice: cap out of range")
		}
		fr.regs[ci.dst] = m.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.Slice:
		fr.regs[ci.dst] = m.sliceOp(fr, ci, in)
	case *ssa.Lookup:
		fr.regs[ci.dst] = m.lookup(fr, ci, in)
	case *ssa.MapUpdate:
		mv := fr.get(&ci.ops[0])
		mp, ok := mv.(*Map)
		if !ok {
			panic(unsupported("mapupdate %T", mv))
		}
		if m.race != nil && mp != nil {
			m.raceMap(mp, true)
		}
		m.mapSet(mp, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
	case *ssa.Range:
		fr.regs[ci.dst] = m.rangeIter(fr.get(&ci.ops[0]), in.X.Type())
	case *ssa.Next:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(iter).next(m)
	case *ssa.Panic:
		v := fr.get(&ci.ops[0])
		panic(targetPanic{v})
	case *ssa.RunDefers:
		m.runDefers(fr)
		if fr.goexit {
			panic(goExit{})
		}
		if fr.panicV != nil {
			p := *fr.panicV
			panic(p)
		}
	case *ssa.Defer:
		fn, args := m.prepareCall(fr, ci, &in.Call)
		d := deferred{fn, args, ci}
		if in.DeferStack != nil {
			ds := fr.get(&ci.ops[len(ci.ops)-1])
			if o, ok := ds.(*Opaque); ok {
				f := o.v.(*Frame)
				f.defers = append(f.defers, d)
				break
			}
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		fn, args := m.prepareCall(fr, ci, &in.Call)
		m.spawn(fn, args, ci)
	case *ssa.MakeChan:
		n := m.concInt(fr.get(&ci.ops[0]))
		fr.regs[ci.dst] = &Chan{cap: n, et: in.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.Send:
		m.chanSend(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Select:
		fr.regs[ci.dst] = m.selectOp(fr, ci, in)
	default:
		panic(unsupported("instr %T", ci.in))
	}
	return execNext
}

func (m *Mach) loadW(p Value, t types.Type) Value {
	v := m.load(p)
	if li, ok := v.(*lazyIte); ok {
		w, _ := intInfo(t)
		return m.iteOf(li.p, w)
	}
	return v
}

func (m *Mach) concInt(v Value) int {
	switch x := v.(type) {
	case uint64:
		return int(int64(x))
	case *Term:
		return int(sext(m.concretize(x), x.w))
	case Poison:
		panic(unsupported("poison: %s", x.why))
	}
	panic(unsupported("concInt %T", v))
}

func (m *Mach) makeSlice(et types.Type, n, c int) Slice {
	arr := make([]Value, c)
	z := zero(et)
	switch z.(type) {
	case Struct, Array:
		for i := range arr {
			arr[i] = copyVal(z)
		}
	default:
		for i := range arr {
			arr[i] = z
		}
	}
	return Slice{arr: arr, len: n, nn: true}
}

func (m *Mach) indexAddr(x, idx Value, it types.Type) Value {
	switch a := x.(type) {
	case Slice:
		return m.indexInto(a.arr, a.len, idx, it)
	case *Value:
		if a == nil {
			m.nilDeref()
		}
		arr, ok := (*a).(Array)
		if !ok {
			panic(unsupported("indexaddr into %T", *a))
		}
		return m.indexInto([]Value(arr), len(arr), idx, it)
	case Poison:
		panic(unsupported("poison: %s", a.why))
	}
	panic(unsupported("indexaddr %T", x))
}

func (m *Mach) idxTerm(t *Term, it types.Type) *Term {
	w, sgn := intInfo(it)
	if w == 64 {
		return t
	}
	if sgn {
		return m.tb.SExt(t, 64)
	}
	return m.tb.ZExt(t, 64)
}

func idx64(u uint64, it types.Type) int64 {
	w, sgn := intInfo(it)
	if sgn {
		return sext(u, w)
	}
	return int64(u)
}

func (m *Mach) indexInto(arr []Value, n int, idx Value, it types.Type) Value {
	switch i := idx.(type) {
	case uint64:
		k := idx64(i, it)
		if k < 0 || k >= int64(n) {
			m.throwRuntime(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return &arr[k]
	case *Term:
		t := m.idxTerm(i, it)
		if !m.truth(m.simp(m.tb.Cmp(OUlt, t, m.tb.Const(64, uint64(n))))) {
			m.throwRuntime(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		if n > 300 {
			return &arr[m.concretize(t)]
		}
		return &SymPtr{arr: arr[:n], idx: t}
	case Poison:
		panic(unsupported("poison: %s", i.why))
	}
	panic(unsupported("index by %T", idx))
}

func (m *Mach) strIndex(s Value, idx Value, it types.Type) Value {
	n := slen(s)
	switch i := idx.(type) {
	case uint64:
		k := idx64(i, it)
		if k < 0 || k >= int64(n) {
			m.throwRuntime(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return sbyte(s, int(k))
	case *Term:
		t := m.idxTerm(i, it)
		if !m.truth(m.simp(m.tb.Cmp(OUlt, t, m.tb.Const(64, uint64(n))))) {
			m.throwRuntime("index out of range")
		}
		if n > 300 {
			return sbyte(s, int(m.concretize(t)))
		}
		return m.iteOf(&SymPtr{arr: strBytes(s), idx: t}, 8)
	}
	panic(unsupported("strindex %T", idx))
}

func (m *Mach) sliceOp(fr *Frame, ci *cinstr, in *ssa.Slice) Value {
	x := fr.get(&ci.ops[0])
	bound := func(i int, v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		val := fr.get(&ci.ops[i])
		switch t := val.(type) {
		case uint64:
			return int(idx64(t, v.Type()))
		case *Term:
			tt := m.idxTerm(t, v.Type())
			// out of range bounds are one class: decide that first
			lim := 0
			switch y := x.(type) {
			case string, *SymStr:
				lim = slen(y)
			case Slice:
				lim = len(y.arr)
			case *Value:
				if y != nil {
					lim = len((*y).(Array))
				}
			}
			if !m.truth(m.simp(m.tb.Cmp(OUle, tt, m.tb.Const(64, uint64(lim))))) {
				return -1
			}
			return int(m.concretize(tt))
		case Poison:
			panic(unsupported("poison: %s", t.why))
		}
		panic(unsupported("slice bound %T", val))
	}
	switch s := x.(type) {
	case string, *SymStr:
		n := slen(s)
		lo := bound(1, in.Low, 0)
		hi := bound(2, in.High, n)
		if lo < 0 || hi < lo || hi > n {
			m.throwRuntime(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return substr(s, lo, hi)
	case Slice:
		c := len(s.arr)
		lo := bound(1, in.Low, 0)
		hi := bound(2, in.High, s.len)
		mx := bound(3, in.Max, c)
		if lo < 0 || hi < lo || mx < hi || mx > c {
			m.throwRuntime(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c))
		}
		if !s.nn {
			return s
		}
		return Slice{arr: s.arr[lo:mx:mx], len: hi - lo, nn: true}
	case *Value:
		if s == nil {
			m.nilDeref()
		}
		a, ok := (*s).(Array)
		if !ok {
			panic(unsupported("slice of ptr to %T", *s))
		}
		c := len(a)
		lo := bound(1, in.Low, 0)
		hi := bound(2, in.High, c)
		mx := bound(3, in.Max, c)
		if lo < 0 || hi < lo || mx < hi || mx > c {
			m.throwRuntime(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))
		}
		return Slice{arr: []Value(a)[lo:mx:mx], len: hi - lo, nn: true}
	case Poison:
		panic(unsupported("poison: %s", s.why))
	}
	panic(unsupported("slice %T", x))
}

func (m *Mach) lookup(fr *Frame, ci *cinstr, in *ssa.Lookup) Value {
	x := fr.get(&ci.ops[0])
	k := fr.get(&ci.ops[1])
	switch s := x.(type) {
	case string, *SymStr:
		return m.strIndex(s, k, in.Index.Type())
	case *Map:
		if m.race != nil && s != nil {
			m.raceMap(s, false)
		}
		e := m.mapFind(s, k)
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, e != nil}
		}
		return v
	case Poison:
		panic(unsupported("poison: %s", s.why))
	}
	panic(unsupported("lookup %T", x))
}

// ---- iteration

type iter interface{ next(m *Mach) Value }

type mapIter struct {
	mp   *Map
	rem  []*mapEntry
	seen int
	kz   Value
	vz   Value
	ch   bool
}

type strIter struct {
	s Value
	i int
}

func (m *Mach) rangeIter(x Value, t types.Type) Value {
	switch s := x.(type) {
	case *Map:
		if m.race != nil && s != nil {
			m.raceMap(s, false)
		}
		mt := t.Underlying().(*types.Map)
		it := &mapIter{mp: s, kz: zero(mt.Key()), vz: zero(mt.Elem())}
		if s != nil {
			it.rem = append(it.rem, s.entries...)
			it.seen = len(s.entries)
			if n := m.opts["maporder"]; n > 0 && s.n > 1 && s.n <= n {
				it.ch = true
			}
		}
		return it
	case string, *SymStr:
		return &strIter{s: s}
	case Poison:
		panic(unsupported("poison: %s", s.why))
	}
	panic(unsupported("range %T", x))
}

func (it *mapIter) next(m *Mach) Value {
	for {
		if it.mp != nil && len(it.mp.entries) > it.seen {
			it.rem = append(it.rem, it.mp.entries[it.seen:]...)
			it.seen = len(it.mp.entries)
		}
		live := it.rem[:0:0]
		for _, e := range it.rem {
			if !e.deleted {
				live = append(live, e)
			}
		}
		it.rem = live
		if len(it.rem) == 0 {
			return Tuple{false, it.kz, it.vz}
		}
		i := 0
		if it.ch && len(it.rem) > 1 {
			i = m.chooseN("maporder", len(it.rem))
		}
		e := it.rem[i]
		it.rem = append(append(it.rem[:0:0], it.rem[:i]...), it.rem[i+1:]...)
		return Tuple{true, copyVal(e.k), copyVal(e.v)}
	}
}

func (it *strIter) next(m *Mach) Value {
	n := slen(it.s)
	if it.i >= n {
		return Tuple{false, uzero, uzero}
	}
	i := it.i
	b := sbyte(it.s, i)
	if t, ok := b.(*Term); ok {
		if m.truth(m.simp(m.tb.Cmp(OUlt, t, m.tb.Const(8, 0x80)))) {
			it.i++
			return Tuple{true, uint64(i), m.simp(m.tb.ZExt(t, 32))}
		}
	} else if b.(uint64) < 0x80 {
		it.i++
		return Tuple{true, uint64(i), b}
	}
	// multi-byte: use the library decoder
	rest := substr(it.s, i, n)
	r := m.callByName("unicode/utf8", "DecodeRuneInString", []Value{rest}).(Tuple)
	it.i += m.concInt(r[1])
	return Tuple{true, uint64(i), r[0]}
}

func (m *Mach) callByName(pkg, name string, args []Value) Value {
	pk := m.w.byPath[pkg]
	if pk == nil {
		panic(unsupported("no package %s", pkg))
	}
	f := pk.Func(name)
	if f == nil {
		panic(unsupported("no func %s.%s", pkg, name))
	}
	return m.callFn(m.cur, f, args, nil)
}

func (m *Mach) chooseN(label string, n int) int {
	if n <= 1 {
		return 0
	}
	t := m.freshVar(label, 8)
	m.assume(m.simp(m.tb.Cmp(OUlt, t, m.tb.Const(8, uint64(n)))))
	k := int(m.concretize(t))
	switch label {
	case "sched", "preempt", "select", "maporder":
		if k > 0 {
			m.p.schedule = append(m.p.schedule, fmt.Sprintf("%s %d of %d in goroutine %d", label, k, n, m.g.id))
		}
	}
	return k
}

func (m *Mach) freshVar(label string, w uint8) *Term {
	k := m.p.names[label]
	m.p.names[label] = k + 1
	return m.tb.Var(fmt.Sprintf("%s@%d", label, k), w)
}

// ---- type assertions and method lookup

func (m *Mach) typeAssert(in *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		if p, ok := v.(Poison); ok {
			panic(unsupported("poison: %s", p.why))
		}
		panic(unsupported("typeassert %T", v))
	}
	var res Value
	good := false
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if i.t != nil && m.implements(i.t, it) {
			good = true
			res = v
		}
	} else if i.t != nil && m.identical(i.t, in.AssertedType) {
		good = true
		res = i.v
	}
	if !good {
		if in.CommaOk {
			return Tuple{zero(in.AssertedType), false}
		}
		d := "nil"
		if i.t != nil {
			d = i.t.String()
		}
		m.throwRuntime(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType))
	}
	if in.CommaOk {
		return Tuple{res, true}
	}
	return res
}

func (m *Mach) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (m *Mach) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name, nil}
	if !token.IsExported(name) {
		k.pkg = pkg
	}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	f := m.w.prog.LookupMethod(t, pkg, name)
	m.methCache[k] = f
	return f
}

// ---- calls

func (m *Mach) prepareCall(fr *Frame, ci *cinstr, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		recv := fr.get(&ci.ops[0])
		i, ok := recv.(Iface)
		if !ok {
			if p, ok := recv.(Poison); ok {
				panic(unsupported("poison: %s", p.why))
			}
			panic(unsupported("invoke on %T", recv))
		}
		if i.t == nil {
			m.nilDeref()
		}
		args := make([]Value, 0, len(c.Args)+1)
		if o, ok := i.v.(*Opaque); ok {
			args = append(args, o)
			for k := range c.Args {
				args = append(args, fr.get(&ci.ops[k+1]))
			}
			return opaqueMethod(m, o, c.Method.Name()), args
		}
		f := m.lookupMethod(i.t, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			panic(unsupported("method %s of %s", c.Method.Name(), i.t))
		}
		args = append(args, i.v)
		for k := range c.Args {
			args = append(args, fr.get(&ci.ops[k+1]))
		}
		return f, args
	}
	fn := fr.get(&ci.ops[0])
	args := make([]Value, len(c.Args))
	for k := range c.Args {
		args[k] = fr.get(&ci.ops[k+1])
	}
	return fn, args
}

func (m *Mach) doCall(fr *Frame, ci *cinstr, c *ssa.CallCommon) Value {
	fn, args := m.prepareCall(fr, ci, c)
	if b, ok := fn.(*ssa.Builtin); ok {
		return m.callBuiltin(fr, b, args, ci)
	}
	return m.call(fr, fn, args)
}

// ---- package initialisation

func (m *Mach) ensureInit(pkg *ssa.Package) {
	if pkg == nil || m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := m.globals[g]; !ok {
				c := new(Value)
				*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
				m.globals[g] = c
				if e, ok := m.w.embeds[pkg.Pkg.Path()+"."+g.Name()]; ok {
					switch (*c).(type) {
					case string:
						*c = e
					case Slice:
						*c = mkBytes([]byte(e))
					}
				}
			}
		}
	}
	init := pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	if skipInit(pkg.Pkg.Path()) {
		return
	}
	m.initMode++
	saved := m.cur
	savedRace := m.race
	m.race = nil
	m.runInit(init)
	if pkg.Pkg.Path() == "crypto" {
		// The hash functions register themselves.
		for _, p := range pkg.Prog.AllPackages() {
			switch p.Pkg.Path() {
			case "crypto/sha1", "crypto/sha256", "crypto/sha512", "crypto/md5":
				m.ensureInit(p)
			}
		}
	}
	m.race = savedRace
	m.cur = saved
	m.initMode--
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "internal/cpu", "syscall", "internal/godebug", "internal/bisect", "os/signal", "runtime/pprof", "internal/poll", "runtime/debug", "reflect", "internal/reflectlite", "runtime/internal/sys":
		return true
	}
	return false
}

// runInit executes a package initialiser tolerantly: an initialiser that the
// engine cannot run leaves a poison value behind.
func (m *Mach) runInit(fn *ssa.Function) {
	c := m.w.compile(fn)
	fr := &Frame{m: m, fn: c, regs: make([]Value, c.nslots), caller: nil}
	fr.prev = -1
	for blk := 0; ; {
		b := c.blocks[blk]
		next := -1
		for _, ph := range b.phis {
			pi := 0
			for i, p := range b.b.Preds {
				if p.Index == fr.prev {
					pi = i
				}
			}
			fr.regs[ph.dst] = fr.get(&ph.ops[pi])
		}
		for _, ci := range b.code {
			fr.ci = ci
			m.cur = fr
			if call, ok := ci.in.(*ssa.Call); ok {
				if f, ok := call.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != fn.Pkg {
					// imported packages are initialised lazily
					continue
				}
			}
			var n int
			why := m.tolerate(func() { n = m.exec(fr, ci) })
			if why != "" {
				m.initWhy[fn.Pkg.Pkg.Path()+": "+why]++
				if ci.dst >= 0 {
					v := ci.in.(ssa.Value)
					if tt, ok := v.Type().(*types.Tuple); ok {
						tu := make(Tuple, tt.Len())
						for i := range tu {
							tu[i] = Poison{why}
						}
						fr.regs[ci.dst] = tu
					} else {
						fr.regs[ci.dst] = Poison{why}
					}
				}
				if st, ok := ci.in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						*m.globals[g] = Poison{why}
					}
				}
				switch ci.in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return:
					return
				}
				continue
			}
			if n == execReturn {
				return
			}
			if n >= 0 {
				next = n
			}
		}
		if next < 0 {
			return
		}
		fr.prev = blk
		blk = next
	}
}

func (m *Mach) tolerate(f func()) (why string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupportedErr:
				why = x.why
			case targetPanic:
				why = "panic in init: " + m.showPanic(x.v)
			default:
				panic(r)
			}
		}
	}()
	f()
	return ""
}
