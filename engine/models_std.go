package main

import (
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding"
	bigendian "encoding/binary"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mutexState struct {
	locked  bool
	readers int
	owner   *G
}

func (m *Mach) mutex(p *Value) *mutexState {
	s, _ := m.shadow[p].(*mutexState)
	if s == nil {
		s = &mutexState{}
		m.shadow[p] = s
	}
	return s
}

func (m *Mach) lock(p *Value) {
	if m.initMode > 0 {
		return
	}
	s := m.mutex(p)
	m.preemptPoint("lock")
	m.block("mutex", func() bool { return !s.locked && s.readers == 0 })
	s.locked = true
	s.owner = m.g
	m.syncAcq(p)
}

func (m *Mach) unlock(p *Value) {
	if m.initMode > 0 {
		return
	}
	s := m.mutex(p)
	if !s.locked {
		m.fatal("sync: unlock of unlocked mutex")
	}
	m.syncRel(p)
	s.locked = false
	m.preemptPoint("unlock")
}

// fatal models an unrecoverable runtime failure.
func (m *Mach) fatal(msg string) {
	m.violation("fatal", msg, m.pos(), m.p.model)
	panic(pathAbort{"violated"})
}

type condState struct{ q []*selState }
type wgState struct{ n int }
type onceState struct {
	done, running bool
}

func atomicAdd(w uint8) modelFn {
	return func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := m.cell(a[0])
		m.preemptPoint("atomic")
		m.syncAcq(p)
		v := m.simp(m.tb.Bin(OAdd, m.term(*p, w), m.term(a[1], w)))
		m.set(p, v)
		m.syncRel(p)
		return v
	}
}

func init() {
	// ---- sync
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { m.lock(m.cell(a[0])); return nil }, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { m.unlock(m.cell(a[0])); return nil }, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := m.mutex(m.cell(a[0]))
		if s.locked || s.readers > 0 {
			return false
		}
		s.locked = true
		m.syncAcq(m.cell(a[0]))
		return true
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if m.initMode > 0 {
			return nil
		}
		p := m.cell(a[0])
		s := m.mutex(p)
		m.preemptPoint("rlock")
		m.block("rwmutex", func() bool { return !s.locked })
		s.readers++
		m.syncAcq(p)
		return nil
	}, "(*sync.RWMutex).RLock")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if m.initMode > 0 {
			return nil
		}
		p := m.cell(a[0])
		s := m.mutex(p)
		if s.readers <= 0 {
			m.fatal("sync: RUnlock of unlocked RWMutex")
		}
		m.syncRel(p)
		s.readers--
		m.preemptPoint("runlock")
		return nil
	}, "(*sync.RWMutex).RUnlock")
	wg := func(m *Mach, p *Value) *wgState {
		s, _ := m.shadow[p].(*wgState)
		if s == nil {
			s = &wgState{}
			m.shadow[p] = s
		}
		return s
	}
	wgAdd := func(m *Mach, p *Value, n int) {
		s := wg(m, p)
		if n < 0 {
			m.syncRel(p)
		}
		s.n += n
		if s.n < 0 {
			panic(targetPanic{Iface{t: types.Typ[types.String], v: "sync: negative WaitGroup counter"}})
		}
	}
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		wgAdd(m, m.cell(a[0]), m.concInt(a[1]))
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.preemptPoint("wgdone")
		wgAdd(m, m.cell(a[0]), -1)
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := m.cell(a[0])
		s := wg(m, p)
		m.block("waitgroup", func() bool { return s.n == 0 })
		m.syncAcq(p)
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := m.cell(a[0])
		if m.initMode > 0 {
			m.call(fr, a[1], nil)
			return nil
		}
		s, _ := m.shadow[p].(*onceState)
		if s == nil {
			s = &onceState{}
			m.shadow[p] = s
		}
		if s.done {
			m.syncAcq(p)
			return nil
		}
		if s.running {
			m.block("once", func() bool { return s.done })
			m.syncAcq(p)
			return nil
		}
		s.running = true
		defer func() { s.done = true }()
		m.call(fr, a[1], nil)
		m.syncRel(p)
		return nil
	}, "(*sync.Once).Do")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := m.cell(a[0])
		st := (*p).(Struct)
		nf := st[len(st)-1]
		if isNilFunc(nf) {
			return nilIface
		}
		return m.call(fr, nf, nil)
	}, "(*sync.Pool).Get")
	reg(nop, "(*sync.Pool).Put")
	cond := func(m *Mach, p *Value) *condState {
		s, _ := m.shadow[p].(*condState)
		if s == nil {
			s = &condState{}
			m.shadow[p] = s
		}
		return s
	}
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := m.cell(a[0])
		s := cond(m, p)
		// L is the first interface field
		var l Value
		for _, f := range (*p).(Struct) {
			if i, ok := f.(Iface); ok {
				l = i
			}
		}
		sel := &selState{}
		s.q = append(s.q, sel)
		m.method(fr, l, nil, "Unlock")
		m.block("cond", func() bool { return sel.fired })
		m.method(fr, l, nil, "Lock")
		return nil
	}, "(*sync.Cond).Wait")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := cond(m, m.cell(a[0]))
		if len(s.q) > 0 {
			s.q[0].fired = true
			s.q = s.q[1:]
		}
		return nil
	}, "(*sync.Cond).Signal")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := cond(m, m.cell(a[0]))
		for _, w := range s.q {
			w.fired = true
		}
		s.q = nil
		return nil
	}, "(*sync.Cond).Broadcast")
	reg(nop, "(*sync.copyChecker).check", "(*sync.noCopy).Lock", "(*sync.noCopy).Unlock")
	smap := func(m *Mach, p *Value) *Map {
		s, _ := m.shadow[p].(*Map)
		if s == nil {
			s = m.newMap(nil)
			m.shadow[p] = s
		}
		m.preemptPoint("sync.Map")
		m.syncAcq(p)
		m.syncRel(p)
		return s
	}
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if e := m.mapFind(smap(m, m.cell(a[0])), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{nilIface, false}
	}, "(*sync.Map).Load")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.mapSet(smap(m, m.cell(a[0])), a[1], a[2])
		return nil
	}, "(*sync.Map).Store")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := smap(m, m.cell(a[0]))
		if e := m.mapFind(s, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		m.mapSet(s, a[1], a[2])
		return Tuple{a[2], false}
	}, "(*sync.Map).LoadOrStore")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := smap(m, m.cell(a[0]))
		if e := m.mapFind(s, a[1]); e != nil {
			v := e.v
			m.mapDelEntry(s, e)
			return Tuple{v, true}
		}
		return Tuple{nilIface, false}
	}, "(*sync.Map).LoadAndDelete")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.mapDelete(smap(m, m.cell(a[0])), a[1])
		return nil
	}, "(*sync.Map).Delete")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := smap(m, m.cell(a[0]))
		for _, e := range append([]*mapEntry(nil), s.entries...) {
			if e.deleted {
				continue
			}
			if !m.truth(m.call(fr, a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	}, "(*sync.Map).Range")

	// ---- atomic
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		if t.w > 0 {
			reg(atomicAdd(t.w), "sync/atomic.Add"+t.n)
			w := t.w
			for _, o := range []struct {
				n  string
				op Op
			}{{"And", OBAnd}, {"Or", OBOr}} {
				op := o.op
				reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
					p := m.cell(a[0])
					old := *p
					m.set(p, m.simp(m.tb.Bin(op, m.term(old, w), m.term(a[1], w))))
					return old
				}, "sync/atomic."+o.n+t.n)
			}
		}
		reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
			p := m.cell(a[0])
			m.preemptPoint("atomic")
			m.syncAcq(p)
			return *p
		}, "sync/atomic.Load"+t.n)
		reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
			p := m.cell(a[0])
			m.preemptPoint("atomic")
			m.set(p, a[1])
			m.syncRel(p)
			return nil
		}, "sync/atomic.Store"+t.n)
		reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
			p := m.cell(a[0])
			m.preemptPoint("atomic")
			m.syncAcq(p)
			old := *p
			m.set(p, a[1])
			m.syncRel(p)
			return old
		}, "sync/atomic.Swap"+t.n)
		reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
			p := m.cell(a[0])
			m.preemptPoint("atomic")
			m.syncAcq(p)
			if m.truth(m.eq(*p, a[1])) {
				m.set(p, a[2])
				m.syncRel(p)
				return true
			}
			return false
		}, "sync/atomic.CompareAndSwap"+t.n)
	}
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := m.cell(a[0])
		m.syncAcq(p)
		return (*p).(Struct)[0]
	}, "(*sync/atomic.Value).Load")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := m.cell(a[0])
		m.set(&(*p).(Struct)[0], a[1])
		m.syncRel(p)
		return nil
	}, "(*sync/atomic.Value).Store")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &(*m.cell(a[0])).(Struct)[0]
		old := *c
		m.set(c, a[1])
		return old
	}, "(*sync/atomic.Value).Swap")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &(*m.cell(a[0])).(Struct)[0]
		if m.truth(m.eq(*c, a[1])) {
			m.set(c, a[2])
			return true
		}
		return false
	}, "(*sync/atomic.Value).CompareAndSwap")

	// ---- runtime and friends
	reg(nop, "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "runtime/debug.SetGCPercent", "runtime/debug.PrintStack", "internal/race.Enable",
		"internal/race.Disable", "runtime.SetMutexProfileFraction", "runtime.SetBlockProfileRate", "internal/godebug.registerMetric", "internal/race.Acquire",
		"internal/race.Release", "internal/race.ReleaseMerge", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors", "internal/race.Read", "internal/race.Write")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { m.yield(); return nil }, "runtime.Gosched")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { panic(goExit{}) }, "runtime.Goexit")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return uint64(4) }, "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.NumGoroutine")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return Slice{} }, "runtime/debug.Stack")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return uzero }, "runtime.Stack", "runtime.Callers")
	reg(nop, "runtime.ReadMemStats")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return Tuple{uzero, true} }, "runtime.MemProfile", "runtime.MutexProfile", "runtime.GoroutineProfile", "runtime.BlockProfile")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return zeroResult(fn) }, "runtime/debug.ReadBuildInfo")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{uzero, "file.go", uint64(1), true}
	}, "runtime.Caller")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] }, "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "internal/stringslite.Clone", "strings.Clone", "bytes.Clone")
	models["bytes.Clone"] = nil
	reg(nop, "(*strings.Builder).copyCheck", "(*internal/godebug.Setting).IncNonDefault", "internal/godebug.update")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return "" }, "(*internal/godebug.Setting).Value", "os.Getenv", "runtime.GOROOT", "internal/godebug.(*Setting).Value")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := new(Value)
		*c = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return c
	}, "internal/godebug.New")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		// canonical pointer per value
		et := fn.Signature.Results().At(0).Type()
		_ = et
		h, ok := m.hashKey(a[0])
		if !ok {
			// symbolic: compare against the known ones
			for _, c := range uniqTab(m) {
				if m.identical(c.t, fn.Signature.Params().At(0).Type()) && m.truth(m.eq(*c.p, a[0])) {
					return Struct{c.p}
				}
			}
			p := new(Value)
			*p = copyVal(a[0])
			m.shadow["uniq"] = append(uniqTab(m), uniqEnt{fn.Signature.Params().At(0).Type(), p})
			return Struct{p}
		}
		k := fmt.Sprintf("%d/%s", m.typeID(fn.Signature.Params().At(0).Type()), h)
		if m.uniq == nil {
			m.uniq = map[string]*Value{}
		}
		p := m.uniq[k]
		if p == nil {
			p = new(Value)
			*p = copyVal(a[0])
			m.uniq[k] = p
		}
		return Struct{p}
	}, "unique.Make")

	// ---- time
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, ns := m.nowSecNsec()
		var ext Value
		switch x := s.(type) {
		case uint64:
			ext = x + unixToInternal
		case *Term:
			ext = m.simp(m.tb.Bin(OAdd, x, m.tb.Const(64, unixToInternal)))
		}
		pk := m.w.byPath["time"]
		m.ensureInit(pk)
		return Struct{uint64(ns), ext, m.globalCell(pk.Var("localLoc"))}
	}, "time.Now")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return uint64(m.clock.tick + 1) }, "time.runtimeNano", "runtime.nanotime", "time.nanotime")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		pk := m.w.byPath["time"]
		m.ensureInit(pk)
		utc := m.globalCell(pk.Var("utcLoc"))
		p := a[0].(*Value)
		if p == nil || p == m.globalCell(pk.Var("localLoc")) {
			return utc
		}
		return p
	}, "(*time.Location).get")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		// wall-clock difference; no saturation (times here are within 200 years)
		t, u := a[0].(Struct), a[1].(Struct)
		conc := true
		for _, v := range []Value{t[0], t[1], u[0], u[1]} {
			if _, ok := v.(uint64); !ok {
				conc = false
			}
		}
		if conc {
			return m.body(fr, fn, a)
		}
		ts := m.callFn(fr, m.timeMeth("sec"), []Value{addr(a[0])}, nil)
		us := m.callFn(fr, m.timeMeth("sec"), []Value{addr(a[1])}, nil)
		tn := m.callFn(fr, m.timeMeth("nsec"), []Value{addr(a[0])}, nil)
		un := m.callFn(fr, m.timeMeth("nsec"), []Value{addr(a[1])}, nil)
		d := m.tb.Bin(OSub, m.term(ts, 64), m.term(us, 64))
		dn := m.tb.Bin(OSub, m.tb.SExt(m.term(tn, 32), 64), m.tb.SExt(m.term(un, 32), 64))
		return m.simp(m.tb.Bin(OAdd, m.tb.Bin(OMul, d, m.tb.Const(64, 1e9)), dn))
	}, "(time.Time).Sub")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if d, ok := a[1].(*Term); ok && d.op == OMul && d.args[1].isConst() && d.args[1].val%1000000000 == 0 {
			t := copyVal(a[0]).(Struct)
			if w, ok := t[0].(uint64); ok && w>>63 == 0 {
				k := d.args[1].val / 1000000000
				t[1] = m.simp(m.tb.Bin(OAdd, m.term(t[1], 64), m.tb.Bin(OMul, d.args[0], m.tb.Const(64, k))))
				return t
			}
		}
		return m.body(fr, fn, a)
	}, "(time.Time).Add")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		d := m.durOf(a[0])
		fired := false
		m.addTimer(d, 0, func() { fired = true })
		m.block("sleep", func() bool { return fired })
		return nil
	}, "time.Sleep")
	newTimer := func(m *Mach, fr *Frame, d, period int64, rt types.Type) (Value, *Chan) {
		st := rt.Underlying().(*types.Pointer).Elem()
		c := new(Value)
		*c = zero(st)
		ch := &Chan{cap: 1, et: m.namedType("time", "Time")}
		(*c).(Struct)[0] = ch
		tm := m.addTimer(d, period, func() {
			if len(ch.buf) == 0 {
				now := m.callByName("time", "Now", nil)
				m.trySend(ch, now)
			}
		})
		m.shadow[c] = tm
		return c, ch
	}
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		c, _ := newTimer(m, fr, m.durOf(a[0]), 0, fn.Signature.Results().At(0).Type())
		return c
	}, "time.NewTimer")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		d := m.durOf(a[0])
		if d <= 0 {
			panic(targetPanic{m.mkError("non-positive interval for NewTicker")})
		}
		c, _ := newTimer(m, fr, d, d, fn.Signature.Results().At(0).Type())
		return c
	}, "time.NewTicker")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		_, ch := newTimer(m, fr, m.durOf(a[0]), 0, types.NewPointer(m.namedType("time", "Timer")))
		return ch
	}, "time.After")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := new(Value)
		*c = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		f := a[1]
		tm := m.addTimer(m.durOf(a[0]), 0, func() { m.spawn(f, nil, nil) })
		m.shadow[c] = tm
		return c
	}, "time.AfterFunc")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		t, _ := m.shadow[m.cell(a[0])].(*vtimer)
		if t == nil {
			return zeroResult(fn)
		}
		was := t.active
		t.active = false
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return was
	}, "(*time.Timer).Stop", "(*time.Ticker).Stop")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		t, _ := m.shadow[m.cell(a[0])].(*vtimer)
		if t == nil {
			return zeroResult(fn)
		}
		was := t.active
		t.active = true
		t.when = m.clock.tick + m.durOf(a[1])
		m.timerSet(t)
		found := false
		for _, x := range m.clock.timers {
			if x == t {
				found = true
			}
		}
		if !found {
			m.clock.timers = append(m.clock.timers, t)
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return was
	}, "(*time.Timer).Reset", "(*time.Ticker).Reset")

	// ---- errors
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return m.errorsIs(fr, a[0], a[1]) }, "errors.Is")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return m.errorsAs(fr, a[0], a[1]) }, "errors.As")

	// ---- bytealg
	ib := func(m *Mach, s []Value, c Value) Value {
		for i, x := range s {
			if m.truth(m.eq(x, c)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(uint64); ok {
				return uint64(int64(strings.IndexByte(s, byte(c))))
			}
		}
		return ib(m, bytesOf(a[0]), a[1])
	}, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := bytesOf(a[0])
		for i := len(s) - 1; i >= 0; i-- {
			if m.truth(m.eq(s[i], a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := uint64(0)
		for _, x := range bytesOf(a[0]) {
			if m.truth(m.eq(x, a[1])) {
				n++
			}
		}
		return n
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.len != y.len {
			return false
		}
		return m.eqSeq(x.arr[:x.len], y.arr[:y.len])
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1]))
		if m.truth(m.eq(x, y)) {
			return uzero
		}
		if m.truth(m.strLess(x, y, false)) {
			return ^uint64(0)
		}
		return uint64(1)
	}, "internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare")
	idx := func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, t := bytesOf(a[0]), bytesOf(a[1])
		for i := 0; i+len(t) <= len(s); i++ {
			if m.truth(m.eqSeq(s[i:i+len(t)], t)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	reg(idx, "internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, t := bytesOf(a[0]), bytesOf(a[1])
		for i := len(s) - len(t); i >= 0; i-- {
			if m.truth(m.eqSeq(s[i:i+len(t)], t)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}, "strings.LastIndex", "bytes.LastIndex")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, t := bytesOf(a[0]), bytesOf(a[1])
		var cs []*Term
		for i := 0; i+len(t) <= len(s); i++ {
			cs = append(cs, m.term(m.eqSeq(s[i:i+len(t)], t), 0))
		}
		return m.simp(m.tb.Or(cs...))
	}, "strings.Contains", "bytes.Contains")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := m.concInt(a[0])
		arr := make([]Value, n)
		for i := range arr {
			arr[i] = uzero
		}
		return Slice{arr: arr, len: n, nn: true}
	}, "internal/bytealg.MakeNoZero")
	// case mapping: ASCII strings are mapped byte-wise without forking
	caseMap := func(up bool) modelFn {
		return func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
			s := a[0]
			if c, ok := s.(string); ok {
				if up {
					return strings.ToUpper(c)
				}
				return strings.ToLower(c)
			}
			b := strBytes(s)
			var ascii []*Term
			for _, x := range b {
				ascii = append(ascii, m.tb.Cmp(OUlt, m.term(x, 8), m.tb.Const(8, 0x80)))
			}
			if !m.truth(m.simp(m.tb.And(ascii...))) {
				return m.body(fr, fn, a)
			}
			for i, x := range b {
				t := m.term(x, 8)
				lo, hi := uint64('A'), uint64('Z')
				if up {
					lo, hi = 'a', 'z'
				}
				c := m.tb.And(m.tb.Cmp(OUle, m.tb.Const(8, lo), t), m.tb.Cmp(OUle, t, m.tb.Const(8, hi)))
				b[i] = m.simp(m.tb.Ite(c, m.tb.Bin(OBXor, t, m.tb.Const(8, 0x20)), t))
			}
			return mkStr(b)
		}
	}
	reg(caseMap(false), "strings.ToLower")
	reg(caseMap(true), "strings.ToUpper")

	// ---- math
	f1 := func(f func(float64) float64) modelFn {
		return func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			if sf, ok := a[0].(*SymFloat); ok {
				if sf.den() != 1 {
					panic(unsupported("math %s of a symbolic fraction", fn.Name()))
				}
				switch fn.Name() {
				case "Floor", "Ceil", "Trunc", "Round":
					return a[0]
				}
			}
			panic(unsupported("math %s of %T", fn.Name(), a[0]))
		}
	}
	reg(f1(math.Floor), "math.Floor", "math.floor")
	reg(f1(math.Ceil), "math.Ceil", "math.ceil")
	reg(f1(math.Trunc), "math.Trunc", "math.trunc")
	reg(f1(math.Sqrt), "math.Sqrt", "math.sqrt")
	reg(f1(math.Log), "math.Log", "math.log")
	reg(f1(math.Abs), "math.Abs")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return math.Float64bits(a[0].(float64))
	}, "math.Float64bits")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return &FloatBits{t}
		}
		return math.Float64frombits(a[0].(uint64))
	}, "math.Float64frombits")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		return uint64(math.Float32bits(float32(a[0].(float64))))
	}, "math.Float32bits")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return &FloatBits{t}
		}
		return float64(math.Float32frombits(uint32(a[0].(uint64))))
	}, "math.Float32frombits")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if sf, ok := a[0].(*SymFloat); ok && sf.den() == 1 {
			return Tuple{sf, float64(0)}
		}
		i, f := math.Modf(a[0].(float64))
		return Tuple{i, f}
	}, "math.Modf")
	conc64 := func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) bool {
		for _, x := range a {
			if _, ok := x.(uint64); !ok {
				return false
			}
		}
		return true
	}
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if conc64(m, fr, fn, a) {
			h, l := bits.Mul64(a[0].(uint64), a[1].(uint64))
			return Tuple{h, l}
		}
		return m.body(fr, fn, a)
	}, "math/bits.Mul64")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if conc64(m, fr, fn, a) {
			return uint64(bits.Len64(a[0].(uint64)))
		}
		return m.body(fr, fn, a)
	}, "math/bits.Len64", "math/bits.Len")

	// ---- randomness: distinct values, never repeated on a path
	rnd := func(m *Mach, b []Value) {
		for i := range b {
			if i%8 == 0 {
				m.nonce++
			}
			m.assign(&b[i], uint64((m.nonce*0x9E3779B97F4A7C15)>>(8*(uint(i)%8)))&0xff)
		}
	}
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[len(a)-1].(Slice)
		rnd(m, s.arr[:s.len])
		return Tuple{uint64(s.len), nilIface}
	}, "crypto/rand.Read", "(*crypto/rand.reader).Read", "crypto/internal/sysrand.Read")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.nonce++
		return m.nonce * 0x9E3779B97F4A7C15 >> 1
	}, "math/rand.Int63", "math/rand.Int", "math/rand/v2.Int64", "math/rand/v2.Int")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := m.concInt(a[0])
		m.nonce++
		return (m.nonce * 7919) % uint64(n)
	}, "math/rand.Intn", "math/rand.Int63n", "math/rand/v2.IntN", "math/rand/v2.Int64N")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return float64(0.5) }, "math/rand.Float64", "math/rand/v2.Float64")

	// ---- hashes: real function on concrete data, injective on symbolic data
	hash := func(name string, size int, f func([]byte) []byte) modelFn {
		return func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
			return Array(m.hashOf(name, size, bytesOf(a[0]), f))
		}
	}
	reg(hash("sha256", 32, func(b []byte) []byte { h := sha256.Sum256(b); return h[:] }), "crypto/sha256.Sum256")
	reg(hash("sha224", 28, func(b []byte) []byte { h := sha256.Sum224(b); return h[:] }), "crypto/sha256.Sum224")
	reg(hash("sha384", 48, func(b []byte) []byte { h := sha512.Sum384(b); return h[:] }), "crypto/sha512.Sum384")
	reg(nop, "crypto/internal/boring/sig.StandardCrypto", "crypto/internal/boring/sig.BoringCrypto")
	reg(nop, "crypto/internal/fips140.setIndicator")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return uzero }, "crypto/internal/fips140.getIndicator")
	reg(hash("sha512", 64, func(b []byte) []byte { h := sha512.Sum512(b); return h[:] }), "crypto/sha512.Sum512")
	reg(hash("sha1", 20, func(b []byte) []byte { h := sha1.Sum(b); return h[:] }), "crypto/sha1.Sum")
	reg(hash("md5", 16, func(b []byte) []byte { h := md5.Sum(b); return h[:] }), "crypto/md5.Sum")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		// The block function on concrete data.
		p, ok := a[0].(*Value)
		if !ok || p == nil {
			return m.body(fr, fn, a)
		}
		d, ok := (*p).(Struct)
		if !ok {
			return m.body(fr, fn, a)
		}
		data, ok := concBytes(bytesOf(a[1]))
		if !ok || m.race != nil {
			return m.body(fr, fn, a)
		}
		h := d[0].(Array)
		st := []byte("sha\x03")
		for _, x := range h {
			u, ok := x.(uint64)
			if !ok {
				return m.body(fr, fn, a)
			}
			st = bigendian.BigEndian.AppendUint32(st, uint32(u))
		}
		st = append(st, make([]byte, 64+8)...)
		e := sha256.New()
		if err := e.(encoding.BinaryUnmarshaler).UnmarshalBinary(st); err != nil {
			panic(err)
		}
		e.Write(data[:len(data)/64*64])
		st, err := e.(encoding.BinaryMarshaler).MarshalBinary()
		if err != nil {
			panic(err)
		}
		for i := range h {
			h[i] = uint64(bigendian.BigEndian.Uint32(st[4+4*i:]))
		}
		return nil
	}, "crypto/internal/fips140/sha256.blockGeneric")
	_ = hmac.New
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.len != y.len {
			return uzero
		}
		c := m.term(m.eqSeq(x.arr[:x.len], y.arr[:y.len]), 0)
		return m.simp(m.tb.Ite(c, m.tb.Const(64, 1), m.tb.Const(64, 0)))
	}, "crypto/subtle.ConstantTimeCompare", "crypto/internal/fips140/subtle.ConstantTimeCompare")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.len != y.len {
			return false
		}
		return m.eqSeq(x.arr[:x.len], y.arr[:y.len])
	}, "crypto/hmac.Equal")

	// ---- strconv fast paths on concrete input
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return m.body(fr, fn, a)
	}, "strconv.Quote")

	// ---- log: no output
	for _, n := range []string{"Print", "Printf", "Println", "Output", "SetOutput", "SetFlags", "SetPrefix"} {
		reg(nop, "log."+n, "(*log.Logger)."+n)
	}
	for _, n := range []string{"Fatal", "Fatalf", "Panicf", "Panic"} {
		reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
			panic(unsupported("log.%s", fn.Name()))
		}, "log."+n, "(*log.Logger)."+n)
	}
	// ---- os
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return Tuple{"host", nilIface} }, "os.Hostname")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return uint64(4242) }, "os.Getpid")
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value { return Tuple{"", false} }, "os.LookupEnv")
}

type uniqEnt struct {
	t types.Type
	p *Value
}

func uniqTab(m *Mach) []uniqEnt { x, _ := m.shadow["uniq"].([]uniqEnt); return x }

func addr(v Value) *Value { c := new(Value); *c = copyVal(v); return c }

func (m *Mach) timeMeth(name string) *ssa.Function {
	pk := m.w.byPath["time"]
	t := types.NewPointer(pk.Type("Time").Type())
	return m.lookupMethod(t, pk.Pkg, name)
}

type hashEnt struct {
	in  []Value
	out []Value
}

func (m *Mach) hashOf(name string, size int, in []Value, f func([]byte) []byte) []Value {
	key := "hash:" + name
	tab, _ := m.shadow[key].([]hashEnt)
	in = append([]Value(nil), in...)
	if b, ok := concBytes(in); ok {
		out := strBytes(string(f(b)))
		for _, e := range tab {
			_ = e
		}
		m.shadow[key] = append(tab, hashEnt{in, out})
		// relate to earlier symbolic applications
		for _, e := range tab {
			if _, conc := concBytes(e.in); !conc {
				m.hashRelate(e, hashEnt{in, out})
			}
		}
		return out
	}
	k := m.p.names[key]
	m.p.names[key] = k + 1
	out := make([]Value, size)
	for i := range out {
		out[i] = m.tb.Var(fmt.Sprintf("%s@%d[%d]", key, k, i), 8)
	}
	ne := hashEnt{in, out}
	m.shadow[key] = append(tab, ne)
	for _, e := range tab {
		m.hashRelate(e, ne)
	}
	return out
}

func (m *Mach) hashRelate(a, b hashEnt) {
	var same *Term
	if len(a.in) != len(b.in) {
		same = m.tb.F
	} else {
		same = m.term(m.eqSeq(a.in, b.in), 0)
	}
	eq := m.term(m.eqSeq(a.out, b.out), 0)
	m.assume(m.simp(m.tb.Or(m.tb.And(same, eq), m.tb.And(m.tb.Not(same), m.tb.Not(eq)))))
}

func (m *Mach) errorsIs(fr *Frame, err, target Value) Value {
	e := err.(Iface)
	t := target.(Iface)
	if e.t == nil || t.t == nil {
		return e.t == nil && t.t == nil
	}
	for {
		if m.identical(e.t, t.t) && types.Comparable(e.t) {
			if m.truth(m.eq(e, t)) {
				return true
			}
		}
		if m.hasMethod(e.t, "Is") {
			f := m.lookupMethod(e.t, nil, "Is")
			if f.Signature.Params().Len() == 1 && m.truth(m.callFn(fr, f, []Value{e.v, t}, nil)) {
				return true
			}
		}
		next, ok := m.unwrap(fr, e)
		if !ok {
			return false
		}
		switch n := next.(type) {
		case Iface:
			if n.t == nil {
				return false
			}
			e = n
		case Slice:
			for i := 0; i < n.len; i++ {
				if m.truth(m.errorsIs(fr, n.arr[i], target)) {
					return true
				}
			}
			return false
		}
	}
}

func (m *Mach) unwrap(fr *Frame, e Iface) (Value, bool) {
	if !m.hasMethod(e.t, "Unwrap") {
		return nil, false
	}
	f := m.lookupMethod(e.t, nil, "Unwrap")
	if f == nil || f.Signature.Params().Len() != 0 {
		return nil, false
	}
	return m.callFn(fr, f, []Value{e.v}, nil), true
}

func (m *Mach) errorsAs(fr *Frame, err, target Value) Value {
	e := err.(Iface)
	if e.t == nil {
		return false
	}
	t := target.(Iface)
	if t.t == nil {
		panic(targetPanic{m.mkError("errors: target cannot be nil")})
	}
	et := t.t.Underlying().(*types.Pointer).Elem()
	for {
		if it, ok := et.Underlying().(*types.Interface); ok {
			if m.implements(e.t, it) {
				m.store(t.v, e)
				return true
			}
		} else if m.identical(e.t, et) {
			m.store(t.v, e.v)
			return true
		}
		if m.hasMethod(e.t, "As") {
			f := m.lookupMethod(e.t, nil, "As")
			if f.Signature.Params().Len() == 1 && m.truth(m.callFn(fr, f, []Value{e.v, t}, nil)) {
				return true
			}
		}
		next, ok := m.unwrap(fr, e)
		if !ok {
			return false
		}
		switch n := next.(type) {
		case Iface:
			if n.t == nil {
				return false
			}
			e = n
		case Slice:
			for i := 0; i < n.len; i++ {
				if m.truth(m.errorsAs(fr, n.arr[i], target)) {
					return true
				}
			}
			return false
		}
	}
}

func init() {
	// maps.clone is the runtime's.
	reg(func(m *Mach, fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		mp, ok := i.v.(*Map)
		if !ok || mp == nil {
			return i
		}
		m.raceMap(mp, false)
		c := m.newMap(mp.kt)
		for _, e := range mp.entries {
			if !e.deleted {
				m.mapSet(c, e.k, e.v)
			}
		}
		return Iface{t: i.t, v: c}
	}, "maps.clone")
}
