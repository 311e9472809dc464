package main

// Virtual time. tick is concrete nanoseconds spent sleeping; sec is a possibly
// symbolic number of seconds added by the harness.

type clockState struct {
	tick   int64
	sec    *Term
	timers []*vtimer
	seq    int
}

type vtimer struct {
	when   int64
	period int64
	fire   func()
	active bool
	seq    int
	vc     vclock // of the goroutine that set it (race detection)
}

const baseUnix = 1900000000 // 2030-03-17
const unixToInternal = 62135596800

func (m *Mach) nowSecNsec() (Value, uint64) {
	s := int64(baseUnix) + m.clock.tick/1e9
	ns := uint64(m.clock.tick % 1e9)
	if m.clock.sec == nil {
		return uint64(s), ns
	}
	return m.simp(m.tb.Bin(OAdd, m.clock.sec, m.tb.Const(64, uint64(s)))), ns
}

func (m *Mach) addTimer(d int64, period int64, fire func()) *vtimer {
	if d < 0 {
		d = 0
	}
	m.clock.seq++
	t := &vtimer{when: m.clock.tick + d, period: period, fire: fire, active: true, seq: m.clock.seq}
	m.timerSet(t)
	m.clock.timers = append(m.clock.timers, t)
	return t
}

// fireTimer advances time to the earliest pending timer.
func (m *Mach) fireTimer() bool {
	var best *vtimer
	live := m.clock.timers[:0:0]
	for _, t := range m.clock.timers {
		if !t.active {
			continue
		}
		live = append(live, t)
		if best == nil || t.when < best.when || t.when == best.when && t.seq < best.seq {
			best = t
		}
	}
	m.clock.timers = live
	if best == nil {
		return false
	}
	if m.opts["notimers"] > 0 {
		return false
	}
	m.timerFires++
	if m.timerFires > 1000 {
		m.abort("timer bound")
	}
	if best.when > m.clock.tick {
		m.clock.tick = best.when
	}
	if best.period > 0 {
		best.when += best.period
	} else {
		best.active = false
	}
	m.timerVC = best.vc
	best.fire()
	m.timerVC = nil
	return true
}

// timerSet records that the current goroutine sets t. What happens before it
// happens before the timer fires, nothing else does.
func (m *Mach) timerSet(t *vtimer) {
	if m.race != nil && m.g != nil {
		t.vc = m.raceRelease(m.g)
	}
}

func (m *Mach) durOf(v Value) int64 {
	switch x := v.(type) {
	case uint64:
		return int64(x)
	case *Term:
		return int64(m.concretize(x))
	}
	panic(unsupported("duration %T", v))
}
