//verif:pkg proxy
//verif:use quicflow.go
//verif:hook golang.org/x/time/rate (*Limiter).WaitN
//verif:hook golang.org/x/time/rate (*Limiter).Wait
//verif:unit name=groups entry=VerifP32Groups share=4 reach=duplicate,unknown,limited,unlimited,reload,kept,equal
//verif:unit name=quic entry=VerifP32QUIC share=2 reach=limited,unlimited
//verif:assume rate.Limiter admits bytes at the configured rate: (*Limiter).WaitN is replaced by a recorder that refuses what exceeds the burst
//verif:note two groups whose names are any letter among a, A, b; rates from 0.5 to 1e6 bytes per second; two backends, each in any group or none; one reload that changes rates, groups or membership; groups are told apart by their exact names
package proxy

import (
	"context"
	"errors"
	"io"
	"net"
	"sync"

	"golang.org/x/time/rate"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfWaits struct {
	mu    sync.Mutex
	order []*rate.Limiter
	n     map[*rate.Limiter]int
}

func (w *vfWaits) reset() { w.order, w.n = nil, map[*rate.Limiter]int{} }

func vfRecordWaits() *vfWaits {
	w := &vfWaits{}
	w.reset()
	// The limit on the number of connections.
	rate.VerifHook_Limiter_Wait = func(*rate.Limiter, context.Context) error { return nil }
	rate.VerifHook_Limiter_WaitN = func(l *rate.Limiter, ctx context.Context, n int) error {
		if n > l.Burst() && l.Limit() != rate.Inf {
			return errors.New("rate: Wait exceeds limiter's burst")
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if _, ok := w.n[l]; !ok {
			w.order = append(w.order, l)
		}
		w.n[l] += n
		return nil
	}
	return w
}

type vfGroup struct {
	name    string
	in, out float64
}

var vfRates = []float64{0.5, 1000, 131072, 1e6}

// vfGroups are two groups with arbitrary names and rates.
func vfGroups(dup bool) []vfGroup {
	var l []vfGroup
	for i := 0; i < 2; i++ {
		n := vsym.Pick("group", "a", "A", "b")
		if i == 1 && !dup {
			vsym.Assume(n != l[0].name)
		}
		g := vfGroup{name: n, in: vfRates[i*2], out: vfRates[i*2+1]}
		l = append(l, g)
	}
	return l
}

func vfLimitConfig(f *vfFlow, groups []vfGroup, member []string, modes []string) *Config {
	var bes []*Backend
	for i, m := range member {
		be := &Backend{ServerNames: []string{[]string{"x.x", "y.x"}[i]}, Mode: modes[i], BWLimit: m}
		// The relay goes on until both sides are done.
		no := false
		be.ServerCloseEndsConnection, be.ClientCloseEndsConnection = &no, &no
		if modes[i] != ModeLocal {
			be.Addresses = []string{"1.1.1.1:1"}
		}
		bes = append(bes, be)
	}
	cfg := f.config(bes...)
	for _, g := range groups {
		cfg.BWLimits = append(cfg.BWLimits, &BWLimit{Name: g.name, Ingress: g.in, Egress: g.out})
	}
	return cfg
}

func vfFind(groups []vfGroup, name string) *vfGroup {
	for i := range groups {
		if groups[i].name == name {
			return &groups[i]
		}
	}
	return nil
}

// vfLimiters checks what a connection waited for, and returns its limiters.
func vfLimiters(w *vfWaits, g *vfGroup, in, out int) [2]*rate.Limiter {
	var l [2]*rate.Limiter
	if g == nil {
		vsym.Reach("unlimited")
		vsym.Assert(len(w.order) == 0, "a backend without a group is limited")
		return l
	}
	vsym.Reach("limited")
	vsym.Assert(len(w.order) == 2, "the connection is not limited in both directions")
	for i, x := range w.order {
		vsym.Assert(x.Burst() == int(max(float64(x.Limit()), 1<<17)), "the burst is neither a second's worth nor the least")
		if g.in == g.out {
			l[i] = x
			continue
		}
		if x.Limit() == rate.Limit(g.in) {
			vsym.Assert(l[0] == nil, "both directions at the ingress rate")
			l[0] = x
		} else {
			vsym.Assert(x.Limit() == rate.Limit(g.out), "the rate is not one of the group's")
			l[1] = x
		}
	}
	vsym.Assert(l[0] != nil && l[1] != nil, "both directions at the egress rate")
	vsym.Assert(w.n[l[0]] >= in, "bytes are received past the ingress limiter")
	vsym.Assert(w.n[l[1]] >= out, "bytes are sent past the egress limiter")
	return l
}

// vfTransfer runs a client through the proxy and checks its limits.
func vfTransfer(f *vfFlow, w *vfWaits, name, mode string, g *vfGroup) [2]*rate.Limiter {
	w.reset()
	up, down := "up-data", "the-answer"
	served := len(f.served)
	f.newConn = func(string) *vfConn { return &vfConn{name: "up", in: []byte(down)} }
	if mode == ModeTLS || mode == ModeTLSPassthrough {
		c, vc := f.client(name, nil, up)
		vsym.Assert(len(vc.in) == 0 && string(vc.out) == down, "the data is not relayed")
		vsym.Assert(c.BytesSent() == int64(len(down)), "count")
		return vfLimiters(w, g, int(c.BytesReceived()), len(down))
	}
	_, vc := f.client(name, nil, up)
	vsym.Settle()
	vsym.Assert(len(f.served) == served+1, "not served")
	c := f.served[served].conn
	b, err := io.ReadAll(io.LimitReader(c, int64(len(up))))
	vsym.Assert(err == nil && string(b) == up, "the request is not received")
	_, err = c.Write([]byte(down))
	vsym.Assert(err == nil && string(vc.out) == down, "the answer is not sent")
	return vfLimiters(w, g, len(up), len(down))
}

func VerifP32Groups() {
	vsym.NoTimers()
	f := vfNewFlow()
	f.p.ctx = context.Background()
	w := vfRecordWaits()
	if vsym.Bool("equal rates") {
		vsym.Reach("equal")
		g := []vfGroup{{"a", 1000, 1000}}
		mode := vsym.Pick("mode", ModeTLSPassthrough, ModeTLS, ModeHTTP, ModeLocal)
		vsym.Assert(f.p.Reconfigure(vfLimitConfig(f, g, []string{"a"}, []string{mode})) == nil, "a valid configuration is refused")
		vfTransfer(f, w, "x.x", mode, &g[0])
		return
	}
	groups := vfGroups(true)
	dup := groups[0].name == groups[1].name
	names := []string{"", groups[0].name, groups[1].name, "nope"}
	member := []string{names[vsym.Choose("m0", 4)], names[vsym.Choose("m1", 3)]}
	modes := []string{vsym.Pick("mode", ModeTLSPassthrough, ModeTLS, ModeHTTP, ModeLocal), ModeTLS}
	err := f.p.Reconfigure(vfLimitConfig(f, groups, member, modes))
	if dup {
		vsym.Reach("duplicate")
		vsym.Assert(err != nil, "two groups of the same name")
		return
	}
	if member[0] == "nope" {
		vsym.Reach("unknown")
		vsym.Assert(err != nil, "a backend of an unknown group")
		return
	}
	vsym.Assert(err == nil, "a valid configuration is refused")
	l0 := vfTransfer(f, w, "x.x", modes[0], vfFind(groups, member[0]))
	l1 := vfTransfer(f, w, "y.x", modes[1], vfFind(groups, member[1]))
	vfShared(l0, l1, member)
	if modes[0] != ModeTLSPassthrough {
		return
	}
	// A connection of the first backend that stays open, idle.
	w.reset()
	idle := &vfConn{name: "idle", in: vfHello("x.x", nil), hold: make(chan struct{})}
	f.name, f.alpn = "x.x", nil
	f.newConn = func(string) *vfConn { return &vfConn{name: "up", hold: make(chan struct{})} }
	ic := netw.NewConn(idle)
	go f.p.handleConnection(ic)
	vsym.Settle()

	vsym.Reach("reload")
	g2 := []vfGroup{groups[0], groups[1]}
	member2 := []string{member[0], member[1]}
	switch vsym.Choose("change", 4) {
	case 0: // rates
		g2[0].in, g2[0].out = 7, 1e7
	case 1: // the groups trade their members
		for i := range member2 {
			switch member2[i] {
			case g2[0].name:
				member2[i] = g2[1].name
			case g2[1].name:
				member2[i] = g2[0].name
			}
		}
	case 2: // leave
		member2[1] = ""
	case 3: // join
		member2[1] = g2[0].name
	}
	vsym.Assert(f.p.Reconfigure(vfLimitConfig(f, g2, member2, modes)) == nil, "a valid configuration is refused")
	// The open connection is still limited by its group, at its new rate.
	w.reset()
	vsym.Assert(idle.closed == 0, "the connection is closed")
	if _, err := ic.Write([]byte("hello")); err == nil {
		vsym.Reach("kept")
		if g := vfFind(g2, member[0]); g != nil && len(w.order) > 0 {
			vsym.Assert(len(w.order) == 1 && w.order[0] == l0[1] && w.n[l0[1]] >= 5 && w.order[0].Limit() == rate.Limit(g.out), "an open connection left its group")
		} else {
			vsym.Assert(g == nil && len(w.order) == 0, "an open connection's limits")
		}
	}
	k0 := vfTransfer(f, w, "x.x", modes[0], vfFind(g2, member2[0]))
	k1 := vfTransfer(f, w, "y.x", modes[1], vfFind(g2, member2[1]))
	vfShared(k0, k1, member2)
	// The group's limiters stay the same.
	if member2[0] == member[0] {
		vsym.Assert(k0 == l0, "the group is no longer shared with the connections from before the reload")
	}
	close(idle.hold)
	idle.hold = nil
}

func vfShared(l0, l1 [2]*rate.Limiter, member []string) {
	if member[0] == "" || member[1] == "" {
		return
	}
	if member[0] == member[1] {
		vsym.Assert(l0 == l1, "the group's limiters are not shared")
	} else {
		vsym.Assert(l0[0] != l1[0] && l0[1] != l1[1] && l0[0] != l1[1] && l0[1] != l1[0], "limiters are shared between groups")
	}
	vsym.Assert(l0[0] != l0[1], "the directions share a limiter")
}

// QUIC connections are limited all the same.
func VerifP32QUIC() {
	vsym.NoTimers()
	f := vfNewFlow()
	w := vfRecordWaits()
	groups := vfGroups(false)
	member := []string{"", groups[0].name, groups[1].name}[vsym.Choose("m", 3)]
	yes := true
	be := &Backend{ServerNames: []string{"x.x"}, Mode: ModeTLS, ALPNProtos: &[]string{"h2"}, Addresses: []string{"1.1.1.1:1"}, BWLimit: member}
	no := false
	be.ServerCloseEndsConnection, be.ClientCloseEndsConnection = &no, &no
	cfg := f.config(be)
	cfg.EnableQUIC = &yes
	for _, g := range groups {
		cfg.BWLimits = append(cfg.BWLimits, &BWLimit{Name: g.name, Ingress: g.in, Egress: g.out})
	}
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	q := vfNewQUIC(f)
	vsym.Settle()
	up, down := "up-data", "the-answer"
	f.newConn = func(string) *vfConn { return &vfConn{name: "up", in: []byte(down)} }
	var streams []*vfQS
	n := 1 + vsym.Choose("streams", 2)
	for i := 0; i < n; i++ {
		streams = append(streams, &vfQS{vfConn: vfConn{name: "q", in: []byte(up)}, id: int64(4 * i)})
	}
	w.reset()
	c := q.connect("x.x", []string{"h2"}, &net.UDPAddr{IP: net.IPv4(198, 51, 100, 7), Port: 7}, streams...)
	vsym.Assert(c != nil, "handshake")
	vsym.Settle()
	for _, s := range streams {
		vsym.Assert(len(s.in) == 0 && string(s.out) == down, "the data is not relayed")
	}
	vfLimiters(w, vfFind(groups, member), n*len(up), n*len(down))
	c.CloseWithError(0, "")
	vsym.Settle()
}
