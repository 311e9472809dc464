//verif:pkg proxy
//verif:use quicflow.go
//verif:use cas.go
//verif:unit name=tcp entry=VerifP13TCP share=5 reach=maxopen,badhello,unknown,denied,handshake,panic,nocert,ctx,dial,relay,http,acme,closed
//verif:unit name=reload entry=VerifP13Reload share=4 reach=hello,handshake,dial,relay,http
//verif:unit name=quic entry=VerifP13QUIC share=3 reach=maxopen,denied,panic,dial,relay,http,closed
//verif:unit name=conc entry=VerifP13Conc share=4 q.PRE=1 t.PRE=2 reach=done
//verif:unit name=qclient entry=VerifP13QUICConc share=2 q.WHAT=0 t.WHAT=0 q.PRE=1 t.PRE=2 reach=client
//verif:unit name=qup entry=VerifP13QUICConc share=2 q.WHAT=1 t.WHAT=1 q.PRE=1 t.PRE=2 reach=upstream
//verif:unit name=qreload entry=VerifP13QUICConc share=2 q.WHAT=2 t.WHAT=2 q.PRE=1 t.PRE=2 reach=reload
//verif:note one or two connections, every exit path listed in the harness, at most one reload; conc: a connection and the check of open connections after a reload, with at most PRE preemptions; q*: a QUIC connection that its client or upstream closes at any point, possibly after a reload, in any schedule that differs from the default one in at most PRE places
package proxy

import (
	"context"
	"crypto/x509"
	"math/big"
	"net"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

func vfInFlight(be *Backend) int {
	be.state.mu.Lock()
	defer be.state.mu.Unlock()
	return be.state.inFlight
}

// vfBalanced states that nothing is open.
func vfBalanced(f *vfFlow, bes []*Backend) {
	vsym.Assert(len(f.p.inConns.slice()) == 0, "a connection that ended is still tracked")
	vsym.Assert(len(f.p.outConns.slice()) == 0, "an upstream connection that ended is still tracked")
	for _, be := range bes {
		n := vfInFlight(be)
		vsym.Assert(n <= 0, "a connection that ended is still counted as in flight")
		vsym.Assert(n >= 0, "a connection that ended is uncounted more than once")
	}
}

func vfCountBE(mode string) *Backend {
	be := &Backend{ServerNames: []string{"a.x"}, Mode: mode, ALPNProtos: &[]string{"h2", "h3"}}
	if mode == ModeTLSPassthrough {
		be.ALPNProtos = nil
	}
	if mode != ModeLocal && mode != ModeConsole {
		be.Addresses = []string{"1.1.1.1:1"}
	}
	return be
}

// vfHeld opens a connection that stays in its hello.
func vfHeld(f *vfFlow, i int) *vfConn {
	vc := &vfConn{name: "held", hold: make(chan struct{}), remote: &net.TCPAddr{IP: net.IPv4(198, 51, 100, byte(i)), Port: 1}}
	go f.p.handleConnection(netw.NewConn(vc))
	vsym.Settle()
	return vc
}

// Every way a TCP connection can end.
func VerifP13TCP() {
	vsym.NoTimers()
	f := vfNewFlow()
	var cancel func()
	f.p.ctx, cancel = context.WithCancel(context.Background())
	mode := vsym.Pick("mode", ModeTLSPassthrough, ModeTLS, ModeHTTP, ModeLocal)
	be := vfCountBE(mode)
	exit := vsym.Choose("exit", 13)
	http := mode == ModeHTTP || mode == ModeLocal
	name, offers := "a.x", []string{"h2"}
	hold := make(chan struct{})
	vc := &vfConn{name: "client", hold: hold}
	f.newConn = func(string) *vfConn { return &vfConn{name: "up"} }
	open := 0
	others := 0
	maxOpen := 100
	switch exit {
	case 0:
		vsym.Reach("maxopen")
		maxOpen = 1 + vsym.Choose("max", 3)
		others = maxOpen + vsym.Choose("over", 2)
	case 1, 2:
		vsym.Reach("badhello")
		vc.hold = nil
	case 3:
		vsym.Reach("unknown")
		name = "b.x"
	case 4:
		vsym.Reach("denied")
		be.DenyIPs = &[]string{"198.51.100.0/24"}
	case 5:
		vsym.Assume(mode != ModeTLSPassthrough)
		vsym.Reach("handshake")
		f.hsErr = errVF
	case 6:
		vsym.Reach("panic")
		if mode == ModeTLSPassthrough || mode == ModeTLS && vsym.Bool("late") {
			f.dialErr = func(context.Context, string) error { panic("verif") }
		} else {
			f.hsPanic = true
		}
		vsym.Assume(mode != ModeTLSPassthrough || f.dialErr != nil)
	case 7:
		vsym.Assume(mode != ModeTLSPassthrough)
		vsym.Reach("nocert")
		be.ClientAuth = &ClientAuth{RootCAs: []string{vfCA1}, ACL: &[]string{"EMAIL:bob@x"}}
		f.ca = "CA1"
		if vsym.Bool("cert") {
			f.cert = &x509.Certificate{SerialNumber: big.NewInt(7), EmailAddresses: []string{"eve@x"}}
		}
	case 8:
		vsym.Reach("ctx")
		cancel()
	case 9:
		vsym.Assume(!http)
		vsym.Reach("dial")
		f.dialErr = func(context.Context, string) error { return errVF }
	case 10:
		open = 1
		up := &vfConn{name: "up", hold: make(chan struct{})}
		f.newConn = func(string) *vfConn { return up }
	case 11:
		vsym.Assume(mode != ModeTLSPassthrough)
		vsym.Reach("acme")
		offers = []string{"acme-tls/1"}
		if vsym.Bool("fails") {
			f.hsErr = errVF
		}
	case 12:
		vsym.Reach("closed")
		open = 1
		f.newConn = func(string) *vfConn { return &vfConn{name: "up", hold: make(chan struct{})} }
	}
	cfg := f.config(be)
	cfg.MaxOpen = maxOpen
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	vsym.Settle()
	bes := append([]*Backend{}, f.p.cfg.Backends...)
	var held []*vfConn
	for i := 0; i < others; i++ {
		held = append(held, vfHeld(f, i))
	}
	if exit == 0 {
		// All but those above the maximum are open.
		vsym.Assert(len(f.p.inConns.slice()) <= maxOpen, "more connections than the maximum are open")
	}
	f.name, f.alpn = name, offers
	vc.in = append(vfHello(name, offers), "data"...)
	switch exit {
	case 1:
		vc.in = vc.in[:vsym.Choose("len", 12)]
	case 2:
		vc.in[0] = 23
	}
	c := netw.NewConn(vc)
	go f.p.handleConnection(c)
	vsym.Settle()
	if exit == 0 {
		vsym.Assert(len(f.dials)+len(f.served)+f.hsCount == 0, "a connection above the maximum is served")
		vsym.Assert(vc.closed > 0, "a connection above the maximum stays open")
	}
	if open == 1 {
		vsym.Assert(vc.closed == 0, "an acceptable connection is closed")
		vsym.Assert(len(f.p.inConns.slice()) == 1, "an open connection is not tracked")
		vsym.Assert(vfInFlight(bes[0]) == 1, "an open connection is not counted as in flight")
		if http {
			vsym.Reach("http")
			vsym.Assert(len(f.served) == 1, "the connection is not served")
			f.served[0].conn.Close()
			if vsym.Bool("again") {
				f.served[0].conn.Close()
			}
		} else if exit == 12 {
			// From the outside, as after a reload.
			c.Close()
		} else {
			vsym.Reach("relay")
			close(vc.hold)
			vc.hold = nil
			up := f.dials[0].conn
			if up.closed == 0 {
				close(up.hold)
				up.hold = nil
			}
		}
	}
	for _, h := range held {
		h.Close()
	}
	vsym.Settle()
	for _, s := range f.served {
		s.conn.Close()
	}
	vsym.Settle()
	vsym.Assert(vc.closed > 0, "a connection that ended is not closed")
	for _, d := range f.dials {
		vsym.Assert(d.conn == nil || d.conn.closed > 0, "the upstream connection is not closed")
	}
	vfBalanced(f, bes)
}

// A connection in every state while the configuration is replaced.
func VerifP13Reload() {
	vsym.NoTimers()
	f := vfNewFlow()
	mode := vsym.Pick("mode", ModeTLSPassthrough, ModeTLS, ModeHTTP, ModeLocal)
	http := mode == ModeHTTP || mode == ModeLocal
	vsym.Assert(f.p.Reconfigure(f.config(vfCountBE(mode))) == nil, "a valid configuration is refused")
	vsym.Settle()
	bes := append([]*Backend{}, f.p.cfg.Backends...)
	vc := &vfConn{name: "client", hold: make(chan struct{})}
	f.name, f.alpn = "a.x", []string{"h2"}
	vc.in = append(vfHello(f.name, f.alpn), "data"...)
	rest := vc.in
	f.newConn = func(string) *vfConn { return &vfConn{name: "up", hold: make(chan struct{})} }
	wait := make(chan struct{})
	stage := vsym.Choose("stage", 4)
	switch stage {
	case 0:
		vsym.Reach("hello")
		vc.in = vc.in[:3]
	case 1:
		vsym.Assume(mode != ModeTLSPassthrough)
		vsym.Reach("handshake")
		f.hsWait = wait
	case 2:
		vsym.Assume(!http)
		vsym.Reach("dial")
		f.dialErr = func(context.Context, string) error { <-wait; return nil }
	case 3:
		if http {
			vsym.Reach("http")
		} else {
			vsym.Reach("relay")
		}
	}
	go f.p.handleConnection(netw.NewConn(vc))
	vsym.Settle()
	be := vfCountBE(mode)
	switch vsym.Choose("new", 4) {
	case 1:
		be.ServerNames = []string{"b.x"}
	case 2:
		be.DenyIPs = &[]string{"198.51.100.0/24"}
	case 3:
		be = vfCountBE(map[string]string{ModeTLSPassthrough: ModeTLS, ModeTLS: ModeTCP, ModeHTTP: ModeHTTPS, ModeLocal: ModeHTTP}[mode])
	}
	vsym.Assert(f.p.Reconfigure(f.config(be)) == nil, "a valid configuration is refused")
	vsym.Settle()
	bes = append(bes, f.p.cfg.Backends...)
	// Now the handshake or dial ends.
	switch stage {
	case 0:
		vc.in = rest[3:]
		h := vc.hold
		vc.hold = make(chan struct{})
		close(h)
	case 1, 2:
		close(wait)
	}
	vsym.Settle()
	n := 0
	for _, be := range bes {
		n += vfInFlight(be)
	}
	if vc.closed == 0 {
		vsym.Assert(n == 1, "an open connection is not counted as in flight exactly once")
		vsym.Assert(len(f.p.inConns.slice()) == 1, "an open connection is not tracked")
		vsym.Assert(len(f.served) == 1 || len(f.dials) == 1 && f.dials[0].conn.closed == 0, "an open connection is neither served nor closed")
	}
	for _, s := range f.served {
		s.conn.Close()
	}
	for _, d := range f.dials {
		d.conn.Close()
	}
	vsym.Settle()
	vsym.Assert(vc.closed > 0, "a connection that ended is not closed")
	vfBalanced(f, bes)
	for _, be := range bes[:1] {
		vsym.Assert(be.httpServer == nil || !http, "a replaced backend without connections is not shut down")
	}
}

// A new connection while open connections are checked.
func VerifP13Conc() {
	vsym.NoTimers()
	f := vfNewFlow()
	be := vfCountBE(ModeTLSPassthrough)
	be.DenyIPs = &[]string{"198.51.100.0/24"}
	vsym.Assert(f.p.Reconfigure(f.config(be)) == nil, "a valid configuration is refused")
	vsym.Settle()
	bes := append([]*Backend{}, f.p.cfg.Backends...)
	vc := &vfConn{name: "client", in: vfHello("a.x", nil)}
	done := make(chan bool)
	vsym.Explore(vsym.Param("PRE", 1))
	go func() {
		f.p.reAuthorize()
		done <- true
	}()
	f.p.handleConnection(netw.NewConn(vc))
	<-done
	vsym.Explore(-1)
	vsym.Settle()
	vsym.Reach("done")
	vsym.Assert(vc.closed > 0, "a connection that ended is not closed")
	vfBalanced(f, bes)
}

// Every way a QUIC connection can end.
func VerifP13QUIC() {
	vsym.NoTimers()
	f := vfNewFlow()
	mode := vsym.Pick("mode", ModeTLS, ModeHTTP, ModeQUIC, ModeLocal)
	be := vfCountBE(mode)
	maxOpen, others := 100, 0
	exit := vsym.Choose("exit", 6)
	open := false
	f.newConn = func(string) *vfConn { return &vfConn{name: "up"} }
	switch exit {
	case 0:
		vsym.Reach("maxopen")
		maxOpen = 2
		others = 2
	case 1:
		vsym.Reach("denied")
		be.DenyIPs = &[]string{"198.51.100.0/24"}
	case 2:
		vsym.Reach("panic")
		vsym.Assume(mode == ModeQUIC)
	case 3:
		vsym.Reach("dial")
		vsym.Assume(mode == ModeTLS || mode == ModeQUIC)
		f.dialErr = func(context.Context, string) error { return errVF }
	case 4:
		open = true
	case 5:
		vsym.Reach("closed")
		open = true
	}
	cfg := f.config(be)
	yes := true
	cfg.EnableQUIC = &yes
	cfg.MaxOpen = maxOpen
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	q := vfNewQUIC(f)
	vsym.Settle()
	bes := append([]*Backend{}, f.p.cfg.Backends...)
	q.qdial = func(string) (*vfQC, error) {
		if exit == 2 {
			panic("verif")
		}
		if exit == 3 {
			return nil, errVF
		}
		return vfNewQC(q.lastState, &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1}), nil
	}
	var held []*vfConn
	for i := 0; i < others; i++ {
		held = append(held, vfHeld(f, i))
	}
	offers := []string{"h2"}
	if mode != ModeTLS && vsym.Bool("h3") {
		offers = []string{"h3"}
	}
	st := &vfQS{vfConn: vfConn{name: "st", in: []byte("data")}}
	if open {
		st.hold = make(chan struct{})
	}
	c := q.connect("a.x", offers, &net.UDPAddr{IP: net.IPv4(198, 51, 100, 7), Port: 5555}, st)
	vsym.Assert(c != nil, "a valid handshake fails")
	vsym.Settle()
	if exit == 0 {
		vsym.Assert(len(f.dials)+len(f.served)+len(q.qdials)+len(q.h3) == 0, "a connection above the maximum is served")
		vsym.Assert(c.closed > 0, "a connection above the maximum stays open")
	}
	if open {
		vsym.Assert(c.closed == 0, "an acceptable connection is closed")
		vsym.Assert(len(f.p.inConns.slice()) == 1, "an open connection is not tracked")
		vsym.Assert(vfInFlight(bes[0]) == 1, "an open connection is not counted as in flight")
		vsym.Assert(len(f.dials)+len(f.served)+len(q.qdials)+len(q.h3) == 1, "the connection is not served")
		if mode == ModeHTTP || mode == ModeLocal {
			vsym.Reach("http")
		} else {
			vsym.Reach("relay")
		}
		if exit == 5 {
			// From the outside, as after a reload.
			for _, x := range f.p.inConns.slice() {
				x.Close()
			}
		}
	}
	for _, h := range held {
		h.Close()
	}
	vsym.Settle()
	for _, s := range f.served {
		s.conn.Close()
	}
	vsym.Settle()
	// In the end, the client goes away.
	c.cancel()
	if st.hold != nil && st.closed == 0 {
		st.vfConn.Close()
	}
	vsym.Settle()
	vfBalanced(f, bes)
	vsym.Assert(c.closed > 0, "a connection that ended is not closed")
	for _, d := range q.qdials {
		vsym.Assert(d.conn == nil || d.conn.closed > 0, "the upstream connection is not closed")
	}
}

// A QUIC connection that is closed by its peers at any time.
func VerifP13QUICConc() {
	vsym.NoTimers()
	f := vfNewFlow()
	what := []string{"client", "upstream", "reload"}[vsym.Param("WHAT", 0)]
	mode := ModeQUIC
	switch what {
	case "client":
		vsym.Reach("client")
		mode = vsym.Pick("mode", ModeTLS, ModeQUIC)
	case "upstream":
		vsym.Reach("upstream")
	case "reload":
		vsym.Reach("reload")
		mode = ModeHTTP
	}
	cfg := f.config(vfCountBE(mode))
	yes := true
	cfg.EnableQUIC = &yes
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	q := vfNewQUIC(f)
	vsym.Settle()
	bes := append([]*Backend{}, f.p.cfg.Backends...)
	var up *vfQC
	q.qdial = func(string) (*vfQC, error) {
		up = vfNewQC(q.lastState, &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1})
		if what == "upstream" {
			if vsym.Bool("early") {
				up.cancel()
			} else {
				go up.cancel()
			}
		}
		return up, nil
	}
	f.newConn = func(string) *vfConn { return &vfConn{name: "up"} }
	remote := &net.UDPAddr{IP: net.IPv4(198, 51, 100, 7), Port: 5555}
	var c *vfQC
	if what == "reload" {
		c = q.connect("a.x", []string{"h2"}, remote)
		vsym.Settle()
		cfg := f.config(vfCountBE(ModeHTTP))
		cfg.EnableQUIC = &yes
		vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
		vsym.Settle()
		bes = append(bes, f.p.cfg.Backends...)
		vsym.ExploreDelays(vsym.Param("PRE", 2))
		c.streams <- &vfQS{vfConn: vfConn{name: "st"}, qc: c}
		c.cancel()
	} else {
		vsym.ExploreDelays(vsym.Param("PRE", 2))
		c = q.connect("a.x", []string{"h2"}, remote)
		if what == "client" {
			c.cancel()
		}
	}
	vsym.Settle()
	vsym.Explore(-1)
	c.cancel()
	vsym.Settle()
	vfBalanced(f, bes)
	vsym.Assert(c.closed > 0, "a connection that ended is not closed")
	vsym.Assert(up == nil || up.closed > 0, "the upstream connection is not closed")
}
