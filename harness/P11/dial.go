//verif:pkg proxy
//verif:use quicflow.go
//verif:use cas.go
//verif:unit name=turns entry=VerifP11Turns share=4 q.N=3 t.N=5 q.DIALS=2 t.DIALS=3 reach=first,failover,exhausted,override
//verif:unit name=settings entry=VerifP11Settings share=2 q.LEN=1 t.LEN=2 reach=main,override
//verif:unit name=conc entry=VerifP11Conc share=4 q.PRE=1 t.PRE=2 q.N=2 t.N=3 reach=both,exhausted
//verif:unit name=quic entry=VerifP11QUIC share=2 q.N=3 t.N=4 reach=first,failover,exhausted
//verif:unit name=seq entry=VerifP11Seq share=1 q.N=4 t.N=7 reach=wrap
//verif:note 1..N addresses, any starting position, DIALS consecutive or two concurrent connection attempts, any outcome of every dial
package proxy

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
	"github.com/quic-go/quic-go"
)

func vfAddrs(p string, n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("%s.%d:%d", p, i+1, 1000+i))
	}
	return out
}

func vfDialBE(f *vfFlow, mode string, addrs []string, po ...*PathOverride) *Backend {
	be := &Backend{ServerNames: []string{"a.x"}, Mode: mode, Addresses: addrs, PathOverrides: po}
	vsym.Assert(f.p.Reconfigure(f.config(be)) == nil, "a valid configuration is refused")
	vsym.Settle()
	return f.p.cfg.Backends[0]
}

// vfCtx is the context of a client connection.
func vfCtx() context.Context {
	c := netw.NewConn(&vfConn{name: "client"})
	c.SetAnnotation(serverNameKey, "a.x")
	return context.WithValue(context.Background(), connCtxKey, c)
}

var errVFDial = errors.New("dial failed")

// vfTurn checks one completed attempt: addrs are tried in order from start,
// until the first that answers.
func vfTurn(addrs []string, start int, fails []bool, tried []string, err error) {
	n := len(addrs)
	ok := false
	k := 0
	for k < n {
		vsym.Assert(k < len(tried), "the attempt fails although an address was not tried")
		vsym.Assert(tried[k] == addrs[(start+k)%n], "an address is tried out of turn")
		k++
		if !fails[k-1] {
			ok = true
			break
		}
	}
	vsym.Assert(len(tried) == k, "more addresses than needed are tried")
	vsym.Assert((err == nil) == ok, "the result of the attempt is not that of its dials")
	switch {
	case !ok:
		vsym.Reach("exhausted")
	case k > 1:
		vsym.Reach("failover")
	default:
		vsym.Reach("first")
	}
}

// Consecutive attempts with any outcome of every dial.
func VerifP11Turns() {
	f := vfNewFlow()
	nmax := vsym.Param("N", 3)
	n := 1 + vsym.Choose("n", nmax)
	mode := vsym.Pick("mode", ModeTCP, ModeHTTPS)
	main := vfAddrs("10.0.0", n)
	over := vfAddrs("10.9.9", 1+n%nmax)
	var be *Backend
	if mode == ModeHTTPS {
		be = vfDialBE(f, mode, main, &PathOverride{Paths: []string{"/o/"}, Addresses: over, Mode: ModeHTTP})
	} else {
		be = vfDialBE(f, mode, main)
	}
	var starts [2]int
	starts[0] = vsym.Concrete(vsym.Int("start", 0, n-1))
	be.state.next = starts[0]
	if mode == ModeHTTPS {
		starts[1] = vsym.Concrete(vsym.Int("ostart", 0, len(over)-1))
		be.state.oNext[0] = starts[1]
	}
	var fails []bool
	f.dialErr = func(ctx context.Context, addr string) error {
		b := vsym.Bool("fail")
		fails = append(fails, b)
		if b {
			return errVFDial
		}
		return nil
	}
	for d := 0; d < vsym.Param("DIALS", 2); d++ {
		ctx := vfCtx()
		addrs, which := main, 0
		if mode == ModeHTTPS && vsym.Bool("override") {
			vsym.Reach("override")
			addrs, which = over, 1
			ctx = context.WithValue(ctx, ctxOverrideIDKey, 0)
		}
		f.dials, fails = nil, nil
		c, err := be.dial(ctx)
		vsym.Assert((c != nil) == (err == nil), "no connection and no error")
		var tried []string
		for _, d := range f.dials {
			tried = append(tried, d.addr)
		}
		vfTurn(addrs, starts[which], fails, tried, err)
		if err == nil {
			last := f.dials[len(f.dials)-1]
			vsym.Assert(netwConnOf(c) == net.Conn(last.conn), "the connection is not the one that was dialled")
		}
		starts[which] = (starts[which] + len(tried)) % len(addrs)
	}
}

func netwConnOf(c net.Conn) net.Conn {
	for {
		switch cc := c.(type) {
		case *netw.Conn:
			c = cc.Conn
		case *tls.Conn:
			c = cc.NetConn()
		default:
			return c
		}
	}
}

// Without failures, consecutive attempts use every address equally.
func VerifP11Seq() {
	f := vfNewFlow()
	n := 1 + vsym.Choose("n", vsym.Param("N", 4))
	be := vfDialBE(f, ModeTCP, vfAddrs("10.0.0", n))
	be.state.next = vsym.Concrete(vsym.Int("start", 0, n-1))
	use := map[string]int{}
	for i := 0; i < 2*n; i++ {
		_, err := be.dial(vfCtx())
		vsym.Assert(err == nil, "a dial fails for no reason")
		use[f.dials[i].addr]++
	}
	vsym.Reach("wrap")
	for _, a := range be.Addresses {
		vsym.Assert(use[a] == 2, "the addresses are not used equally")
	}
}

// The settings of each attempt are those of what was selected.
func VerifP11Settings() {
	f := vfNewFlow()
	pool := []string{vfCA1}
	po := &PathOverride{Paths: []string{"/o/"}, Addresses: []string{"10.9.9.1:1"}, Mode: vsym.Pick("omode", ModeHTTP, ModeHTTPS)}
	be := &Backend{ServerNames: []string{"a.x"}, Mode: vsym.Pick("mode", ModeHTTP, ModeHTTPS), Addresses: []string{"10.0.0.1:1"}, PathOverrides: []*PathOverride{po}}
	be.ForwardTimeout = []time.Duration{0, 17 * time.Second}[vsym.Choose("timeout", 2)]
	po.ForwardTimeout = []time.Duration{0, 19 * time.Second}[vsym.Choose("otimeout", 2)]
	be.InsecureSkipVerify = vsym.Bool("insecure")
	po.InsecureSkipVerify = vsym.Bool("oinsecure")
	be.ForwardServerName = vsym.Pick("fsn", "", "main.x")
	po.ForwardServerName = "over.x"
	hasCA := vsym.Bool("ca")
	oHasCA := !hasCA
	if vsym.Param("LEN", 1) > 1 {
		oHasCA = vsym.Bool("oca")
		po.ForwardServerName = vsym.Pick("ofsn", "", "over.x")
	}
	if hasCA {
		be.ForwardRootCAs = pool
	}
	if oHasCA {
		po.ForwardRootCAs = pool
	}
	mode, omode := be.Mode, po.Mode
	timeout, otimeout := be.ForwardTimeout, po.ForwardTimeout
	if timeout == 0 {
		timeout = 30 * time.Second
	}
	if otimeout == 0 {
		otimeout = 30 * time.Second
	}
	cfg := f.config(be)
	if err := f.p.Reconfigure(cfg); err != nil {
		// A server name or unverified mode is required.
		return
	}
	vsym.Settle()
	be = f.p.cfg.Backends[0]
	po = be.PathOverrides[0]
	ctx := vfCtx()
	insecure, fsn, ca := be.InsecureSkipVerify, be.ForwardServerName, be.forwardRootCAs
	vsym.Assert((ca != nil) == hasCA, "the configured root certificates are not used")
	if vsym.Bool("override") {
		vsym.Reach("override")
		ctx = context.WithValue(ctx, ctxOverrideIDKey, 0)
		mode, timeout, insecure, fsn, ca = omode, otimeout, po.InsecureSkipVerify, po.ForwardServerName, po.forwardRootCAs
		vsym.Assert((ca != nil) == oHasCA, "the configured root certificates are not used")
	} else {
		vsym.Reach("main")
	}
	protos := []string{"h2", "http/1.1"}
	_, err := be.dial(ctx, protos...)
	vsym.Assert(err == nil && len(f.dials) == 1, "a dial fails for no reason")
	d := f.dials[0]
	vsym.Assert(d.network == "tcp", "the upstream is not dialled with TCP")
	vsym.Assert(d.dialer.Timeout == timeout, "the dial does not use the configured timeout")
	if mode == ModeHTTP {
		vsym.Assert(d.tc == nil, "TLS is used although it isn't configured")
		return
	}
	vsym.Assert(d.tc != nil, "TLS is not used although it is configured")
	vsym.Assert(d.tc.InsecureSkipVerify == insecure, "the certificate verification setting is not the configured one")
	vsym.Assert(d.tc.ServerName == fsn, "the TLS server name is not the configured one")
	vsym.Assert(d.tc.RootCAs == ca, "the TLS root certificates are not the configured ones")
	vsym.Assert(len(d.tc.NextProtos) == 2 && d.tc.NextProtos[0] == "h2" && d.tc.NextProtos[1] == "http/1.1", "the protocols offered upstream are not the requested ones")
	vsym.Assert(d.tc.VerifyConnection != nil && d.tc.VerifyConnection(tls.ConnectionState{}) != nil, "an upstream without a certificate is accepted")
	vsym.Assert(d.tc.VerifyConnection(tls.ConnectionState{PeerCertificates: []*x509.Certificate{{}}}) == nil, "an upstream certificate is refused for no reason")
}

// Two concurrent attempts.
func VerifP11Conc() {
	f := vfNewFlow()
	n := vsym.Param("N", 2)
	be := vfDialBE(f, ModeTCP, vfAddrs("10.0.0", n))
	be.state.next = vsym.Concrete(vsym.Int("start", 0, n-1))
	type who struct{}
	var tried [2][]string
	// The outcome of a dial depends on who dials and how often it did.
	var fail [2][8]bool
	for i := range fail {
		for j := 0; j < n; j++ {
			fail[i][j] = vsym.Bool("fail")
		}
	}
	f.dialErr = func(ctx context.Context, addr string) error {
		w := ctx.Value(who{}).(int)
		k := len(tried[w])
		tried[w] = append(tried[w], addr)
		vsym.Assert(k < n, "an attempt tries more often than there are addresses")
		if fail[w][k] {
			return errVFDial
		}
		return nil
	}
	vsym.Explore(vsym.Param("PRE", 1))
	var wg sync.WaitGroup
	var errs [2]error
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, errs[i] = be.dial(context.WithValue(vfCtx(), who{}, i))
		}()
	}
	wg.Wait()
	vsym.Explore(0)
	vsym.Assert(be.state.next >= 0 && be.state.next < n, "the turn is out of range")
	vsym.Assert(tried[0][0] != tried[1][0] || len(tried[0])+len(tried[1]) > 2 || n == 1, "two concurrent attempts use the same address")
	for w := range tried {
		for i := range tried[w] {
			for j := 0; j < i; j++ {
				vsym.Assert(tried[w][i] != tried[w][j], "an address is tried more than once by one attempt")
			}
		}
		if errs[w] != nil {
			vsym.Reach("exhausted")
			vsym.Assert(len(tried[w]) == n, "an attempt fails although an address was not tried")
		}
	}
	if errs[0] == nil && errs[1] == nil {
		vsym.Reach("both")
	}
}

// The QUIC upstreams of a QUIC backend.
func VerifP11QUIC() {
	f := vfNewFlow()
	n := 1 + vsym.Choose("n", vsym.Param("N", 3))
	addrs := vfAddrs("10.0.0", n)
	be := &Backend{ServerNames: []string{"a.x"}, Mode: ModeQUIC, ALPNProtos: &[]string{"h3"}, Addresses: addrs, ForwardServerName: "main.x"}
	be.InsecureSkipVerify = vsym.Bool("insecure")
	be.ForwardTimeout = 17 * time.Second
	yes := true
	cfg := f.config(be)
	cfg.EnableQUIC = &yes
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	q := vfNewQUIC(f)
	vsym.Settle()
	be = f.p.cfg.Backends[0]
	start := vsym.Concrete(vsym.Int("start", 0, n-1))
	be.state.next = start
	var fails []bool
	q.qdial = func(addr string) (*vfQC, error) {
		b := vsym.Bool("fail")
		fails = append(fails, b)
		if b {
			return nil, errVFDial
		}
		return vfNewQC(tls.ConnectionState{}, &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1}), nil
	}
	var err error
	if vsym.Bool("stream") {
		_, err = be.dial(vfCtx(), "h3")
	} else {
		var c quic.Connection
		c, err = be.dialQUICBackend(vfCtx(), "h3")
		_ = c
	}
	var tried []string
	for _, d := range q.qdials {
		tried = append(tried, d.addr)
		vsym.Assert(d.tc != nil && d.tc.ServerName == "main.x" && d.tc.InsecureSkipVerify == be.InsecureSkipVerify, "the TLS settings are not the configured ones")
		vsym.Assert(len(d.tc.NextProtos) == 1 && d.tc.NextProtos[0] == "h3", "the protocol offered upstream is not the requested one")
	}
	vfTurn(addrs, start, fails, tried, err)
	vsym.Assert(be.state.next == (start+len(tried))%n, "the turn does not move on")
}
