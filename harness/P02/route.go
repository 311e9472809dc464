//verif:pkg proxy
//verif:use quicflow.go
//verif:unit name=route entry=VerifP02Route share=3 q.NAME=3 t.NAME=4 q.OFFERS=2 t.OFFERS=3 reach=byproto,byname,refused,nosni
//verif:unit name=modes entry=VerifP02Modes share=2 reach=tls,passthrough,http,refused,gone,shutdown
//verif:unit name=quic entry=VerifP02QUIC share=2 reach=h3,stream,refused
//verif:assume server names are compared as configured (lower case); names in hellos are at most NAME bytes, ALPN offers at most OFFERS entries taken from the configured protocols and one that is not configured, or with an arbitrary first byte
package proxy

import (
	"context"
	"net"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfListener struct{ closed int }

func (l *vfListener) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (l *vfListener) Close() error              { l.closed++; return nil }
func (l *vfListener) Addr() net.Addr            { return &net.TCPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 443} }

// vfWant is the backend that must handle a connection, or -1.
func vfWant(name string, offers []string, names [][]string, protos [][]string) (int, bool) {
	lists := func(i int) bool {
		for _, n := range names[i] {
			if n == name {
				return true
			}
		}
		return false
	}
	for _, o := range offers {
		for i := range names {
			if !lists(i) {
				continue
			}
			for _, p := range protos[i] {
				if p == o {
					return i, true
				}
			}
		}
	}
	for i := range names {
		if lists(i) {
			return i, false
		}
	}
	return -1, false
}

func vfProtos(label string) []string {
	return [][]string{{}, {"h2"}, {"x"}, {"x", "h2"}}[vsym.Choose(label, 4)]
}

// Routing by name and protocol, all backends in passthrough mode.
func VerifP02Route() {
	f := vfNewFlow()
	names := [][]string{
		{"a.x"},
		[][]string{{"a.x"}, {"b.x"}, {"b.x", "a.x"}}[vsym.Choose("names1", 3)],
	}
	protos := [][]string{vfProtos("alpn0"), vfProtos("alpn1")}
	addrs := []string{"1.1.1.1:1", "2.2.2.2:2"}
	var bes []*Backend
	for i := range names {
		pr := append([]string{}, protos[i]...)
		bes = append(bes, &Backend{
			ServerNames: append([]string{}, names[i]...), ALPNProtos: &pr,
			Mode: ModeTLSPassthrough, Addresses: []string{addrs[i]},
		})
	}
	cfg := f.config(bes...)
	cfg.DefaultServerName = vsym.Pick("default", "", "b.x")
	if err := f.p.Reconfigure(cfg); err != nil {
		// A duplicate name and protocol.
		return
	}
	name := vsym.String("name", 0, vsym.Param("NAME", 3))
	n := vsym.Choose("offers", vsym.Param("OFFERS", 2)+1)
	var offers []string
	for i := 0; i < n; i++ {
		offers = append(offers, []string{"h2", "x", vsym.String("proto", 1, 1)}[vsym.Choose("offer", 3)])
	}
	_, vc := f.client(name, offers, "data")

	eff := name
	if name == "" {
		vsym.Reach("nosni")
		eff = cfg.DefaultServerName
	}
	want, byProto := vfWant(eff, offers, names, protos)
	if want < 0 {
		vsym.Reach("refused")
		vsym.Assert(len(f.dials) == 0 && f.hsCount == 0, "a connection for an unknown name is served")
		vsym.Assert(vc.closed > 0, "a refused connection stays open")
		return
	}
	if byProto {
		vsym.Reach("byproto")
	} else {
		vsym.Reach("byname")
	}
	vsym.Assert(f.hsCount == 0, "the proxy answers the handshake of a passthrough backend")
	vsym.Assert(len(f.dials) == 1 && f.dials[0].addr == addrs[want], "the connection is routed to the wrong backend")
}

// Every mode, then a reload or a shutdown.
func VerifP02Modes() {
	f := vfNewFlow()
	modes := []string{ModeTLSPassthrough, ModeTLS, ModeTCP, ModeHTTP, ModeHTTPS, ModeLocal}
	names := [][]string{{"a.x"}, {"a.x", "b.x"}}
	protos := [][]string{{"h2"}, {"x", "http/1.1"}}
	addrs := []string{"1.1.1.1:1", "2.2.2.2:2"}
	mode := []string{modes[vsym.Choose("mode0", len(modes))], modes[vsym.Choose("mode1", len(modes))]}
	mk := func(i int) *Backend {
		pr := append([]string{}, protos[i]...)
		be := &Backend{ServerNames: append([]string{}, names[i]...), ALPNProtos: &pr, Mode: mode[i]}
		if mode[i] != ModeLocal {
			be.Addresses = []string{addrs[i]}
		}
		return be
	}
	err := f.p.Reconfigure(f.config(mk(0), mk(1)))
	vsym.Assert(err == nil, "a valid configuration is refused")
	live := []int{0, 1}
	step := vsym.Choose("step", 3)
	switch step {
	case 1:
		k := vsym.Choose("keep", 2)
		live = []int{k}
		err := f.p.Reconfigure(f.config(mk(k)))
		vsym.Assert(err == nil, "a valid configuration is refused")
	case 2:
		f.p.listener = &vfListener{}
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		f.p.Shutdown(ctx)
	}
	vsym.Settle()
	name := vsym.Pick("name", "a.x", "b.x", "c.x")
	offers := [][]string{nil, {"x"}, {"h2", "x"}}[vsym.Choose("offers", 3)]
	_, vc := f.client(name, offers, "")
	vsym.Settle()

	var ln, lp [][]string
	for _, i := range live {
		ln, lp = append(ln, names[i]), append(lp, protos[i])
	}
	want, _ := vfWant(name, offers, ln, lp)
	if want >= 0 {
		want = live[want]
	}
	if step == 2 && want >= 0 && (mode[want] == ModeHTTP || mode[want] == ModeHTTPS || mode[want] == ModeLocal) {
		vsym.Reach("shutdown")
		want = -1
	}
	if step == 2 && want >= 0 {
		// Only HTTP backends are shut down; the others have no listener any more.
		vsym.Assert(len(f.served) == 0 && len(f.dials) <= 1, "the connection is routed to the wrong backend")
		if len(f.dials) == 1 {
			vsym.Assert(f.dials[0].addr == addrs[want], "the connection is routed to the wrong backend")
		}
		return
	}
	if want < 0 {
		if step == 1 {
			vsym.Reach("gone")
		}
		vsym.Reach("refused")
		vsym.Assert(len(f.dials) == 0 && f.hsCount == 0 && len(f.served) == 0, "a connection for an unknown or closed backend is served")
		vsym.Assert(vc.closed > 0, "a refused connection stays open")
		return
	}
	// Without a common protocol the handshake fails.
	common := len(offers) == 0
	for _, o := range offers {
		for _, q := range protos[want] {
			common = common || o == q
		}
	}
	be := f.p.cfg.Backends
	switch mode[want] {
	case ModeTLSPassthrough:
		vsym.Reach("passthrough")
		vsym.Assert(f.hsCount == 0 && len(f.served) == 0, "the proxy answers the handshake of a passthrough backend")
		vsym.Assert(len(f.dials) == 1 && f.dials[0].addr == addrs[want], "the connection is routed to the wrong backend")
	case ModeTLS, ModeTCP:
		vsym.Assert(len(f.served) == 0, "a connection for a TLS backend is served as HTTP")
		if !common {
			vsym.Assert(len(f.dials) == 0, "a connection whose handshake failed is forwarded")
			return
		}
		vsym.Reach("tls")
		vsym.Assert(f.hsOK == 1 && len(f.dials) == 1 && f.dials[0].addr == addrs[want], "the connection is routed to the wrong backend")
	default:
		vsym.Assert(len(f.dials) == 0, "an HTTP connection is forwarded as a stream")
		if !common {
			vsym.Assert(len(f.served) == 0, "a connection whose handshake failed is served")
			return
		}
		vsym.Reach("http")
		vsym.Assert(f.hsOK == 1 && len(f.served) == 1, "the connection is not served")
		for k, i := range live {
			if i == want && len(f.served) == 1 {
				vsym.Assert(be[k].httpServer == f.served[0].srv, "the connection is served by the wrong backend")
			}
		}
	}
}

// QUIC connections.
func VerifP02QUIC() {
	f := vfNewFlow()
	modes := []string{ModeTLS, ModeHTTP, ModeQUIC, ModeTLSPassthrough}
	names := [][]string{{"a.x"}, {"a.x", "b.x"}}
	protos := [][]string{
		[][]string{{"h3"}, {"x", "h3"}}[vsym.Choose("alpn0", 2)],
		[][]string{{"y"}, {"y", "h2"}}[vsym.Choose("alpn1", 2)],
	}
	addrs := []string{"1.1.1.1:1", "2.2.2.2:2"}
	mode := []string{modes[vsym.Choose("mode0", len(modes))], modes[vsym.Choose("mode1", len(modes))]}
	var bes []*Backend
	for i := range names {
		pr := append([]string{}, protos[i]...)
		bes = append(bes, &Backend{ServerNames: append([]string{}, names[i]...), ALPNProtos: &pr, Mode: mode[i], Addresses: []string{addrs[i]}})
	}
	cfg := f.config(bes...)
	yes := true
	cfg.EnableQUIC = &yes
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	q := vfNewQUIC(f)
	name := vsym.Pick("name", "a.x", "b.x", "", "c.x")
	offers := [][]string{{"x"}, {"h3"}, {"h2", "x"}, {"y", "h3"}, {"h3", "y"}}[vsym.Choose("offers", 5)]
	c := q.connect(name, offers, &net.UDPAddr{IP: net.IPv4(198, 51, 100, 7), Port: 5555}, &vfQS{})
	vsym.Settle()
	usable := func(i int, o string) bool {
		if mode[i] == ModeTLSPassthrough || mode[i] == ModeTLS && o == "h3" {
			return false
		}
		for _, n := range names[i] {
			if n == name {
				for _, p := range protos[i] {
					if p == o {
						return true
					}
				}
			}
		}
		return false
	}
	got := -1
	for i := range addrs {
		hit := 0
		for _, d := range f.dials {
			if d.addr == addrs[i] {
				hit++
			}
		}
		for _, d := range q.qdials {
			if d.addr == addrs[i] {
				hit++
			}
		}
		for _, s := range q.h3srv {
			if any(s) == f.p.cfg.Backends[i].http3Server {
				hit++
			}
		}
		for _, s := range f.served {
			if s.srv == f.p.cfg.Backends[i].httpServer {
				hit++
			}
		}
		if hit > 0 {
			vsym.Assert(got < 0, "one connection is handled by two backends")
			got = i
		}
	}
	if len(q.h3) > 0 {
		vsym.Reach("h3")
	}
	if got < 0 {
		vsym.Reach("refused")
		// Nothing is required to be served unless the first match can serve it.
		if c != nil {
			vsym.Assert(c.closed > 0, "a refused connection stays open")
		}
	}
	want := -1
	for _, o := range offers {
		for i := range names {
			if want < 0 && usable(i, o) {
				want = i
			}
		}
	}
	if got >= 0 {
		vsym.Reach("stream")
		vsym.Assert(got == want, "the QUIC connection is routed to the wrong backend")
	}
	if want >= 0 && (len(offers) == 1) {
		vsym.Assert(got == want, "the QUIC connection is not served")
	}
}
