//verif:pkg proxy
//verif:use quicflow.go
//verif:use flow.go
//verif:unit name=request entry=VerifP33Request share=2 reach=asked,refused,default,acme
//verif:unit name=quic entry=VerifP33QUIC share=1 reach=asked,refused
//verif:assume every handshake asks the certificate manager for a certificate through the configured GetCertificate; the manager requests one for whatever name it is asked for
//verif:note server names in hellos are symbolic (up to four bytes) or picked next to configured ones
package proxy

import (
	"crypto/tls"
	"net"
	"net/http"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// vfAsk records the names that certificates are requested for.
type vfAsk struct{ names []string }

func (*vfAsk) HTTPHandler(fallback http.Handler) http.Handler { return fallback }
func (a *vfAsk) TLSConfig() *tls.Config                       { return &tls.Config{GetCertificate: a.GetCertificate} }
func (a *vfAsk) GetCertificate(hello *tls.ClientHelloInfo) (*tls.Certificate, error) {
	a.names = append(a.names, hello.ServerName)
	return &tls.Certificate{}, nil
}

func (a *vfAsk) check(cfg []string) {
	for _, n := range a.names {
		known := false
		for _, c := range cfg {
			if len(c) == len(n) {
				known = vsym.Or(known, vsym.Eq(c, n))
			}
		}
		vsym.Assert(known, "a certificate is requested for a name that is not configured")
	}
	if len(a.names) > 0 {
		vsym.Reach("asked")
	} else {
		vsym.Reach("refused")
	}
}

func VerifP33Request() {
	f := vfNewFlow()
	a := &vfAsk{}
	f.p.certManager = a
	mode := vsym.Pick("mode", ModeTCP, ModeHTTP, ModeTLSPassthrough, ModeLocal)
	be := &Backend{ServerNames: []string{"a.x", "b.x"}, Mode: mode, Addresses: []string{"1.1.1.1:1"}}
	if mode == ModeLocal {
		be.Addresses = nil
	}
	other := &Backend{ServerNames: []string{"o.x"}, Mode: ModeTCP, Addresses: []string{"2.2.2.2:2"}}
	cfg := f.config(be, other)
	cfg.DefaultServerName = vsym.Pick("default", "", "b.x", "z.x")
	reload := vsym.Bool("reload")
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "config")
	served := []string{"a.x", "b.x", "o.x"}
	if reload {
		be2 := &Backend{ServerNames: []string{"b.x"}, Mode: ModeTCP, Addresses: []string{"1.1.1.1:1"}}
		cfg2 := f.config(be2)
		cfg2.DefaultServerName = cfg.DefaultServerName
		vsym.Assert(f.p.Reconfigure(cfg2) == nil, "config")
		served = []string{"b.x"}
	}
	name := ""
	switch vsym.Choose("name", 3) {
	case 0:
		name = vsym.String("sni", 0, 4)
	case 1:
		name = vsym.Pick("near", "A.X", "x.a.x", "b.x.", "*.x", "z.x")
	case 2:
		name = "o.x"
	}
	alpn := [][]string{{}, {"http/1.1"}, {"acme-tls/1"}, {"acme-tls/1", "h2"}}[vsym.Choose("alpn", 4)]
	f.client(name, alpn, "data")
	a.check(served)
	if len(a.names) > 0 {
		if name == "" {
			vsym.Reach("default")
		}
		if len(alpn) == 1 && alpn[0] == "acme-tls/1" {
			vsym.Reach("acme")
		}
	}
}

func VerifP33QUIC() {
	f := vfNewFlow()
	a := &vfAsk{}
	f.p.certManager = a
	be := &Backend{ServerNames: []string{"a.x", "b.x"}, Mode: vsym.Pick("mode", ModeHTTP, ModeQUIC, ModeTLSPassthrough), Addresses: []string{"1.1.1.1:1"}}
	cfg := f.config(be)
	cfg.DefaultServerName = vsym.Pick("default", "", "b.x", "z.x")
	yes := true
	cfg.EnableQUIC = &yes
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "config")
	q := vfNewQUIC(f)
	name := vsym.String("sni", 0, 3)
	q.connect(name, []string{vsym.Pick("alpn", "h3", "h2", "acme-tls/1")}, &net.UDPAddr{IP: net.IPv4(198, 51, 100, 7), Port: 5555}, &vfQS{})
	vsym.Settle()
	a.check([]string{"a.x", "b.x"})
}
