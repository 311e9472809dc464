//verif:pkg proxy
//verif:use flow.go
//verif:hook crypto/tls LoadX509KeyPair
//verif:hook crypto/x509 ParseCertificate
//verif:hook golang.org/x/crypto/acme/autocert (*Manager).GetCertificate
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache (*OCSPCache).Response
//verif:unit name=select entry=VerifP42Select share=2 q.LEN=3 t.LEN=4 reach=configured,second,auto,unreadable,default,wildcard
//verif:unit name=idn entry=VerifP42IDN share=1 reach=ascii,unicode
//verif:unit name=terms entry=VerifP42Terms share=1 reach=accepted,refused,configured
//verif:unit name=staple entry=VerifP42Staple share=1 reach=good,bad,single,malformed
//verif:unit name=reload entry=VerifP42Reload share=1 reach=before,after
//verif:assume certificate files are read, certificates issued and OCSP responses obtained by stand-ins; what a cached OCSP response is worth is the subject of P25
//verif:note up to two configured certificates with exact names and the patterns of path.Match, names of up to three/four letters and dots
package proxy

import (
	"crypto/tls"
	"crypto/x509"
	"net/http"
	"strings"
	"time"

	"golang.org/x/crypto/acme/autocert"
	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vf42 struct {
	*vfFlow
	asked   []string // for a certificate that is issued automatically
	loaded  []string
	loadErr error
	auto    *tls.Certificate
	autoErr error
	ocsp    func(cert, issuer *x509.Certificate) (*ocsp.Response, error)
	checked int
}

func (v *vf42) HTTPHandler(h http.Handler) http.Handler { return h }
func (v *vf42) TLSConfig() *tls.Config                  { return &tls.Config{GetCertificate: v.GetCertificate} }
func (v *vf42) GetCertificate(hello *tls.ClientHelloInfo) (*tls.Certificate, error) {
	v.asked = append(v.asked, hello.ServerName)
	if v.autoErr != nil {
		return nil, v.autoErr
	}
	c := *v.auto
	return &c, nil
}

func vfNew42() *vf42 {
	v := &vf42{vfFlow: vfNewFlow(), auto: &tls.Certificate{Certificate: [][]byte{[]byte("leaf"), []byte("ca")}}}
	v.p.certManager = v
	v.p.ocspCache = &ocspcache.OCSPCache{}
	tls.VerifHook_LoadX509KeyPair = func(cert, key string) (tls.Certificate, error) {
		v.loaded = append(v.loaded, cert+"+"+key)
		return tls.Certificate{Certificate: [][]byte{[]byte(cert + key)}}, v.loadErr
	}
	x509.VerifHook_ParseCertificate = func(b []byte) (*x509.Certificate, error) {
		if string(b) == "bad" {
			return nil, errVF
		}
		return &x509.Certificate{Raw: b}, nil
	}
	ocspcache.VerifHook_OCSPCache_Response = func(_ *ocspcache.OCSPCache, cert, issuer *x509.Certificate, margin time.Duration) (*ocsp.Response, error) {
		v.checked++
		vsym.Assert(margin >= 0, "a response that is no longer valid may be used")
		if v.ocsp != nil {
			return v.ocsp(cert, issuer)
		}
		return nil, errVF
	}
	return v
}

func (v *vf42) setup(certs ...*TLSCertificate) {
	cfg := v.config(&Backend{ServerNames: []string{"d.x"}, Mode: ModeTLS, Addresses: []string{"1.1.1.1:1"}},
		&Backend{ServerNames: []string{"h.x"}, Mode: ModeHTTP, Addresses: []string{"1.1.1.1:1"}})
	cfg.DefaultServerName, cfg.AcceptTOS, cfg.TLSCertificates = "d.x", true, certs
	vsym.Assert(v.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
}

// get is what a client that asks for a name is shown.
func (v *vf42) get(name string, kinds int) (*tls.Certificate, error) {
	var tc *tls.Config
	switch vsym.Choose("where", kinds) {
	case 0:
		tc = v.p.backends[beKey{serverName: "d.x"}].tlsConfig
	case 1:
		tc = v.p.backends[beKey{serverName: "h.x"}].tlsConfig
	case 2:
		tc = v.p.baseTLSConfig()
	case 3:
		tc = v.p.backends[beKey{serverName: "h.x"}].tlsConfigQUIC
	}
	return tc.GetCertificate(&tls.ClientHelloInfo{ServerName: name})
}

// vf42Match is path.Match for patterns of letters, dots, ? and *.
func vf42Match(pat, name string) bool {
	if pat == "" {
		return name == ""
	}
	switch pat[0] {
	case '*':
		for i := 0; i <= len(name); i++ {
			if vf42Match(pat[1:], name[i:]) {
				return true
			}
		}
		return false
	case '?':
		return len(name) > 0 && vf42Match(pat[1:], name[1:])
	}
	return len(name) > 0 && name[0] == pat[0] && vf42Match(pat[1:], name[1:])
}

var vf42Patterns = []string{"a.x", "b.x", "*.x", "a*", "?.x", "*", "", "d.x", "[.x"}

func VerifP42Select() {
	v := vfNew42()
	var certs []*TLSCertificate
	n := vsym.Choose("n", 3)
	for i := 0; i < n; i++ {
		c := &TLSCertificate{CertFile: []string{"c0", "c1"}[i], KeyFile: []string{"k0", "k1"}[i], ServerNames: []string{vf42Patterns[vsym.Choose("pattern", len(vf42Patterns))]}}
		if i == 0 && vsym.Bool("two") {
			c.ServerNames = append(c.ServerNames, "b.x")
		}
		certs = append(certs, c)
	}
	v.setup(certs...)
	name := vsym.String("name", 0, vsym.Param("LEN", 3))
	for i := 0; i < len(name); i++ {
		vsym.Assume(vsym.Or(name[i] == 'a', name[i] == 'b', name[i] == 'x', name[i] == '.', name[i] == 'A'))
	}
	if vsym.Bool("fail") {
		v.loadErr, v.autoErr = errVF, errVF
	}
	eff := name
	if name == "" {
		eff = "d.x"
		vsym.Reach("default")
	}
	want := -1
	for i, c := range certs {
		for _, s := range c.ServerNames {
			if s == eff || s != "[.x" && vf42Match(s, eff) {
				want = i
				if strings.Contains(s, "*") {
					vsym.Reach("wildcard")
				}
				break
			}
		}
		if want >= 0 {
			break
		}
	}
	cert, err := v.get(name, 1)
	if want < 0 {
		vsym.Reach("auto")
		vsym.Assert(len(v.asked) == 1 && v.asked[0] == eff, "no certificate is issued for the name")
		vsym.Assert(len(v.loaded) == 0, "a configured certificate of another name is read")
		vsym.Assert((err != nil) == (v.autoErr != nil) && (cert == nil) == (err != nil), "what comes of the certificate that is issued")
		return
	}
	vsym.Assert(len(v.asked) == 0, "a certificate is issued for a name that has one")
	vsym.Assert(len(v.loaded) == 1 && v.loaded[0] == certs[want].CertFile+"+"+certs[want].KeyFile, "not the certificate of the first entry with the name")
	if v.loadErr != nil {
		vsym.Reach("unreadable")
		vsym.Assert(err != nil && cert == nil, "a certificate that cannot be read is used")
		return
	}
	if want == 1 {
		vsym.Reach("second")
	}
	vsym.Reach("configured")
	vsym.Assert(err == nil && cert != nil && string(cert.Certificate[0]) == certs[want].CertFile+certs[want].KeyFile, "another certificate is shown")
}

// Internationalized names.
func VerifP42IDN() {
	v := vfNew42()
	n := vsym.Pick("name", "bücher.x", "xn--bcher-kva.x", "BÜCHER.x", "*.bücher.x", "*.xn--bcher-kva.x")
	v.setup(&TLSCertificate{CertFile: "c", KeyFile: "k", ServerNames: []string{n}})
	ask := "xn--bcher-kva.x"
	if strings.HasPrefix(n, "*.") {
		ask = "www." + ask
	}
	cert, err := v.get(ask, 4)
	vsym.Assert(err == nil && len(v.asked) == 0 && string(cert.Certificate[0]) == "ck", "a configured certificate is not found under its name")
	if strings.Contains(n, "xn--") {
		vsym.Reach("ascii")
	} else {
		vsym.Reach("unicode")
	}
}

// No certificate is requested from Let's Encrypt before its terms are
// accepted.
func VerifP42Terms() {
	v := vfNew42()
	m := &autocert.Manager{}
	v.p.certManager = m
	autocert.VerifHook_Manager_GetCertificate = func(_ *autocert.Manager, hello *tls.ClientHelloInfo) (*tls.Certificate, error) {
		return v.GetCertificate(hello)
	}
	cfg := v.config(&Backend{ServerNames: []string{"d.x"}, Mode: ModeTLS, Addresses: []string{"1.1.1.1:1"}},
		&Backend{ServerNames: []string{"h.x"}, Mode: ModeHTTP, Addresses: []string{"1.1.1.1:1"}})
	cfg.AcceptTOS = vsym.Bool("accept")
	cfg.TLSCertificates = []*TLSCertificate{{CertFile: "c", KeyFile: "k", ServerNames: []string{"h.x"}}}
	vsym.Assert(v.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	name := vsym.Pick("name", "d.x", "h.x")
	_, err := v.get(name, 4)
	switch {
	case name == "h.x":
		vsym.Reach("configured")
		vsym.Assert(err == nil && len(v.asked) == 0, "a configured certificate is not used")
	case cfg.AcceptTOS:
		vsym.Reach("accepted")
		vsym.Assert(err == nil && len(v.asked) == 1, "no certificate is requested")
	default:
		vsym.Reach("refused")
		vsym.Assert(err != nil && len(v.asked) == 0, "a certificate is requested though the terms are not accepted")
	}
}

// A certificate is stapled with good responses only, and shown in any case.
func VerifP42Staple() {
	v := vfNew42()
	v.setup()
	chain := vsym.Choose("chain", 4)
	v.auto = &tls.Certificate{Certificate: [][]byte{[]byte("leaf"), []byte("ca"), []byte("root")}[:min(chain, 3)]}
	if vsym.Bool("bad") && chain > 0 {
		v.auto.Certificate[vsym.Choose("which", len(v.auto.Certificate))] = []byte("bad")
	}
	parsed := vsym.Bool("parsed")
	if parsed {
		v.auto.Leaf = &x509.Certificate{Raw: []byte("leaf")}
	}
	status := vsym.Int("status", 0, 4)
	fail := vsym.Bool("fail")
	v.ocsp = func(cert, issuer *x509.Certificate) (*ocsp.Response, error) {
		vsym.Assert(string(cert.Raw) == "leaf" && string(issuer.Raw) == "ca", "a response for another certificate")
		if fail {
			return nil, errVF
		}
		return &ocsp.Response{Status: status, Raw: []byte("response")}, nil
	}
	name := "z.x"
	cert, err := v.get(name, 4)
	if chain < 2 {
		vsym.Reach("single")
		vsym.Assert(err == nil && cert != nil && cert.OCSPStaple == nil, "a certificate without its issuer")
		return
	}
	if string(v.auto.Certificate[1]) == "bad" || string(v.auto.Certificate[0]) == "bad" && !parsed {
		vsym.Reach("malformed")
		vsym.Assert(err != nil || cert.OCSPStaple == nil, "a malformed certificate is stapled")
		return
	}
	vsym.Assert(err == nil && cert != nil && len(cert.Certificate) == chain && string(cert.Certificate[1]) == "ca", "the certificate is not shown")
	if !fail && status == ocsp.Good {
		vsym.Reach("good")
		vsym.Assert(string(cert.OCSPStaple) == "response", "a good response is not stapled")
	} else {
		vsym.Reach("bad")
		vsym.Assert(cert.OCSPStaple == nil, "a response that is not good is stapled")
	}
}

// Connections that are open at a reload and handshake after it get the
// certificate of the new configuration.
func VerifP42Reload() {
	v := vfNew42()
	v.setup(&TLSCertificate{CertFile: "c0", KeyFile: "k0", ServerNames: []string{"a.x"}})
	old := v.p.backends[beKey{serverName: "d.x"}].tlsConfig
	if vsym.Bool("reload") {
		vsym.Reach("after")
		v.setup(&TLSCertificate{CertFile: "c1", KeyFile: "k1", ServerNames: []string{"a.x"}})
		cert, err := old.GetCertificate(&tls.ClientHelloInfo{ServerName: "a.x"})
		vsym.Assert(err == nil && string(cert.Certificate[0]) == "c1k1", "a certificate that is no longer configured is shown")
		v.setup()
		_, err = old.GetCertificate(&tls.ClientHelloInfo{ServerName: "a.x"})
		vsym.Assert(err == nil && len(v.asked) == 1, "a certificate that is no longer configured is shown")
		return
	}
	vsym.Reach("before")
	cert, err := old.GetCertificate(&tls.ClientHelloInfo{ServerName: "a.x"})
	vsym.Assert(err == nil && string(cert.Certificate[0]) == "c0k0", "the configured certificate is not shown")
}
