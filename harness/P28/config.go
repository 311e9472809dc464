//verif:pkg proxy
//verif:hook os MkdirAll
//verif:hook os ReadFile
//verif:unit name=names entry=VerifP28Names share=2 reach=accepted,duplicate,unknown,self
//verif:unit name=servers entry=VerifP28Servers share=3 q.N=2 t.N=3 reach=accepted,duplicate
//verif:unit name=modes entry=VerifP28Modes share=2 reach=accepted,badmode,noaddr,addr,root,proto,auth
//verif:unit name=override entry=VerifP28Override share=2 reach=accepted,mode,path,root
//verif:unit name=cidr entry=VerifP28CIDR share=2 reach=accepted,rejected
//verif:unit name=proxyproto entry=VerifP28ProxyProto share=1 q.L=3 t.L=5 reach=accepted,rejected
//verif:unit name=fields entry=VerifP28Fields share=2 reach=accepted,rejected
//verif:unit name=defaults entry=VerifP28Defaults share=2 reach=set,unset,override
//verif:unit name=null entry=VerifP28Null share=1 reach=null
//verif:assume the cache directory can be made
//verif:note checked rules: names of providers, PKIs, SSH CAs and bandwidth groups; references to them; server name and ALPN combinations; modes and the settings they allow; path overrides; addresses in CIDR form; PROXY protocol versions; required fields of every section; lists with empty entries. Symbolic names, CIDR tails and versions; every accepted configuration is checked a second time
package proxy

import (
	"errors"
	"net"
	"os"
	"slices"
	"strings"
	"time"

	"golang.org/x/time/rate"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

func vfP28Setup() {
	os.VerifHook_MkdirAll = func(string, os.FileMode) error { return nil }
	os.VerifHook_ReadFile = func(string) ([]byte, error) { return nil, errors.New("no such file") }
}

func vfP28Backend(mode string, names ...string) *Backend {
	be := &Backend{ServerNames: names, Mode: mode}
	if mode != ModeLocal && mode != ModeConsole {
		be.Addresses = []string{"10.0.0.1:80"}
	}
	return be
}

func vfP28Config(bes ...*Backend) *Config {
	vfP28Setup()
	return &Config{CacheDir: "/nonexistent", MaxOpen: 100, Backends: bes}
}

// vfP28Check checks the configuration: it has to be accepted if and only if
// ok, and twice if accepted.
func vfP28Check(cfg *Config, ok bool, why string) bool {
	err := cfg.Check()
	vsym.Assert(vsym.Or(err != nil, ok), "accepted: "+why)
	vsym.Assert(vsym.Or(err == nil, !ok), "a valid configuration is rejected: "+why)
	if err != nil {
		return false
	}
	vsym.Assert(cfg.Check() == nil, "an accepted configuration is rejected the second time: "+why)
	vsym.Reach("accepted")
	return true
}

// vfP28Same is vfP28Check for configurations without symbolic parts.
func vfP28Same(cfg *Config, ok bool, why string) bool {
	err := cfg.Check()
	if (err == nil) != ok {
		if err == nil {
			vsym.Fail("accepted: " + why)
		}
		vsym.Fail("a valid configuration is rejected: " + why)
	}
	if err != nil {
		return false
	}
	a := string(cfg.serialize())
	vsym.Assert(cfg.Check() == nil, "an accepted configuration is rejected the second time: "+why)
	vsym.Assert(a == string(cfg.serialize()), "checking changes a checked configuration: "+why)
	vsym.Reach("accepted")
	return true
}

// Names and references to them.
func VerifP28Names() {
	nm := func(n string) string { return vsym.String(n, 1, 1) }
	be := vfP28Backend(ModeHTTP, "a.x")
	cfg := vfP28Config(be, vfP28Backend(ModeLocal, "l.x"))
	oidc := func(n string) *ConfigOIDC {
		return &ConfigOIDC{Name: n, AuthEndpoint: "https://i/a", TokenEndpoint: "https://i/t", RedirectURL: "https://l.x/cb", ClientID: "i", ClientSecret: "s"}
	}
	saml := func(n string) *ConfigSAML {
		return &ConfigSAML{Name: n, SSOURL: "https://i/s", EntityID: "e", Certs: "c", ACSURL: "https://l.x/acs"}
	}
	switch vsym.Choose("kind", 4) {
	case 0: // identity providers of all kinds
		n := []string{nm("p1"), nm("p2"), nm("p3")}
		kinds := vsym.Choose("kinds", 4)
		for i, x := range n {
			if kinds == i || kinds == 3 {
				cfg.SAMLProviders = append(cfg.SAMLProviders, saml(x))
			} else {
				cfg.OIDCProviders = append(cfg.OIDCProviders, oidc(x))
			}
		}
		distinct := vsym.And(n[0] != n[1], n[1] != n[2], n[0] != n[2])
		ref := nm("ref")
		be.SSO = &BackendSSO{Provider: ref}
		known := vsym.Or(ref == n[0], ref == n[1], ref == n[2])
		if !vfP28Check(cfg, vsym.And(distinct, known), "identity providers") {
			if !distinct {
				vsym.Reach("duplicate")
			} else {
				vsym.Reach("unknown")
			}
		}
	case 1: // passkey providers
		p, k1, k2 := nm("p1"), nm("k1"), nm("k2")
		r1, r2 := nm("r1"), nm("r2")
		cfg.OIDCProviders = append(cfg.OIDCProviders, oidc(p))
		cfg.PasskeyProviders = []*ConfigPasskey{{Name: k1, IdentityProvider: r1, Endpoint: "https://l.x/p1"}, {Name: k2, IdentityProvider: r2, Endpoint: "https://l.x/p2"}}
		be.SSO = &BackendSSO{Provider: k2}
		distinct := vsym.And(p != k1, k1 != k2, p != k2)
		other := vsym.And(r1 != k1, r2 != k2)
		if vsym.And(distinct, other) {
			// Whether a passkey provider may stand for another one is not said.
			vsym.Assume(r2 != k1)
			vfP28Check(cfg, vsym.And(r1 == p, r2 == p), "passkey providers")
		} else {
			vfP28Check(cfg, false, "passkey providers")
			if distinct {
				vsym.Reach("self")
			}
		}
	case 2: // PKIs and SSH CAs
		n := []string{nm("n1"), nm("n2"), nm("n3"), nm("n4")}
		cfg.PKI = []*ConfigPKI{{Name: n[0]}, {Name: n[1]}}
		cfg.SSHCertificateAuthorities = []*ConfigSSHCertificateAuthority{{Name: n[2]}, {Name: n[3]}}
		ref := nm("ref")
		vsym.Assume(vsym.And(ref != "/", ref != "\n"))
		if vsym.Bool("forward") {
			be.ForwardRootCAs = []string{ref}
		} else {
			be.ClientAuth = &ClientAuth{RootCAs: []string{ref}}
		}
		vfP28Check(cfg, vsym.And(n[0] != n[1], n[2] != n[3], vsym.Or(ref == n[0], ref == n[1])), "certificate authorities")
	case 3: // bandwidth groups
		n := []string{nm("n1"), nm("n2"), nm("n3")}
		for _, x := range n {
			cfg.BWLimits = append(cfg.BWLimits, &BWLimit{Name: x, Ingress: 1, Egress: 1})
		}
		be.BWLimit = vsym.String("ref", 0, 1)
		known := vsym.Or(be.BWLimit == n[0], be.BWLimit == n[1], be.BWLimit == n[2], len(be.BWLimit) == 0)
		vfP28Check(cfg, vsym.And(n[0] != n[1], n[1] != n[2], n[0] != n[2], known), "bandwidth groups")
	}
}

// Server names and protocols of several backends.
func VerifP28Servers() {
	cfg := vfP28Config()
	type key struct{ name, proto string }
	seen := map[key]bool{}
	names := map[string]bool{}
	dup, maybe := false, false
	N := vsym.Param("N", 2)
	for i := 0; i < N; i++ {
		be := vfP28Backend(vsym.Pick("mode", ModeTCP, ModeHTTP), "")
		be.ServerNames = [][]string{{"a.x"}, {"A.X"}, {"b.x", "a.x"}, {"bücher.x"}, {"xn--bcher-kva.x", "c.x"}, {"c.x", "c.x"}}[vsym.Choose("names", 6)]
		be.ServerNames = slices.Clone(be.ServerNames)
		var protos []string
		switch vsym.Choose("protos", 4) {
		case 0:
			protos = []string{"h2", "http/1.1"}
			if be.Mode == ModeHTTP && quicIsEnabled {
				protos = append(protos, "h3")
			}
		case 1:
			protos = []string{"h2"}
			be.ALPNProtos = &[]string{"h2"}
		case 2:
			protos = []string{"p", "h3"}
			be.ALPNProtos = &[]string{"p", "h3"}
		case 3:
			be.ALPNProtos = &[]string{}
		}
		for _, n := range be.ServerNames {
			n = strings.ToLower(n)
			if n == "bücher.x" {
				n = "xn--bcher-kva.x"
			}
			if names[n] && len(protos) == 0 {
				dup = true
			}
			if seen[key{n, ""}] && len(protos) != 0 {
				maybe = true
			}
			for _, p := range protos {
				if seen[key{n, p}] {
					dup = true
				}
				seen[key{n, p}] = true
			}
			if len(protos) == 0 {
				seen[key{n, ""}] = true
			}
			names[n] = true
		}
		cfg.Backends = append(cfg.Backends, be)
	}
	err := cfg.Check()
	if dup {
		vsym.Assert(err != nil, "two backends have the same server name and protocol")
		vsym.Reach("duplicate")
		return
	}
	vsym.Assert(err == nil || maybe, "distinct server names and protocols are rejected")
	if err == nil {
		vfP28Same(cfg, true, "server names")
	}
}

// Modes, and what each of them allows.
func VerifP28Modes() {
	modes := []string{"", "PLAINTEXT", "TCP", "TLS", "TLSPASSTHROUGH", "QUIC", "HTTP", "HTTPS", "LOCAL", "CONSOLE", "http", "Local", "TCPX", "SSL", "HTTP ", "SHUTDOWN"}
	mode := modes[vsym.Choose("mode", len(modes))]
	be := vfP28Backend("", "a.x")
	be.Mode = mode
	be.Addresses = nil
	mode = strings.ToUpper(mode)
	ok := !slices.Contains(modes[12:], mode)
	why := ""
	bad := func(c bool, w string) {
		if c && ok {
			ok, why = false, w
		}
	}
	bad(!ok, "badmode")
	if !ok {
		why = "badmode"
	}
	http := mode == "HTTP" || mode == "HTTPS"
	own := mode == "LOCAL" || mode == "CONSOLE"
	addr := vsym.Bool("addr")
	if addr {
		be.Addresses = []string{"10.0.0.1:1"}
	}
	bad(!addr && !http && !own, "noaddr")
	bad(addr && own, "addr")
	if vsym.Bool("root") {
		be.DocumentRoot = "/nonexistent"
		bad(addr, "root")
	}
	if vsym.Bool("proto") {
		p := vsym.Pick("backendProto", "h2", "")
		be.BackendProto = &p
		bad(!http, "proto")
	}
	if vsym.Bool("auth") {
		be.ClientAuth = &ClientAuth{}
		if vsym.Bool("xfcc") {
			f := vsym.Pick("field", "cert", "Chain", "hash", "subject", "uri", "DNS", "email", "")
			be.ClientAuth.AddClientCertHeader = []string{f}
			bad(f == "email" || f == "", "field")
		}
		bad(mode == "TLSPASSTHROUGH", "auth")
	}
	if vsym.Bool("noname") {
		be.ServerNames = nil
		bad(true, "name")
	}
	if !vfP28Same(vfP28Config(be), ok, "mode "+mode+" "+why) {
		vsym.Reach(why)
	}
}

// Path overrides.
func VerifP28Override() {
	mode := vsym.Pick("mode", ModeHTTP, ModeHTTPS, ModeTCP)
	be := vfP28Backend(mode, "a.x")
	po := &PathOverride{}
	ok, why := mode != ModeTCP, "mode"
	po.Mode = vsym.Pick("poMode", "", "HTTP", "https", "TCP", "LOCAL")
	if po.Mode == "TCP" || po.Mode == "LOCAL" {
		ok, why = false, "mode"
	}
	if vsym.Bool("addr") {
		po.Addresses = []string{"10.0.0.1:2"}
	}
	if vsym.Bool("root") {
		po.DocumentRoot = "/nonexistent"
		if len(po.Addresses) > 0 && ok {
			ok, why = false, "root"
		}
	}
	n := vsym.Choose("paths", 3)
	if n == 0 && ok {
		ok, why = false, "path"
	}
	good := true
	for i := 0; i < n; i++ {
		p := vsym.String("path", 0, 2)
		l := len(p)
		good = vsym.And(good, l > 0)
		if l > 0 {
			good = vsym.And(good, p[0] == '/', p[l-1] == '/')
		}
		po.Paths = append(po.Paths, p)
	}
	be.PathOverrides = []*PathOverride{po}
	if !vfP28Check(vfP28Config(be), vsym.And(ok, good), "path override: "+why) {
		if !ok {
			vsym.Reach(why)
		} else {
			vsym.Reach("path")
		}
	}
}

// Addresses in CIDR form.
func VerifP28CIDR() {
	var s string
	switch vsym.Choose("form", 4) {
	case 0:
		s = "10.1.2.3/" + vsym.String("bits", 0, 2)
	case 1:
		s = "10." + vsym.String("octet", 0, 3) + ".0.0/16"
	case 2:
		s = vsym.Pick("v6", "::1/128", "2001:db8::/32", "::ffff:10.0.0.0/104", "::/129", "fe80::1%eth0/64", ":::/3")
	case 3:
		s = vsym.Pick("odd", "", "10.0.0.1", "0.0.0.0/0", "10.0.0.0/8 ", "example.com/8", "10.0.0.0/255.0.0.0")
	}
	// What a CIDR is, is the library's business.
	_, want, perr := net.ParseCIDR(s)
	be := vfP28Backend(ModeTCP, "a.x")
	cfg := vfP28Config(be)
	what := vsym.Choose("what", 3)
	pos := vsym.Choose("pos", 2)
	l := []string{"192.0.2.0/24", "192.0.2.0/24"}
	l[pos] = s
	switch what {
	case 0:
		be.AllowIPs = &l
	case 1:
		be.DenyIPs = &l
	case 2:
		cfg.AcceptProxyHeaderFrom = l
	}
	if !vfP28Check(cfg, perr == nil, "CIDR") {
		vsym.Reach("rejected")
		return
	}
	var got []*net.IPNet
	switch what {
	case 0:
		got = *be.allowIPs
		vsym.Assert(be.denyIPs == nil, "allowed addresses are denied")
	case 1:
		got = *be.denyIPs
		vsym.Assert(be.allowIPs == nil, "denied addresses are allowed")
	case 2:
		got = cfg.acceptProxyHeaderFrom
	}
	vsym.Assert(len(got) == 2 && got[pos].String() == want.String() && got[1-pos].String() == "192.0.2.0/24", "the addresses are not those configured")
}

// PROXY protocol versions.
func VerifP28ProxyProto() {
	s := vsym.String("version", 0, vsym.Param("L", 3))
	be := vfP28Backend(ModeHTTP, "a.x")
	po := &PathOverride{Paths: []string{"/x/"}, Addresses: []string{"10.0.0.1:2"}}
	be.PathOverrides = []*PathOverride{po}
	inPO := vsym.Bool("override")
	if inPO {
		po.ProxyProtocolVersion = s
	} else {
		be.ProxyProtocolVersion = s
	}
	v1, v2 := vsym.Eq(s, "v1"), vsym.Eq(s, "v2")
	if !vfP28Check(vfP28Config(be), vsym.Or(len(s) == 0, v1, v2), "PROXY protocol version") {
		vsym.Reach("rejected")
		return
	}
	got, other := be.proxyProtocolVersion, po.proxyProtocolVersion
	if inPO {
		got, other = other, got
	}
	vsym.Assert(vsym.And(vsym.Implies(v1, got == 1), vsym.Implies(v2, got == 2), vsym.Implies(len(s) == 0, got == 0), other == 0), "PROXY protocol version")
}

// Required fields and well-formed references of every section.
func VerifP28Fields() {
	be := vfP28Backend(ModeHTTP, "a.x")
	cl := &LocalOIDCClient{ID: "i", Secret: "s", RedirectURI: []string{"https://c/"}}
	rr := &LocalOIDCRewriteRule{InputClaim: "email", OutputClaim: "u", Regex: "^([^@]+)@", Value: "$1"}
	be.SSO = &BackendSSO{Provider: "o", LocalOIDCServer: &LocalOIDCServer{Clients: []*LocalOIDCClient{cl}, RewriteRules: []*LocalOIDCRewriteRule{rr}}}
	cfg := vfP28Config(be, vfP28Backend(ModeLocal, "l.x"), vfP28Backend(ModeConsole, "k.x"))
	o := &ConfigOIDC{Name: "o", AuthEndpoint: "https://i/a", TokenEndpoint: "https://i/t", RedirectURL: "https://l.x/cb", ClientID: "i", ClientSecret: "s", Domain: "x"}
	s := &ConfigSAML{Name: "s", SSOURL: "https://i/s", EntityID: "e", Certs: "c", ACSURL: "https://l.x/acs", Domain: "l.x"}
	k := &ConfigPasskey{Name: "k", IdentityProvider: "o", Endpoint: "https://l.x/p", Domain: "x"}
	pk := &ConfigPKI{Name: "P", Endpoint: "https://l.x/pki"}
	sh := &ConfigSSHCertificateAuthority{Name: "S", CertificateEndpoint: "https://a.x/ssh"}
	cfg.OIDCProviders, cfg.SAMLProviders, cfg.PasskeyProviders = []*ConfigOIDC{o}, []*ConfigSAML{s}, []*ConfigPasskey{k}
	cfg.PKI, cfg.SSHCertificateAuthorities = []*ConfigPKI{pk}, []*ConfigSSHCertificateAuthority{sh}
	cfg.BWLimits = []*BWLimit{{Name: "b"}}
	cfg.TLSCertificates = []*TLSCertificate{{ServerNames: []string{"a.x"}}}
	cfg.WebSockets = []*WebSocketConfig{{Endpoint: "https://l.x/ws", Address: "10.0.0.1:1"}}
	good := map[string]func(){
		"all":           func() {},
		"discovery":     func() { o.AuthEndpoint, o.TokenEndpoint, o.DiscoveryURL = "", "", "https://i/d" },
		"pki console":   func() { pk.Endpoint = "https://k.x/pki" },
		"pki port":      func() { pk.Endpoint = "https://l.x:8443/pki" },
		"pki case":      func() { pk.Endpoint = "https://L.X/pki" },
		"no pki":        func() { pk.Endpoint = "" },
		"no ssh":        func() { sh.CertificateEndpoint = "" },
		"no domain":     func() { o.Domain, s.Domain, k.Domain = "", "", "" },
		"group":         func() { be.BWLimit = "b" },
		"saml passkey":  func() { k.IdentityProvider = "s" },
		"pki authority": func() { be.ForwardRootCAs = []string{"P"} },
	}
	bad := map[string]func(){
		"oidc name":           func() { o.Name = "k" },
		"oidc auth":           func() { o.AuthEndpoint = "" },
		"oidc token":          func() { o.TokenEndpoint = "" },
		"oidc auth url":       func() { o.AuthEndpoint = "https://[::1" },
		"oidc token url":      func() { o.TokenEndpoint = "https://[::1" },
		"oidc discovery url":  func() { o.DiscoveryURL = "https://[::1" },
		"oidc redirect":       func() { o.RedirectURL = "" },
		"oidc redirect url":   func() { o.RedirectURL = "https://[::1" },
		"oidc id":             func() { o.ClientID = "" },
		"oidc secret":         func() { o.ClientSecret = "" },
		"oidc domain":         func() { o.Domain = "y" },
		"saml url":            func() { s.SSOURL = "" },
		"saml entity":         func() { s.EntityID = "" },
		"saml certs":          func() { s.Certs = "" },
		"saml acs":            func() { s.ACSURL = "" },
		"saml domain":         func() { s.Domain = "m.x" },
		"saml name":           func() { s.Name = "o" },
		"passkey endpoint":    func() { k.Endpoint = "" },
		"passkey provider":    func() { k.IdentityProvider = "" },
		"passkey unknown":     func() { k.IdentityProvider = "z" },
		"passkey itself":      func() { k.IdentityProvider = "k" },
		"passkey domain":      func() { k.Domain = "y" },
		"pki name":            func() { pk.Name = "" },
		"pki backend":         func() { pk.Endpoint = "https://z.x/pki" },
		"pki mode":            func() { pk.Endpoint = "https://a.x/pki" },
		"pki url":             func() { pk.Endpoint = "https://[::1" },
		"ssh name":            func() { sh.Name = "" },
		"ssh backend":         func() { sh.CertificateEndpoint = "https://z.x/ssh" },
		"ssh url":             func() { sh.CertificateEndpoint = "https://[::1" },
		"sso provider":        func() { be.SSO.Provider = "z" },
		"sso no provider":     func() { be.SSO.Provider = "" },
		"client id":           func() { cl.ID = "" },
		"client secret":       func() { cl.Secret = "" },
		"client redirect":     func() { cl.RedirectURI = nil },
		"rule input":          func() { rr.InputClaim = "" },
		"rule output":         func() { rr.OutputClaim = "" },
		"rule regex":          func() { rr.Regex = "" },
		"rule bad regex":      func() { rr.Regex = "(" },
		"group":               func() { be.BWLimit = "z" },
		"client authority":    func() { be.ClientAuth = &ClientAuth{RootCAs: []string{"P", "z"}} },
		"forward authority":   func() { be.ForwardRootCAs = []string{"/nonexistent"} },
		"no client authority": func() { be.ClientAuth = &ClientAuth{RootCAs: []string{""}} },
	}
	var names []string
	for n := range good {
		names = append(names, "+"+n)
	}
	for n := range bad {
		names = append(names, "-"+n)
	}
	slices.Sort(names)
	n := names[vsym.Choose("change", len(names))]
	ok := n[0] == '+'
	if ok {
		good[n[1:]]()
	} else {
		bad[n[1:]]()
	}
	if !vfP28Same(cfg, ok, n[1:]) {
		vsym.Reach("rejected")
	}
}

// Lists with empty entries, as in "backends: [~]".
func VerifP28Null() {
	be := vfP28Backend(ModeHTTP, "a.x")
	be.SSO = &BackendSSO{Provider: "o", LocalOIDCServer: &LocalOIDCServer{}}
	cfg := vfP28Config(be)
	cfg.OIDCProviders = []*ConfigOIDC{{Name: "o", AuthEndpoint: "https://i/a", TokenEndpoint: "https://i/t", RedirectURL: "https://l.x/cb", ClientID: "i", ClientSecret: "s"}}
	switch vsym.Choose("list", 12) {
	case 0:
		cfg.Backends = append(cfg.Backends, nil)
	case 1:
		cfg.OIDCProviders = append(cfg.OIDCProviders, nil)
	case 2:
		cfg.SAMLProviders = append(cfg.SAMLProviders, nil)
	case 3:
		cfg.PasskeyProviders = append(cfg.PasskeyProviders, nil)
	case 4:
		cfg.PKI = append(cfg.PKI, nil)
	case 5:
		cfg.SSHCertificateAuthorities = append(cfg.SSHCertificateAuthorities, nil)
	case 6:
		cfg.BWLimits = append(cfg.BWLimits, nil)
	case 7:
		cfg.TLSCertificates = append(cfg.TLSCertificates, nil)
	case 8:
		cfg.WebSockets = append(cfg.WebSockets, nil)
	case 9:
		be.PathOverrides = append(be.PathOverrides, nil)
	case 10:
		be.SSO.LocalOIDCServer.Clients = append(be.SSO.LocalOIDCServer.Clients, nil)
	case 11:
		be.SSO.LocalOIDCServer.RewriteRules = append(be.SSO.LocalOIDCServer.RewriteRules, nil)
	}
	var err error
	p, _ := vsym.TryPanic(func() { err = cfg.Check() })
	vsym.Assert(!p, "an empty list entry crashes the configuration check")
	vsym.Assert(err != nil, "an empty list entry is accepted")
	vsym.Reach("null")
}

// What is not set gets the documented default, and what is set is kept.
func VerifP28Defaults() {
	mode := vsym.Pick("mode", "HTTP", "https", "LOCAL", "TLS", "", "QUIC", "TLSPASSTHROUGH")
	be := vfP28Backend(strings.ToUpper(mode), "A.x", "b\u00fc.x")
	be.Mode = mode
	cfg := vfP28Config(be, vfP28Backend(ModeTCP, "c.x"))
	http := mode == "HTTP" || mode == "https"
	set := vsym.Bool("set")
	limit, timeout, poTimeout := 0, int64(0), int64(0)
	quic := quicIsEnabled
	var po *PathOverride
	poMode := ""
	if http {
		poMode = vsym.Pick("poMode", "", "http", "HTTPS")
		po = &PathOverride{Paths: []string{"/p/"}, Addresses: []string{"10.0.0.2:80"}, Mode: poMode}
		be.PathOverrides = []*PathOverride{po}
		vsym.Reach("override")
	}
	fls := false
	if set {
		vsym.Reach("set")
		limit = int(vsym.Int64("limit"))
		timeout, poTimeout = vsym.Int64("timeout"), vsym.Int64("poTimeout")
		vsym.Assume(vsym.And(limit > 0, limit < 1000000, timeout != 0, poTimeout != 0))
		be.ForwardRateLimit, be.ForwardTimeout = limit, time.Duration(timeout)
		be.ALPNProtos = &[]string{"imap"}
		be.ServerCloseEndsConnection, be.ClientCloseEndsConnection = &fls, &fls
		be.ForwardServerName = "S\u00fc.x"
		be.ProxyProtocolVersion = "v2"
		cfg.TLSAddr, cfg.DefaultServerName, cfg.EnableQUIC = ":1", "D\u00fc.x", &fls
		quic = false
		if po != nil {
			po.ForwardTimeout = time.Duration(poTimeout)
			po.ForwardServerName = "T\u00fc.x"
			po.ProxyProtocolVersion = "v1"
		}
	} else {
		vsym.Reach("unset")
		limit, timeout, poTimeout = 5, int64(30*time.Second), int64(30*time.Second)
	}
	for i := 0; i < 2; i++ {
		vsym.Assert(cfg.Check() == nil, "a valid configuration is rejected")
		vsym.Assert(vsym.And(be.ForwardRateLimit == limit, be.connLimit.Burst() == limit, be.connLimit.Limit() == rate.Limit(limit)), "another rate limit")
		vsym.Assert(be.ForwardTimeout == time.Duration(timeout), "another timeout")
		vsym.Assert(cfg.Backends[1].ForwardRateLimit == 5 && cfg.Backends[1].connLimit != be.connLimit, "the backends do not have limits of their own")
		want := strings.ToUpper(mode)
		if want == "" {
			want = "TCP"
		}
		vsym.Assert(be.Mode == want, "another mode")
		vsym.Assert(len(be.ServerNames) == 2 && be.ServerNames[0] == "a.x" && be.ServerNames[1] == "xn--b-eha.x", "other server names")
		vsym.Assert(*cfg.EnableQUIC == quic, "QUIC")
		protos := *be.ALPNProtos
		switch {
		case set:
			vsym.Assert(slices.Equal(protos, []string{"imap"}), "other protocols")
			vsym.Assert(!*be.ServerCloseEndsConnection && !*be.ClientCloseEndsConnection, "other ends")
			vsym.Assert(be.ForwardServerName == "xn--s-eha.x" && be.proxyProtocolVersion == 2, "other upstream settings")
			vsym.Assert(cfg.TLSAddr == ":1" && cfg.DefaultServerName == "xn--d-eha.x", "other addresses")
		case quic && (http || mode == "LOCAL" || mode == "QUIC"):
			vsym.Assert(slices.Equal(protos, []string{"h3", "h2", "http/1.1"}), "other protocols")
		default:
			vsym.Assert(slices.Equal(protos, []string{"h2", "http/1.1"}), "other protocols")
		}
		if !set {
			vsym.Assert(be.ForwardServerName == "" && be.proxyProtocolVersion == 0 && cfg.TLSAddr == ":10443", "other settings")
			if mode == "QUIC" {
				vsym.Assert(!*be.ServerCloseEndsConnection && !*be.ClientCloseEndsConnection, "one stream ends the others")
			} else {
				vsym.Assert(be.ServerCloseEndsConnection == nil && be.ClientCloseEndsConnection == nil, "other ends")
			}
		}
		if po == nil {
			continue
		}
		want = strings.ToUpper(poMode)
		if want == "" {
			want = be.Mode
		}
		vsym.Assert(po.Mode == want, "the override has another mode")
		vsym.Assert(po.ForwardTimeout == time.Duration(poTimeout), "the override has another timeout")
		if set {
			vsym.Assert(po.ForwardServerName == "xn--t-eha.x" && po.proxyProtocolVersion == 1, "the override has other settings")
		} else {
			vsym.Assert(po.ForwardServerName == "" && po.proxyProtocolVersion == 0, "the override has other settings")
		}
	}
}
