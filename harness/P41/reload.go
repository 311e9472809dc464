//verif:pkg proxy
//verif:use flow.go
//verif:use store.go
//verif:hook github.com/c2FmZQ/tlsproxy/proxy loadCerts
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys NewManager
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/oidc New
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/saml New
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/pki New
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/pki (*PKIManager).CACert
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/sshca New
//verif:unit name=reject entry=VerifP41Reject share=2 reach=check,build,again
//verif:unit name=change entry=VerifP41Change share=3 reach=changed,same
//verif:unit name=two entry=VerifP41Two share=3 race q.DELAYS=1 t.DELAYS=2 reach=first,second
//verif:unit name=file entry=VerifP41File share=2 reach=exact,misspelt,twice
//verif:assume what each field does is the subject of the other properties; the managers of providers and authorities are stand-ins that are created, or not
//verif:note one rich configuration; it is changed in one of its fields, or fails at one of the steps of a reload
package proxy

import (
	"crypto/x509"
	"net"
	"net/http"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/c2FmZQ/storage"
	"golang.org/x/time/rate"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/oidc"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/saml"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/sshca"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// vf41 is a proxy whose managers may fail to start.
type vf41 struct {
	*vfFlow
	fail    string // the step that fails
	certs   int    // the number of certificate files that can be read, if > 0
	rmu     sync.Mutex
	running int // internal web servers
}

func vfNew41() *vf41 {
	v := &vf41{vfFlow: vfNewFlow()}
	(&vfStore{}).install()
	v.p.tokenManager = &tokenmanager.TokenManager{}
	v.p.store = &storage.Storage{}
	serve := http.VerifHook_Server_Serve
	http.VerifHook_Server_Serve = func(s *http.Server, l net.Listener) error {
		v.rmu.Lock()
		v.running++
		v.rmu.Unlock()
		err := serve(s, l)
		v.rmu.Lock()
		v.running--
		v.rmu.Unlock()
		return err
	}
	step := func(name string) error {
		if v.fail == name {
			return errVF
		}
		return nil
	}
	VerifHook_loadCerts = func(_ *x509.CertPool, _ string) error {
		if v.certs > 0 {
			if v.certs--; v.certs == 0 {
				return errVF
			}
		}
		return nil
	}
	passkeys.VerifHook_NewManager = func(passkeys.Config) (*passkeys.Manager, error) { return &passkeys.Manager{}, step("passkey") }
	oidc.VerifHook_New = func(oidc.Config, oidc.EventRecorder, oidc.CookieManager) (*oidc.ProviderClient, error) {
		return &oidc.ProviderClient{}, step("oidc")
	}
	saml.VerifHook_New = func(saml.Config, saml.EventRecorder, saml.CookieManager) (*saml.Provider, error) {
		return &saml.Provider{}, step("saml")
	}
	pki.VerifHook_New = func(pki.Options) (*pki.PKIManager, error) { return &pki.PKIManager{}, step("pki") }
	pki.VerifHook_PKIManager_CACert = func(*pki.PKIManager) (*x509.Certificate, error) {
		return &x509.Certificate{Raw: []byte{1}, SubjectKeyId: []byte{1}}, step("cacert")
	}
	sshca.VerifHook_New = func(sshca.Options) (*sshca.SSHCA, error) { return &sshca.SSHCA{}, step("sshca") }
	return v
}

func vf41Ptr[T any](v T) *T { return &v }

// vf41Config is a configuration with everything in it.
func vf41Config(dir string) *Config {
	no := LogFilter{Connections: vf41Ptr(false), Requests: vf41Ptr(false), Errors: vf41Ptr(false)}
	return &Config{
		CacheDir: dir, MaxOpen: 100, EnableQUIC: vf41Ptr(false), HTTPAddr: ":80", TLSAddr: ":443", Email: "a@b",
		AcceptTOS: true, DefaultServerName: "a.x", LogFilter: no, AcceptProxyHeaderFrom: []string{"10.0.0.0/8"},
		RevokeUnusedCertificates: vf41Ptr(true),
		Backends: []*Backend{
			{ServerNames: []string{"a.x", "a2.x"}, Mode: ModeTLSPassthrough, Addresses: []string{"1.1.1.1:1", "1.1.1.2:1"}, LogFilter: no,
				BWLimit: "g", AllowIPs: &[]string{"0.0.0.0/0", "::/0"}, DenyIPs: &[]string{"203.0.113.0/24"}, ForwardRateLimit: 50, ForwardTimeout: time.Minute,
				ServerCloseEndsConnection: vf41Ptr(true), ClientCloseEndsConnection: vf41Ptr(true), HalfCloseTimeout: vf41Ptr(time.Minute), ProxyProtocolVersion: "v2"},
			{ServerNames: []string{"b.x"}, Mode: ModeHTTPS, Addresses: []string{"1.1.2.1:1"}, LogFilter: no, ALPNProtos: &[]string{"http/1.1"},
				BackendProto: vf41Ptr("h2"), ForwardServerName: "in.x", ForwardRootCAs: []string{"A"}, InsecureSkipVerify: true,
				ForwardHTTPHeaders: map[string]string{"x": "y"}, SanitizePath: vf41Ptr(true), ExportJWKS: "/keys",
				ClientAuth: &ClientAuth{ACL: &[]string{"CN=a"}, RootCAs: []string{"A"}, AddClientCertHeader: []string{"hash"}},
				SSO:        &BackendSSO{Provider: "sso", ForceReAuth: time.Hour, ACL: &[]string{"a@b"}, Paths: []string{"/p"}, SetUserIDHeader: true, GenerateIDTokens: true},
				PathOverrides: []*PathOverride{{Paths: []string{"/o/"}, Addresses: []string{"1.1.3.1:1"}, Mode: ModeHTTPS, BackendProto: vf41Ptr("h2"), InsecureSkipVerify: true,
					ForwardServerName: "o.x", ForwardRootCAs: []string{"A"}, ForwardTimeout: time.Minute, ProxyProtocolVersion: "v1", ForwardHTTPHeaders: &map[string]string{"x": "z"}, SanitizePath: vf41Ptr(true)}}},
			{ServerNames: []string{"l.x"}, Mode: ModeLocal, LogFilter: no, SSO: &BackendSSO{Provider: "pk", LocalOIDCServer: &LocalOIDCServer{PathPrefix: "/i",
				Clients:      []*LocalOIDCClient{{ID: "i", Secret: "s", RedirectURI: []string{"https://c.x/"}}},
				RewriteRules: []*LocalOIDCRewriteRule{{InputClaim: "email", OutputClaim: "name", Regex: "^a", Value: "b"}}}}},
			{ServerNames: []string{"d.x"}, Mode: ModeHTTP, LogFilter: no, DocumentRoot: "/srv", BWLimit: "g"},
			{ServerNames: []string{"c.x"}, Mode: ModeConsole, LogFilter: no},
		},
		OIDCProviders:             []*ConfigOIDC{{Name: "sso", AuthEndpoint: "https://i.x/a", TokenEndpoint: "https://i.x/t", UserinfoEndpoint: "https://i.x/u", Scopes: []string{"s"}, HostedDomain: "h.x", RedirectURL: "https://l.x/cb", ClientID: "c", ClientSecret: "s", Domain: "l.x"}},
		SAMLProviders:             []*ConfigSAML{{Name: "saml", SSOURL: "https://i.x/s", EntityID: "e", Certs: "c", ACSURL: "https://l.x/acs", Domain: "l.x"}},
		PasskeyProviders:          []*ConfigPasskey{{Name: "pk", IdentityProvider: "sso", RefreshInterval: time.Hour, Endpoint: "https://l.x/pk", Domain: "l.x"}},
		PKI:                       []*ConfigPKI{{Name: "A", KeyType: "ecdsa-p256", IssuingCertificateURLs: []string{"http://l.x/ca"}, CRLDistributionPoints: []string{"http://l.x/crl"}, OCSPServer: []string{"http://l.x/ocsp"}, Endpoint: "https://l.x/certs", Admins: []string{"a@b"}}},
		SSHCertificateAuthorities: []*ConfigSSHCertificateAuthority{{Name: "S", KeyType: "ed25519", PublicKeyEndpoint: "https://l.x/pub", CertificateEndpoint: "https://l.x/ssh"}},
		TLSCertificates:           []*TLSCertificate{{ServerNames: []string{"a.x"}, KeyFile: "k", CertFile: "c"}},
		BWLimits:                  []*BWLimit{{Name: "g", Ingress: 1e6, Egress: 2e6}},
		WebSockets:                []*WebSocketConfig{{Endpoint: "wss://l.x/ws", Address: "1.1.4.1:1"}},
	}
}

// vf41State is everything that a reload replaces.
type vf41State struct {
	cfg      *Config
	ser      string
	def      string
	backends map[beKey]*Backend
	pkis     map[string]*pki.PKIManager
	limits   map[string]bwLimit
	rates    map[string][4]float64
	running  int
}

func (v *vf41) state() vf41State {
	vsym.Settle()
	p := v.p
	s := vf41State{cfg: p.cfg, ser: string(p.cfg.serialize()), def: p.defServerName, running: v.running,
		backends: map[beKey]*Backend{}, pkis: map[string]*pki.PKIManager{}, limits: map[string]bwLimit{}, rates: map[string][4]float64{}}
	for k, b := range p.backends {
		s.backends[k] = b
	}
	for k, m := range p.pkis {
		s.pkis[k] = m
	}
	for _, bl := range p.cfg.BWLimits {
		l, ok := p.bwLimits[bl.Name]
		if !ok {
			continue
		}
		s.limits[bl.Name] = *l
		s.rates[bl.Name] = [4]float64{float64(l.ingress.Limit()), float64(l.ingress.Burst()), float64(l.egress.Limit()), float64(l.egress.Burst())}
	}
	return s
}

func (v *vf41) same(a, b vf41State) {
	vsym.Assert(a.cfg == b.cfg && a.ser == b.ser, "the configuration is replaced")
	vsym.Assert(a.def == b.def, "the default server changes")
	vsym.Assert(len(a.backends) == len(b.backends) && len(a.pkis) == len(b.pkis) && len(a.limits) == len(b.limits), "the configuration is replaced in part")
	for k, x := range a.backends {
		vsym.Assert(b.backends[k] == x, "a backend is replaced")
	}
	for k, x := range a.pkis {
		vsym.Assert(b.pkis[k] == x, "an authority is replaced")
	}
	for k, x := range a.limits {
		vsym.Assert(b.limits[k] == x, "a limiter is replaced")
		vsym.Assert(b.rates[k] == a.rates[k], "the rate of a limiter changes")
	}
	vsym.Assert(a.running == b.running, "web servers are started or stopped")
}

// whole asserts that what is running is one configuration.
func (v *vf41) whole() vf41State {
	s := v.state()
	cfg := s.cfg
	vsym.Assert(s.def == cfg.DefaultServerName, "the default server is not the configuration's")
	n, names := 0, map[string]bool{}
	for _, be := range cfg.Backends {
		switch be.Mode {
		case ModeHTTP, ModeHTTPS, ModeLocal, ModeConsole:
			n++
			vsym.Assert(be.httpServer != nil && !be.state.shutdown, "a backend of the configuration is not served")
		}
		for _, sn := range be.ServerNames {
			names[sn] = true
			vsym.Assert(s.backends[beKey{serverName: sn}] == be, "a server name does not lead to its backend")
		}
	}
	for k := range s.backends {
		vsym.Assert(names[k.serverName], "a backend that is not configured")
	}
	vsym.Assert(s.running == n, "the web servers that run are not those of the configuration")
	vsym.Assert(len(s.pkis) == len(cfg.PKI) && len(s.limits) == len(cfg.BWLimits), "the authorities and limits are not the configuration's")
	for _, l := range cfg.BWLimits {
		r := s.rates[l.Name]
		vsym.Assert(rate.Limit(r[0]) == rate.Limit(l.Ingress) && rate.Limit(r[2]) == rate.Limit(l.Egress), "the rates are not the configuration's")
		for _, be := range cfg.Backends {
			if be.BWLimit == l.Name {
				vsym.Assert(be.bwLimit != nil && *be.bwLimit == s.limits[l.Name], "a backend does not use its group's limits")
			}
		}
	}
	return s
}

// A configuration that cannot be used changes nothing.
func VerifP41Reject() {
	vsym.NoTimers()
	v := vfNew41()
	dir := vfTree(nil)
	vsym.Assert(v.p.Reconfigure(vf41Config(dir)) == nil, "a valid configuration is refused")
	before := v.whole()

	idle := &vfConn{name: "idle", in: vfHello("a.x", nil), hold: make(chan struct{})}
	v.name, v.alpn = "a.x", nil
	v.newConn = func(string) *vfConn { return &vfConn{name: "up", hold: make(chan struct{})} }
	ic := netw.NewConn(idle)
	go v.p.handleConnection(ic)
	vsym.Settle()
	vsym.Assert(idle.closed == 0 && len(v.dials) == 1, "not connected")
	v.newConn = nil

	step := vsym.Pick("step", "oidc", "saml", "passkey", "pki", "cacert", "cacert path", "cacert client", "sshca", "certs", "cidr", "names", "override", "provider", "limit")
	build := func() *Config {
		c := vf41Config(dir)
		c.DefaultServerName = "d.x"
		c.BWLimits[0].Ingress, c.BWLimits[0].Egress = 70, 80
		c.BWLimits = append(c.BWLimits, &BWLimit{Name: "h", Ingress: 1, Egress: 1})
		c.Backends[0].Addresses = []string{"9.9.9.9:9"}
		c.Backends[2].BWLimit = "h"
		c.Backends = append(c.Backends, &Backend{ServerNames: []string{"e.x"}, Mode: ModeLocal, LogFilter: c.LogFilter})
		c.PKI = append(c.PKI, &ConfigPKI{Name: "B"})
		last := &Backend{ServerNames: []string{"f.x"}, Mode: ModeHTTP, Addresses: []string{"1.1.1.1:1"}, LogFilter: c.LogFilter}
		c.Backends = append(c.Backends, last)
		v.fail, v.certs = strings.Split(step, " ")[0], 0
		b := c.Backends[1]
		switch step {
		case "cacert path":
			b.ForwardRootCAs, b.ClientAuth = nil, nil
		case "cacert client":
			b.ForwardRootCAs, b.PathOverrides = nil, nil
		case "certs": // the file is there when it is checked, and not when it is used
			last.ForwardRootCAs = []string{"file"}
			v.certs = 2
		case "cidr":
			last.DenyIPs = &[]string{"1.1.1.1"}
		case "names":
			last.ServerNames = []string{"a.x"}
		case "override":
			last.PathOverrides = []*PathOverride{{Paths: []string{"x"}}}
		case "provider":
			last.SSO = &BackendSSO{Provider: "none"}
		case "limit":
			last.BWLimit = "none"
		}
		return c
	}
	for i := 0; i < 2; i++ {
		vsym.Assert(v.p.Reconfigure(build()) != nil, "a configuration that does not work is accepted")
		v.same(before, v.state())
	}
	switch step {
	case "cidr", "names", "override", "provider", "limit":
		vsym.Reach("check")
	default:
		vsym.Reach("build")
	}
	vsym.Assert(idle.closed == 0, "a connection is closed")
	v.client("a2.x", nil, "")
	vsym.Assert(len(v.dials) == 2 && v.dials[1].addr != "9.9.9.9:9", "a connection is handled as in the configuration that was refused")
	v.whole()

	// The next one can be used.
	step = ""
	vsym.Assert(v.p.Reconfigure(build()) == nil, "a valid configuration is refused")
	s := v.whole()
	vsym.Assert(s.def == "d.x" && s.running == before.running+2, "the new configuration does not take effect")
	v.client("a2.x", nil, "")
	vsym.Assert(len(v.dials) == 3 && v.dials[2].addr == "9.9.9.9:9", "the new configuration does not take effect")
	vsym.Reach("again")
	close(idle.hold)
	idle.hold = nil
}

var vf41Changes = []func(*Config){
	func(c *Config) { c.HTTPAddr = ":81" },
	func(c *Config) { c.TLSAddr = ":444" },
	func(c *Config) { c.AcceptProxyHeaderFrom = nil },
	func(c *Config) { c.AcceptProxyHeaderFrom[0] = "10.0.0.0/9" },
	func(c *Config) { c.DefaultServerName = "b.x" },
	func(c *Config) { c.DefaultServerName = "" },
	func(c *Config) { c.LogFilter = LogFilter{} },
	func(c *Config) { c.LogFilter.Connections = nil },
	func(c *Config) { c.LogFilter.Errors = vf41Ptr(true) },
	func(c *Config) { c.Email = "" },
	func(c *Config) { c.RevokeUnusedCertificates = nil },
	func(c *Config) { c.RevokeUnusedCertificates = vf41Ptr(false) },
	func(c *Config) { c.MaxOpen = 99 },
	func(c *Config) { c.AcceptTOS = false },
	func(c *Config) { c.Backends = c.Backends[:4] },
	func(c *Config) { c.Backends[0].ServerNames = []string{"a.x"} },
	func(c *Config) { c.Backends[0].Mode = ModeTLS },
	func(c *Config) { c.Backends[0].Addresses = c.Backends[0].Addresses[:1] },
	func(c *Config) {
		c.Backends[0].Addresses[0], c.Backends[0].Addresses[1] = c.Backends[0].Addresses[1], c.Backends[0].Addresses[0]
	},
	func(c *Config) { c.Backends[0].BWLimit = "" },
	func(c *Config) { c.Backends[0].LogFilter.Requests = nil },
	func(c *Config) { c.Backends[0].AllowIPs = nil },
	func(c *Config) { c.Backends[0].AllowIPs = &[]string{} },
	func(c *Config) { c.Backends[0].DenyIPs = nil },
	func(c *Config) { c.Backends[0].DenyIPs = &[]string{"203.0.113.0/25"} },
	func(c *Config) { c.Backends[0].ForwardRateLimit = 51 },
	func(c *Config) { c.Backends[0].ForwardTimeout = time.Second },
	func(c *Config) { c.Backends[0].ServerCloseEndsConnection = vf41Ptr(false) },
	func(c *Config) { c.Backends[0].ClientCloseEndsConnection = nil },
	func(c *Config) { c.Backends[0].HalfCloseTimeout = vf41Ptr(time.Second) },
	func(c *Config) { c.Backends[0].HalfCloseTimeout = nil },
	func(c *Config) { c.Backends[0].ProxyProtocolVersion = "v1" },
	func(c *Config) { c.Backends[1].ALPNProtos = &[]string{} },
	func(c *Config) { c.Backends[1].ALPNProtos = nil },
	func(c *Config) { c.Backends[1].BackendProto = vf41Ptr("") },
	func(c *Config) { c.Backends[1].BackendProto = nil },
	func(c *Config) { c.Backends[1].ForwardServerName = "" },
	func(c *Config) { c.Backends[1].ForwardRootCAs = nil },
	func(c *Config) { c.Backends[1].InsecureSkipVerify = false },
	func(c *Config) { c.Backends[1].ForwardHTTPHeaders["x"] = "z" },
	func(c *Config) { c.Backends[1].SanitizePath = vf41Ptr(false) },
	func(c *Config) { c.Backends[1].ExportJWKS = "" },
	func(c *Config) { c.Backends[1].ClientAuth = nil },
	func(c *Config) { c.Backends[1].ClientAuth.ACL = nil },
	func(c *Config) { c.Backends[1].ClientAuth.ACL = &[]string{} },
	func(c *Config) { c.Backends[1].ClientAuth.RootCAs = []string{"A", "file"} },
	func(c *Config) { c.Backends[1].ClientAuth.AddClientCertHeader = nil },
	func(c *Config) { c.Backends[1].SSO = nil },
	func(c *Config) { c.Backends[1].SSO.Provider = "saml" },
	func(c *Config) { c.Backends[1].SSO.ForceReAuth = 0 },
	func(c *Config) { c.Backends[1].SSO.ACL = nil },
	func(c *Config) { c.Backends[1].SSO.ACL = &[]string{} },
	func(c *Config) { c.Backends[1].SSO.Paths = nil },
	func(c *Config) { c.Backends[1].SSO.SetUserIDHeader = false },
	func(c *Config) { c.Backends[1].SSO.GenerateIDTokens = false },
	func(c *Config) { c.Backends[1].PathOverrides = nil },
	func(c *Config) { c.Backends[1].PathOverrides[0].Paths = []string{"/q/"} },
	func(c *Config) { c.Backends[1].PathOverrides[0].Addresses[0] = "1.1.3.2:1" },
	func(c *Config) { c.Backends[1].PathOverrides[0].Mode = ModeHTTP },
	func(c *Config) {
		c.Backends[1].PathOverrides[0].Addresses, c.Backends[1].PathOverrides[0].DocumentRoot = nil, "/srv"
	},
	func(c *Config) { c.Backends[1].PathOverrides[0].BackendProto = nil },
	func(c *Config) { c.Backends[1].PathOverrides[0].InsecureSkipVerify = false },
	func(c *Config) { c.Backends[1].PathOverrides[0].ForwardServerName = "" },
	func(c *Config) { c.Backends[1].PathOverrides[0].ForwardRootCAs = nil },
	func(c *Config) { c.Backends[1].PathOverrides[0].ForwardTimeout = time.Second },
	func(c *Config) { c.Backends[1].PathOverrides[0].ProxyProtocolVersion = "" },
	func(c *Config) { c.Backends[1].PathOverrides[0].ForwardHTTPHeaders = nil },
	func(c *Config) { c.Backends[1].PathOverrides[0].ForwardHTTPHeaders = &map[string]string{} },
	func(c *Config) { c.Backends[1].PathOverrides[0].SanitizePath = nil },
	func(c *Config) { c.Backends[2].SSO.LocalOIDCServer = nil },
	func(c *Config) { c.Backends[2].SSO.LocalOIDCServer.PathPrefix = "" },
	func(c *Config) { c.Backends[2].SSO.LocalOIDCServer.Clients[0].Secret = "t" },
	func(c *Config) { c.Backends[2].SSO.LocalOIDCServer.Clients[0].RedirectURI[0] = "https://c.y/" },
	func(c *Config) { c.Backends[2].SSO.LocalOIDCServer.RewriteRules[0].Value = "" },
	func(c *Config) { c.Backends[2].SSO.LocalOIDCServer.RewriteRules[0].Regex = "^b" },
	func(c *Config) { c.Backends[3].DocumentRoot = "" },
	func(c *Config) { c.OIDCProviders[0].AuthEndpoint = "https://j.x/a" },
	func(c *Config) { c.OIDCProviders[0].TokenEndpoint = "https://j.x/t" },
	func(c *Config) { c.OIDCProviders[0].UserinfoEndpoint = "" },
	func(c *Config) { c.OIDCProviders[0].Scopes = nil },
	func(c *Config) { c.OIDCProviders[0].HostedDomain = "" },
	func(c *Config) { c.OIDCProviders[0].RedirectURL = "https://l.x/cb2" },
	func(c *Config) { c.OIDCProviders[0].ClientID = "d" },
	func(c *Config) { c.OIDCProviders[0].ClientSecret = "t" },
	func(c *Config) { c.OIDCProviders[0].Domain = "" },
	func(c *Config) { c.SAMLProviders[0].Certs = "d" },
	func(c *Config) { c.SAMLProviders[0].EntityID = "f" },
	func(c *Config) { c.SAMLProviders[0].SSOURL = "https://j.x/s" },
	func(c *Config) { c.SAMLProviders = nil },
	func(c *Config) { c.PasskeyProviders[0].RefreshInterval = time.Minute },
	func(c *Config) { c.PasskeyProviders[0].Domain = "" },
	func(c *Config) { c.PasskeyProviders[0].IdentityProvider = "saml" },
	func(c *Config) { c.PKI[0].Admins = nil },
	func(c *Config) { c.PKI[0].KeyType = "" },
	func(c *Config) { c.PKI[0].OCSPServer = nil },
	func(c *Config) { c.PKI = append(c.PKI, &ConfigPKI{Name: "B"}) },
	func(c *Config) { c.SSHCertificateAuthorities[0].KeyType = "" },
	func(c *Config) { c.SSHCertificateAuthorities = nil },
	func(c *Config) { c.TLSCertificates[0].KeyFile = "k2" },
	func(c *Config) { c.TLSCertificates = nil },
	func(c *Config) { c.BWLimits[0].Ingress = 3e6 },
	func(c *Config) { c.BWLimits[0].Egress = 0.5 },
	func(c *Config) { c.BWLimits = append(c.BWLimits, &BWLimit{Name: "h", Ingress: 1, Egress: 1}) },
	func(c *Config) { c.WebSockets[0].Address = "1.1.4.1:2" },
	func(c *Config) { c.WebSockets = nil },
	func(c *Config) {
		c.PKI = nil
		c.Backends[1].ForwardRootCAs, c.Backends[1].ClientAuth, c.Backends[1].PathOverrides[0].ForwardRootCAs = nil, nil, nil
	},
	func(c *Config) {
		c.BWLimits = nil
		c.Backends[0].BWLimit, c.Backends[3].BWLimit = "", ""
	},
}

// A change of any field takes effect; no change, no effect.
func VerifP41Change() {
	vsym.NoTimers()
	v := vfNew41()
	dir := vfTree(nil)
	i := vsym.Choose("field", len(vf41Changes))
	back := vsym.Bool("back")
	build := func(change bool) *Config {
		c := vf41Config(dir)
		if change {
			vf41Changes[i](c)
		}
		return c
	}
	first, second := build(back), build(!back)
	vsym.Assert(v.p.Reconfigure(first) == nil, "a valid configuration is refused")
	a := v.whole()
	// As the configuration loop does it, with a file that has not changed.
	again := build(back)
	vsym.Assert(again.Check() == nil && v.p.Reconfigure(again) == nil, "an unchanged configuration is refused")
	v.same(a, v.whole())
	vsym.Reach("same")

	given := string(second.serialize())
	vsym.Assert(v.p.Reconfigure(second) == nil, "a valid configuration is refused")
	vsym.Assert(string(second.serialize()) == given, "the reload changes the configuration it is given")
	b := v.whole()
	want := build(!back)
	vsym.Assert(want.Check() == nil && string(want.serialize()) == b.ser, "the configuration that runs is not the one that was given")
	vsym.Assert(a.ser != b.ser && a.cfg != b.cfg, "a change of the configuration has no effect")
	vsym.Reach("changed")
	// What becomes of the value that was given does not matter any more.
	second.Backends[0].Addresses[0] = "9.9.9.9:9"
	second.DefaultServerName = "none"
	second.BWLimits = nil
	v.same(b, v.whole())
}

// Two reloads at once, and connections in the middle.
func VerifP41Two() {
	vsym.NoTimers()
	v := vfNew41()
	dir := vfTree(nil)
	start := v.config(&Backend{ServerNames: []string{"a.x"}, Mode: ModeTLSPassthrough, Addresses: []string{"1.0.0.1:1"}})
	start.CacheDir = dir
	vsym.Assert(v.p.Reconfigure(start) == nil, "a valid configuration is refused")
	build := func(n string, local bool) *Config {
		f := float64(n[0])
		c := v.config(&Backend{ServerNames: []string{"a.x"}, Mode: ModeTLSPassthrough, Addresses: []string{n + ".0.0.1:1"}, BWLimit: "g"})
		if local {
			c.Backends = append(c.Backends, &Backend{ServerNames: []string{n + ".x"}, Mode: ModeLocal, LogFilter: c.LogFilter})
		}
		c.CacheDir, c.DefaultServerName = dir, n+".x"
		c.BWLimits = []*BWLimit{{Name: "g", Ingress: f, Egress: 2 * f}}
		return c
	}
	cfgs := []*Config{build("2", true), build("3", vsym.Bool("local"))}
	vsym.ExploreDelays(vsym.Param("DELAYS", 1))
	var wg sync.WaitGroup
	wg.Add(3)
	for i := 0; i < 2; i++ {
		go func() {
			defer wg.Done()
			vsym.Assert(v.p.Reconfigure(cfgs[i]) == nil, "a valid configuration is refused")
		}()
	}
	go func() {
		defer wg.Done()
		be, err := v.p.backend("a.x")
		vsym.Assert(err == nil && be != nil, "a server that is in every configuration is missing")
		in, def := be.bwLimit, be.Addresses[0][:1]
		vsym.Assert((in == nil) == (def == "1"), "a backend without its limits")
	}()
	wg.Wait()
	s := v.whole()
	vsym.Assert(s.def == "2.x" || s.def == "3.x", "neither configuration took effect")
	if s.def == "2.x" {
		vsym.Reach("first")
	} else {
		vsym.Reach("second")
	}
}

const vf41File = `acceptTOS: true
email: a@b
tlsAddr: ":443"
defaultServerName: a.x
cacheDir: "@"
maxOpen: 10
enableQUIC: false
acceptProxyHeaderFrom: [10.0.0.0/8]
revokeUnusedCertificates: false
logFilter:
  connections: false
backends:
- serverNames:
  - a.x
  mode: tls
  addresses:
  - 1.1.1.1:1
  denyIPs:
  - 10.0.0.0/8
  allowIPs: []
  forwardServerName: in.x
  forwardTimeout: 5s
  bwLimit: g
  clientAuth:
    acl:
    - SUBJECT:CN=a
    rootCAs: [A]
- serverNames: [b.x]
  mode: https
  addresses: [1.1.1.2:1]
  sso:
    provider: sso
    forceReAuth: 1h
    acl: []
    paths: [/p]
  pathOverrides:
  - paths: [/o/]
    addresses: [1.1.1.3:1]
    forwardServerName: o.x
- serverNames: [l.x]
  mode: local
oidc:
- name: sso
  authorizationEndpoint: https://i.x/a
  tokenEndpoint: https://i.x/t
  redirectUrl: https://l.x/cb
  clientId: c
  clientSecret: s
  hostedDomain: h.x
pki:
- name: A
  admins: [a@b]
  endpoint: https://l.x/certs
bwLimits:
- name: g
  ingress: 1000
  egress: 2e3
`

func vf41Read(name, text string) (*Config, error) {
	root := vfTree(map[string]string{name: text, "c/": ""})
	if vsym.Native() {
		text = strings.Replace(text, "@\"", filepath.Join(root, "c")+"\"", 1)
		root = vfTree(map[string]string{name: text})
	}
	return ReadConfig(filepath.Join(root, name))
}

// What the file says is what is configured; what the file says and is not
// understood is refused.
func VerifP41File() {
	lines := strings.Split(strings.TrimSpace(vf41File), "\n")
	// 0 is the unchanged file.
	n := vsym.Choose("line", len(lines)+1)
	name := []string{"config.yaml", "config.yml", "tlsproxy.conf"}[n%3]
	if n == 0 {
		cfg, err := vf41Read(name, vf41File)
		vsym.Assert(err == nil, "a valid file is refused")
		vsym.Reach("exact")
		want := &Config{AcceptTOS: true, Email: "a@b", TLSAddr: ":443", DefaultServerName: "a.x", CacheDir: cfg.CacheDir, MaxOpen: 10,
			EnableQUIC: vf41Ptr(false), AcceptProxyHeaderFrom: []string{"10.0.0.0/8"}, RevokeUnusedCertificates: vf41Ptr(false),
			LogFilter: LogFilter{Connections: vf41Ptr(false)},
			Backends: []*Backend{
				{ServerNames: []string{"a.x"}, Mode: "TLS", Addresses: []string{"1.1.1.1:1"}, DenyIPs: &[]string{"10.0.0.0/8"}, AllowIPs: &[]string{},
					ForwardServerName: "in.x", ForwardTimeout: 5 * time.Second, BWLimit: "g", ClientAuth: &ClientAuth{ACL: &[]string{"SUBJECT:CN=a"}, RootCAs: []string{"A"}}},
				{ServerNames: []string{"b.x"}, Mode: "HTTPS", Addresses: []string{"1.1.1.2:1"}, SSO: &BackendSSO{Provider: "sso", ForceReAuth: time.Hour, ACL: &[]string{}, Paths: []string{"/p"}},
					PathOverrides: []*PathOverride{{Paths: []string{"/o/"}, Addresses: []string{"1.1.1.3:1"}, ForwardServerName: "o.x"}}},
				{ServerNames: []string{"l.x"}, Mode: "LOCAL"},
			},
			OIDCProviders: []*ConfigOIDC{{Name: "sso", AuthEndpoint: "https://i.x/a", TokenEndpoint: "https://i.x/t", RedirectURL: "https://l.x/cb", ClientID: "c", ClientSecret: "s", HostedDomain: "h.x"}},
			PKI:           []*ConfigPKI{{Name: "A", Admins: []string{"a@b"}, Endpoint: "https://l.x/certs"}},
			BWLimits:      []*BWLimit{{Name: "g", Ingress: 1000, Egress: 2000}},
		}
		vsym.Assert(want.Check() == nil && string(want.serialize()) == string(cfg.serialize()), "the configuration is not what the file says")
		return
	}
	l := lines[n-1]
	colon := strings.Index(l, ":")
	key := strings.HasPrefix(strings.TrimLeft(l[max(colon, 0):], ":"), " ") || strings.HasSuffix(l, ":")
	if vsym.Bool("twice") {
		// The same entry twice.
		vsym.Assume(key && !strings.HasSuffix(l, ":") && !strings.Contains(l, "- "))
		lines = append(lines[:n], append([]string{l}, lines[n:]...)...)
		_, err := vf41Read(name, strings.Join(lines, "\n") + "\n")
		vsym.Reach("twice")
		vsym.Assert(err != nil, "an entry that is there twice is accepted")
		return
	}
	vsym.Assume(key && colon > 0)
	pos := strings.IndexFunc(l, func(r rune) bool { return r >= 'a' && r <= 'z' })
	vsym.Assume(pos >= 0 && pos < colon)
	switch vsym.Choose("typo", 3) {
	case 0:
		l = l[:colon] + "x" + l[colon:]
	case 1:
		l = l[:pos] + strings.ToUpper(l[pos:pos+1]) + l[pos+1:]
	case 2:
		l = l[:colon-1] + l[colon:]
	}
	lines[n-1] = l
	_, err := vf41Read(name, strings.Join(lines, "\n") + "\n")
	vsym.Reach("misspelt")
	vsym.Assert(err != nil, "an entry that is not understood is ignored")
}
