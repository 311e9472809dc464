//verif:pkg proxy
//verif:use rp.go
//verif:use flow.go
//verif:use store.go
//verif:hook github.com/c2FmZQ/tlsproxy/proxy (*Backend).serveSSOStatus
//verif:hook github.com/c2FmZQ/tlsproxy/proxy (*Backend).serveSSOStyle
//verif:hook github.com/c2FmZQ/tlsproxy/proxy (*Backend).serveLogin
//verif:hook github.com/c2FmZQ/tlsproxy/proxy (*Backend).serveLogout
//verif:hook github.com/c2FmZQ/tlsproxy/proxy (*Proxy).faviconHandler
//verif:hook github.com/c2FmZQ/tlsproxy/proxy (*Proxy).metricsHandler
//verif:hook github.com/c2FmZQ/tlsproxy/proxy (*Proxy).webSocketHandler
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys (*Manager).ManageKeys
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys (*Manager).ServeWellKnown
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys (*Manager).HandleCallback
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys (*Manager).RequestLogin
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys (*Manager).SetACL
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys NewManager
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/oidc New
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/oidc (*ProviderClient).HandleCallback
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/oidc (*ProviderClient).RequestLogin
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/oidc (*ProviderServer).ServeConfig
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/oidc (*ProviderServer).ServeAuthorization
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/oidc (*ProviderServer).ServeToken
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/oidc (*ProviderServer).ServeUserInfo
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/saml New
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/saml (*Provider).HandleCallback
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/saml (*Provider).RequestLogin
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/pki New
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/pki (*PKIManager).ServeCACert
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/pki (*PKIManager).ServeCRL
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/pki (*PKIManager).ServeOCSP
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/pki (*PKIManager).ServeCertificateManagement
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/sshca New
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/sshca (*SSHCA).ServePublicKey
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/sshca (*SSHCA).ServeCertificate
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager (*TokenManager).ServeJWKS
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager (*TokenManager).URLToken
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager (*TokenManager).ValidateURLToken
//verif:replace (*html/template.Template).Execute vfP40Template
//verif:unit name=local entry=VerifP40Local share=4 q.LEN=1 t.LEN=2 reach=endpoint,elsewhere,login,forbidden,bypass
//verif:unit name=app entry=VerifP40App share=3 q.LEN=1 t.LEN=2 reach=endpoint,elsewhere,login,forwarded,bypass
//verif:unit name=console entry=VerifP40Console share=1 q.LEN=1 t.LEN=2 reach=page,login,missing
//verif:unit name=login entry=VerifP40Login share=1 reach=sent,again
//verif:unit name=acl entry=VerifP40ACL share=2 reach=acl,none
//verif:assume what the endpoints do is the subject of P15, P18-P22, P34-P38; token validation that of P14; here a request carries a valid token of one provider or none
//verif:note one configuration with two certificate authorities, two SSH authorities, two WebSockets, an OpenID provider, three identity providers and five server names; the policy's paths and the place of the callbacks vary
package proxy

import (
	"html/template"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/oidc"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/saml"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/sshca"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

func vfP40Template(t *template.Template, w io.Writer, data any) error { return nil }

// vf40 records which endpoint answered.
type vf40 struct {
	f      *vfFlow
	up     vfUp
	served []string
	logins []string
	acls   map[string]*[]string
	user   string // the claims' email that the endpoint saw
}

var vf40Emails = map[string]string{"sso": "s@x", "pk": "p@x", "saml": "m@x"}

func vfNew40() *vf40 {
	v := &vf40{f: vfNewFlow(), acls: map[string]*[]string{}}
	v.up.install()
	(&vfStore{}).install()
	v.f.p.tokenManager = &tokenmanager.TokenManager{}
	v.f.p.store = &storage.Storage{}
	rec := func(name string, w http.ResponseWriter, req *http.Request) {
		v.served = append(v.served, name)
		if c := claimsFromCtx(req.Context()); c != nil {
			v.user, _ = c["email"].(string)
		}
		w.WriteHeader(299)
	}
	VerifHook_Backend_serveSSOStatus = func(_ *Backend, w http.ResponseWriter, req *http.Request) { rec("status", w, req) }
	VerifHook_Backend_serveSSOStyle = func(_ *Backend, w http.ResponseWriter, req *http.Request) { rec("style", w, req) }
	VerifHook_Backend_serveLogin = func(_ *Backend, w http.ResponseWriter, req *http.Request) { rec("login", w, req) }
	VerifHook_Backend_serveLogout = func(_ *Backend, w http.ResponseWriter, req *http.Request) { rec("logout", w, req) }
	VerifHook_Proxy_faviconHandler = func(_ *Proxy, w http.ResponseWriter, req *http.Request) { rec("icon", w, req) }
	VerifHook_Proxy_metricsHandler = func(_ *Proxy, w http.ResponseWriter, req *http.Request) { rec("metrics", w, req) }
	VerifHook_Proxy_webSocketHandler = func(_ *Proxy, cfg WebSocketConfig) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { rec("ws "+cfg.Address, w, req) })
	}
	mgr := map[*passkeys.Manager]string{}
	passkeys.VerifHook_NewManager = func(cfg passkeys.Config) (*passkeys.Manager, error) {
		m := &passkeys.Manager{}
		mgr[m] = cfg.Endpoint
		return m, nil
	}
	passkeys.VerifHook_Manager_ManageKeys = func(m *passkeys.Manager, w http.ResponseWriter, req *http.Request) { rec("manage "+mgr[m], w, req) }
	passkeys.VerifHook_Manager_ServeWellKnown = func(m *passkeys.Manager, w http.ResponseWriter, req *http.Request) {
		rec("wellknown "+mgr[m], w, req)
	}
	passkeys.VerifHook_Manager_HandleCallback = func(m *passkeys.Manager, w http.ResponseWriter, req *http.Request) {
		rec("callback "+mgr[m], w, req)
	}
	passkeys.VerifHook_Manager_RequestLogin = func(m *passkeys.Manager, w http.ResponseWriter, req *http.Request, u string, _ ...idp.Option) {
		v.logins = append(v.logins, "pk "+u)
	}
	passkeys.VerifHook_Manager_SetACL = func(m *passkeys.Manager, acl *[]string) { v.acls[mgr[m]] = acl }
	oc := map[*oidc.ProviderClient]string{}
	oidc.VerifHook_New = func(cfg oidc.Config, _ oidc.EventRecorder, _ oidc.CookieManager) (*oidc.ProviderClient, error) {
		p := &oidc.ProviderClient{}
		oc[p] = cfg.RedirectURL
		return p, nil
	}
	oidc.VerifHook_ProviderClient_HandleCallback = func(p *oidc.ProviderClient, w http.ResponseWriter, req *http.Request) {
		rec("callback "+oc[p], w, req)
	}
	oidc.VerifHook_ProviderClient_RequestLogin = func(p *oidc.ProviderClient, w http.ResponseWriter, req *http.Request, u string, _ ...idp.Option) {
		v.logins = append(v.logins, "sso "+u)
	}
	oidc.VerifHook_ProviderServer_ServeConfig = func(_ *oidc.ProviderServer, w http.ResponseWriter, req *http.Request) {
		rec("idp config", w, req)
	}
	oidc.VerifHook_ProviderServer_ServeAuthorization = func(_ *oidc.ProviderServer, w http.ResponseWriter, req *http.Request) {
		rec("idp authorization", w, req)
	}
	oidc.VerifHook_ProviderServer_ServeToken = func(_ *oidc.ProviderServer, w http.ResponseWriter, req *http.Request) {
		rec("idp token", w, req)
	}
	oidc.VerifHook_ProviderServer_ServeUserInfo = func(_ *oidc.ProviderServer, w http.ResponseWriter, req *http.Request) {
		rec("idp userinfo", w, req)
	}
	sp := map[*saml.Provider]string{}
	saml.VerifHook_New = func(cfg saml.Config, _ saml.EventRecorder, _ saml.CookieManager) (*saml.Provider, error) {
		p := &saml.Provider{}
		sp[p] = cfg.ACSURL
		return p, nil
	}
	saml.VerifHook_Provider_HandleCallback = func(p *saml.Provider, w http.ResponseWriter, req *http.Request) {
		rec("callback "+sp[p], w, req)
	}
	saml.VerifHook_Provider_RequestLogin = func(p *saml.Provider, w http.ResponseWriter, req *http.Request, u string, _ ...idp.Option) {
		v.logins = append(v.logins, "saml "+u)
	}
	ca := map[*pki.PKIManager]string{}
	pki.VerifHook_New = func(opts pki.Options) (*pki.PKIManager, error) {
		m := &pki.PKIManager{}
		ca[m] = opts.Name
		return m, nil
	}
	pki.VerifHook_PKIManager_ServeCACert = func(m *pki.PKIManager, w http.ResponseWriter, req *http.Request) { rec("cacert "+ca[m], w, req) }
	pki.VerifHook_PKIManager_ServeCRL = func(m *pki.PKIManager, w http.ResponseWriter, req *http.Request) { rec("crl "+ca[m], w, req) }
	pki.VerifHook_PKIManager_ServeOCSP = func(m *pki.PKIManager, w http.ResponseWriter, req *http.Request) { rec("ocsp "+ca[m], w, req) }
	pki.VerifHook_PKIManager_ServeCertificateManagement = func(m *pki.PKIManager, w http.ResponseWriter, req *http.Request) {
		rec("certs "+ca[m], w, req)
	}
	sc := map[*sshca.SSHCA]string{}
	sshca.VerifHook_New = func(opts sshca.Options) (*sshca.SSHCA, error) {
		m := &sshca.SSHCA{}
		sc[m] = opts.Name
		return m, nil
	}
	sshca.VerifHook_SSHCA_ServePublicKey = func(m *sshca.SSHCA, w http.ResponseWriter, req *http.Request) { rec("sshpub "+sc[m], w, req) }
	sshca.VerifHook_SSHCA_ServeCertificate = func(m *sshca.SSHCA, w http.ResponseWriter, req *http.Request) { rec("sshcert "+sc[m], w, req) }
	tokenmanager.VerifHook_TokenManager_ServeJWKS = func(_ *tokenmanager.TokenManager, w http.ResponseWriter, req *http.Request) {
		rec("jwks", w, req)
	}
	tokenmanager.VerifHook_TokenManager_URLToken = func(_ *tokenmanager.TokenManager, _ http.ResponseWriter, _ *http.Request, u *url.URL, _ map[string]any) (string, string, error) {
		return "tok", u.String(), nil
	}
	tokenmanager.VerifHook_TokenManager_ValidateURLToken = func(_ *tokenmanager.TokenManager, _ http.ResponseWriter, _ *http.Request, tok string) (*url.URL, jwt.MapClaims, error) {
		if tok != "tok" {
			return nil, nil, errVF
		}
		return &url.URL{Scheme: "https", Host: "one.x", Path: "/there"}, jwt.MapClaims{}, nil
	}
	issuers := map[string]string{"sso": "https://login.x/", "pk": "https://login.x/", "saml": "https://saml.x/"}
	tokenmanager.VerifHook_TokenManager_ValidateToken = func(_ *tokenmanager.TokenManager, t string, _ ...jwt.ParserOption) (*jwt.Token, error) {
		email, ok := vf40Emails[t]
		if !ok {
			return nil, errVF
		}
		return &jwt.Token{Raw: t, Valid: true, Claims: jwt.MapClaims{"email": email, "sub": email, "provider": t, "proxyauth": issuers[t]}}, nil
	}
	return v
}

func (v *vf40) config(local, app, login, console *BackendSSO) *Config {
	m := func(mode string, sso *BackendSSO, names ...string) *Backend {
		return &Backend{ServerNames: names, Mode: mode, SSO: sso}
	}
	ap := m("HTTP", app, "app.x", "app2.x")
	ap.Addresses = []string{"10.0.0.1:80"}
	ap.ExportJWKS = "/keys"
	cfg := v.f.config(m("LOCAL", local, "one.x", "two.x"), ap, m("LOCAL", login, "login.x", "saml.x"), m("CONSOLE", console, "console.x"))
	cfg.OIDCProviders = []*ConfigOIDC{{Name: "sso", AuthEndpoint: "https://sso.x/a", TokenEndpoint: "https://sso.x/t", RedirectURL: "https://login.x/cb", ClientID: "c", ClientSecret: "s"}}
	cfg.SAMLProviders = []*ConfigSAML{{Name: "saml", SSOURL: "https://idp.x/sso", EntityID: "e", Certs: "c", ACSURL: "https://saml.x/cb"}}
	cfg.PasskeyProviders = []*ConfigPasskey{{Name: "pk", Endpoint: "https://login.x/pk", IdentityProvider: "sso"}}
	cfg.PKI = []*ConfigPKI{
		{Name: "A", IssuingCertificateURLs: []string{"http://one.x/ca"}, CRLDistributionPoints: []string{"http://one.x/crl", "http://two.x/crlA"}, OCSPServer: []string{"http://one.x/ocsp"}, Endpoint: "https://one.x/certs"},
		{Name: "B", IssuingCertificateURLs: []string{"http://two.x/ca"}, CRLDistributionPoints: []string{"http://two.x/crl"}, OCSPServer: []string{"http://two.x/ocsp"}, Endpoint: "https://two.x/certs"},
	}
	cfg.SSHCertificateAuthorities = []*ConfigSSHCertificateAuthority{
		{Name: "S", PublicKeyEndpoint: "https://one.x/sshpub", CertificateEndpoint: "https://one.x/ssh"},
		{Name: "T", PublicKeyEndpoint: "https://app.x/sshpub", CertificateEndpoint: "https://two.x/ssh"},
	}
	cfg.WebSockets = []*WebSocketConfig{{Endpoint: "wss://app.x/ws", Address: "10.0.0.2:1"}, {Endpoint: "wss://app2.x/ws", Address: "10.0.0.2:2"}}
	return cfg
}

func (v *vf40) start(cfg *Config) {
	vsym.Assert(v.f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
}

func (v *vf40) get(host, path, token string) *vfRW {
	be, err := v.f.p.backend(host)
	vsym.Assert(err == nil, "no backend")
	hd := http.Header{}
	if token != "" {
		hd["Cookie"] = []string{"TLSPROXYAUTH=" + token}
	}
	req := vfRequest(vfClient(host), "GET", host, path, hd)
	if i := strings.IndexByte(path, '?'); i >= 0 {
		req.URL.Path, req.URL.RawQuery = path[:i], path[i+1:]
	}
	w := &vfRW{}
	be.httpServer.Handler.ServeHTTP(w, req)
	return w
}

type vfEP struct {
	host, path string // no host: all of the backend
	name       string
	bypass     bool
	prefix     bool
}

var vf40SSO = []vfEP{
	{"", "/.sso/", "status", true, false},
	{"", "/.sso/style.css", "style", true, false},
	{"", "/.sso/login", "login", true, false},
	{"", "/.sso/logout", "logout", true, false},
	{"", "/.sso/favicon.ico", "icon", true, false},
}

func vf40Clean(p string) string {
	var st []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, c)
		}
	}
	out := "/" + strings.Join(st, "/")
	if out != "/" && strings.HasSuffix(p, "/") {
		out += "/"
	}
	return out
}

// check sends a request for one of the endpoints' paths, or one close to it.
func (v *vf40) check(eps []vfEP, hosts []string, own string, paths []string, forward bool) {
	seen := map[string]bool{}
	var all []string
	for _, e := range eps {
		if !seen[e.path] {
			seen[e.path] = true
			all = append(all, e.path)
		}
	}
	all = append(all, "/", "/other")
	p := all[vsym.Choose("path", len(all))]
	host := hosts[vsym.Choose("host", len(hosts))]
	b := vsym.Bytes("suffix", 0, vsym.Param("LEN", 1))
	for _, c := range b {
		vsym.Assume(vsym.Or(c == '/', c == '.', c == 'x'))
	}
	p += string(b)
	token := vsym.Pick("token", "", "sso", "pk", "saml", "bad")
	w := v.get(host, p, token)

	clean := vf40Clean(p)
	var want *vfEP
	for i, e := range eps {
		if e.host != "" && e.host != host {
			continue
		}
		if e.path == clean || e.prefix && strings.HasPrefix(clean, e.path+"/") {
			want = &eps[i]
		}
	}
	protected := own != "" && len(paths) == 0
	for _, pre := range paths {
		protected = protected || own != "" && (strings.HasPrefix(p, pre) || strings.HasPrefix(clean, pre))
	}
	user := own != "" && token == own
	if protected && (!user || vf40Denied) && (want == nil || !want.bypass) {
		vsym.Reach("login")
		vsym.Assert(len(v.served) == 0 && v.up.n == 0, "a protected endpoint answers without a login with the backend's own provider")
		vsym.Assert(w.code == 403 || w.code == 302, "a request without a login is not refused")
		if token != "" {
			vsym.Reach("forbidden")
		}
		return
	}
	if want == nil || p != clean {
		vsym.Reach("elsewhere")
		vsym.Assert(len(v.served) == 0, "an endpoint answers at another address")
		vsym.Assert(v.up.n == 0 || want == nil, "a request for an endpoint is forwarded")
		if forward && want == nil && clean != "/.sso" {
			vsym.Reach("forwarded")
			vsym.Assert(v.up.n == 1, "a request for no endpoint is not forwarded")
		}
		return
	}
	vsym.Reach("endpoint")
	if protected && want.bypass && (!user || vf40Denied) {
		vsym.Reach("bypass")
	}
	vsym.Assert(len(v.served) == 1 && v.served[0] == want.name && v.up.n == 0 && w.code == 299, "an endpoint does not answer at its address")
	email := ""
	if user {
		email = vf40Emails[own]
	}
	vsym.Assert(v.user == email, "the endpoint takes the user for someone else")
}

// vf40Denied is set when the policy has an access list without the users.
var vf40Denied bool

func vf40Policy(name string, some ...string) (*BackendSSO, string, []string) {
	vf40Denied = false
	switch vsym.Choose(name, 6) {
	case 5:
		vf40Denied = true
		return &BackendSSO{Provider: "pk", ACL: &[]string{"o@x", "@y"}}, "pk", nil
	case 4:
		return &BackendSSO{Provider: "pk", Paths: []string{"/"}}, "pk", []string{"/"}
	case 1:
		return &BackendSSO{Provider: "pk"}, "pk", nil
	case 2:
		return &BackendSSO{Provider: "saml", Paths: some}, "saml", some
	case 3:
		return &BackendSSO{Provider: "sso", Paths: some}, "sso", some
	}
	return nil, "", nil
}

// A backend of the proxy's own, with two names and authorities.
func VerifP40Local() {
	v := vfNew40()
	sso, own, paths := vf40Policy("policy", "/certs", "/ocs")
	eps := []vfEP{
		{"one.x", "/ca", "cacert A", true, false}, {"two.x", "/ca", "cacert B", true, false},
		{"one.x", "/crl", "crl A", true, false}, {"two.x", "/crlA", "crl A", true, false}, {"two.x", "/crl", "crl B", true, false},
		{"one.x", "/ocsp", "ocsp A", true, true}, {"two.x", "/ocsp", "ocsp B", true, true},
		{"one.x", "/certs", "certs A", false, false}, {"two.x", "/certs", "certs B", false, false},
		{"one.x", "/sshpub", "sshpub S", true, false},
		{"one.x", "/ssh", "sshcert S", false, false}, {"two.x", "/ssh", "sshcert T", false, false},
	}
	if own != "" {
		eps = append(eps, vf40SSO...)
	}
	if own == "pk" {
		eps = append(eps, vfEP{"", "/.sso/passkeys", "manage https://login.x/pk", false, false},
			vfEP{"", "/.well-known/passkey-endpoints", "wellknown https://login.x/pk", true, false})
	}
	v.start(v.config(sso, nil, nil, nil))
	v.check(eps, []string{"one.x", "two.x"}, own, paths, false)
}

// A backend with a server, an OpenID provider and WebSockets; and the
// identity providers' callbacks.
func VerifP40App() {
	v := vfNew40()
	if vsym.Bool("callbacks") {
		sso, own, paths := vf40Policy("policy", "/c", "/pk")
		v.start(v.config(nil, nil, sso, nil))
		eps := []vfEP{
			{"login.x", "/cb", "callback https://login.x/cb", true, false},
			{"saml.x", "/cb", "callback https://saml.x/cb", true, false},
			{"login.x", "/pk", "callback https://login.x/pk", true, false},
		}
		if own != "" {
			eps = append(eps, vf40SSO...)
		}
		if own == "pk" {
			eps = append(eps, vfEP{"", "/.sso/passkeys", "manage https://login.x/pk", false, false},
				vfEP{"", "/.well-known/passkey-endpoints", "wellknown https://login.x/pk", true, false})
		}
		v.check(eps, []string{"login.x", "saml.x"}, own, paths, false)
		return
	}
	sso, own, paths := vf40Policy("policy", "/ws", "/p/auth")
	eps := []vfEP{
		{"app.x", "/ws", "ws 10.0.0.2:1", false, false}, {"app2.x", "/ws", "ws 10.0.0.2:2", false, false},
		{"app.x", "/sshpub", "sshpub T", true, false},
		{"", "/keys", "jwks", true, false},
	}
	if own != "" {
		sso.LocalOIDCServer = &LocalOIDCServer{PathPrefix: "/p"}
		eps = append(eps, vf40SSO...)
		eps = append(eps,
			vfEP{"", "/p/.well-known/openid-configuration", "idp config", true, false},
			vfEP{"", "/p/authorization", "idp authorization", false, false},
			vfEP{"", "/p/token", "idp token", true, false},
			vfEP{"", "/p/userinfo", "idp userinfo", true, false},
			vfEP{"", "/p/jwks", "jwks", true, false})
	}
	if own == "pk" {
		eps = append(eps, vfEP{"", "/.sso/passkeys", "manage https://login.x/pk", false, false},
			vfEP{"", "/.well-known/passkey-endpoints", "wellknown https://login.x/pk", true, false})
	}
	v.start(v.config(nil, sso, nil, nil))
	v.check(eps, []string{"app.x", "app2.x"}, own, paths, true)
}

// The status page.
func VerifP40Console() {
	v := vfNew40()
	var sso *BackendSSO
	own := vsym.Pick("provider", "", "sso", "pk")
	if own != "" {
		sso = &BackendSSO{Provider: own, ACL: &[]string{"p@x", "s@x"}}
		if vsym.Bool("nobody") {
			sso.ACL, own = &[]string{}, "nobody"
		}
	}
	v.start(v.config(nil, nil, nil, sso))
	token := vsym.Pick("token", "", "sso", "pk", "saml")
	path := vsym.Pick("path", "/", "/favicon.ico", "/index.html", "/metrics", "/x/")
	w := v.get("console.x", path, token)
	if own != "" && token != own {
		vsym.Reach("login")
		vsym.Assert(len(v.served) == 0 && (w.code == 403 || w.code == 302), "the status page is shown without a login")
		return
	}
	switch path {
	case "/":
		vsym.Reach("page")
		vsym.Assert(len(v.served) == 1 && v.served[0] == "metrics", "no status page")
	case "/favicon.ico":
		vsym.Assert(len(v.served) == 1 && v.served[0] == "icon", "no icon")
	default:
		vsym.Reach("missing")
		vsym.Assert(len(v.served) == 0 && w.code == 404, "something else is shown")
	}
}

// Users are sent to the backend's own provider to log in.
func VerifP40Login() {
	v := vfNew40()
	VerifHook_Backend_serveLogin, VerifHook_Backend_serveLogout = nil, nil
	own := vsym.Pick("provider", "sso", "saml", "pk")
	v.start(v.config(&BackendSSO{Provider: own}, &BackendSSO{Provider: "sso"}, nil, nil))
	page, arg := "/.sso/login", "?redirect="
	if vsym.Bool("switch") {
		page, arg = "/.sso/logout", "?u="
		vsym.Reach("again")
	}
	tok := vsym.Pick("token", "tok", "t0k", "")
	host := vsym.Pick("host", "one.x", "two.x")
	v.get(host, page+arg+tok, vsym.Pick("cookie", "", "sso", "pk", "saml"))
	if tok == "tok" {
		vsym.Reach("sent")
		vsym.Assert(len(v.logins) == 1 && v.logins[0] == own+" https://one.x/there", "the user is sent elsewhere to log in")
	} else {
		vsym.Assert(len(v.logins) == 0, "a login starts without a valid token")
	}
}

// Who may use a passkey provider is decided where its endpoint is.
func VerifP40ACL() {
	v := vfNew40()
	vsym.MapOrder(4)
	acl := func(name string) *[]string {
		switch vsym.Choose(name, 3) {
		case 1:
			return &[]string{"a@x"}
		case 2:
			return &[]string{name + "@x"}
		}
		return nil
	}
	here, there := acl("here"), acl("there")
	var login, local *BackendSSO
	own := vsym.Pick("provider", "", "pk", "saml")
	if own != "" {
		login = &BackendSSO{Provider: own, ACL: here}
	}
	local = &BackendSSO{Provider: "pk", ACL: there}
	cfg := v.config(local, nil, login, nil)
	// The other provider's callback is with the users of passkeys.
	if vsym.Bool("moved") {
		cfg.OIDCProviders[0].RedirectURL = "https://one.x/cb"
	}
	v.start(cfg)
	got := v.acls["https://login.x/pk"]
	if own != "pk" || here == nil {
		vsym.Reach("none")
		vsym.Assert(got == nil, "the passkey provider has an access list that its backend does not have")
		return
	}
	vsym.Reach("acl")
	vsym.Assert(got != nil && len(*got) == 1 && (*got)[0] == (*here)[0], "the passkey provider does not have its backend's access list")
}
