//verif:pkg proxy
//verif:use rp.go
//verif:use flow.go
//verif:use store.go
//verif:unit name=filter entry=VerifP31Filter share=1 reach=logged,silent
//verif:unit name=proxy entry=VerifP31Proxy share=4 reach=logged,silent,reload
//verif:unit name=lines entry=VerifP31Lines share=3 q.LEN=1 t.LEN=2 reach=logged
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager (*TokenManager).URLToken
//verif:replace log.Printf vfLogPrintf
//verif:replace log.Print vfLogPrint
//verif:note unit proxy: one proxy with five backends; a connection or request that is served, refused, or fails in one of thirteen ways; the filter of one kind of message has every combination of values, that of the others all or nothing; for some of them, the configuration is a reload
//verif:note unit lines: paths, identities and server names of up to LEN arbitrary bytes; how a connection's other properties are written is not decided
package proxy

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"log"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/time/rate"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

var (
	vfLogMu  sync.Mutex
	vfLines  []string
	vfLogged int
)

func vfLog(s string) {
	vfLogMu.Lock()
	defer vfLogMu.Unlock()
	vfLogged++
	vfLines = append(vfLines, s)
}

func vfLogPrintf(f string, args ...any) { vfLog(fmt.Sprintf(f, args...)) }
func vfLogPrint(args ...any)            { vfLog(fmt.Sprint(args...)) }

type vfLogCount struct{}

func (vfLogCount) Write(b []byte) (int, error) {
	vfLog(strings.TrimSuffix(string(b), "\n"))
	return len(b), nil
}

func vfOptBool(name string) *bool {
	if !vsym.Bool(name + "?") {
		return nil
	}
	b := vsym.Bool(name)
	return &b
}

func vfFilter(name string) LogFilter {
	return LogFilter{Connections: vfOptBool(name + "c"), Requests: vfOptBool(name + "r"), Errors: vfOptBool(name + "e")}
}

// Every combination of backend and global filter settings, for every kind of
// message of a backend and of the proxy.
func VerifP31Filter() {
	if vsym.Native() {
		log.SetOutput(vfLogCount{})
		log.SetFlags(0)
	}
	own, global := vfFilter("b"), vfFilter("g")
	be := &Backend{LogFilter: own, defaultLogFilter: global}
	p := &Proxy{cfg: &Config{LogFilter: global}}
	pick := func(a, b *bool) bool {
		if a != nil {
			return *a
		}
		if b != nil {
			return *b
		}
		return true
	}
	vfLogged = 0
	want := false
	switch vsym.Choose("kind", 8) {
	case 0:
		be.logConnF("x")
		want = pick(own.Connections, global.Connections)
	case 1:
		be.logRequestF("x")
		want = pick(own.Requests, global.Requests)
	case 2:
		be.logErrorF("x")
		want = pick(own.Errors, global.Errors)
	case 3:
		be.logError("x")
		want = pick(own.Errors, global.Errors)
	case 4:
		p.logConnF("x")
		want = pick(global.Connections, nil)
	case 5:
		p.logErrorF("x")
		want = pick(global.Errors, nil)
	case 6:
		p.logError("x")
		want = pick(global.Errors, nil)
	case 7:
		be.extLogger().Errorf("x")
		want = pick(own.Errors, global.Errors)
	}
	if want {
		vsym.Reach("logged")
		vsym.Assert(vfLogged == 1, "a message that is enabled is not logged once")
	} else {
		vsym.Reach("silent")
		vsym.Assert(vfLogged == 0, "a message that is disabled is logged")
	}
}

// vf31 is a proxy with one backend of each kind.
func vf31(filter, global LogFilter, reload bool) (*vfFlow, *vfUp) {
	if vsym.Native() {
		log.SetOutput(vfLogCount{})
		log.SetFlags(0)
	}
	f, up := vfNewFlow(), &vfUp{}
	up.install()
	(&vfStore{}).install()
	f.p.tokenManager = &tokenmanager.TokenManager{}
	f.p.store = &storage.Storage{}
	tokenmanager.VerifHook_TokenManager_URLToken = func(*tokenmanager.TokenManager, http.ResponseWriter, *http.Request, *url.URL, map[string]any) (string, string, error) {
		return "", "", errVF
	}
	be := func(mode, name string, addr ...string) *Backend {
		return &Backend{Mode: mode, ServerNames: []string{name}, Addresses: addr}
	}
	config := func(filter, global LogFilter) *Config {
		h, c := be(ModeHTTP, "h.x"), be(ModeConsole, "c.x")
		h.DocumentRoot = vfTree(map[string]string{"a": "a"})
		h.SSO = &BackendSSO{Provider: "p", Paths: []string{"/sso/"}}
		h.PathOverrides = []*PathOverride{{Paths: []string{"/up/"}, Addresses: []string{"1.1.1.2:80"}, Mode: ModeHTTP}}
		deny := be(ModeTLSPassthrough, "d.x", "1.1.1.1:1")
		deny.DenyIPs = &[]string{"0.0.0.0/0"}
		bes := []*Backend{h, c, be(ModeTLSPassthrough, "t.x", "1.1.1.3:1"), deny, be(ModeTCP, "r.x", "1.1.1.4:1")}
		cfg := f.config(bes...)
		for _, be := range bes {
			be.LogFilter = filter
			be.ForwardTimeout = 1
		}
		cfg.LogFilter = global
		cfg.OIDCProviders = []*ConfigOIDC{{Name: "p", AuthEndpoint: "https://i.x/a", TokenEndpoint: "https://i.x/t", RedirectURL: "https://h.x/cb", ClientID: "c", ClientSecret: "s"}}
		return cfg
	}
	if reload {
		vsym.Reach("reload")
		inv := func(b *bool) *bool {
			v := b == nil || !*b
			return &v
		}
		vsym.Assert(f.p.Reconfigure(config(LogFilter{}, LogFilter{inv(global.Connections), inv(global.Requests), inv(global.Errors)})) == nil, "a valid configuration is refused")
	}
	if err := f.p.Reconfigure(config(filter, global)); err != nil {
		vsym.Fail(err.Error())
	}
	vfLogMu.Lock()
	vfLines, vfLogged = nil, 0
	vfLogMu.Unlock()
	return f, up
}

// vf31Get sends a request for a path to one of the servers.
func vf31Get(f *vfFlow, host, path string, cert *x509.Certificate, hdr http.Header) *vfRW {
	be, err := f.p.backend(host)
	vsym.Assert(err == nil, "no backend")
	be.connLimit = rate.NewLimiter(rate.Inf, 1)
	c := vfClient(host)
	c.SetAnnotation(backendKey, be)
	if cert != nil {
		c.SetAnnotation(clientCertKey, cert)
	}
	w := &vfRW{}
	vsym.TryPanic(func() { be.httpServer.Handler.ServeHTTP(w, vfRequest(c, "GET", host, path, hdr)) })
	return w
}

// Every kind of message, as the proxy and its backends really log it.
func VerifP31Proxy() {
	vsym.NoTimers()
	opt := func(name string) *bool {
		switch vsym.Choose(name, 3) {
		case 1:
			return vf31Bool(true)
		case 2:
			return vf31Bool(false)
		}
		return nil
	}
	kind := vsym.Choose("kind", 3)
	rest := vf31Bool(vsym.Bool("rest"))
	own, global := LogFilter{rest, rest, rest}, LogFilter{rest, rest, rest}
	o, g := opt("own"), opt("global")
	for i, p := range [][2]**bool{{&own.Connections, &global.Connections}, {&own.Requests, &global.Requests}, {&own.Errors, &global.Errors}} {
		if i == kind {
			*p[0], *p[1] = o, g
		}
	}
	what := vsym.Choose("what", 13)
	f, _ := vf31(own, global, (what == 0 || what == 7 || what == 12) && vsym.Bool("reload"))
	conns, reqs, errs := 0, 0, 0
	ofProxy := false
	ok := true
	switch what {
	case 0:
		vf31Get(f, "h.x", "/up/x", nil, nil)
		reqs = 1
	case 1:
		vf31Get(f, "h.x", "/a", nil, nil)
		reqs = 1
	case 2:
		vf31Get(f, "h.x", "/nope", nil, nil)
		reqs = 1
	case 3:
		vf31Get(f, "h.x", "/.sso/style.css", nil, nil)
		reqs = 1
	case 4:
		vf31Get(f, "c.x", "/favicon.ico", nil, nil)
		reqs = 1
	case 5:
		tokenmanager.VerifHook_TokenManager_ValidateToken = func(_ *tokenmanager.TokenManager, t string, _ ...jwt.ParserOption) (*jwt.Token, error) {
			return &jwt.Token{Raw: t, Valid: true, Claims: jwt.MapClaims{"email": "a@b", "sub": "a@b", "provider": "p", "proxyauth": "https://h.x/"}}, nil
		}
		be, _ := f.p.backend("h.x")
		be.SSO.ACL = &[]string{}
		w := vf31Get(f, "h.x", "/sso/x", nil, http.Header{"Cookie": {"TLSPROXYAUTH=t"}})
		vsym.Assert(w.code >= 400, "not refused")
		reqs = 1
	case 6:
		http.VerifHook_Transport_RoundTrip = func(*http.Transport, *http.Request) (*http.Response, error) { panic(http.ErrAbortHandler) }
		vf31Get(f, "h.x", "/up/x", nil, nil)
		errs = 1
	case 7:
		f.newConn = func(string) *vfConn { return &vfConn{name: "up", in: []byte("x")} }
		f.client("t.x", nil, "y")
		conns = 2
	case 8:
		f.newConn = func(string) *vfConn { return &vfConn{name: "up", in: []byte("x")} }
		f.client("r.x", nil, "y")
		conns = 2
	case 9:
		f.client("h.x", nil, "y")
		vsym.Settle()
		vsym.Assert(len(f.served) == 1, "not served")
		f.served[0].conn.Close()
		conns = 2
	case 10:
		f.client("d.x", nil, "y")
		conns = 1
	case 11:
		f.client("nope.x", nil, "y")
		errs, ofProxy = 1, true
	case 12:
		f.hsErr = errVF
		f.client("r.x", nil, "y")
		errs = 1
	}
	vsym.Settle()
	vfLogMu.Lock()
	defer vfLogMu.Unlock()
	var nc, nr, ne int
	for _, l := range vfLines {
		switch l[:min(3, len(l))] {
		case "CON", "END":
			nc++
		case "REQ", "PRX":
			nr++
		case "BAD":
			if strings.Contains(l, "CheckIP") {
				nc++
			} else {
				ne++
			}
		default:
			ne++
		}
	}
	check := func(n, want int, own, global *bool, what string) {
		if ofProxy {
			own = nil
		}
		on := own == nil || *own
		if own == nil && global != nil {
			on = *global
		}
		if !on {
			vsym.Reach("silent")
			vsym.Assert(n == 0, "a "+what+" is logged although that is disabled")
			return
		}
		if want > 0 {
			vsym.Reach("logged")
		}
		ok = ok && n == want
		vsym.Assert(n == want, "a "+what+" is not logged as often as it should be")
	}
	check(nc, conns, own.Connections, global.Connections, "connection")
	check(nr, reqs, own.Requests, global.Requests, "request")
	check(ne, errs, own.Errors, global.Errors, "error")
}

func vf31Bool(b bool) *bool { return &b }

// What clients send appears within one line of the log.
func VerifP31Lines() {
	vsym.NoTimers()
	f, _ := vf31(LogFilter{}, LogFilter{}, false)
	// Quoting is only modelled for concrete text.
	where := vsym.Choose("where", 8)
	var s string
	if where == 3 || where == 7 {
		s = vsym.Pick("quoted", "\x00", "\n", "\r", "\x1b", "\x7f", "\u0085", "\xff\n", "\"\n")
	} else {
		s = vsym.String("text", 1, vsym.Param("LEN", 2))
	}
	text := "a" + s + "b"
	switch where {
	case 0:
		vf31Get(f, "h.x", "/up/"+text+"//x", nil, nil)
	case 1:
		vf31Get(f, "h.x", "/"+text+"//x", nil, nil)
	case 2:
		vf31Get(f, "h.x", "/.sso/"+text+"/../style.css", nil, nil)
	case 3:
		vf31Get(f, "h.x", "/a", nil, http.Header{"User-Agent": {text}})
	case 4:
		tokenmanager.VerifHook_TokenManager_ValidateToken = func(_ *tokenmanager.TokenManager, t string, _ ...jwt.ParserOption) (*jwt.Token, error) {
			return &jwt.Token{Raw: t, Valid: true, Claims: jwt.MapClaims{"email": text, "sub": text, "provider": "p", "proxyauth": "https://h.x/"}}, nil
		}
		vf31Get(f, "h.x", "/sso/x", nil, http.Header{"Cookie": {"TLSPROXYAUTH=t"}})
	case 5:
		vf31Get(f, "h.x", "/a", &x509.Certificate{Subject: pkix.Name{CommonName: text}}, nil)
	case 6:
		vf31Get(f, "h.x", "/a", &x509.Certificate{DNSNames: []string{text}, EmailAddresses: []string{text}}, nil)
	case 7:
		f.name = text
		vc := &vfConn{name: "client", in: vfHello(text, nil), remote: &net.TCPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5}}
		f.p.handleConnection(netw.NewConn(vc))
	}
	vsym.Settle()
	vfLogMu.Lock()
	defer vfLogMu.Unlock()
	vsym.Assert(len(vfLines) > 0, "nothing is logged")
	for _, l := range vfLines {
		vsym.Reach("logged")
		for i := 0; i < len(l); i++ {
			vsym.Assert(vsym.And(l[i] >= ' ', l[i] != 0x7f), "what a client sends starts another line of the log, or controls the terminal")
		}
	}
}
