//verif:pkg proxy
//verif:use rp.go
//verif:use fs.go
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager (*TokenManager).URLToken
//verif:replace (*html/template.Template).Execute vfP07Template
//verif:unit name=paths entry=VerifP07Paths share=3 q.LEN=4 t.LEN=5 reach=forwarded,login,forbidden,bypass,protected-handler,static
//verif:unit name=identity entry=VerifP07Identity share=2 q.LEN=4 t.LEN=6 reach=allowed,denied,reauth,anonymous
//verif:assume token validation is the subject of P14; here a request carries a token that validates with the given claims, one that does not validate, or none
//verif:assume request paths are built from '/', '.', '%' and the letters that name handlers and protected paths
package proxy

import (
	"crypto/sha256"
	"encoding/hex"
	"html/template"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

func vfP07Template(t *template.Template, w io.Writer, data any) error { return nil }

func vfP07Clean(p string) string {
	var st []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, c)
		}
	}
	out := "/" + strings.Join(st, "/")
	if out != "/" && strings.HasSuffix(p, "/") {
		out += "/"
	}
	return out
}

// Every path against protected path lists and built-in handlers.
func VerifP07Paths() {
	up := &vfUp{}
	up.install()
	tokenmanager.VerifHook_TokenManager_URLToken = func(_ *tokenmanager.TokenManager, _ http.ResponseWriter, _ *http.Request, u *url.URL, _ map[string]any) (string, string, error) {
		return "tok", u.String(), nil
	}
	root := vfTree(map[string]string{"d/a": "static", "d/g/a": "static", "d/a/a": "static"})
	mode := vsym.Choose("mode", 2)
	be := vfBackend(ModeHTTP, "example.com", "www.example.com")
	vfSSO(be, map[string]jwt.MapClaims{"T": {"email": "a@b", "proxyauth": "https://issuer/", "provider": "p", "sub": "1"}})
	host := "example.com"
	var prefixes []string
	switch vsym.Choose("prefixes", 4) {
	case 0:
	case 1:
		prefixes = []string{"/a"}
	case 2:
		prefixes = []string{"/a/", "/g"}
	case 3:
		prefixes = []string{"/h/", "/m"}
	}
	be.SSO.Paths = prefixes
	served := ""
	h := func(name string) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			served += name
			w.WriteHeader(299)
		})
	}
	be.localHandlers = []localHandler{
		{path: "/m", handler: h("m"), ssoBypass: true, matchPrefix: true},
		{path: "/h", handler: h("h"), ssoBypass: true},
		{path: "/g", handler: h("g")},
		{path: "/gg", handler: h("gg"), ssoBypass: true, host: "www.example.com"},
	}
	b := vsym.Bytes("path", 0, vsym.Param("LEN", 4))
	for _, c := range b {
		vsym.Assume(vsym.Or(c == '/', c == '.', c == 'a', c == 'g', c == 'h', c == 'm', c == '%'))
	}
	p := "/" + string(b)
	hd := http.Header{}
	authed := false
	switch vsym.Choose("token", 3) {
	case 0:
	case 1:
		hd["Cookie"] = []string{"TLSPROXYAUTH=BAD"}
	case 2:
		hd["Cookie"] = []string{"TLSPROXYAUTH=T"}
		authed = true
	}
	if len(b) <= 2 && vsym.Bool("www") {
		host = "www.example.com"
	}
	method := vsym.Pick("method", "GET", "POST", "OPTIONS")
	req := vfRequest(vfClient(host), method, host, p, hd)
	w := &vfRW{}
	if mode == 0 {
		be.reverseProxy().ServeHTTP(w, req)
	} else {
		be.Mode = ModeLocal
		be.Addresses = nil
		be.DocumentRoot = root + "/d"
		be.localHandler().ServeHTTP(w, req)
	}
	vsym.Observe("code", w.code)

	clean := vfP07Clean(p)
	protected := len(prefixes) == 0
	for _, pre := range prefixes {
		if strings.HasPrefix(p, pre) || strings.HasPrefix(clean, pre) {
			protected = true
		}
	}
	bypass := clean == "/h" || clean == "/m" || strings.HasPrefix(clean, "/m/") || (clean == "/gg" && host == "www.example.com")
	content := up.n > 0 || (w.code == 200 && len(w.body) > 0)
	if protected && !authed {
		vsym.Assert(up.n == 0, "a request for a protected path reaches the backend without an identity")
		vsym.Assert(!content, "a protected file is served without an identity")
		if !bypass {
			vsym.Assert(served == "", "a protected handler runs without an identity")
			vsym.Assert(w.code == 403, "a protected path is not refused")
			vsym.Reach("login")
			if method == "POST" {
				vsym.Reach("forbidden")
			}
		}
	} else if bypass {
		vsym.Reach("bypass")
		vsym.Assert(up.n == 0, "a built-in path reaches the backend")
		if p == clean {
			vsym.Assert(served == strings.Split(p, "/")[1], "the built-in handler does not run")
		}
	} else if clean == "/g" {
		vsym.Reach("protected-handler")
		vsym.Assert(up.n == 0, "a built-in path reaches the backend")
		if p == clean {
			vsym.Assert(served == "g", "the built-in handler does not run")
		}
	} else if mode == 0 {
		vsym.Reach("forwarded")
		vsym.Assert(up.n == 1, "an allowed request is not forwarded")
		vsym.Assert(served == "", "a built-in handler runs for another path")
	} else if content {
		vsym.Reach("static")
	}
}

// Every identity against access lists and re-authentication rules.
func VerifP07Identity() {
	up := &vfUp{}
	up.install()
	tokenmanager.VerifHook_TokenManager_URLToken = func(_ *tokenmanager.TokenManager, _ http.ResponseWriter, _ *http.Request, u *url.URL, _ map[string]any) (string, string, error) {
		return "tok", u.String(), nil
	}
	be := vfBackend(ModeHTTP, "example.com")
	email := vsym.String("email", 0, vsym.Param("LEN", 4))
	claims := jwt.MapClaims{"email": email, "proxyauth": "https://issuer/", "provider": "p", "sub": "1"}
	ages := []int{-5, 0, 3500, 3700, 1000000}
	fresh := false
	switch a := vsym.Choose("age", len(ages)+1); a {
	case len(ages):
	default:
		claims["iat"] = float64(time.Now().Unix() - int64(ages[a]))
		fresh = ages[a] < 3600
	}
	host := "example.com"
	sum := func(s string) string { h := sha256.Sum256([]byte(s)); return hex.EncodeToString(h[:]) }
	sameHost := false
	switch vsym.Choose("hhash", 3) {
	case 0:
	case 1:
		claims["hhash"] = sum(host)
		sameHost = true
	case 2:
		claims["hhash"] = sum("www.example.com")
	}
	vfSSO(be, map[string]jwt.MapClaims{"T": claims})
	if vsym.Bool("force") {
		be.SSO.ForceReAuth = time.Hour
	}
	switch vsym.Choose("acl", 5) {
	case 0:
	case 1:
		be.SSO.ACL = &[]string{}
	case 2:
		be.SSO.ACL = &[]string{"a@b", "c@d"}
	case 3:
		be.SSO.ACL = &[]string{"@b"}
	case 4:
		be.SSO.ACL = &[]string{"x@b", "@d", "@"}
	}
	hd := http.Header{}
	token := false
	switch vsym.Choose("where", 4) {
	case 0:
	case 1:
		hd["Cookie"] = []string{"x=y; TLSPROXYAUTH=T"}
		token = true
	case 2:
		hd["Cookie"] = []string{"TLSPROXYAUTH=T2"}
	case 3:
		hd["Cookie"] = []string{"TLSPROXYIDTOKEN=T; xTLSPROXYAUTH=T"}
	}
	req := vfRequest(vfClient("example.com"), vsym.Pick("method", "GET", "OPTIONS", "POST"), host, "/x", hd)
	w := &vfRW{}
	be.reverseProxy().ServeHTTP(w, req)

	allowed := token && email != ""
	if !allowed {
		vsym.Reach("anonymous")
	}
	if be.SSO.ForceReAuth != 0 && !(fresh && sameHost) {
		if allowed {
			vsym.Reach("reauth")
		}
		allowed = false
	}
	if acl := be.SSO.ACL; acl != nil && allowed {
		domain := ""
		for i := 0; i < len(email); i++ {
			if email[i] == '@' {
				domain = email[i+1:]
				break
			}
		}
		in := false
		for _, e := range *acl {
			if e == email || e == "@"+domain {
				in = true
			}
		}
		allowed = in
	}
	if allowed {
		vsym.Reach("allowed")
		vsym.Assert(up.n == 1, "an allowed identity is refused")
	} else {
		vsym.Reach("denied")
		vsym.Assert(up.n == 0, "a refused identity reaches the backend")
		vsym.Assert(w.code == 403 || w.code == 302, "a refused identity does not get an error or a login page")
	}
}
