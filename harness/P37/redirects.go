//verif:pkg proxy
//verif:use rp.go
//verif:use fs.go
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager (*TokenManager).CreateToken
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager (*TokenManager).URLToken
//verif:embed
//verif:unit name=redirects entry=VerifP37Redirects share=3 q.LEN=3 t.LEN=4 reach=idtoken,clean,slash,login
package proxy

import (
	"net/http"
	"net/url"
	"strings"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// vfStays says whether a browser that gets loc from https://host stays there.
func vfStays(loc, host string) bool {
	// Browsers ignore tabs and line breaks, and take \ for /.
	var b []byte
	for i := 0; i < len(loc); i++ {
		switch c := loc[i]; c {
		case '\t', '\r', '\n':
		case '\\':
			b = append(b, '/')
		default:
			b = append(b, c)
		}
	}
	s := strings.Trim(string(b), " ")
	if rest, ok := strings.CutPrefix(s, "https://"+host); ok {
		return rest == "" || rest[0] == '/' || rest[0] == '?' || rest[0] == '#'
	}
	return strings.HasPrefix(s, "/") && !strings.HasPrefix(s, "//")
}

// The redirects that the proxy makes on its own stay on the site, whatever
// the path and the query of the request.
func VerifP37Redirects() {
	up := &vfUp{}
	up.install()
	tokenmanager.VerifHook_TokenManager_URLToken = func(_ *tokenmanager.TokenManager, _ http.ResponseWriter, _ *http.Request, u *url.URL, _ map[string]any) (string, string, error) {
		return "tok", u.String(), nil
	}
	tokenmanager.VerifHook_TokenManager_CreateToken = func(*tokenmanager.TokenManager, jwt.Claims, string) (string, error) {
		return "IDT", nil
	}
	host := "example.com"
	b := vsym.Bytes("path", 0, vsym.Param("LEN", 4))
	for _, c := range b {
		vsym.Assume(vsym.Or(c == '/', c == '\\', c == 'e', c == '.', c == ':', c == '@', c == '?', c == '%', c == '5'))
	}
	u, err := url.ParseRequestURI("/" + string(b))
	if err != nil {
		return
	}
	be := vfBackend(ModeLocal, host)
	be.Addresses = nil
	be.DocumentRoot = vfTree(map[string]string{"d/e/e": "x"}) + "/d"
	if vsym.Bool("forwards") {
		be.Mode = ModeHTTP
		be.Addresses = []string{"10.0.0.1:80"}
	}
	be.localHandlers = []localHandler{
		{path: "/e.", handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { w.WriteHeader(299) }), ssoBypass: true},
	}
	req := vfRequest(vfClient(host), vsym.Pick("method", "GET", "HEAD"), host, "/", nil)
	req.URL = u
	path, query := u.Path, u.RawQuery
	kind := vsym.Choose("kind", 3)
	switch kind {
	case 0: // no login required
	case 1: // logged in, without an identity token
		vfSSO(be, map[string]jwt.MapClaims{"T": {"email": "a@b", "proxyauth": "https://issuer/", "provider": "p", "sub": "1"}})
		be.SSO.GenerateIDTokens = true
		req.Header.Set("Cookie", "TLSPROXYAUTH=T")
	case 2: // not logged in
		vfSSO(be, nil)
		req.Header.Set("X-Skip-Login-Confirmation", "1")
	}
	w := &vfRW{}
	if be.Mode == ModeLocal {
		be.localHandler().ServeHTTP(w, req)
	} else {
		be.reverseProxy().ServeHTTP(w, req)
	}
	vsym.Observe("code", w.code)
	locs := w.Header()["Location"]
	if len(locs) == 0 {
		vsym.Assert(w.code < 300 || w.code > 399, "a redirect to nowhere")
		vsym.Assert(kind != 1 || w.code == 299, "no identity token")
		return
	}
	vsym.Assert(len(locs) == 1 && w.code >= 300 && w.code <= 399, "not a redirect")
	loc := locs[0]
	vsym.Assert(vfStays(loc, host), "a redirect leads away from the site")
	to, err := url.Parse(loc)
	vsym.Assert(err == nil, "a redirect to an invalid address")
	switch {
	case kind == 1 && w.code == 302:
		vsym.Assert(to.Path == path && to.RawQuery == query, "the redirect leads to something else than what was asked for")
		vsym.Reach("idtoken")
	case kind == 2 && w.code == 302:
		vsym.Assert(strings.HasSuffix(loc, "/.sso/login?redirect=tok"), "the redirect doesn't lead to the login page")
		vsym.Reach("login")
	default:
		vsym.Assert(to.RawQuery == query, "the query is lost")
		vsym.Assert(strings.Trim(to.Path, "/") == strings.Trim(pathClean(path), "/"), "the redirect leads to something else than what was asked for")
		vsym.Reach("clean")
		if pathClean(path) == path {
			vsym.Reach("slash")
		}
	}
}
