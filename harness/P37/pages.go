//verif:pkg proxy
//verif:use rp.go
//verif:use html.go
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager (*TokenManager).URLToken
//verif:embed
//verif:unit name=pages entry=VerifP37Pages share=3 q.N=1 t.N=2 reach=denied,login,status,picture
package proxy

import (
	"net/http"
	"net/url"
	"strings"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

func vfP37Page(kind int, text string) []byte {
	host := "example.com"
	be := vfBackend(ModeLocal, host)
	be.Addresses = nil
	claims := jwt.MapClaims{"email": "a@b", "proxyauth": "https://issuer/", "provider": "p", "sub": "1", "iat": float64(1900000000), "exp": float64(1900003600)}
	vfSSO(be, map[string]jwt.MapClaims{"T": claims})
	req := vfRequest(vfClient(host), "GET", host, "/x", nil)
	req.Header.Set("Cookie", "TLSPROXYAUTH=T")
	code := 403
	switch kind {
	case 0: // the user's email, denied
		claims["email"] = "a" + text + "@b"
		be.SSO.ACL = &[]string{"b@b"}
	case 1: // the path, denied
		req.URL.Path = "/x" + text
		be.SSO.ACL = &[]string{"b@b"}
	case 2: // the path, not logged in
		req.URL.Path = "/x" + text
		req.Header.Del("Cookie")
		be.SSO.actualIDP = "google"
	case 3: // the query, not logged in
		req.URL.RawQuery = text
		req.Header.Del("Cookie")
	case 4: // a claim
		claims["name"] = text
	case 5: // the name of a claim
		claims["n"+text] = "x"
	case 6: // a picture
		claims["picture"] = text
	}
	w := &vfRW{}
	if kind >= 4 {
		code = 200
		be.localHandlers = []localHandler{{path: "/x", handler: http.HandlerFunc(be.serveSSOStatus)}}
	}
	be.localHandler().ServeHTTP(w, req)
	vsym.Assert(w.code == code, "another answer")
	return w.body
}

// Pages that show what a user, or whoever sent the user there, can choose have
// the same structure whatever that is, and show it.
func VerifP37Pages() {
	tokenmanager.VerifHook_TokenManager_URLToken = func(_ *tokenmanager.TokenManager, _ http.ResponseWriter, _ *http.Request, u *url.URL, _ map[string]any) (string, string, error) {
		d, err := url.PathUnescape(u.String())
		if err != nil {
			d = u.String()
		}
		return "tok", d, nil
	}
	kind := vsym.Choose("kind", 7)
	text := vfNasty(vsym.Param("N", 1))
	want, _ := vfSkeleton(vfP37Page(kind, "zz"))
	page := vfP37Page(kind, text)
	got, active := vfSkeleton(page)
	vsym.Assert(strings.Contains(want, "<body"), "no page")
	vsym.Assert(got == want, "what a user can choose changes the structure of a page")
	for _, a := range active {
		attr, val, _ := strings.Cut(a, "=")
		val = strings.ToLower(strings.TrimSpace(vfUnescape(val)))
		switch attr {
		case "href", "src":
			vsym.Assert(!strings.HasPrefix(val, "javascript:") && !strings.HasPrefix(val, "vbscript:"), "an address is code")
		default:
			vsym.Assert(!strings.Contains(val, "alert(1)"), "a user chooses code")
		}
	}
	if kind == 0 || kind >= 4 && kind <= 5 {
		vsym.Assert(strings.Contains(vfUnescape(string(page)), text), "the page doesn't show the text")
	}
	switch kind {
	case 0, 1:
		vsym.Reach("denied")
	case 2, 3:
		vsym.Reach("login")
	case 6:
		vsym.Reach("picture")
	default:
		vsym.Reach("status")
	}
}
