//verif:pkg proxy
//verif:use rp.go
//verif:unit name=cookies entry=VerifP17Cookies share=1 q.N=2 q.LEN=2 t.N=3 t.LEN=2 reach=forwarded,other,dropped,lines
//verif:assume cookie values are non-empty printable ASCII without ';' and do not start or end with a space
package proxy

import (
	"net/http"
	"strings"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// A cookie header with the authentication cookie and up to N other cookies in
// any order, on one or two header lines.
func VerifP17Cookies() {
	up := &vfUp{}
	up.install()
	be := vfBackend(ModeHTTP, "example.com")
	vfSSO(be, map[string]jwt.MapClaims{"T": {"email": "a@b", "proxyauth": "https://issuer/", "provider": "p", "sub": "1"}})
	n := vsym.Choose("n", vsym.Param("N", 2)+1)
	pos := vsym.Choose("pos", n+1)
	h := http.Header{}
	var line []string
	var want []string
	sep := "; "
	if vsym.Bool("nospace") {
		sep = ";"
	}
	// The ways to write it that the proxy accepts.
	auth := vsym.Pick("auth", "TLSPROXYAUTH=T", `TLSPROXYAUTH="T"`, "TLSPROXYAUTH =T", "TLSPROXYAUTH\t=T")
	for i := 0; i <= n; i++ {
		if i == pos {
			line = append(line, auth)
			continue
		}
		name := vsym.Pick("name", "a", "TLSPROXYAUTH2", "xTLSPROXYAUTH", "b c", "tlsproxyauth", tokenmanager.SessionIDCookieName, "TLSPROXYAUTH")
		vl := vsym.Param("LEN", 2)
		if i > 1 {
			vl = 1
		}
		v := vsym.String("value", 1, vl)
		for j := 0; j < len(v); j++ {
			vsym.Assume(vsym.And(v[j] >= ' ', v[j] < 0x7f, v[j] != ';'))
		}
		vsym.Assume(vsym.And(v[0] != ' ', v[len(v)-1] != ' '))
		if name == "TLSPROXYAUTH" && i < pos {
			continue // the proxy uses the first one
		}
		c := name + "=" + v
		if name != tokenmanager.SessionIDCookieName && name != "TLSPROXYAUTH" {
			want = append(want, c)
			vsym.Reach("other")
		} else {
			vsym.Reach("dropped")
		}
		line = append(line, c)
	}
	if len(line) > 1 && vsym.Bool("lines") {
		vsym.Reach("lines")
		h["Cookie"] = []string{strings.Join(line[:1], sep), strings.Join(line[1:], sep)}
	} else {
		h["Cookie"] = []string{strings.Join(line, sep)}
	}
	req := vfRequest(vfClient("example.com"), vsym.Pick("method", "GET", "OPTIONS", "POST"), "example.com", "/", h)
	w := &vfRW{}
	be.reverseProxy().ServeHTTP(w, req)
	vsym.Assert(up.n == 1, "the request is not forwarded")
	if up.n != 1 {
		return
	}
	vsym.Reach("forwarded")
	var got []string
	for _, l := range up.hdr["Cookie"] {
		for _, c := range strings.Split(l, ";") {
			if c = strings.Trim(c, " "); c != "" {
				got = append(got, c)
			}
		}
	}
	for _, c := range got {
		name, _, _ := strings.Cut(c, "=")
		name = strings.Trim(name, " \t")
		vsym.Assert(name != "TLSPROXYAUTH", "the authentication cookie is forwarded")
		vsym.Assert(name != tokenmanager.SessionIDCookieName, "the session cookie is forwarded")
	}
	vsym.Assert(len(got) == len(want), "a cookie is lost or added")
	for i := range got {
		if i < len(want) {
			vsym.Assert(got[i] == want[i], "a cookie is changed")
		}
	}
}
