//verif:pkg proxy
//verif:use rp.go
//verif:unit name=identity entry=VerifP08Identity share=2 q.HDRS=1 t.HDRS=2 t.VLEN=2 reach=authenticated,anonymous,forged,hop
//verif:unit name=cert entry=VerifP08Cert share=1 q.HDRS=1 t.HDRS=2 t.VLEN=2 reach=cert,nocert,forged,hop
//verif:unit name=extra entry=VerifP08Extra share=2 q.HDRS=1 t.HDRS=2 t.VLEN=2 reach=authenticated,anonymous,forged,hop,override
//verif:assume header names arrive canonicalised, as net/http servers for HTTP/1, HTTP/2 and HTTP/3 deliver them; request trailers are outside the property
package proxy

import (
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"net/http"
	"net/textproto"
	"strings"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// vfAttack puts up to HDRS forged copies of the named headers in the request,
// in any letter case, and possibly a hop-by-hop declaration of any of them.
func vfAttack(h http.Header, names ...string) {
	n := vsym.Choose("copies", vsym.Param("HDRS", 1)+1)
	for i := 0; i < n; i++ {
		vsym.Reach("forged")
		h.Add(vsym.Pick("name", names...), vsym.String("value", 0, vsym.Param("VLEN", 1)))
	}
	if vsym.Bool("hop") {
		vsym.Reach("hop")
		nm := vsym.Pick("hopname", names...)
		form := vsym.Choose("hopform", 4)
		if form%2 == 0 {
			nm = strings.ToLower(nm)
		} else {
			nm = " " + nm + " "
		}
		switch form {
		case 0:
			h["Connection"] = []string{nm}
		case 1:
			h["Connection"] = []string{"close", "keep-alive," + nm}
		case 2:
			h["Connection"] = []string{nm + ", Upgrade"}
			h["Upgrade"] = []string{"websocket"}
		case 3:
			h["Connection"] = []string{"Upgrade", nm}
			h["Upgrade"] = []string{"websocket"}
		}
	}
}

func vfOne(h http.Header, name, want string) bool {
	v := h[textproto.CanonicalMIMEHeaderKey(name)]
	return len(v) == 1 && v[0] == want
}

// vfOthers reports whether a non-canonical spelling of name is present.
func vfOthers(h http.Header, name string) bool {
	c := textproto.CanonicalMIMEHeaderKey(name)
	for k := range h {
		if k != c && strings.EqualFold(k, c) {
			return true
		}
	}
	return false
}

func VerifP08Identity() {
	up := &vfUp{}
	up.install()
	be := vfBackend(ModeHTTP, "example.com")
	email := vsym.String("email", 1, 3)
	authed := false
	h := http.Header{}
	set := false
	if vsym.Bool("sso") {
		vfSSO(be, map[string]jwt.MapClaims{"T": {"email": email, "proxyauth": "https://issuer/", "provider": "p", "sub": "1"}})
		be.SSO.Paths = []string{"/private"}
		set = vsym.Bool("set")
		be.SSO.SetUserIDHeader = set
		if vsym.Bool("login") {
			authed = true
			h["Cookie"] = []string{"TLSPROXYAUTH=T"}
		}
	}
	vfAttack(h, "X-tlsproxy-user-id", "X-Forwarded-For", "Cookie")
	for _, c := range h["Connection"] {
		if strings.Contains(strings.ToLower(c), "cookie") {
			authed = false
		}
	}
	if len(h["Cookie"]) > 1 {
		vsym.Assume(false)
	}
	path := "/public"
	if authed && vsym.Bool("private") {
		path = "/private"
	}
	req := vfVary(vfRequest(vfClient("example.com"), "GET", "example.com", path, h))
	w := &vfRW{}
	be.reverseProxy().ServeHTTP(w, req)
	vsym.Observe("n", up.n)
	vsym.Assert(up.n == 1, "the request is not forwarded")
	uh := up.hdr
	vsym.Assert(!vfOthers(uh, "X-tlsproxy-user-id"), "the user id header is sent in another spelling")
	if authed && set {
		vsym.Reach("authenticated")
		vsym.Assert(vfOne(uh, "X-tlsproxy-user-id", email), "the user id header is not the authenticated user")
	} else {
		vsym.Reach("anonymous")
		vsym.Assert(len(uh["X-Tlsproxy-User-Id"]) == 0, "a user id header the proxy did not set is forwarded")
	}
	vsym.Assert(vfOne(uh, "X-Forwarded-For", "198.51.100.7"), "the forwarded-for header is not the real peer")
}

func VerifP08Cert() {
	up := &vfUp{}
	up.install()
	be := vfBackend(ModeHTTPS, "example.com")
	h := http.Header{}
	vfAttack(h, xFCCHeader, "X-Forwarded-Client-Cert", "X-FORWARDED-CLIENT-CERT", "x-forwarded-for")
	want := false
	if vsym.Bool("clientauth") {
		be.ClientAuth = &ClientAuth{}
		if vsym.Bool("addheader") {
			be.ClientAuth.AddClientCertHeader = []string{"hash"}
			want = true
		}
	}
	req := vfVary(vfRequest(vfClient("example.com"), "GET", "example.com", "/", h))
	leaf := &x509.Certificate{Raw: []byte("the leaf")}
	if vsym.Bool("notls") {
		req.TLS = nil
		want = false
	} else if vsym.Bool("havecert") {
		req.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{leaf, {Raw: []byte("the ca")}}}
	} else {
		want = false
	}
	w := &vfRW{}
	be.reverseProxy().ServeHTTP(w, req)
	vsym.Assert(up.n == 1, "the request is not forwarded")
	vsym.Assert(!vfOthers(up.hdr, xFCCHeader), "the client certificate header is sent in another spelling")
	if want {
		vsym.Reach("cert")
		sum := sha256.Sum256(leaf.Raw)
		vsym.Assert(vfOne(up.hdr, xFCCHeader, "Hash="+hex.EncodeToString(sum[:])), "the client certificate header does not describe the verified certificate")
	} else {
		vsym.Reach("nocert")
		vsym.Assert(len(up.hdr["X-Forwarded-Client-Cert"]) == 0, "a client certificate header the proxy did not set is forwarded")
	}
}

func VerifP08Extra() {
	up := &vfUp{}
	up.install()
	be := vfBackend(ModeHTTP, "example.com")
	email := vsym.String("email", 1, 3)
	be.ForwardHTTPHeaders = map[string]string{
		"X-Static": "v1", "x-peer": "${REMOTE_IP}", "X-User": "${JWT:email}", "X-Name": "<${SERVER_NAME}>",
	}
	if vsym.Bool("override") {
		vsym.Reach("override")
		m := be.ForwardHTTPHeaders
		be.ForwardHTTPHeaders = map[string]string{"X-Static": "wrong"}
		be.PathOverrides = []*PathOverride{{Paths: []string{"/o/"}, Addresses: []string{"10.0.0.2:80"}, ForwardHTTPHeaders: &m}}
	}
	h := http.Header{}
	user := ""
	vfSSO(be, map[string]jwt.MapClaims{"T": {"email": email, "proxyauth": "https://issuer/", "provider": "p", "sub": "1"}})
	be.SSO.Paths = []string{"/private"}
	if vsym.Bool("login") {
		user = email
		h["Cookie"] = []string{"TLSPROXYAUTH=T"}
	}
	vfAttack(h, "X-Static", "x-peer", "X-USER", "X-User", "X-Name")
	path := "/p"
	if be.PathOverrides != nil {
		path = "/o/p"
	}
	req := vfVary(vfRequest(vfClient("example.com"), "GET", "example.com", path, h))
	w := &vfRW{}
	be.reverseProxy().ServeHTTP(w, req)
	vsym.Assert(up.n == 1, "the request is not forwarded")
	vsym.Assert(vfOne(up.hdr, "X-Static", "v1"), "static extra header")
	vsym.Assert(vfOne(up.hdr, "X-Peer", "198.51.100.7"), "peer extra header")
	vsym.Assert(vfOne(up.hdr, "X-Name", "<example.com>"), "server name extra header")
	if user != "" {
		vsym.Reach("authenticated")
		vsym.Assert(vfOne(up.hdr, "X-User", user), "user extra header")
	} else {
		vsym.Reach("anonymous")
		vsym.Assert(len(up.hdr["X-User"]) == 0, "user extra header is forged")
	}
	for _, n := range []string{"X-Static", "X-Peer", "X-Name", "X-User"} {
		vsym.Assert(!vfOthers(up.hdr, n), "extra header in another spelling")
	}
}
