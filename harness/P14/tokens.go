//verif:pkg proxy
//verif:use rp.go
//verif:use jwt.go
//verif:use store.go
//verif:unit name=present entry=VerifP14Present share=3 synctest reach=cookie,bearer,accepted,rejected,expired
//verif:unit name=claims entry=VerifP14Claims share=2 q.N=1 t.N=2 reach=extra,login
//verif:unit name=idtoken entry=VerifP14IDToken share=2 reach=set,kept,passed,off,otherhost
//verif:note 16 kinds of tokens (session cookies and ID tokens of two providers and three hosts, redirect and OpenID tokens, unsigned, re-assembled, foreign-key ones, tokens with claims missing) presented as cookie or bearer token, at any second up to 30 hours later
package proxy

import (
	"encoding/base64"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfLog struct{}

func (vfLog) Errorf(string, ...any) {}

const (
	vfIss  = "https://sso.x/"
	vfLife = 20 * 3600
)

func vfTM() *tokenmanager.TokenManager {
	(&vfKeys{}).install()
	(&vfStore{}).install()
	tm, err := tokenmanager.New(&storage.Storage{}, nil, vfLog{})
	vsym.Assert(err == nil, "start")
	return tm
}

// vfCookie returns the value of the cookie that a response sets, "" if none.
func vfCookie(w *vfRW, name string) string {
	v := ""
	for _, c := range (&http.Response{Header: w.h}).Cookies() {
		if c.Name == name && c.MaxAge >= 0 {
			vsym.Assert(v == "", "cookie set twice")
			v = c.Value
			vsym.Assert(c.HttpOnly && c.Secure, "an authentication cookie is exposed")
		}
	}
	return v
}

type vfSite struct {
	tm   *tokenmanager.TokenManager
	a, b *cookiemanager.CookieManager
}

func vfNewSite() *vfSite {
	tm := vfTM()
	return &vfSite{tm, cookiemanager.New(tm, "pA", "x", vfIss), cookiemanager.New(tm, "pB", "x", vsym.Pick("issB", vfIss, "https://other.x/"))}
}

// login returns a session cookie.
func (s *vfSite) login(cm *cookiemanager.CookieManager, sub, email, sid, host string, extra map[string]any) string {
	w := &vfRW{}
	err := cm.SetAuthTokenCookie(w, sub, email, sid, host, extra)
	vsym.Assert(err == nil, "SetAuthTokenCookie")
	c := vfCookie(w, "TLSPROXYAUTH")
	vsym.Assert(c != "", "no session cookie")
	return c
}

func vfHostReq(host string) *http.Request {
	return vfRequest(vfClient("a.x"), "GET", host, "/", http.Header{})
}

// idToken returns an ID token cookie made for host.
func (s *vfSite) idToken(cm *cookiemanager.CookieManager, auth, host string) string {
	req := vfHostReq(host)
	req.Header.Set("Cookie", "TLSPROXYAUTH="+auth)
	tok, err := cm.ValidateAuthTokenCookie(req)
	vsym.Assert(err == nil, "a fresh session cookie is rejected")
	w := &vfRW{}
	vsym.Assert(cm.SetIDTokenCookie(w, req, tok) == nil, "SetIDTokenCookie")
	return vfCookie(w, "TLSPROXYIDTOKEN")
}

func (s *vfSite) backend(cm *cookiemanager.CookieManager, names ...string) *Backend {
	be := vfBackend(ModeHTTP, names...)
	be.tm = s.tm
	be.SSO = &BackendSSO{Provider: "pA", cm: cm, SetUserIDHeader: true}
	return be
}

// Any token presented in any way, at any time.
func VerifP14Present() {
	s := vfNewSite()
	exp := time.Now().UTC().Unix() + vfLife
	auth := s.login(s.a, "1", "u@x", "s1", "a.x", map[string]any{"name": "U"})
	authB := s.login(s.b, "2", "u@b", "s2", "a.x", nil)
	b64 := func(x string) string { return base64.RawURLEncoding.EncodeToString([]byte(x)) }
	part := func(t string, i int) string { return strings.Split(t, ".")[i] }
	claims := func() jwt.MapClaims {
		return jwt.MapClaims{"iss": vfIss, "aud": vfIss, "sub": "1", "email": "u@x", "proxyauth": vfIss, "provider": "pA", "sid": "s1", "exp": exp}
	}
	mk := func(c jwt.MapClaims) string {
		t, err := s.tm.CreateToken(c, "")
		vsym.Assert(err == nil, "CreateToken")
		return t
	}
	host := vsym.Pick("host", "a.x", "b.x", "a.x:8443", "xn--bcher-kva.x")
	// What each token is good for.
	tok := ""
	okCookie, okBearer := false, false
	switch vsym.Choose("token", 17) {
	case 0:
		tok, okCookie = auth, true
	case 1:
		tok = authB
	case 2:
		tok, okBearer = s.idToken(s.a, auth, "a.x"), host == "a.x" || host == "a.x:8443"
	case 3:
		tok, okBearer = s.idToken(s.a, auth, "b.x:1234"), host == "b.x"
	case 4:
		tok = s.idToken(s.b, authB, "a.x")
	case 5:
		t, _, err := s.tm.URLToken(&vfRW{}, vfHostReq("a.x"), &url.URL{Scheme: "https", Host: "a.x", Path: "/"}, map[string]any{"email": "u@x"})
		vsym.Assert(err == nil, "URLToken")
		tok = t
	case 6: // as the OpenID provider makes them
		t, err := s.tm.CreateToken(jwt.MapClaims{"iat": exp - vfLife, "exp": exp, "iss": "https://idp.x", "aud": "client", "sub": "1", "scope": "openid email", "email": "u@x", "email_verified": true}, "RS256")
		vsym.Assert(err == nil, "CreateToken")
		tok = t
	case 7:
		tok = part(auth, 0) + "." + part(authB, 1) + "." + part(auth, 2)
	case 8:
		tok = b64(`{"alg":"none","typ":"JWT"}`) + "." + part(auth, 1) + "."
	case 9:
		tok = b64(`{"alg":"HS256","typ":"JWT"}`) + "." + part(auth, 1) + "." + part(auth, 2)
	case 10: // somebody else's keys
		(&vfStore{}).install()
		tm, err := tokenmanager.New(&storage.Storage{}, nil, vfLog{})
		vsym.Assert(err == nil, "start")
		t, err := tm.CreateToken(claims(), "")
		vsym.Assert(err == nil, "CreateToken")
		tok = t
	case 11: // for another proxy's host
		c := claims()
		c[vsym.Pick("wrong", "iss", "aud", "proxyauth", "provider")] = "https://evil.x/"
		tok = mk(c)
	case 12: // incomplete
		c := claims()
		delete(c, vsym.Pick("missing", "iss", "aud", "proxyauth", "provider", "sub"))
		tok = mk(c)
	case 13: // an ID token with the session cookie's purpose, and the reverse
		c := claims()
		c["aud"] = "https://a.x/"
		tok = mk(c)
	case 14:
		c := claims()
		delete(c, "proxyauth")
		tok = mk(c)
	case 15: // no e-mail
		c := claims()
		switch vsym.Choose("email", 3) {
		case 0:
			delete(c, "email")
		case 1:
			c["email"] = ""
		case 2:
			c["email"] = []string{"u@x"}
		}
		tok = mk(c)
	case 16:
		t, err := s.tm.CreateToken(claims(), "ES256")
		vsym.Assert(err == nil, "CreateToken")
		tok, okCookie = t, true
	}

	after := vsym.Int("after", 0, 30*3600)
	vsym.Advance(after)
	be := s.backend(s.a, "a.x")
	req := vfHostReq(host)
	ok := okCookie
	switch vsym.Choose("as", 4) {
	case 0:
		vsym.Reach("cookie")
		req.Header.Set("Cookie", "TLSPROXYAUTH="+tok)
	case 1:
		vsym.Reach("bearer")
		req.Header.Set("Authorization", vsym.Pick("scheme", "Bearer ", "bearer ")+tok)
		ok = okBearer
	case 2: // in the wrong place
		req.Header.Set("Authorization", vsym.Pick("scheme", "Basic ", "Bearer", "")+tok)
		ok = false
	case 3:
		req.Header.Set("Cookie", "TLSPROXYIDTOKEN="+tok+"; TLSPROXYNONCE="+tok)
		ok = false
	}
	if after >= vfLife {
		vsym.Reach("expired")
		ok = false
	}
	w := &vfRW{}
	if vsym.Bool("claimed") {
		req.Header.Set("X-Tlsproxy-User-Id", "admin@x")
	}
	cont := be.authenticateUser(w, &req)
	vsym.Assert(cont, "the request is answered")
	got := claimsFromCtx(req.Context())
	if !ok {
		vsym.Reach("rejected")
		vsym.Assert(got == nil, "a token authenticates that must not")
		vsym.Assert(req.Header.Get("X-Tlsproxy-User-Id") == "", "a user is named although nobody is authenticated")
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(got != nil, "a good token is rejected")
	vsym.Assert(got["email"] == "u@x" && got["sub"] == "1", "the token names somebody else")
	vsym.Assert(req.Header.Get("X-Tlsproxy-User-Id") == "u@x", "the backend is told about somebody else")
}

// Extra claims don't change what was established at login.
func VerifP14Claims() {
	s := vfNewSite()
	now := time.Now().UTC().Unix()
	extra := map[string]any{}
	for i := 0; i < vsym.Param("N", 1); i++ {
		if vsym.Bool("extra?") {
			vsym.Reach("extra")
			k := vsym.Pick("k", "exp", "email", "sub", "iss", "aud", "proxyauth", "provider", "hhash", "sid", "iat", "name")
			var v any = "evil"
			switch vsym.Choose("v", 3) {
			case 1:
				v = now + 1000000
			case 2:
				v = nil
			}
			extra[k] = v
		}
	}
	host := vsym.Pick("host", "a.x", "a.x:444")
	if vsym.Bool("incomplete") {
		w := &vfRW{}
		sub, email := "", "u@x"
		if vsym.Bool("noemail") {
			sub, email = "1", ""
		}
		err := s.a.SetAuthTokenCookie(w, sub, email, "s1", host, extra)
		vsym.Assert(err != nil && vfCookie(w, "TLSPROXYAUTH") == "", "a session without identity")
		return
	}
	vsym.Reach("login")
	sid := vsym.Pick("session", "s1", "")
	auth := s.login(s.a, "1", "u@x", sid, host, extra)
	req := vfHostReq("a.x")
	req.Header.Set("Cookie", "TLSPROXYAUTH="+auth)
	tok, err := s.a.ValidateAuthTokenCookie(req)
	vsym.Assert(err == nil, "a fresh session cookie is rejected")
	c := tok.Claims.(jwt.MapClaims)
	e, err := c.GetExpirationTime()
	vsym.Assert(err == nil && e.Unix() == now+vfLife, "the expiry is not the one established at login")
	i, err := c.GetIssuedAt()
	vsym.Assert(err == nil && i.Unix() == now, "the time of the login")
	vsym.Assert(c["email"] == "u@x" && c["sub"] == "1" && c["sid"] == sid, "the identity is not the one established at login")
	vsym.Assert(c["provider"] == "pA" && c["iss"] == vfIss && c["aud"] == vfIss && c["proxyauth"] == vfIss, "the provider is not the one of the login")
	// The host of the login.
	c2 := s.login(s.a, "1", "u@x", "s1", host, nil)
	req.Header.Set("Cookie", "TLSPROXYAUTH="+c2)
	tok2, err := s.a.ValidateAuthTokenCookie(req)
	vsym.Assert(err == nil && tok2.Claims.(jwt.MapClaims)["hhash"] == c["hhash"], "the host is not the one of the login")
	c3 := s.login(s.a, "1", "u@x", "s1", host+"y", nil)
	req.Header.Set("Cookie", "TLSPROXYAUTH="+c3)
	tok3, err := s.a.ValidateAuthTokenCookie(req)
	vsym.Assert(err == nil && tok3.Claims.(jwt.MapClaims)["hhash"] != c["hhash"], "two hosts look the same")
}

// ID tokens are made for the session and the host of the request.
func VerifP14IDToken() {
	s := vfNewSite()
	auth := s.login(s.a, "1", "u@x", "s1", "a.x", map[string]any{"source": "z", "scope": "y", "name": "U"})
	other := s.login(s.a, "2", "v@x", "s2", "a.x", nil)
	relogin := s.login(s.a, "1", "u@x", "s3", "a.x", nil)
	have, good := "", false
	host := vsym.Pick("host", "a.x", "xn--bcher-kva.x", "c.x")
	switch vsym.Choose("have", 8) {
	case 7: // another user's in the same session
		have = s.idToken(s.a, s.login(s.a, "2", "v@x", "s1", "a.x", nil), host)
	case 0:
	case 1:
		have, good = s.idToken(s.a, auth, host), true
	case 2:
		have = s.idToken(s.a, other, host)
	case 3:
		have = s.idToken(s.a, relogin, host)
	case 4:
		have = s.idToken(s.a, auth, "b.x")
	case 5:
		have = auth
	case 6:
		have = "x.y.z"
	}
	be := s.backend(s.a, "a.x", "xn--bcher-kva.x")
	be.SSO.GenerateIDTokens = vsym.Bool("generate")
	req := vfHostReq(host)
	ck := "TLSPROXYAUTH=" + auth
	if have != "" {
		ck += "; TLSPROXYIDTOKEN=" + have
	}
	req.Header.Set("Cookie", ck)
	w := &vfRW{}
	cont := be.authenticateUser(w, &req)
	set := vfCookie(w, "TLSPROXYIDTOKEN")
	if !be.SSO.GenerateIDTokens || host == "c.x" {
		if be.SSO.GenerateIDTokens {
			vsym.Reach("otherhost")
		} else {
			vsym.Reach("off")
		}
		vsym.Assert(cont && set == "" && claimsFromCtx(req.Context())["email"] == "u@x", "an ID token although none is asked for")
		return
	}
	if good {
		vsym.Reach("kept")
		vsym.Assert(cont && set == "" && claimsFromCtx(req.Context())["email"] == "u@x", "a good ID token is not used")
		return
	}
	vsym.Assert(!cont && set != "" && w.code == 302, "the ID token of another session or host stays")
	vsym.Reach("set")
	// The new one.
	tok, err := s.tm.ValidateToken(set)
	vsym.Assert(err == nil, "the ID token is not valid")
	c := tok.Claims.(jwt.MapClaims)
	vsym.Assert(c["sub"] == "1" && c["email"] == "u@x" && c["sid"] == "s1" && c["iss"] == vfIss && c["provider"] == "pA", "the ID token is somebody else's")
	vsym.Assert(c["proxyauth"] == nil && c["scope"] == nil && c["source"] == nil, "the ID token carries more than it should")
	e, err := c.GetExpirationTime()
	vsym.Assert(err == nil && e.Unix() == time.Now().UTC().Unix()+vfLife, "the ID token outlives the session")
	aud, err := c.GetAudience()
	vsym.Assert(err == nil && len(aud) > 0 && aud[0] == "https://"+host+"/", "the ID token is for another host")
	for _, a := range aud {
		vsym.Assert(a == "https://"+host+"/" || host == "xn--bcher-kva.x" && a == "https://bücher.x/", "the ID token is for another host, too")
	}
	req2 := vfHostReq(host)
	req2.Header.Set("Cookie", "TLSPROXYAUTH="+auth+"; TLSPROXYIDTOKEN="+set)
	w2 := &vfRW{}
	vsym.Assert(be.authenticateUser(w2, &req2) && claimsFromCtx(req2.Context())["email"] == "u@x", "the new ID token is not good")
	vsym.Reach("passed")
}
