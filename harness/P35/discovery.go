//verif:pkg proxy/internal/oidc
//verif:use jwt.go
//verif:use store.go
//verif:unit name=discovery entry=VerifP35Discovery share=1 reach=served,cached
//verif:unit name=rewrite entry=VerifP35Rewrite share=3 q.N=2 t.N=3 t.LEN=2 reach=rewritten,nomatch,chained,overwritten
//verif:note up to two (thorough: three) claim rewrite rules, in any order and combination, from a table of seven, for users from a table and users with any one (thorough: two) letters before the domain and up to one rule
package oidc

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfLog35 struct{}

func (vfLog35) Errorf(string, ...any) {}

type vfRec35 struct{}

func (vfRec35) Record(string) {}

type vfW35 struct {
	h    http.Header
	code int
	body []byte
}

func (w *vfW35) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *vfW35) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.body = append(w.body, b...)
	return len(b), nil
}
func (w *vfW35) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}

type vfUser35 struct{}

func vfSrv35(prefix string, rules []RewriteRule) *ProviderServer {
	(&vfKeys{}).install()
	(&vfStore{}).install()
	tm, err := tokenmanager.New(&storage.Storage{}, nil, vfLog35{})
	vsym.Assert(err == nil, "start")
	return NewServer(ServerOptions{
		TokenManager: tm,
		Issuer:       "https://idp.x" + prefix,
		PathPrefix:   prefix,
		ClaimsFromCtx: func(ctx context.Context) jwt.MapClaims {
			c, _ := ctx.Value(vfUser35{}).(jwt.MapClaims)
			return c
		},
		Clients:       []Client{{ID: "A", Secret: "sA", RedirectURI: []string{"https://a.x/cb"}}},
		RewriteRules:  rules,
		EventRecorder: vfRec35{},
		Logger:        vfLog35{},
	})
}

func vfJWT35(tok string) (hdr, claims map[string]any) {
	p := strings.Split(tok, ".")
	vsym.Assert(len(p) == 3, "the identity token is none")
	for i, m := range []*map[string]any{&hdr, &claims} {
		b, err := base64.RawURLEncoding.DecodeString(p[i])
		vsym.Assert(err == nil && json.Unmarshal(b, m) == nil, "the identity token cannot be read")
	}
	return hdr, claims
}

// flow is a login of user: the identity token, and the user information.
func vfLogin35(s *ProviderServer, user jwt.MapClaims, scope string) (hdr, id, info map[string]any) {
	q := url.Values{"response_type": {"code"}, "client_id": {"A"}, "redirect_uri": {"https://a.x/cb"}, "scope": {scope}, "state": {"st"}}
	req := &http.Request{Method: "GET", URL: &url.URL{Scheme: "https", Host: "idp.x", Path: "/authorization", RawQuery: q.Encode()}, Host: "idp.x", Header: http.Header{}}
	w := &vfW35{}
	s.ServeAuthorization(w, req.WithContext(context.WithValue(context.Background(), vfUser35{}, user)))
	u, err := url.Parse(w.Header().Get("Location"))
	vsym.Assert(w.code == 302 && err == nil, "a proper authorization request is refused")
	q = url.Values{"grant_type": {"authorization_code"}, "code": {u.Query().Get("code")}, "client_id": {"A"}, "client_secret": {"sA"}, "redirect_uri": {"https://a.x/cb"}}
	b := q.Encode()
	w = &vfW35{}
	s.ServeToken(w, &http.Request{Method: "POST", URL: &url.URL{Path: "/token"}, Header: http.Header{"Content-Type": {"application/x-www-form-urlencoded"}}, Body: io.NopCloser(strings.NewReader(b)), ContentLength: int64(len(b))})
	var r struct {
		AccessToken string `json:"access_token"`
		IDToken     string `json:"id_token"`
	}
	vsym.Assert(w.code == 200 && json.Unmarshal(w.body, &r) == nil, "a proper code is refused")
	hdr, id = vfJWT35(r.IDToken)
	w = &vfW35{}
	s.ServeUserInfo(w, &http.Request{Method: "GET", URL: &url.URL{Path: "/userinfo"}, Header: http.Header{"Authorization": {"Bearer " + r.AccessToken}}})
	vsym.Assert(w.code == 200 && json.Unmarshal(w.body, &info) == nil, "a proper access token is refused")
	return
}

func vfHas35(l any, s string) bool {
	a, _ := l.([]any)
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

// The discovery document describes what the server does.
func VerifP35Discovery() {
	prefix := vsym.Pick("prefix", "", "/p", "/a/b")
	s := vfSrv35(prefix, nil)
	host := vsym.Pick("host", "idp.x", "idp.x:443", "idp.x:8443", "other.x")
	bare, _, _ := strings.Cut(host, ":")
	req := &http.Request{Method: "GET", URL: &url.URL{Path: prefix + "/.well-known/openid-configuration"}, Host: host, Header: http.Header{}}
	w := &vfW35{}
	s.ServeConfig(w, req)
	vsym.Assert(w.code == 200 && w.Header().Get("Content-Type") == "application/json", "the document isn't served")
	var m map[string]any
	vsym.Assert(json.Unmarshal(w.body, &m) == nil, "the document is no JSON")
	vsym.Assert(m["issuer"] == "https://idp.x"+prefix, "the issuer is another than the tokens'")
	for f, p := range map[string]string{"authorization_endpoint": "/authorization", "token_endpoint": "/token", "userinfo_endpoint": "/userinfo", "jwks_uri": "/jwks"} {
		vsym.Assert(m[f] == "https://"+bare+prefix+p, "an endpoint is elsewhere")
	}
	hdr, id, _ := vfLogin35(s, jwt.MapClaims{"sub": "1", "email": "u@x"}, "openid")
	alg, _ := hdr["alg"].(string)
	vsym.Assert(vfHas35(m["id_token_signing_alg_values_supported"], alg), "tokens are signed with another algorithm than the document says")
	vsym.Assert(id["iss"] == m["issuer"], "the tokens have another issuer than the document says")
	vsym.Assert(vfHas35(m["response_types_supported"], "code"), "the response type is not in the document")
	for _, sc := range []string{"openid", "email", "profile"} {
		vsym.Assert(vfHas35(m["scopes_supported"], sc), "a scope is not in the document")
	}
	tag := w.Header().Get("Etag")
	have := vsym.Pick("have", "same", "x")
	if have == "same" {
		have = tag
	}
	req.Header.Set("If-None-Match", have)
	w2 := &vfW35{}
	s.ServeConfig(w2, req)
	if have == tag {
		vsym.Assert(w2.code == 304 && len(w2.body) == 0, "what the client has is served again")
		vsym.Reach("cached")
		return
	}
	vsym.Assert(w2.code == 200 && string(w2.body) == string(w.body), "the document isn't the same")
	vsym.Reach("served")
}

// vfRule35 is a rule, and what it does to the claims seen so far.
type vfRule35 struct {
	r RewriteRule
	f func(c map[string]any) (string, bool)
}

func vfStr35(v any) string {
	if v == nil {
		return ""
	}
	return fmt.Sprint(v)
}

var vfRules35 = []vfRule35{
	{RewriteRule{"email", "preferred_username", "^([^@]+)@x$", "$1"}, func(c map[string]any) (string, bool) {
		u, d, ok := strings.Cut(vfStr35(c["email"]), "@")
		return u, ok && u != "" && d == "x"
	}},
	{RewriteRule{"preferred_username:upper", "nickname", "^(.+)$", "<$1>"}, func(c map[string]any) (string, bool) {
		u := strings.ToUpper(vfStr35(c["preferred_username"]))
		return "<" + u + ">", u != ""
	}},
	{RewriteRule{"${name}/${email:lower}", "combo", "/", ":"}, func(c map[string]any) (string, bool) {
		return strings.ReplaceAll(vfStr35(c["name"])+"/"+strings.ToLower(vfStr35(c["email"])), "/", ":"), true
	}},
	{RewriteRule{"email", "role", "^Root@", "admin "}, func(c map[string]any) (string, bool) {
		e := vfStr35(c["email"])
		return "admin " + strings.TrimPrefix(e, "Root@"), strings.HasPrefix(e, "Root@")
	}},
	{RewriteRule{"absent", "none", "^$", "yes"}, func(c map[string]any) (string, bool) {
		return "yes", vfStr35(c["absent"]) == ""
	}},
	{RewriteRule{"groups", "email", "^g1$", "group@x"}, func(c map[string]any) (string, bool) {
		return "group@x", vfStr35(c["groups"]) == "g1"
	}},
	{RewriteRule{"email", "email", "^(.*)@x$", "$1@y"}, func(c map[string]any) (string, bool) {
		u, ok := strings.CutSuffix(vfStr35(c["email"]), "@x")
		return u + "@y", ok
	}},
}

// The rules are applied one after the other, each to what the ones before it
// made; one that doesn't match changes nothing. Both the identity token and
// the user information have the result.
func VerifP35Rewrite() {
	n := vsym.Choose("rules", vsym.Param("N", 2)+1)
	var rules []RewriteRule
	var chosen []vfRule35
	for i := 0; i < n; i++ {
		r := vfRules35[vsym.Choose("rule", len(vfRules35))]
		rules = append(rules, r.r)
		chosen = append(chosen, r)
	}
	user := jwt.MapClaims{"sub": "1", "name": "N"}
	nUsers := 4
	if n <= 1 {
		nUsers = 5
	}
	switch vsym.Choose("user", nUsers) {
	case 4:
		b := vsym.Bytes("local", 1, vsym.Param("LEN", 1))
		for _, c := range b {
			vsym.Assume(vsym.Or(c == '@', c == '/', vsym.And(c >= 'A', c <= 'Z'), vsym.And(c >= 'a', c <= 'z'), vsym.And(c >= '0', c <= '9')))
		}
		user["email"] = string(b) + "@x"
	case 0:
		user["email"] = "u@x"
	case 1:
		user["email"] = "Root@z"
	case 2:
		user["email"], user["groups"] = "Root@x", "g1"
	case 3:
		user["email"], user["name"] = "@x", "a/b"
	}
	s := vfSrv35("", rules)
	scope := "openid email"
	_, id, info := vfLogin35(s, user, scope)
	seen := map[string]any{}
	for k, v := range user {
		seen[k] = v
	}
	want := map[string]any{"email": user["email"]}
	made := map[string]bool{}
	for _, c := range chosen {
		v, ok := c.f(seen)
		if !ok {
			vsym.Reach("nomatch")
			continue
		}
		in, _, _ := strings.Cut(c.r.InputClaim, ":")
		if made[in] {
			vsym.Reach("chained")
		}
		if user[c.r.OutputClaim] != nil {
			vsym.Reach("overwritten")
		}
		made[c.r.OutputClaim] = true
		seen[c.r.OutputClaim], want[c.r.OutputClaim] = v, v
		vsym.Reach("rewritten")
	}
	for _, f := range []string{"email", "preferred_username", "nickname", "combo", "role", "none", "name", "groups"} {
		vsym.Assert(id[f] == want[f], "a claim of the identity token isn't what the rules say")
		vsym.Assert(info[f] == want[f], "a claim of the user information isn't what the rules say")
	}
	vsym.Assert(id["sub"] == "1" && info["sub"] == "1" && id["aud"] == "A" && id["iss"] == "https://idp.x", "the rules change something else")
	vsym.Assert(user["combo"] == nil && user["nickname"] == nil, "the rules change what the proxy knows of the user")
}
