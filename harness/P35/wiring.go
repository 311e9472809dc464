//verif:pkg proxy
//verif:use rp.go
//verif:use flow.go
//verif:use jwt.go
//verif:use store.go
//verif:unit name=wiring entry=VerifP35Wiring share=2 reach=code,refused,keys,document
//verif:note the configured provider has two clients and one rule, on one of two server names
package proxy

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfLog35 struct{}

func (vfLog35) Errorf(string, ...any) {}

// A provider that is configured is served at the addresses that it publishes,
// with the clients and rules that are configured for it.
func VerifP35Wiring() {
	f := vfNewFlow()
	keys := &vfKeys{}
	keys.install()
	(&vfStore{}).install()
	tm, err := tokenmanager.New(&storage.Storage{}, nil, vfLog35{})
	vsym.Assert(err == nil, "start")
	f.p.tokenManager = tm
	prefix := vsym.Pick("prefix", "", "/p")
	be := &Backend{
		ServerNames: []string{"idp.x", "idp2.x"},
		Mode:        "HTTP",
		Addresses:   []string{"10.0.0.1:80"},
		SSO: &BackendSSO{
			Provider: "sso",
			Paths:    []string{"/private"},
			LocalOIDCServer: &LocalOIDCServer{
				PathPrefix: prefix,
				Clients: []*LocalOIDCClient{
					{ID: "A", Secret: "sA", RedirectURI: []string{"https://a.x/cb", "https://a.x/cb2"}},
					{ID: "B", Secret: "sB", RedirectURI: []string{"https://b.x/cb"}},
				},
				RewriteRules: []*LocalOIDCRewriteRule{{InputClaim: "email", OutputClaim: "login", Regex: "^([^@]+)@x$", Value: "<$1>"}},
			},
		},
	}
	cfg := f.config(be)
	cfg.OIDCProviders = []*ConfigOIDC{{Name: "sso", AuthEndpoint: "https://sso.x/a", TokenEndpoint: "https://sso.x/t", RedirectURL: "https://idp.x/oauth2/redirect", ClientID: "c", ClientSecret: "s"}}
	err = f.p.Reconfigure(cfg)
	vsym.Assert(err == nil, "a valid configuration is refused")
	b, err := f.p.backend("idp.x")
	vsym.Assert(err == nil, "no backend")
	serve := func(method, u, body string, user jwt.MapClaims) *vfRW {
		pu, err := url.Parse(u)
		vsym.Assert(err == nil, "an address that's none")
		req := &http.Request{Method: method, URL: &url.URL{Path: pu.Path, RawQuery: pu.RawQuery}, Host: pu.Host, Header: http.Header{}}
		if body != "" {
			req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
			req.Body, req.ContentLength = io.NopCloser(strings.NewReader(body)), int64(len(body))
		}
		ctx := context.WithValue(context.Background(), connCtxKey, anyConn(vfClient(pu.Host)))
		if user != nil {
			ctx = context.WithValue(ctx, authCtxKey, user)
		}
		w := &vfRW{}
		n := 0
		for _, h := range b.localHandlers {
			if h.path == pu.Path && (h.host == "" || h.host == pu.Host) {
				n++
				h.handler.ServeHTTP(w, req.WithContext(ctx))
				break
			}
		}
		vsym.Assert(n == 1, "nothing is served at an address that is published")
		return w
	}
	host := vsym.Pick("host", "idp.x", "idp2.x")
	w := serve("GET", "https://"+host+prefix+"/.well-known/openid-configuration", "", nil)
	var doc struct {
		Issuer, Authorization, Token, UserInfo, JWKS string
	}
	var m map[string]any
	vsym.Assert(w.code == 200 && json.Unmarshal(w.body, &m) == nil, "no discovery document")
	doc.Issuer, _ = m["issuer"].(string)
	doc.Authorization, _ = m["authorization_endpoint"].(string)
	doc.Token, _ = m["token_endpoint"].(string)
	doc.UserInfo, _ = m["userinfo_endpoint"].(string)
	doc.JWKS, _ = m["jwks_uri"].(string)
	vsym.Assert(doc.Issuer == "https://idp.x"+prefix, "another issuer")
	vsym.Reach("document")
	w = serve("GET", doc.JWKS, "", nil)
	var set struct {
		Keys []struct {
			ID  string `json:"kid"`
			Alg string `json:"alg"`
		} `json:"keys"`
	}
	vsym.Assert(w.code == 200 && json.Unmarshal(w.body, &set) == nil && len(set.Keys) > 0, "no keys")
	vsym.Reach("keys")

	id := vsym.Pick("client", "A", "B", "c")
	cb := vsym.Pick("redirect", "https://a.x/cb", "https://a.x/cb2", "https://b.x/cb", "https://evil.x/cb")
	user := jwt.MapClaims{"sub": "7", "email": "u@x"}
	anon := vsym.Bool("anonymous")
	if anon {
		user = nil
	}
	q := url.Values{"response_type": {"code"}, "client_id": {id}, "redirect_uri": {cb}, "scope": {"openid email"}, "state": {"st"}}
	w = serve("GET", doc.Authorization+"?"+q.Encode(), "", user)
	good := !anon && (id == "A" && strings.HasPrefix(cb, "https://a.x/") || id == "B" && cb == "https://b.x/cb")
	vsym.Assert((w.code == 302) == good, "exactly the configured clients and addresses get codes")
	if !good {
		vsym.Reach("refused")
		return
	}
	u, err := url.Parse(w.Header().Get("Location"))
	vsym.Assert(err == nil && strings.HasPrefix(u.String(), cb+"?"), "the browser is sent elsewhere")
	secret := vsym.Pick("secret", "sA", "sB", "s")
	q = url.Values{"grant_type": {"authorization_code"}, "code": {u.Query().Get("code")}, "client_id": {id}, "client_secret": {secret}, "redirect_uri": {cb}}
	w = serve("POST", doc.Token, q.Encode(), nil)
	vsym.Assert((w.code == 200) == (secret == "s"+id), "exactly the configured secret is accepted")
	if w.code != 200 {
		return
	}
	var r struct {
		AccessToken string `json:"access_token"`
		IDToken     string `json:"id_token"`
	}
	vsym.Assert(json.Unmarshal(w.body, &r) == nil, "no tokens")
	tok, err := tm.ValidateToken(r.IDToken)
	vsym.Assert(err == nil, "the identity token is not valid")
	c := tok.Claims.(jwt.MapClaims)
	vsym.Assert(c["iss"] == doc.Issuer && c["aud"] == id && c["sub"] == "7" && c["email"] == "u@x" && c["login"] == "<u>", "the identity isn't what is configured")
	known := false
	for _, k := range set.Keys {
		known = known || k.ID == fmt.Sprint(tok.Header["kid"]) && k.Alg == tok.Header["alg"]
	}
	vsym.Assert(known, "the token's key is not published")
	req := &http.Request{Method: "GET", URL: &url.URL{Path: prefix + "/userinfo"}, Header: http.Header{"Authorization": {"Bearer " + r.AccessToken}}}
	for _, h := range b.localHandlers {
		if h.path == prefix+"/userinfo" {
			w = &vfRW{}
			h.handler.ServeHTTP(w, req.WithContext(context.WithValue(context.Background(), connCtxKey, anyConn(vfClient(host)))))
		}
	}
	var info map[string]any
	vsym.Assert(w.code == 200 && json.Unmarshal(w.body, &info) == nil && info["login"] == "<u>" && info["sub"] == "7", "no user information")
	vsym.Assert(strings.HasSuffix(doc.UserInfo, host+prefix+"/userinfo"), "the user information is elsewhere")
	vsym.Reach("code")
}
