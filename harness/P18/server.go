//verif:pkg proxy/internal/oidc
//verif:use jwt.go
//verif:use store.go
//verif:unit name=authorize entry=VerifP18Authorize share=2 reach=redirected,refused,email,profile
//verif:unit name=exchange entry=VerifP18Exchange share=3 synctest q.N=2 t.N=3 reach=exchanged,expired,used,wrongclient,wrongsecret,wrongredirect
//verif:unit name=userinfo entry=VerifP18UserInfo share=2 synctest reach=answered,again,expired
//verif:unit name=race entry=VerifP18Race share=2 race reach=one
//verif:assume codes and access tokens are unguessable and distinct (the generator is a counter)
//verif:note three clients (two of them sharing an address, one with two addresses), all request parameters drawn from the valid ones, another client's and near misses; up to three token requests with any waiting time before the first; two requests at once under every interleaving up to the stated number of preemptions
package oidc

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfLog18 struct{}

func (vfLog18) Errorf(string, ...any) {}

type vfRec18 struct{}

func (vfRec18) Record(string) {}

type vfW18 struct {
	h    http.Header
	code int
	body []byte
}

func (w *vfW18) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *vfW18) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.body = append(w.body, b...)
	return len(b), nil
}
func (w *vfW18) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}

type vfUser struct{}

var vfClients = []Client{
	{ID: "A", Secret: "sA", RedirectURI: []string{"https://a.x/cb", "https://a.x/cb2?k=v"}},
	{ID: "B", Secret: "sB", RedirectURI: []string{"https://b.x/cb"}},
	{ID: "C", Secret: "sC", RedirectURI: []string{"https://b.x/cb"}},
}

func vfClientByID(id string) *Client {
	for i := range vfClients {
		if vfClients[i].ID == id {
			return &vfClients[i]
		}
	}
	return nil
}

func vfHas(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func vfSrv() *ProviderServer {
	(&vfKeys{}).install()
	(&vfStore{}).install()
	tm, err := tokenmanager.New(&storage.Storage{}, nil, vfLog18{})
	vsym.Assert(err == nil, "start")
	return NewServer(ServerOptions{
		TokenManager: tm,
		Issuer:       "https://idp.x",
		ClaimsFromCtx: func(ctx context.Context) jwt.MapClaims {
			c, _ := ctx.Value(vfUser{}).(jwt.MapClaims)
			return c
		},
		Clients:       vfClients,
		EventRecorder: vfRec18{},
		Logger:        vfLog18{},
	})
}

func vfUserClaims() jwt.MapClaims {
	return jwt.MapClaims{"sub": "1", "email": "u@x", "name": "U V", "given_name": "U", "picture": "P", "sid": "SID", "source": "S", "groups": "G"}
}

func vfGet(path string, q url.Values, user jwt.MapClaims) *http.Request {
	ctx := context.Background()
	if user != nil {
		ctx = context.WithValue(ctx, vfUser{}, user)
	}
	req := &http.Request{Method: "GET", URL: &url.URL{Scheme: "https", Host: "idp.x", Path: path, RawQuery: q.Encode()}, Host: "idp.x", Header: http.Header{}}
	return req.WithContext(ctx)
}

func vfPost(path string, q url.Values) *http.Request {
	b := q.Encode()
	return &http.Request{Method: "POST", URL: &url.URL{Scheme: "https", Host: "idp.x", Path: path}, Host: "idp.x",
		Header: http.Header{"Content-Type": {"application/x-www-form-urlencoded"}}, Body: io.NopCloser(strings.NewReader(b)), ContentLength: int64(len(b))}
}

// vfJWT returns the claims of a token.
func vfJWT(s *ProviderServer, tok string) map[string]any {
	_, err := s.opts.TokenManager.ValidateToken(tok)
	vsym.Assert(err == nil, "the identity token is not valid")
	p := strings.Split(tok, ".")
	b, err := base64.RawURLEncoding.DecodeString(p[1])
	m := map[string]any{}
	vsym.Assert(err == nil && json.Unmarshal(b, &m) == nil, "the identity token cannot be read")
	return m
}

var vfProfile = []string{"name", "family_name", "given_name", "middle_name", "nickname", "preferred_username", "profile", "picture", "website", "gender", "birthdate", "zoneinfo", "locale"}

// vfCheckClaims checks the identity released for scope.
func vfCheckClaims(m map[string]any, scope string) {
	sc := strings.Split(scope, " ")
	email, profile := vfHas("email", sc), vfHas("profile", sc)
	vsym.Assert(m["sub"] == "1", "another user's identity")
	for k, v := range m {
		switch {
		case k == "email":
			vsym.Assert(email && v == "u@x", "an e-mail address that was not asked for")
		case k == "email_verified":
			vsym.Assert(email, "an e-mail address that was not asked for")
		case vfHas(k, vfProfile):
			vsym.Assert(profile, "a profile that was not asked for")
		default:
			vsym.Assert(vfHas(k, []string{"sub", "iat", "exp", "iss", "aud", "scope", "nonce"}), "more than was asked for is released")
		}
	}
	if email {
		vsym.Reach("email")
	}
	if profile {
		vsym.Reach("profile")
	}
}

type vfTokenResp struct {
	AccessToken string `json:"access_token"`
	IDToken     string `json:"id_token"`
	Scope       string `json:"scope"`
}

func vfExchange(s *ProviderServer, code, id, secret, redirect string) *vfW18 {
	w := &vfW18{}
	s.ServeToken(w, vfPost("/token", url.Values{"grant_type": {"authorization_code"}, "code": {code}, "client_id": {id}, "client_secret": {secret}, "redirect_uri": {redirect}}))
	return w
}

func vfParse(w *vfW18) vfTokenResp {
	var r vfTokenResp
	vsym.Assert(json.Unmarshal(w.body, &r) == nil, "the token answer cannot be read")
	return r
}

func vfUserInfo(s *ProviderServer, at string) *vfW18 {
	w := &vfW18{}
	req := vfGet("/userinfo", nil, nil)
	req.Header.Set("Authorization", "Bearer "+at)
	s.ServeUserInfo(w, req)
	return w
}

// Any authorization request.
func VerifP18Authorize() {
	s := vfSrv()
	id := vsym.Pick("client", "A", "B", "D", "")
	redirect := vsym.Pick("redirect", "https://a.x/cb", "https://a.x/cb2?k=v", "https://b.x/cb", "https://a.x/cb/../x", "https://a.x/cb2", "https://a.x/cb?x=y", "https://a.x.evil/cb", "")
	user := vfUserClaims()
	anon := vsym.Bool("anonymous")
	if anon {
		user = nil
	}
	rt := vsym.Pick("type", "code", "token", "")
	scope, nonce, state := "openid", "", "st"
	if vfHas(redirect, []string{"https://a.x/cb2?k=v", "https://b.x/cb"}) {
		scope = vsym.Pick("scope", "", "openid", "openid email", "openid profile", "profile email openid", "emails profiles", "email,profile", "openid  email")
		nonce = vsym.Pick("nonce", "", "N&x=1")
		state = vsym.Pick("state", "", "a&code=evil#f", "st")
	}
	w := &vfW18{}
	s.ServeAuthorization(w, vfGet("/authorization", url.Values{"response_type": {rt}, "client_id": {id}, "redirect_uri": {redirect}, "scope": {scope}, "nonce": {nonce}, "state": {state}}, user))
	cl := vfClientByID(id)
	if cl == nil || !vfHas(redirect, cl.RedirectURI) || anon || rt != "code" {
		vsym.Assert(w.code >= 400 && w.Header().Get("Location") == "", "a request of an unknown client, for another address or without a login is granted")
		vsym.Assert(len(s.codes) == 0 && len(s.accessTokens) == 0, "a code is made for a refused request")
		vsym.Reach("refused")
		return
	}
	if w.code >= 400 {
		return
	}
	vsym.Reach("redirected")
	loc, err := url.Parse(w.Header().Get("Location"))
	vsym.Assert(w.code == 302 && err == nil, "redirect")
	reg, _ := url.Parse(redirect)
	vsym.Assert(loc.Scheme == reg.Scheme && loc.Host == reg.Host && loc.Path == reg.Path && loc.Fragment == "" && loc.User == nil, "the user is sent to an address that is not registered")
	q := loc.Query()
	vsym.Assert(q.Get("state") == state && len(q["code"]) == 1 && q.Get("k") == reg.Query().Get("k"), "parameters of the redirect")
	for k := range q {
		vsym.Assert(vfHas(k, []string{"state", "code", "scope", "k"}), "parameters of the redirect")
	}
	code := q.Get("code")
	w = vfExchange(s, code, id, cl.Secret, redirect)
	vsym.Assert(w.code == 200, "a fresh code is refused")
	r := vfParse(w)
	m := vfJWT(s, r.IDToken)
	vsym.Assert(m["aud"] == id && m["iss"] == "https://idp.x", "the identity token is for somebody else")
	if nonce != "" {
		vsym.Assert(m["nonce"] == nonce, "nonce")
	}
	vfCheckClaims(m, scope)
	w = vfUserInfo(s, r.AccessToken)
	vsym.Assert(w.code == 200, "a fresh access token is refused")
	info := map[string]any{}
	vsym.Assert(json.Unmarshal(w.body, &info) == nil, "user information cannot be read")
	vfCheckClaims(info, scope)
}

func vfIssue(s *ProviderServer, id, redirect, scope string) string {
	w := &vfW18{}
	s.ServeAuthorization(w, vfGet("/authorization", url.Values{"response_type": {"code"}, "client_id": {id}, "redirect_uri": {redirect}, "scope": {scope}}, vfUserClaims()))
	loc, err := url.Parse(w.Header().Get("Location"))
	vsym.Assert(w.code == 302 && err == nil, "redirect")
	return loc.Query().Get("code")
}

// Any sequence of token requests, the first at any time.
func VerifP18Exchange() {
	s := vfSrv()
	owner := map[string]string{}
	codes := []string{vfIssue(s, "B", "https://b.x/cb", "openid"), vfIssue(s, "A", "https://a.x/cb", "openid email"), "bm9wZQ==", ""}
	owner[codes[0]], owner[codes[1]] = "B", "A"
	used := map[string]bool{}
	ats := map[string]bool{}
	wait := vsym.Int64("wait")
	vsym.Assume(vsym.And(wait >= 0, wait <= 400))
	vsym.Advance(int(wait))
	N := 1 + vsym.Choose("requests", vsym.Param("N", 2))
	for i := 0; i < N; i++ {
		var code, id, secret, redirect string
		method, grant := "POST", "authorization_code"
		if i == N-1 {
			code = codes[vsym.Choose("code", 4)]
			id = vsym.Pick("client", "B", "C", "A", "D")
			secret, redirect = "s"+id, "https://b.x/cb"
			if id == "A" {
				redirect = "https://a.x/cb"
			}
			switch vsym.Choose("defect", 5) {
			case 1:
				secret = vsym.Pick("secret", "sB", "sC", "sA", "")
			case 2:
				redirect = vsym.Pick("redirect", "https://b.x/cb", "https://a.x/cb", "https://evil/")
			case 3:
				grant = "refresh_token"
			case 4:
				method = "GET"
			}
		} else {
			code = codes[vsym.Choose("code", 2)]
			id = vsym.Pick("client", "B", "C")
			secret, redirect = "s"+id, "https://b.x/cb"
		}
		w := &vfW18{}
		q := url.Values{"grant_type": {grant}, "code": {code}, "client_id": {id}, "client_secret": {secret}, "redirect_uri": {redirect}}
		if method == "POST" {
			s.ServeToken(w, vfPost("/token", q))
		} else {
			s.ServeToken(w, vfGet("/token", q, nil))
		}
		cl := vfClientByID(id)
		if w.code == 200 {
			vsym.Assert(owner[code] != "", "a code that was never issued is exchanged")
			vsym.Assert(!used[code], "a code is exchanged twice")
			vsym.Assert(owner[code] == id, "a code is exchanged for another client")
			vsym.Assert(cl != nil && cl.Secret == secret, "a code is exchanged without the client's secret")
			vsym.Assert(vfHas(redirect, cl.RedirectURI), "a code is exchanged with an address that is not registered")
			vsym.Assert(wait <= 121, "an expired code is exchanged")
			vsym.Assert(method == "POST" && grant == "authorization_code", "method and grant type")
			r := vfParse(w)
			vsym.Assert(!ats[r.AccessToken] && r.AccessToken != "", "access token")
			ats[r.AccessToken] = true
			used[code] = true
			vsym.Reach("exchanged")
			continue
		}
		vsym.Assert(w.code >= 400 && !strings.Contains(string(w.body), "token"), "a refused request returns tokens")
		if owner[code] == "" || method != "POST" || grant != "authorization_code" {
			continue
		}
		switch {
		case used[code]:
			vsym.Reach("used")
		case wait > 121:
			vsym.Reach("expired")
		case cl == nil || cl.ID != owner[code]:
			vsym.Reach("wrongclient")
		case cl.Secret != secret:
			vsym.Reach("wrongsecret")
		case !vfHas(redirect, cl.RedirectURI):
			vsym.Reach("wrongredirect")
		}
	}
}

// Any pair of user information requests, at any times.
func VerifP18UserInfo() {
	s := vfSrv()
	r := vfParse(vfExchange(s, vfIssue(s, "A", "https://a.x/cb", "openid email"), "A", "sA", "https://a.x/cb"))
	r2 := vfParse(vfExchange(s, vfIssue(s, "B", "https://b.x/cb", "openid"), "B", "sB", "https://b.x/cb"))
	vsym.Assert(r.AccessToken != r2.AccessToken, "two codes, one access token")
	used := map[string]bool{}
	at := int64(0)
	for i := 0; i < 2; i++ {
		wait := vsym.Int64("wait")
		vsym.Assume(vsym.And(wait >= 0, wait <= 300))
		vsym.Advance(int(wait))
		at += wait
		tok := vsym.Pick("token", r.AccessToken, r2.AccessToken, r.IDToken, "nope", "")
		scheme := "Bearer "
		if i == 0 {
			scheme = vsym.Pick("scheme", "Bearer ", "bearer ", "Basic ", "")
		}
		w := &vfW18{}
		req := vfGet("/userinfo", nil, nil)
		req.Header.Set("Authorization", scheme+tok)
		s.ServeUserInfo(w, req)
		if w.code != 200 {
			vsym.Assert(!strings.Contains(string(w.body), "u@x"), "a refused request returns user information")
			if used[tok] {
				vsym.Reach("again")
			} else if at > 121 {
				vsym.Reach("expired")
			}
			continue
		}
		vsym.Assert(tok == r.AccessToken || tok == r2.AccessToken, "user information without an access token")
		vsym.Assert(!used[tok], "an access token is used twice")
		vsym.Assert(at <= 121, "an expired access token is used")
		used[tok] = true
		m := map[string]any{}
		vsym.Assert(json.Unmarshal(w.body, &m) == nil, "user information cannot be read")
		sc := "openid"
		if tok == r.AccessToken {
			sc = "openid email"
		}
		vfCheckClaims(m, sc)
		vsym.Reach("answered")
	}
}

// Two requests at the same time.
func VerifP18Race() {
	vsym.Explore(vsym.Param("P", 2))
	vsym.DetectRaces()
	s := vfSrv()
	code := vfIssue(s, "A", "https://a.x/cb", "openid")
	what := vsym.Choose("what", 3)
	at := ""
	if what != 0 {
		at = vfParse(vfExchange(s, code, "A", "sA", "https://a.x/cb")).AccessToken
	}
	code2 := vfIssue(s, "B", "https://b.x/cb", "openid")
	var w [2]*vfW18
	var wg sync.WaitGroup
	wg.Add(2)
	for i := range w {
		go func() {
			defer wg.Done()
			switch {
			case what == 0:
				w[i] = vfExchange(s, code, "A", "sA", "https://a.x/cb")
			case what == 1 || i == 0:
				w[i] = vfUserInfo(s, at)
			default:
				w[i] = vfExchange(s, code2, "B", "sB", "https://b.x/cb")
			}
		}()
	}
	wg.Wait()
	n := 0
	for i := range w {
		if w[i].code == 200 {
			n++
		}
	}
	if what == 2 {
		vsym.Assert(n == 2, "requests at the same time spoil each other")
	} else {
		vsym.Assert(n == 1, "a code or an access token is used twice by requests at the same time")
	}
	vsym.Reach("one")
}
