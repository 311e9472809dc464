//verif:pkg proxy/internal/oidc
//verif:hook net/http (*Client).Do
//verif:unit name=state entry=VerifP19State share=3 synctest q.N=1 t.N=2 reach=accepted,expired,nonce,foreign
//verif:unit name=identity entry=VerifP19Identity share=2 synctest q.N=1 t.N=2 reach=accepted,unverified,domain,userinfo
//verif:unit name=again entry=VerifP19Again share=2 reach=first,second
//verif:unit name=race entry=VerifP19Race share=1 race reach=one
//verif:assume the identity provider's answers are those the configured token and user information endpoints gave; nonces and code verifiers are unguessable and distinct (the generator is a counter)
//verif:note two logins open, callbacks naming either's state or none with any nonce cookie, at any second up to 10 minutes after the login; identity tokens of either login, of none or of a third, or user information; any combination of e-mail, verified flag and hosted domain
package oidc

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfW struct {
	h    http.Header
	code int
}

func (w *vfW) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *vfW) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	return len(b), nil
}
func (w *vfW) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}

// vfSession is a session that was set.
type vfSession struct{ sub, email, sid, host string }

// vfCM records the sessions. It stands for one browser's cookies.
type vfCM struct {
	mu       sync.Mutex
	nonce    string
	sessions []vfSession
	fail     bool
}

func (c *vfCM) SetAuthTokenCookie(w http.ResponseWriter, userID, email, sessionID, host string, extra map[string]any) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.fail {
		return errors.New("cannot make a token")
	}
	c.sessions = append(c.sessions, vfSession{userID, email, sessionID, host})
	return nil
}
func (c *vfCM) SetNonce(w http.ResponseWriter, nonce string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nonce = nonce
}
func (c *vfCM) Nonce(w http.ResponseWriter, req *http.Request) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nonce
}
func (c *vfCM) ClearCookies(w http.ResponseWriter) error { return nil }

type vfRec struct{}

func (vfRec) Record(string) {}

// vfIdP stands for the identity provider's endpoints.
type vfIdP struct {
	mu       sync.Mutex
	token    string // id token claims, "" for none
	typ      string
	info     string
	codes    []string
	verifier []string
	broken   int
}

func (i *vfIdP) do(c *http.Client, req *http.Request) (*http.Response, error) {
	i.mu.Lock()
	defer i.mu.Unlock()
	body := ""
	switch req.URL.Path {
	case "/token":
		b, _ := io.ReadAll(req.Body)
		q, err := url.ParseQuery(string(b))
		vsym.Assert(err == nil, "the token request cannot be parsed")
		i.codes = append(i.codes, q.Get("code"))
		i.verifier = append(i.verifier, q.Get("code_verifier"))
		if i.broken == 1 {
			return nil, errors.New("no answer")
		}
		m := map[string]string{"access_token": "AT", "token_type": i.typ}
		if i.token != "" {
			e := base64.RawURLEncoding.EncodeToString
			m["id_token"] = e([]byte(`{"alg":"RS256"}`)) + "." + e([]byte(i.token)) + "." + e([]byte("sig"))
		}
		j, _ := json.Marshal(m)
		body = string(j)
	case "/userinfo":
		vsym.Assert(req.Header.Get("Authorization") == "Bearer AT", "user information asked for with another token")
		body = i.info
	}
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(body))}, nil
}

func (i *vfIdP) install() { http.VerifHook_Client_Do = i.do }

type vfLogin struct{ state, challenge, url, host string }

func vfQuery(u string) url.Values {
	p, err := url.Parse(u)
	vsym.Assert(err == nil, "redirect")
	return p.Query()
}

func vfStart(p *ProviderClient, cm *vfCM, u, host string) vfLogin {
	w := &vfW{}
	req := &http.Request{Method: "GET", URL: &url.URL{Scheme: "https", Host: "sso.x", Path: "/login"}, Host: "sso.x", Header: http.Header{}}
	p.RequestLogin(w, req, u)
	vsym.Assert(w.code == 302, "no login redirect")
	q := vfQuery(w.Header().Get("Location"))
	l := vfLogin{q.Get("state"), q.Get("code_challenge"), u, host}
	vsym.Assert(l.state != "" && l.challenge != "" && q.Get("nonce") == l.state && q.Get("code_challenge_method") == "S256", "login request")
	vsym.Assert(cm.nonce == l.state, "the browser is not given the login's nonce")
	return l
}

func vfCall(p *ProviderClient, state, code string) *vfW {
	w := &vfW{}
	req := &http.Request{Method: "GET", URL: &url.URL{Scheme: "https", Host: "sso.x", Path: "/cb", RawQuery: url.Values{"state": {state}, "code": {code}}.Encode()}, Host: "sso.x", Header: http.Header{}}
	p.HandleCallback(w, req)
	return w
}

func vfNew(cm *vfCM, info bool, hd string) *ProviderClient {
	c := Config{AuthEndpoint: "https://idp/auth", TokenEndpoint: "https://idp/token", RedirectURL: "https://sso.x/cb", ClientID: "ID", ClientSecret: "S", HostedDomain: hd}
	if info {
		c.UserinfoEndpoint = "https://idp/userinfo"
	}
	p, err := New(c, vfRec{}, cm)
	vsym.Assert(err == nil, "New")
	return p
}

func VerifP19State() { vfCallback(false) }

func VerifP19Identity() { vfCallback(true) }

func vfCallback(who bool) {
	cm, idp := &vfCM{}, &vfIdP{}
	idp.install()
	hd, info := "x", false
	if who {
		hd = vsym.Pick("hd", "", "*", "x")
		info = vsym.Bool("hasInfo")
	}
	p := vfNew(cm, info, hd)
	a := vfStart(p, cm, "https://a.x/1", "a.x")
	b := vfStart(p, cm, "https://b.x/2", "b.x")
	logins := map[string]*vfLogin{a.state: &a, b.state: &b}
	at := int64(0)
	used := map[string]bool{}
	N := vsym.Param("N", 1)
	for n := 0; n < N; n++ {
		var adv int64
		if n == 0 && !who || n == 1 && who {
			adv = vsym.Int64("wait")
			vsym.Assume(vsym.And(adv >= 0, adv <= 600))
			vsym.Advance(int(adv))
		}
		at += adv
		state := a.state
		if who {
			if n > 0 {
				state = b.state
			}
			cm.nonce = state
		} else {
			state = vsym.Pick("state", a.state, b.state, "", "deadbeef")
			cm.nonce = vsym.Pick("cookie", a.state, b.state, "", "deadbeef")
		}
		tokNonce := vsym.Pick("tokenNonce", a.state, b.state, "", "deadbeef")
		claims := map[string]any{"sub": "1", "iss": "https://idp"}
		email := "u@x"
		verified := 1
		thd := "x"
		identity := 0
		if who {
			identity = vsym.Choose("identity", 7)
		}
		switch identity {
		case 0:
		case 1:
			email = ""
		case 2:
			verified = 0
		case 3:
			verified = -1
		case 4:
			thd = ""
		case 5:
			thd = vsym.Pick("otherHD", "other", "ax", "x.y", "a.x", "X", "*", " x")
		case 6:
			verified, thd = 0, ""
		}
		if email != "" {
			claims["email"] = email
		}
		if verified >= 0 {
			claims["email_verified"] = verified == 1
		}
		if thd != "" {
			claims["hd"] = thd
		}
		if tokNonce != "" {
			claims["nonce"] = tokNonce
		}
		j, _ := json.Marshal(claims)
		idp.token, idp.info = string(j), ""
		idp.codes, idp.verifier = nil, nil
		idp.typ = "Bearer"
		useInfo := false
		if who && vsym.Bool("fromInfo") {
			useInfo = true
			idp.token, idp.info = "", string(j)
			idp.typ = vsym.Pick("typ", "Bearer", "", "DPoP")
		}
		nBefore := len(cm.sessions)
		w := vfCall(p, state, "CODE")
		got := len(cm.sessions) - nBefore
		l := logins[state]
		for _, v := range idp.verifier {
			vsym.Assert(l != nil, "a code is exchanged for a login that was not started")
			h := sha256.Sum256([]byte(v))
			vsym.Assert(base64.RawURLEncoding.EncodeToString(h[:]) == l.challenge, "a code is exchanged with another login's verifier")
		}
		if got != 0 {
			vsym.Assert(got == 1, "two sessions set by one callback")
			s := cm.sessions[nBefore]
			vsym.Assert(l != nil, "a callback with a state that was never issued logged somebody in")
			vsym.Assert(!used[state], "a callback with a used state logged somebody in")
			vsym.Assert(cm.nonce == state, "a callback in a browser that did not start the login logged somebody in")
			vsym.Assert(tokNonce == "" || tokNonce == state, "an identity issued for another login is accepted")
			vsym.Assert(at <= 301, "a callback for an expired login logged somebody in")
			vsym.Assert(email != "" && verified != 0, "an e-mail that is not verified is accepted")
			vsym.Assert(hd == "" || hd == "*" && thd != "" || hd == thd, "an e-mail of another domain is accepted")
			vsym.Assert(!useInfo || info && idp.typ != "DPoP", "user information nobody could have asked for")
			vsym.Assert(s.email == email && s.sub == "1" && s.host == l.host && s.sid == state, "the session is not the identity's")
			vsym.Assert(w.code == 302 && w.Header().Get("Location") == l.url, "the user is sent elsewhere than where the login started")
			vsym.Reach("accepted")
			if useInfo {
				vsym.Reach("userinfo")
			}
		} else {
			vsym.Assert(w.code != 302, "a rejected callback redirects")
			if l != nil && cm.nonce == state && !used[state] {
				if at > 301 {
					vsym.Reach("expired")
				} else if verified == 0 && hd == "" {
					vsym.Reach("unverified")
				} else if hd == "x" && thd == "other" {
					vsym.Reach("domain")
				}
			}
			if l == nil {
				vsym.Reach("foreign")
			} else if cm.nonce != state {
				vsym.Reach("nonce")
			}
		}
		if l != nil {
			used[state] = true
		}
	}
}

// A second callback with the same state, after a first one that went any way.
func VerifP19Again() {
	cm, idp := &vfCM{}, &vfIdP{typ: "Bearer"}
	idp.install()
	p := vfNew(cm, false, "x")
	a := vfStart(p, cm, "https://a.x/1", "a.x")
	good := `{"sub":"1","email":"u@x","hd":"x","nonce":"` + a.state + `"}`
	first := vsym.Choose("first", 9)
	idp.token = good
	switch first {
	case 0:
	case 1: // an attacker's browser: uses the state up
		cm.nonce = "deadbeef"
	case 2:
		idp.broken = 1
	case 3:
		idp.token = "{"
	case 4:
		idp.token = `{"sub":"1","email":"u@x","hd":"x","nonce":"deadbeef"}`
	case 5:
		idp.token = `{"sub":"1","email":"u@x","email_verified":false,"hd":"x","nonce":"` + a.state + `"}`
	case 6:
		idp.token = `{"sub":"1","email":"u@x","hd":"y","nonce":"` + a.state + `"}`
	case 7:
		cm.fail = true
	case 8:
		idp.token = ""
	}
	vfCall(p, a.state, "C1")
	vsym.Assert((len(cm.sessions) == 1) == (first == 0), "first callback")
	if first == 0 {
		vsym.Reach("first")
	} else {
		vsym.Reach("second")
	}
	idp.token, idp.broken, cm.fail, cm.nonce = good, 0, false, a.state
	n, k := len(cm.sessions), len(idp.codes)
	vfCall(p, a.state, "C2")
	vsym.Assert(len(cm.sessions) == n, "a state is used twice")
	vsym.Assert(len(idp.codes) == k, "a second code is exchanged for the same login")
}

// Two callbacks with the same state at the same time.
func VerifP19Race() {
	vsym.Explore(vsym.Param("P", 2))
	vsym.DetectRaces()
	cm, idp := &vfCM{}, &vfIdP{typ: "Bearer"}
	idp.install()
	p := vfNew(cm, false, "")
	a := vfStart(p, cm, "https://a.x/1", "a.x")
	b := vfStart(p, cm, "https://b.x/1", "b.x")
	cm.nonce = a.state
	idp.token = `{"sub":"1","email":"u@x"}`
	second := vsym.Pick("second", a.state, b.state)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); vfCall(p, a.state, "C1") }()
	go func() { defer wg.Done(); vfCall(p, second, "C2") }()
	wg.Wait()
	vsym.Assert(len(cm.sessions) <= 1, "two sessions for one login")
	vsym.Assert(len(idp.codes) <= 1, "two codes exchanged for one login")
	if len(cm.sessions) == 1 {
		vsym.Reach("one")
	}
}
