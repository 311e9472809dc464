//verif:pkg proxy/internal/tokenmanager
//verif:use jwt.go
//verif:use store.go
//verif:unit name=token entry=VerifP15Token share=2 synctest reach=nocookie,same,other,honoured,rejected,rotated,gone
//verif:unit name=sid entry=VerifP15SID share=2 reach=new,kept,honoured,rejected
//verif:note session identifiers of up to 3 arbitrary cookie characters, or one made by the proxy; URLs from a table of 8 that covers ports, escapes, query strings, fragments and internationalised names
package tokenmanager

import (
	"encoding/base64"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfLog struct{}

func (vfLog) Errorf(string, ...any) {}

type vfHW struct {
	h http.Header
}

func (w *vfHW) Header() http.Header         { return w.h }
func (w *vfHW) WriteHeader(int)             {}
func (w *vfHW) Write(b []byte) (int, error) { return len(b), nil }

func vfTM() *TokenManager {
	st := &vfStore{}
	k := &vfKeys{}
	k.install()
	st.fresh = func(string) any { return &tokenKeys{} }
	st.clone = func(dst, src any) {
		d, s := dst.(*tokenKeys), src.(*tokenKeys)
		d.Keys = nil
		for _, k := range s.Keys {
			d.Keys = append(d.Keys, &tokenKey{ID: k.ID, Type: k.Type, Key: append([]byte{}, k.Key...), CreationTime: k.CreationTime})
		}
	}
	st.install()
	tm, err := New(&storage.Storage{}, nil, vfLog{})
	vsym.Assert(err == nil, "start")
	return tm
}

func vfReq(sid *string) *http.Request {
	h := http.Header{}
	if sid != nil {
		h.Set("Cookie", SessionIDCookieName+"="+*sid)
	}
	return &http.Request{Method: "GET", Host: "a.x", Header: h, URL: &url.URL{Path: "/"}}
}

// vfSID returns the session identifier that a response sets.
func vfSID(w *vfHW) string {
	var r []string
	for _, c := range (&http.Response{Header: w.h}).Cookies() {
		if c.Name == SessionIDCookieName {
			r = append(r, c.Value)
			vsym.Assert(c.HttpOnly && c.Secure, "the session cookie is exposed")
		}
	}
	vsym.Assert(len(r) == 1, "number of session cookies")
	return r[0]
}

var vfURLs = []string{
	"https://a.x/",
	"https://a.x/p/q?r=1&s=%2F%20#f",
	"https://a.x:8443/%2e%2e/x",
	"https://xn--rksmrgs-5wao1o.example/å?ö=ä",
	"https://a.x/\"<>?redirect=https://b.x/",
	"https://a.x//b.x/%0d%0aSet-Cookie",
	"https://a.x/?u=a+b;c",
	"https://user@a.x/#?",
}

// A token made in one session and presented in another or the same.
func VerifP15Token() {
	tm := vfTM()
	raw := vfURLs[vsym.Choose("url", len(vfURLs))]
	u, err := url.Parse(raw)
	vsym.Assert(err == nil, "parse")
	want := u.String()
	w := &vfHW{h: http.Header{}}
	var extra map[string]any
	if vsym.Bool("extra") {
		extra = map[string]any{"email": "u@x", "url": "https://evil.x/", "sid": "z"}
	}
	tok, _, err := tm.URLToken(w, vfReq(nil), u, extra)
	vsym.Assert(err == nil, "URLToken")
	sid := vfSID(w)
	vsym.Assert(len(sid) >= 16, "short session identifier")
	w2 := &vfHW{h: http.Header{}}
	tok2, _, err := tm.URLToken(w2, vfReq(nil), &url.URL{Scheme: "https", Host: "b.x", Path: "/"}, nil)
	vsym.Assert(err == nil, "URLToken")
	sid2 := vfSID(w2)
	vsym.Assert(sid != sid2, "two sessions with the same identifier")

	ok := true
	var use *string
	switch vsym.Choose("session", 4) {
	case 0:
		vsym.Reach("nocookie")
		ok = false
	case 1:
		vsym.Reach("same")
		use = &sid
	case 2:
		vsym.Reach("other")
		use = &sid2
		ok = false
	case 3:
		e := ""
		use = &e
		ok = false
	}
	p, p2 := strings.Split(tok, "."), strings.Split(tok2, ".")
	vsym.Assert(len(p) == 3, "token format")
	b64 := func(s string) string { return base64.RawURLEncoding.EncodeToString([]byte(s)) }
	evil := b64(`{"sid":"` + sid + `","url":"https://evil.x/"}`)
	switch vsym.Choose("token", 11) {
	case 0:
	case 1: // another token's contents
		tok, ok = p[0]+"."+p2[1]+"."+p[2], false
	case 2:
		tok, ok = p[0]+"."+evil+"."+p[2], false
	case 3: // no signature
		tok, ok = b64(`{"alg":"none","typ":"JWT"}`)+"."+evil+".", false
	case 4:
		tok, ok = b64(`{"alg":"HS256","typ":"JWT"}`)+"."+evil+"."+p[2], false
	case 5: // a token of the same session that is not for redirection
		tok, err = tm.CreateToken(jwt.MapClaims{"sid": sid, "email": "u@x"}, "")
		ok = false
	case 6:
		tok, ok = "", false
	case 7: // key of somebody else
		other := &TokenManager{store: tm.store, logger: tm.logger}
		k, _ := createNewED25519TokenKey()
		other.keys.Keys = []*tokenKey{k}
		tok, _, err = other.URLToken(&vfHW{h: http.Header{}}, vfReq(&sid), u, nil)
		ok = false
	case 8: // expired
		tok, err = tm.CreateToken(jwt.MapClaims{"sid": sid, "url": want, "exp": time.Now().Add(-time.Hour).Unix()}, "")
		ok = false
	case 10: // bound to no session
		tok, err = tm.CreateToken(jwt.MapClaims{"url": want, "email": "u@x"}, "")
		ok = false
	case 9: // claims of other types
		tok, err = tm.CreateToken(jwt.MapClaims{"sid": sid, "url": []string{want}}, "")
		ok = false
	}
	vsym.Assert(err == nil, "cannot make the token")
	// Later.
	if vsym.Bool("rotated") {
		vsym.Reach("rotated")
		vsym.Advance(25 * 3600)
		tm.rotateKeys()
	}
	if vsym.Bool("gone") {
		// The key is gone for good.
		vsym.Reach("gone")
		for i := 0; i < 16; i++ {
			vsym.Advance(24 * 3600)
			tm.rotateKeys()
		}
		ok = false
	}
	w3 := &vfHW{h: http.Header{}}
	got, claims, err := tm.ValidateURLToken(w3, vfReq(use), tok)
	if !ok {
		vsym.Reach("rejected")
		vsym.Assert(err != nil, "a redirect token that must not count is honoured")
		return
	}
	vsym.Reach("honoured")
	vsym.Assert(err == nil && got != nil, "a good redirect token is rejected")
	vsym.Assert(got.String() == want, "the redirect token yields another URL")
	if extra != nil {
		vsym.Assert(claims["email"] == "u@x", "the login hint is lost")
	}
}

func vfCookieByte(b byte) bool {
	return vsym.Or(vsym.And(b >= 'a', b <= 'z'), vsym.And(b >= '0', b <= '9'), b == '-', b == '%')
}

// Arbitrary session identifiers on either side.
func VerifP15SID() {
	tm := vfTM()
	pick := func(n string) *string {
		if vsym.Bool(n + "?") {
			return nil
		}
		s := vsym.String(n, 0, 3)
		for i := 0; i < len(s); i++ {
			vsym.Assume(vfCookieByte(s[i]))
		}
		return &s
	}
	u := &url.URL{Scheme: "https", Host: "a.x", Path: "/p"}
	first := vsym.Pick("first", "abc", "a", "", "-")
	var mine *string
	w := &vfHW{h: http.Header{}}
	if vsym.Bool("has") {
		mine = &first
	}
	tok, _, err := tm.URLToken(w, vfReq(mine), u, nil)
	vsym.Assert(err == nil, "URLToken")
	sid := vfSID(w)
	if mine == nil {
		vsym.Reach("new")
		vsym.Assert(len(sid) >= 16, "short session identifier")
	} else {
		vsym.Reach("kept")
		vsym.Assert(sid == first, "the session changes")
	}
	theirs := pick("theirs")
	_, _, err = tm.ValidateURLToken(&vfHW{h: http.Header{}}, vfReq(theirs), tok)
	if theirs != nil && vsym.Eq(*theirs, sid) {
		vsym.Reach("honoured")
		vsym.Assert(err == nil, "a good redirect token is rejected")
	} else {
		vsym.Reach("rejected")
		vsym.Assert(err != nil, "a redirect token is honoured in another session")
	}
}
