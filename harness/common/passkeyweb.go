//verif:use jwt.go
//verif:use store.go
//verif:hook crypto/ecdsa VerifyASN1
//verif:hook crypto/rsa VerifyPKCS1v15
//verif:assume authenticators' signatures are ideal: one verifies only with the key that made it, for the same digest
package common

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfLog struct{}

func (vfLog) Errorf(string, ...any) {}

type vfResp struct {
	h    http.Header
	code int
	body bytes.Buffer
}

func (r *vfResp) Header() http.Header { return r.h }
func (r *vfResp) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *vfResp) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	return r.body.Write(b)
}

type vfDBType = struct {
	Handles  map[string]*user
	Subjects map[string]string
}

// vfCurve knows the points that are keys.
type vfCurve struct{ *elliptic.CurveParams }

func (vfCurve) IsOnCurve(x, y *big.Int) bool { return x.Sign() > 0 && y.Int64() == 1 }

type vfSig struct {
	key    int
	digest string
}

type vfPK struct {
	store  *vfStore
	keys   *vfKeys
	tm     *tokenmanager.TokenManager
	other  *cookiemanager.CookieManager
	own    *cookiemanager.CookieManager
	m      *Manager
	acl    *[]string
	every  time.Duration
	claims jwt.MapClaims // of ManageKeys
	logins int
	events []string
	mu     sync.Mutex
	sigs   []vfSig
	sid    string
}

func (f *vfPK) Record(s string) {
	f.mu.Lock()
	f.events = append(f.events, s)
	f.mu.Unlock()
}

func (f *vfPK) RequestLogin(w http.ResponseWriter, req *http.Request, origURL string, opts ...idp.Option) {
	f.mu.Lock()
	f.logins++
	f.mu.Unlock()
	w.WriteHeader(302)
}

// vfCloneDB is how a gob is decoded: the elements of maps are new, but the
// maps are not.
func vfCloneDB(d, s *vfDBType) {
	if len(s.Handles) > 0 && d.Handles == nil {
		d.Handles = map[string]*user{}
	}
	if len(s.Subjects) > 0 && d.Subjects == nil {
		d.Subjects = map[string]string{}
	}
	for k, v := range s.Subjects {
		d.Subjects[k] = v
	}
	for k, v := range s.Handles {
		u := &user{Handle: append(Bytes(nil), v.Handle...)}
		if v.Claims != nil {
			u.Claims = map[string]any{}
			for k, v := range v.Claims {
				u.Claims[k] = v
			}
		}
		for _, key := range v.Keys {
			c := *key
			c.ID, c.PublicKey, c.RPIDHash = append(Bytes(nil), key.ID...), append(Bytes(nil), key.PublicKey...), append(Bytes(nil), key.RPIDHash...)
			c.Transports = append([]string(nil), key.Transports...)
			u.Keys = append(u.Keys, &c)
		}
		d.Handles[k] = u
	}
}

const vfHost = "login.x"

func vfNewPK(acl *[]string, every time.Duration) *vfPK {
	f := &vfPK{store: &vfStore{}, keys: &vfKeys{}, acl: acl, every: every}
	f.keys.install()
	p256 := vfCurve{&elliptic.CurveParams{Name: "P-256", BitSize: 256}}
	elliptic.VerifHook_P256 = func() elliptic.Curve { return p256 }
	f.store.fresh = func(file string) any {
		if file == passkeyFile {
			return &vfDBType{}
		}
		return new([]byte)
	}
	f.store.clone = func(dst, src any) {
		if s, ok := src.(*[]byte); ok {
			if err := json.Unmarshal(*s, dst); err != nil {
				panic(err)
			}
			return
		}
		if d, ok := dst.(*[]byte); ok {
			b, err := json.Marshal(src)
			if err != nil {
				panic(err)
			}
			*d = b
			return
		}
		vfCloneDB(dst.(*vfDBType), src.(*vfDBType))
	}
	f.store.install()
	check := func(id int64, digest, sig []byte) bool {
		f.mu.Lock()
		defer f.mu.Unlock()
		if len(sig) != 2 || int(sig[1]) >= len(f.sigs) {
			return false
		}
		s := f.sigs[sig[1]]
		return int64(s.key) == id-100 && s.digest == string(digest)
	}
	ecdsa.VerifHook_VerifyASN1 = func(pub *ecdsa.PublicKey, hash, sig []byte) bool {
		return check(pub.X.Int64(), hash, sig)
	}
	rsa.VerifHook_VerifyPKCS1v15 = func(pub *rsa.PublicKey, hash crypto.Hash, hashed, sig []byte) error {
		if hash != crypto.SHA256 || !check(pub.N.Int64(), hashed, sig) {
			return errors.New("verification error")
		}
		return nil
	}
	tm, err := tokenmanager.New(&storage.Storage{}, nil, vfLog{})
	vsym.Assert(err == nil, "no token manager")
	f.tm = tm
	f.other = cookiemanager.New(tm, "idp", "x", "https://iss/")
	f.own = cookiemanager.New(tm, "passkey", "x", "https://iss/")
	vsym.Assert(f.start() == nil, "no passkey manager")
	return f
}

func (f *vfPK) start() error {
	m, err := NewManager(Config{
		Store:              &storage.Storage{},
		Other:              f,
		RefreshInterval:    f.every,
		Endpoint:           "https://" + vfHost + "/.sso/login",
		EventRecorder:      f,
		CookieManager:      f.own,
		OtherCookieManager: f.other,
		TokenManager:       f.tm,
		ClaimsFromCtx:      func(context.Context) jwt.MapClaims { return f.claims },
		Logger:             vfLog{},
	})
	if err != nil {
		return err
	}
	m.SetACL(f.acl)
	f.m = m
	return nil
}

func vfCookie(w *vfResp, name string) string {
	for _, c := range (&http.Response{Header: w.h}).Cookies() {
		if c.Name == name {
			return c.Value
		}
	}
	return ""
}

const vfAuth = "TLSPROXYAUTH"

// cookie returns the cookie of a user who logged in with the identity provider.
func (f *vfPK) cookie(cm *cookiemanager.CookieManager, email string) string {
	w := &vfResp{h: http.Header{}}
	vsym.Assert(cm.SetAuthTokenCookie(w, "id of "+email, email, "session", vfHost, nil) == nil, "no cookie")
	c := vfCookie(w, vfAuth)
	vsym.Assert(c != "", "no cookie")
	return c
}

// redirect returns a redirect token.
func (f *vfPK) redirect() string {
	h := http.Header{}
	if f.sid != "" {
		h.Set("Cookie", tokenmanager.SessionIDCookieName+"="+f.sid)
	}
	w := &vfResp{h: http.Header{}}
	tok, _, err := f.tm.URLToken(w, &http.Request{Header: h}, &url.URL{Scheme: "https", Host: "app.x", Path: "/p"}, nil)
	vsym.Assert(err == nil, "no redirect token")
	if f.sid == "" {
		f.sid = vfCookie(w, tokenmanager.SessionIDCookieName)
	}
	return tok
}

func (f *vfPK) request(method, get string, form url.Values, cookie string, csrf bool) *http.Request {
	req := &http.Request{Method: method, Host: vfHost, Header: http.Header{}, URL: &url.URL{Path: "/.sso/login"}}
	q := url.Values{}
	q.Set("get", get)
	if csrf {
		req.Header.Set("x-csrf-check", "1")
	}
	c := tokenmanager.SessionIDCookieName + "=" + f.sid
	if cookie != "" {
		c += "; " + vfAuth + "=" + cookie
	}
	req.Header.Set("Cookie", c)
	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	if method != "POST" {
		for k, v := range form {
			q[k] = v
		}
	}
	req.URL.RawQuery = q.Encode()
	req.Body = io.NopCloser(strings.NewReader(form.Encode()))
	return req
}

// callback has HandleCallback handle a request.
func (f *vfPK) callback(method, get string, form url.Values, cookie string, csrf bool) *vfResp {
	if form == nil {
		form = url.Values{}
	}
	form.Set("redirect", f.redirect())
	w := &vfResp{h: http.Header{}}
	f.m.HandleCallback(w, f.request(method, get, form, cookie, csrf))
	return w
}

// manage has ManageKeys handle a request of a user who logged in with a key.
func (f *vfPK) manage(method, get string, form url.Values, claims jwt.MapClaims, csrf bool) *vfResp {
	f.claims = claims
	w := &vfResp{h: http.Header{}}
	f.m.ManageKeys(w, f.request(method, get, form, "", csrf))
	return w
}

// mine are the claims of a user who just logged in with a key.
func (f *vfPK) mine(email string, key int) jwt.MapClaims {
	hh := sha256.Sum256([]byte(vfHost))
	kh := sha256.Sum256([]byte(vfKeyIDs[key]))
	return jwt.MapClaims{"sub": "id of " + email, "email": email, "sid": "session", "iat": float64(time.Now().Unix()), "hhash": hex.EncodeToString(hh[:]), "passkey_hash": hex.EncodeToString(kh[:])}
}

func (f *vfPK) challengeOf(w *vfResp) (challenge, handle string) {
	vsym.Assert(w.code == 200, "no options")
	var v struct {
		Challenge []int `json:"challenge"`
		User      struct {
			ID []int `json:"id"`
		} `json:"user"`
		UV  string `json:"userVerification"`
		Sel struct {
			UV string `json:"userVerification"`
		} `json:"authenticatorSelection"`
	}
	vsym.Assert(json.Unmarshal(w.body.Bytes(), &v) == nil, "invalid options")
	vsym.Assert(len(v.Challenge) >= 16, "short challenge")
	vsym.Assert(v.UV == "required" || v.Sel.UV == "required", "user verification is not required")
	enc := func(a []int) string {
		var b []byte
		for _, n := range a {
			b = append(b, byte(n))
		}
		return base64.RawURLEncoding.EncodeToString(b)
	}
	return enc(v.Challenge), enc(v.User.ID)
}

// Three keys: one of each kind, and one more.
var vfKeyIDs = []string{"key zero", "key one", "key two"}

func vfCOSE(k int) []byte {
	x := byte(100 + k)
	if k == 1 {
		return []byte{0xa4, 1, 3, 3, 0x39, 1, 0, 0x20, 0x41, x, 0x21, 0x1a, 0, 1, 0, 1}
	}
	return []byte{0xa5, 1, 2, 3, 0x26, 0x20, 1, 0x21, 0x41, x, 0x22, 0x41, 1}
}

func vfAuthData(rp string, flags byte, key int) []byte {
	h := sha256.Sum256([]byte(rp))
	b := append([]byte{}, h[:]...)
	b = append(b, flags, 0, 0, 0, 1)
	if key >= 0 {
		b = append(b, make([]byte, 16)...)
		b = append(b, 0, byte(len(vfKeyIDs[key])))
		b = append(b, vfKeyIDs[key]...)
		b = append(b, vfCOSE(key)...)
	}
	return b
}

func vfClientData(typ, challenge, origin string) []byte {
	b, err := json.Marshal(map[string]any{"type": typ, "challenge": challenge, "origin": origin})
	if err != nil {
		panic(err)
	}
	return b
}

func vfAttestation(cd, authData []byte) string {
	o := []byte("\xa3\x63fmt\x64none\x67attStmt\xa0\x68authData\x59")
	o = append(o, byte(len(authData)>>8), byte(len(authData)))
	o = append(o, authData...)
	b, err := json.Marshal(map[string]any{"clientDataJSON": cd, "attestationObject": o, "transports": []string{"usb"}})
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (f *vfPK) sign(key int, authData, cd []byte) []byte {
	h := sha256.Sum256(cd)
	d := sha256.Sum256(append(append([]byte{}, authData...), h[:]...))
	f.mu.Lock()
	defer f.mu.Unlock()
	f.sigs = append(f.sigs, vfSig{key, string(d[:])})
	return []byte{0x30, byte(len(f.sigs) - 1)}
}

type vfAssertion struct {
	key               int
	cd, authData, sig []byte
	handle            string
	loginID           string
}

func (a vfAssertion) args() url.Values {
	m := map[string]any{
		"id":                base64.RawURLEncoding.EncodeToString([]byte(vfKeyIDs[a.key])),
		"clientDataJSON":    a.cd,
		"authenticatorData": a.authData,
		"signature":         a.sig,
		"loginId":           a.loginID,
	}
	if a.handle != "" {
		b, err := base64.RawURLEncoding.DecodeString(a.handle)
		if err != nil {
			panic(err)
		}
		m["userHandle"] = b
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return url.Values{"args": {string(b)}}
}

// who returns the user that a response logs in.
func (f *vfPK) who(w *vfResp) string {
	c := vfCookie(w, vfAuth)
	if c == "" {
		vsym.Assert(!strings.Contains(w.body.String(), `"result":"ok"`), "a refused request looks good")
		return ""
	}
	tok, err := f.own.ValidateAuthTokenCookie(&http.Request{Header: http.Header{"Cookie": {vfAuth + "=" + c}}})
	vsym.Assert(err == nil, "invalid cookie")
	mc := tok.Claims.(jwt.MapClaims)
	email, _ := mc["email"].(string)
	vsym.Assert(email != "" && mc["sub"] == "id of "+email, "the cookie is for a mix of users")
	hh := sha256.Sum256([]byte("app.x"))
	vsym.Assert(mc["hhash"] == hex.EncodeToString(hh[:]), "the cookie is for another service")
	return email
}

func (f *vfPK) keyOf(w *vfResp) string {
	tok, err := f.own.ValidateAuthTokenCookie(&http.Request{Header: http.Header{"Cookie": {vfAuth + "=" + vfCookie(w, vfAuth)}}})
	vsym.Assert(err == nil, "invalid cookie")
	s, _ := tok.Claims.(jwt.MapClaims)["passkey_hash"].(string)
	return s
}

func vfHash(key int) string {
	h := sha256.Sum256([]byte(vfKeyIDs[key]))
	return hex.EncodeToString(h[:])
}

const vfOrigin = "https://" + vfHost

// register makes a proper registration with AddKey, and returns the user's handle.
func (f *vfPK) register(email string, key int) (*vfResp, string) {
	cookie := f.cookie(f.other, email)
	c, handle := f.challengeOf(f.callback("POST", "AttestationOptions", nil, cookie, true))
	args := vfAttestation(vfClientData("webauthn.create", c, vfOrigin), vfAuthData(vfHost, 0x45, key))
	return f.callback("POST", "AddKey", url.Values{"args": {args}}, cookie, true), handle
}

// login makes a proper attempt to log in.
func (f *vfPK) login(handle, loginID string, key int) *vfResp {
	c, _ := f.challengeOf(f.callback("POST", "AssertionOptions", url.Values{"loginId": {loginID}}, "", true))
	a := vfAssertion{key: key, handle: handle, loginID: loginID, cd: vfClientData("webauthn.get", c, vfOrigin), authData: vfAuthData(vfHost, 5, -1)}
	a.sig = f.sign(key, a.authData, a.cd)
	return f.callback("POST", "Check", a.args(), "", true)
}
