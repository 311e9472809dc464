//verif:pkg proxy/internal/passkeys
//verif:use passkeyweb.go
//verif:hook encoding/json Unmarshal
//verif:hook github.com/fxamacker/cbor/v2 Unmarshal
//verif:unit name=login entry=VerifP23Login share=3 synctest reach=in,out,handle,loginid,refreshed
//verif:unit name=register entry=VerifP23Register share=4 q.PAIRS=0 t.PAIRS=1 synctest reach=in,out,manage,first
//verif:unit name=fields entry=VerifP23Fields share=2 synctest reach=in,out q.LEN=3 t.LEN=4
//verif:unit name=newkey entry=VerifP23NewKey share=2 synctest reach=in,out q.LEN=3 t.LEN=4
//verif:unit name=interval entry=VerifP23Interval share=1 synctest reach=in,refresh
//verif:unit name=history entry=VerifP23History share=3 synctest reach=added,deleted,failed,restarted q.N=3 t.N=4
//verif:unit name=twice entry=VerifP23Twice share=2 synctest race reach=once
//verif:note one or two deviations at a time from a proper ceremony, from a table that covers challenges (of the other kind, used, expired, of another user, made up), types, origins, relying parties, flags, keys, signers, signed data, user handles, sessions and request protection; the flags' other bits are P24's matter; waiting times around the limits. The origin is only checked when a key is registered: the test suite logs in from another one.
package passkeys

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	cbor "github.com/fxamacker/cbor/v2"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// vfDeviations chooses up to two deviations out of n.
func vfDeviations(n int) map[int]bool {
	a := vsym.Choose("first deviation", n+1)
	d := map[int]bool{a: true}
	if a > 0 && vsym.Param("PAIRS", 1) == 1 {
		if b := vsym.Choose("second deviation", a); b > 0 {
			d[b] = true
		}
	}
	return d
}

// Two users have a key each. Somebody tries to log in.
func VerifP23Login() {
	f := vfNewPK(nil, 0)
	w, ha := f.register("a@x", 0)
	vsym.Assert(f.who(w) == "a@x" && f.keyOf(w) == vfHash(0), "a user can't register")
	w, hb := f.register("b@x", 1)
	vsym.Assert(f.who(w) == "b@x" && f.keyOf(w) == vfHash(1), "a user can't register")
	vsym.Assert(ha != hb, "two users with the same handle")
	bCookie := f.cookie(f.other, "b@x")

	options := func() string {
		c, _ := f.challengeOf(f.callback("POST", "AssertionOptions", nil, "", true))
		return c
	}
	// Deviations.
	d := vfDeviations(29)
	ok := !d[8] && !d[9] && !d[23] && !d[24]
	var c string
	switch {
	case d[1]: // a challenge for a registration
		c, _ = f.challengeOf(f.callback("POST", "AttestationOptions", nil, bCookie, true))
		ok = false
	case d[2]: // used
		c = options()
		a := vfAssertion{key: 1, handle: hb, cd: vfClientData("webauthn.get", c, vfOrigin), authData: vfAuthData(vfHost, 5, -1)}
		a.sig = f.sign(1, a.authData, a.cd)
		vsym.Assert(f.who(f.callback("POST", "Check", a.args(), "", true)) == "b@x", "a user can't log in")
		ok = false
	case d[3]: // never issued
		options()
		c = base64.RawURLEncoding.EncodeToString(make([]byte, 32))
		ok = false
	case d[4]:
		options()
		c, ok = "", false
	case d[5]:
		c = options()
		sec := []int{299, 301, 1000}[vsym.Choose("wait", 3)]
		vsym.Advance(sec)
		if sec > 300 {
			ok = false
		}
	case d[6]: // used, without success
		c = options()
		a := vfAssertion{key: 1, handle: ha, cd: vfClientData("webauthn.get", c, vfOrigin), authData: vfAuthData(vfHost, 5, -1)}
		a.sig = f.sign(1, a.authData, a.cd)
		vsym.Assert(f.who(f.callback("POST", "Check", a.args(), "", true)) == "", "a user logs in with somebody else's key")
		ok = false
	default:
		options()
		c = options()
		options()
	}
	a := vfAssertion{key: 0, handle: ha}
	user := "a@x"
	typ, flags, rp := "webauthn.get", byte(5), vfHost
	if d[7] {
		typ = vsym.Pick("type", "webauthn.create", "", "payment.get")
		ok = false
	}
	if d[8] {
		flags = []byte{0, 1, 4, 0xfa}[vsym.Choose("flags", 4)]
	}
	if d[9] {
		rp = vsym.Pick("rp", "x", "evil.x", "")
	}
	a.authData = vfAuthData(rp, flags, -1)
	if d[10] {
		a.authData = a.authData[:36]
		ok = false
	}
	a.cd = vfClientData(typ, c, vfOrigin)
	if d[11] { // the other user's key
		a.key = 1
	}
	if d[12] { // nobody's key
		a.key = 2
	}
	if d[13] {
		a.handle = hb
		user = "b@x"
	}
	if d[14] {
		a.handle = base64.RawURLEncoding.EncodeToString([]byte("handle"))
		user = ""
	}
	if d[15] {
		a.handle, user = "", ""
	}
	if d[16] {
		a.loginID = "a@x"
		if a.handle == "" {
			user = "a@x"
			vsym.Reach("loginid")
		}
	}
	if d[17] {
		a.loginID = "b@x"
		if a.handle == "" {
			user = "b@x"
		}
	}
	if d[18] {
		a.loginID = "c@x"
		if a.handle == "" {
			user = ""
		}
	}
	ok = ok && (user == "a@x" && a.key == 0 || user == "b@x" && a.key == 1)
	signer, sd, sc := a.key, a.authData, a.cd
	if d[19] {
		signer = (a.key + 1) % 3
		ok = false
	}
	if d[20] {
		sd, ok = vfAuthData(vfHost, 5, 2), false
	}
	if d[21] {
		sc, ok = vfClientData("webauthn.get", c, "https://evil.x"), false
	}
	a.sig = f.sign(signer, sd, sc)
	if d[22] {
		a.sig, ok = nil, false
	}
	method := "POST"
	if d[23] {
		method = "GET"
	}
	csrf := !d[24]
	cookie := ""
	if d[25] {
		cookie = f.cookie(f.other, "a@x")
	}
	if d[26] {
		cookie = bCookie
	}
	if d[27] {
		vsym.Assert(f.start() == nil, "restart")
		ok = false // the challenges are gone
	}
	args := a.args()
	if d[28] {
		args, ok = url.Values{"args": {"null"}}, false
	}
	if d[29] {
		args, ok = url.Values{"args": {`{"id":[],"clientDataJSON":"AAAA"}`}}, false
	}
	n := f.store.saved
	w = f.callback(method, "Check", args, cookie, csrf)
	who := f.who(w)
	if !ok {
		vsym.Assert(who == "", "somebody logs in who shouldn't")
		vsym.Assert(f.store.saved == n, "a failed login changes the store")
		vsym.Reach("out")
		return
	}
	vsym.Assert(who != "", "a proper login is refused")
	vsym.Assert(who == user, "somebody logs in as somebody else")
	vsym.Assert(f.keyOf(w) == vfHash(a.key), "the session is for another key")
	vsym.Reach("in")
	if a.handle != "" {
		vsym.Reach("handle")
	}
	if d[25] {
		vsym.Reach("refreshed")
	}
	// The same again.
	vsym.Assert(f.who(f.callback(method, "Check", args, cookie, csrf)) == "", "an assertion is accepted twice")
}

// A user, or somebody else, registers a key.
func VerifP23Register() {
	acl := []string{"a@x", "@y"}
	f := vfNewPK(&acl, 0)
	w, hb := f.register("b@y", 1)
	vsym.Assert(f.who(w) == "b@y", "a user can't register")
	manage := vsym.Bool("manage") // or the first key
	email, has := "a@x", false
	if manage || vsym.Bool("has a key") {
		w, _ = f.register("a@x", 0)
		vsym.Assert(f.who(w) == "a@x", "a user can't register")
		has = true
	}
	d := vfDeviations(25)
	if d[1] {
		email = "c@x"
		has = false
	}
	if d[2] {
		email = "b@y"
		has = true
	}
	if d[3] {
		email = "c@x@y"
		has = false
	}
	allowed := email == "a@x" || email == "b@y"
	cookies := map[string]string{}
	claims := map[string]jwt.MapClaims{}
	for _, e := range []string{email, "b@y", "d@y"} {
		cookies[e] = f.cookie(f.other, e)
		claims[e] = f.mine(e, 0)
	}
	options := func(e string) (string, string) {
		if manage {
			return f.challengeOf(f.manage("POST", "AttestationOptions", nil, claims[e], true))
		}
		return f.challengeOf(f.callback("POST", "AttestationOptions", nil, cookies[e], true))
	}
	ok := (manage || allowed && !has) && !d[10] && !d[12] && !d[15] && !d[16] && !d[17] && !d[18] && !d[19] && !d[20]
	var c, handle string
	switch {
	case d[4]: // of an assertion
		c, _ = f.challengeOf(f.callback("POST", "AssertionOptions", nil, "", true))
		ok = false
	case d[5]: // of another user
		if email == "b@y" {
			return
		}
		c, handle = options("d@y")
		ok = false
	case d[6]:
		options(email)
		c = base64.RawURLEncoding.EncodeToString(make([]byte, 32))
		ok = false
	case d[7]:
		c, handle = options(email)
		sec := []int{299, 301, 500}[vsym.Choose("wait", 3)]
		vsym.Advance(sec)
		if sec > 300 {
			ok = false
		}
	case d[8]: // used
		c, handle = options(email)
		args := url.Values{"args": {vfAttestation(vfClientData("webauthn.create", c, vfOrigin), vfAuthData("evil.x", 0x45, 2))}}
		if manage {
			w = f.manage("POST", "AddKey", args, claims[email], true)
		} else {
			w = f.callback("POST", "AddKey", args, cookies[email], true)
		}
		vsym.Assert(w.code != 200, "a key is registered for another relying party")
		ok = false
	default:
		options(email)
		c, handle = options(email)
		options("d@y")
	}
	typ, origin, rp, flags, key := "webauthn.create", vfOrigin, vfHost, byte(0x45), 2
	if d[9] {
		typ = vsym.Pick("type", "webauthn.get", "")
		ok = false
	}
	if d[10] {
		origin = vsym.Pick("origin", "https://evil.x", "http://"+vfHost, "https://"+vfHost+":444", "https://sub."+vfHost, "")
	}
	if d[11] {
		rp, ok = vsym.Pick("rp", "x", "sub."+vfHost, ""), false
	}
	if d[12] {
		flags = []byte{0x40, 0x41, 0x44, 0x58}[vsym.Choose("flags", 4)]
	}
	ad := vfAuthData(rp, flags, key)
	if d[13] {
		ad, ok = vfAuthData(rp, flags&^0x40, -1), false
	}
	if d[14] {
		ad, ok = ad[:len(ad)-1], false
	}
	args := vfAttestation(vfClientData(typ, c, origin), ad)
	if d[15] {
		args = "{}"
	}
	if d[16] {
		args = `{"clientDataJSON":"bnVsbA==","attestationObject":"9g=="}`
	}
	method := "POST"
	if d[17] {
		method = "GET"
	}
	csrf := !d[18]
	cookie, cl := cookies[email], claims[email]
	if d[19] {
		cookie, cl = "", nil
	}
	if d[20] { // of a user who logged in in another way, or elsewhere
		cookie = f.cookie(f.own, email)
		h := sha256.Sum256([]byte("app.x"))
		cl = f.mine(email, 0)
		cl["hhash"] = hex.EncodeToString(h[:])
	}
	if d[21] && !d[20] && !d[19] { // of another session of the user, or another user
		vsym.Advance(10)
		cookie, cl = f.cookie(f.other, "d@y"), f.mine("d@y", 0)
		ok = false
	}
	if d[22] && manage && !d[19] { // an old session
		ok = ok && !d[7]
		vsym.Advance([]int{200, 601}[vsym.Choose("wait", 2)])
		if time.Since(time.Unix(int64(cl["iat"].(float64)), 0)) > 5*time.Minute {
			ok = false
		}
	}
	if d[23] {
		vsym.Assert(f.start() == nil, "restart")
		ok = false
	}
	failed := false
	if d[24] {
		f.store.fail = func(string, string) bool { failed = true; return true }
		ok = false
	}
	if d[25] {
		f.store.fail = func(op, _ string) bool { failed = op == "commit"; return failed }
		ok = false
	}
	n := f.store.saved
	if manage {
		w = f.manage(method, "AddKey", url.Values{"args": {args}}, cl, csrf)
		vsym.Assert(vfCookie(w, vfAuth) == "", "a cookie")
	} else {
		w = f.callback(method, "AddKey", url.Values{"args": {args}}, cookie, csrf)
		vsym.Assert((f.who(w) == "") == !ok, "a refused registration logs somebody in, or a proper one doesn't")
	}
	f.store.fail = nil
	vsym.Assert(w.code == 200 == ok, "a registration is refused or done that shouldn't")
	vsym.Assert(!manage || ok == strings.Contains(w.body.String(), `"result":"ok"`), "a registration is reported wrongly")
	vsym.Assert(ok || f.store.saved == n, "a refused registration changes the store")
	if ok && !manage {
		vsym.Assert(f.who(w) == email && f.keyOf(w) == vfHash(key), "a registration logs in somebody else")
		vsym.Reach("first")
	}
	if ok {
		vsym.Reach("in")
	} else {
		vsym.Reach("out")
	}
	if manage {
		vsym.Reach("manage")
	}
	// Nobody but that user can use the key.
	for _, e := range []string{email, "a@x", "b@y", "c@x", "d@y"} {
		if !ok && e != email || e == "c@x" && d[1] {
			continue
		}
		who := f.who(f.login("", e, key))
		if ok {
			vsym.Assert(who == "" || e == email && who == email, "a key is registered for somebody else")
			vsym.Assert(e != email || who == email, "a registered key doesn't work")
		} else if !failed {
			vsym.Assert(who == "", "a key works that wasn't registered")
		} else {
			vsym.Assert(who == "" || who == email && e == email, "a key is registered for somebody else")
		}
	}
	if ok {
		vsym.Assert(f.who(f.login(handle, "", key)) == email, "a registered key doesn't work")
	}
	vsym.Assert(!ok || f.who(f.login(hb, "", 1)) == "b@y", "another user's key doesn't work anymore")
}

// Logins need a recent login with the identity provider.
func VerifP23Interval() {
	f := vfNewPK(nil, time.Hour)
	w, ha := f.register("a@x", 0)
	vsym.Assert(f.who(w) == "a@x", "a user can't register")
	sec := []int{0, 3598, 3602, 7200, 80000}[vsym.Choose("wait", 5)]
	vsym.Advance(sec)
	refresh := vsym.Bool("refresh")
	c, _ := f.challengeOf(f.callback("POST", "AssertionOptions", nil, "", true))
	a := vfAssertion{key: 0, handle: ha, cd: vfClientData("webauthn.get", c, vfOrigin), authData: vfAuthData(vfHost, 5, -1)}
	a.sig = f.sign(0, a.authData, a.cd)
	cookie := ""
	if refresh {
		cookie = f.cookie(f.other, vsym.Pick("as", "a@x", "b@x"))
		refresh = cookie != "" && f.cookieIs(cookie, "a@x")
	}
	w = f.callback("POST", "Check", a.args(), cookie, true)
	who := f.who(w)
	// The time of a login is in whole seconds.
	if vsym.Or(refresh, sec < 3600) {
		vsym.Assert(who == "a@x", "a proper login is refused")
		vsym.Reach("in")
	}
	if vsym.And(!refresh, sec > 3600) {
		vsym.Assert(who == "", "somebody logs in who should first log in with the identity provider")
		vsym.Assert(strings.Contains(w.body.String(), `"result":"refresh"`), "no way to log in")
		vsym.Reach("refresh")
	}
}

func (f *vfPK) cookieIs(cookie, email string) bool {
	tok, err := f.other.ValidateAuthTokenCookie(&http.Request{Header: http.Header{"Cookie": {vfAuth + "=" + cookie}}})
	return err == nil && tok.Claims.(jwt.MapClaims)["email"] == email
}

// Keys are added and deleted, the store fails, and the proxy restarts.
func VerifP23History() {
	f := vfNewPK(nil, 0)
	w, ha := f.register("a@x", 0)
	vsym.Assert(f.who(w) == "a@x", "a user can't register")
	// Whether a key works: 0 no, 1 yes, 2 either.
	state := map[string]*[3]int{"a@x": {1, 0, 0}, "b@x": {0, 0, 0}}
	handles := map[string]string{"a@x": ha}
	failed := false
	armed, once := "", false
	f.store.fail = func(op, file string) bool {
		if file == passkeyFile && armed == op {
			armed = ""
			failed = true
			return true
		}
		return false
	}
	for i := 0; i < vsym.Param("N", 3); i++ {
		failed, armed = false, ""
		op := vsym.Choose("step", 5)
		if !once && op != 4 && vsym.Bool("fail") {
			armed = vsym.Pick("op", "open", "commit")
			once = true
		}
		switch op {
		case 0, 1: // add a key
			email, key := "a@x", 1
			if op == 1 {
				email, key = "b@x", 2
			}
			if state[email][key] == 1 {
				return
			}
			if op == 0 {
				claims := f.mine(email, 0)
				c, _ := f.challengeOf(f.manage("POST", "AttestationOptions", nil, claims, true))
				args := vfAttestation(vfClientData("webauthn.create", c, vfOrigin), vfAuthData(vfHost, 0x45, key))
				w = f.manage("POST", "AddKey", url.Values{"args": {args}}, claims, true)
			} else {
				var h string
				w, h = f.register(email, key)
				if w.code == 200 {
					handles[email] = h
				}
			}
			if w.code == 200 {
				vsym.Assert(!failed, "a registration is reported done when it failed")
				state[email][key] = 1
				vsym.Reach("added")
			} else {
				vsym.Assert(failed || state[email][key] == 2, "a registration fails")
				state[email][key] = 2
				vsym.Reach("failed")
			}
		case 2: // delete a key
			id := hex.EncodeToString([]byte(vfKeyIDs[1]))
			w = f.manage("POST", "DeleteKey", url.Values{"id": {id}}, f.mine("a@x", 0), true)
			if w.code == 200 {
				vsym.Assert(!failed || state["a@x"][1] == 0, "a deletion is reported done when it failed")
				state["a@x"][1] = 0
				vsym.Reach("deleted")
			} else {
				vsym.Assert(failed, "a deletion fails")
				if state["a@x"][1] != 0 {
					state["a@x"][1] = 2
				}
			}
		case 3: // a login
			w = f.login("", "a@x", 1)
			who := f.who(w)
			vsym.Assert(who == "" || who == "a@x" && state["a@x"][1] != 0, "a key works that shouldn't")
			vsym.Assert(who != "" || state["a@x"][1] != 1 || failed, "a key doesn't work that should")
		case 4:
			if f.start() == nil {
				vsym.Reach("restarted")
			}
		}
	}
	failed, armed = false, ""
	for _, email := range []string{"a@x", "b@x"} {
		for key := range vfKeyIDs {
			if key != 1 && (key == 0) != (email == "a@x") {
				continue
			}
			who := f.who(f.login(handles[email], email, key))
			vsym.Assert(who == "" || who == email, "a key logs in somebody else")
			s := state[email][key]
			vsym.Assert(who == "" || s != 0, "a key works that shouldn't")
			vsym.Assert(who != "" || s != 1, "a key doesn't work that should")
		}
	}
}

// The same assertion is presented twice at the same time.
func VerifP23Twice() {
	f := vfNewPK(nil, 0)
	w, ha := f.register("a@x", 0)
	vsym.Assert(f.who(w) == "a@x", "a user can't register")
	c, _ := f.challengeOf(f.callback("POST", "AssertionOptions", nil, "", true))
	a := vfAssertion{key: 0, handle: ha, cd: vfClientData("webauthn.get", c, vfOrigin), authData: vfAuthData(vfHost, 5, -1)}
	a.sig = f.sign(0, a.authData, a.cd)
	args := a.args()
	args.Set("redirect", f.redirect())
	vsym.DetectRaces()
	vsym.Explore(vsym.Param("PREEMPT", 1))
	res := make([]*vfResp, 2)
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		res[i] = &vfResp{h: http.Header{}}
		req := f.request("POST", "Check", args, "", true)
		go func() {
			defer wg.Done()
			f.m.HandleCallback(res[i], req)
		}()
	}
	wg.Wait()
	n := 0
	for _, w := range res {
		if f.who(w) == "a@x" {
			n++
		}
	}
	vsym.Assert(n == 1, "an assertion is accepted twice, or not at all")
	vsym.Reach("once")
}

// vfDecode makes the decoders return the given values for the given texts.
// They're set by the names of fields.
func vfDecode(texts map[string]map[string]any) {
	set := func(v any, m map[string]any) {
		e := reflect.ValueOf(v).Elem()
		for k, x := range m {
			f := e.FieldByName(k)
			f.Set(reflect.ValueOf(x).Convert(f.Type()))
		}
	}
	json.VerifHook_Unmarshal = func(b []byte, v any) error {
		if len(b) < 4 { // the texts are short
			for k, m := range texts {
				if string(b) == k {
					set(v, m)
					return nil
				}
			}
		}
		h := json.VerifHook_Unmarshal
		json.VerifHook_Unmarshal = nil
		defer func() { json.VerifHook_Unmarshal = h }()
		return json.Unmarshal(b, v)
	}
	cbor.VerifHook_Unmarshal = func(b []byte, v any) error {
		if len(b) < 4 {
			for k, m := range texts {
				if string(b) == k {
					set(v, m)
					return nil
				}
			}
		}
		h := cbor.VerifHook_Unmarshal
		cbor.VerifHook_Unmarshal = nil
		defer func() { cbor.VerifHook_Unmarshal = h }()
		return cbor.Unmarshal(b, v)
	}
}

// vfNear returns any string that differs from the given one in the last bytes
// at most.
func vfNear(name, s string) string {
	n := vsym.Param("LEN", 3)
	return s[:len(s)-n+1] + vsym.String(name, n-2, n)
}

// vfNearData returns authenticator data with any flags, and any last bytes in
// the hash of the relying party's name.
func vfNearData() (data []byte, proper bool) {
	d := vfAuthData(vfHost, 0, -1)
	want := string(d[:32])
	copy(d[29:], vsym.Bytes("hash", 3, 3))
	fl := vsym.Byte("flags")
	vsym.Assume(fl < 0x40)
	d[32] = fl
	return d, vsym.And(vsym.Eq(string(d[:32]), want), fl&5 == 5)
}

// What an assertion says is symbolic.
func VerifP23Fields() {
	f := vfNewPK(nil, 0)
	w, ha := f.register("a@x", 0)
	vsym.Assert(f.who(w) == "a@x", "a user can't register")
	w, hb := f.register("b@x", 1)
	vsym.Assert(f.who(w) == "b@x", "a user can't register")
	c, _ := f.challengeOf(f.callback("POST", "AssertionOptions", nil, "", true))
	ad, adok := vfNearData()
	typ := vfNear("type", "webauthn.get")
	ch := vfNear("challenge", c)
	key := vsym.Choose("key", 2)
	b64 := base64.RawURLEncoding.EncodeToString([]byte(vfKeyIDs[key]))
	handle, err := base64.RawURLEncoding.DecodeString([]string{ha, hb}[vsym.Choose("handle", 2)])
	vsym.Assert(err == nil, "handle")
	who := "a@x"
	if string(handle) != func() string { b, _ := base64.RawURLEncoding.DecodeString(ha); return string(b) }() {
		who = "b@x"
	}
	cd, sig := []byte("C"), []byte("S")
	vfDecode(map[string]map[string]any{
		"A": {"ID": b64, "ClientDataJSON": cd, "AuthenticatorData": ad, "Signature": sig, "UserHandle": handle},
		"C": {"Type": typ, "Challenge": ch, "Origin": vfOrigin},
	})
	good := vsym.Bool("signature")
	h := sha256.Sum256(cd)
	digest := sha256.Sum256(append(append([]byte{}, ad...), h[:]...))
	check := func(id int64, d, s []byte) bool {
		vsym.Assert(vsym.Eq(string(d), string(digest[:])), "the signature is checked for something else")
		vsym.Assert(string(s) == "S", "another signature is checked")
		vsym.Assert(id == int64(100+key), "the signature is checked with another key")
		return good
	}
	ecdsa.VerifHook_VerifyASN1 = func(pub *ecdsa.PublicKey, hash, sig []byte) bool {
		return check(pub.X.Int64(), hash, sig)
	}
	rsa.VerifHook_VerifyPKCS1v15 = func(pub *rsa.PublicKey, hash crypto.Hash, hashed, sig []byte) error {
		if !check(pub.N.Int64(), hashed, sig) {
			return errors.New("verification error")
		}
		return nil
	}
	n := f.store.saved
	w = f.callback("POST", "Check", url.Values{"args": {"A"}}, "", true)
	ok := vsym.And(good, adok, vsym.Eq(typ, "webauthn.get"), vsym.Eq(ch, c), (key == 0) == (who == "a@x"))
	if got := f.who(w); got == "" {
		vsym.Assert(!ok, "a proper login is refused")
		vsym.Assert(f.store.saved == n, "a failed login changes the store")
		vsym.Reach("out")
	} else {
		vsym.Assert(ok, "somebody logs in who shouldn't")
		vsym.Assert(got == who, "somebody logs in as somebody else")
		vsym.Reach("in")
	}
}

// What the registration of a key says is symbolic.
func VerifP23NewKey() {
	f := vfNewPK(nil, 0)
	cookie := f.cookie(f.other, "a@x")
	c, handle := f.challengeOf(f.callback("POST", "AttestationOptions", nil, cookie, true))
	ad, adok := vfNearData()
	if at := vsym.Bool("credential"); at {
		ad[32] |= 0x40
		ad = append(ad, vfAuthData(vfHost, 0, 2)[37:]...)
	} else {
		adok = false
	}
	typ := vfNear("type", "webauthn.create")
	ch := vfNear("challenge", c)
	origin := vfNear("origin", vfOrigin)
	vfDecode(map[string]map[string]any{
		"A": {"ClientDataJSON": []byte("C"), "AttestationObject": []byte("O")},
		"C": {"Type": typ, "Challenge": ch, "Origin": origin},
		"O": {"RawAuthData": ad},
	})
	n := f.store.saved
	w := f.callback("POST", "AddKey", url.Values{"args": {"A"}}, cookie, true)
	ok := vsym.And(adok, vsym.Eq(typ, "webauthn.create"), vsym.Eq(ch, c), vsym.Eq(origin, vfOrigin))
	if got := f.who(w); got == "" {
		vsym.Assert(!ok, "a proper registration is refused")
		vsym.Assert(f.store.saved == n, "a refused registration changes the store")
		vsym.Reach("out")
		return
	} else {
		vsym.Assert(ok, "a registration is accepted that shouldn't")
		vsym.Assert(got == "a@x", "somebody logs in as somebody else")
	}
	json.VerifHook_Unmarshal, cbor.VerifHook_Unmarshal = nil, nil
	vsym.Assert(f.who(f.login(handle, "", 2)) == "a@x", "a registered key doesn't work")
	vsym.Reach("in")
}
