//verif:pkg proxy/internal/saml
//verif:hook crypto/x509 (*Certificate).CheckSignature
//verif:hook crypto/x509 ParseCertificate
//verif:hook github.com/russellhaering/goxmldsig (*ValidationContext).Validate
//verif:unit name=time entry=VerifP34Time share=2 synctest reach=in,out,stale
//verif:unit name=says entry=VerifP34Says share=2 synctest reach=in,out,used,expired q.PAIRS=0 t.PAIRS=1
//verif:unit name=fields entry=VerifP34Fields share=2 synctest reach=in,out,unsigned q.LEN=3 t.LEN=5
//verif:unit name=forged entry=VerifP34Forged share=4 synctest reach=in,out
//verif:unit name=history entry=VerifP34History share=3 synctest reach=in,out q.N=2 t.N=3
//verif:unit name=race entry=VerifP34Race share=1 synctest race reach=once
//verif:unit name=certs entry=VerifP34Certs share=1 synctest reach=trusted,untrusted,refused
//verif:assume X.509 signatures are ideal: one verifies only with the certificate whose key made it, for the same bytes and algorithm; XML parsing, canonicalisation, digests and the search for the signature are the real code
//verif:note a response comes at any second up to twelve minutes after the request; one or two deviations at a time in what the identity provider says, from a table; forgeries from a table of ways to wrap, replace, duplicate and disguise signed assertions. A login isn't bound to the browser it was started in.
package saml

import (
	"compress/flate"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/pem"
	"errors"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/beevik/etree"
	dsig "github.com/russellhaering/goxmldsig"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfW struct {
	h    http.Header
	code int
}

func (w *vfW) Header() http.Header { return w.h }
func (w *vfW) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	return len(b), nil
}
func (w *vfW) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}

type vfSession struct {
	sub, email, sid, host string
	extra                 map[string]any
}

type vfSAML struct {
	p       *Provider
	mu      sync.Mutex
	sess    []vfSession
	rec     bool              // the identity provider signs
	sigs    map[string]string // signature to what's signed
	n       int
	fail    bool
	expired bool // the identity provider's certificates are
}

func (f *vfSAML) Record(string) {}
func (f *vfSAML) SetAuthTokenCookie(w http.ResponseWriter, userID, email, sessionID, host string, extra map[string]any) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.fail {
		return errors.New("no token")
	}
	f.sess = append(f.sess, vfSession{userID, email, sessionID, host, extra})
	return nil
}
func (f *vfSAML) ClearCookies(w http.ResponseWriter) error { return nil }

const vfACS = "https://login.x/.sso/saml"

func vfPEM(s string) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: []byte(s)}))
}

func vfNewSAML() *vfSAML {
	f := &vfSAML{sigs: map[string]string{}}
	x509.VerifHook_ParseCertificate = func(b []byte) (*x509.Certificate, error) {
		if !strings.HasPrefix(string(b), "cert ") {
			return nil, errors.New("invalid certificate")
		}
		end := time.Unix(1<<40, 0)
		if f.expired {
			end = time.Now().Add(-time.Second)
		}
		return &x509.Certificate{Raw: b, SerialNumber: big.NewInt(int64(b[5])), NotBefore: time.Unix(0, 0), NotAfter: end}, nil
	}
	x509.VerifHook_Certificate_CheckSignature = func(c *x509.Certificate, algo x509.SignatureAlgorithm, signed, sig []byte) error {
		k := string(c.Raw) + " " + algo.String() + " " + string(sig)
		f.mu.Lock()
		defer f.mu.Unlock()
		if f.rec {
			f.sigs[k] = string(signed)
		}
		if s, ok := f.sigs[k]; !ok || s != string(signed) {
			return errors.New("invalid signature")
		}
		return nil
	}
	p, err := New(Config{SSOURL: "https://idp.x/sso?a=b", EntityID: "me", ACSURL: vfACS, Certs: vfPEM("cert A") + vfPEM("cert B")}, f, f)
	vsym.Assert(err == nil, "no provider")
	f.p = p
	return f
}

// login starts a login, and returns the ID of the request to the identity provider.
func (f *vfSAML) login(orig string) string {
	w := &vfW{h: http.Header{}}
	f.p.RequestLogin(w, &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}}, orig)
	vsym.Assert(w.code == 302, "no redirect")
	u, err := url.Parse(w.h.Get("Location"))
	vsym.Assert(err == nil && u.Host == "idp.x" && u.Path == "/sso" && u.Query().Get("a") == "b", "redirect elsewhere")
	b, err := base64.StdEncoding.DecodeString(u.Query().Get("SAMLRequest"))
	vsym.Assert(err == nil, "invalid request")
	x, err := io.ReadAll(flate.NewReader(strings.NewReader(string(b))))
	vsym.Assert(err == nil, "invalid request")
	_, id, ok := strings.Cut(string(x), ` ID="`)
	id, _, ok2 := strings.Cut(id, `"`)
	vsym.Assert(ok && ok2 && len(id) >= 16, "a request without a proper ID")
	return id
}

// vfAssertion is what the identity provider says.
type vfAssertion struct {
	id, to, recipient, audience, notBefore, notOnOrAfter, sub string
	confirm                                                   string // SubjectConfirmationData's NotOnOrAfter
	alg, sig, cert                                            string
}

// vfAttr is an attribute, unless the value is "-".
func vfAttr(k, v string) string {
	if v == "-" {
		return ""
	}
	return " " + k + `="` + v + `"`
}

const vfExcl = "http://www.w3.org/2001/10/xml-exc-c14n#"

func (a vfAssertion) body() string {
	aud := `<saml:AudienceRestriction><saml:Audience>` + a.audience + `</saml:Audience></saml:AudienceRestriction>`
	if a.audience == "-" {
		aud = ""
	}
	return `<saml:Assertion xmlns:saml="urn:oasis:names:tc:SAML:2.0:assertion" ID="` + a.id + `"><saml:Issuer>https://idp.x</saml:Issuer>@<saml:Subject><saml:NameID>` +
		a.sub + `</saml:NameID><saml:SubjectConfirmation><saml:SubjectConfirmationData` + vfAttr("InResponseTo", a.to) + vfAttr("NotOnOrAfter", a.confirm) + vfAttr("Recipient", a.recipient) +
		`></saml:SubjectConfirmationData></saml:SubjectConfirmation></saml:Subject><saml:Conditions` + vfAttr("NotBefore", a.notBefore) + vfAttr("NotOnOrAfter", a.notOnOrAfter) +
		`>` + aud + `</saml:Conditions><saml:AttributeStatement><saml:Attribute Name="group"><saml:AttributeValue>g</saml:AttributeValue></saml:Attribute></saml:AttributeStatement></saml:Assertion>`
}

func (a vfAssertion) signature(digest string) string {
	return `<ds:Signature xmlns:ds="http://www.w3.org/2000/09/xmldsig#"><ds:SignedInfo><ds:CanonicalizationMethod Algorithm="` + vfExcl + `"/><ds:SignatureMethod Algorithm="http://www.w3.org/2001/04/xmldsig-more#rsa-sha256"/><ds:Reference URI="#` + a.id +
		`"><ds:Transforms><ds:Transform Algorithm="http://www.w3.org/2000/09/xmldsig#enveloped-signature"/><ds:Transform Algorithm="` + a.alg + `"/></ds:Transforms><ds:DigestMethod Algorithm="http://www.w3.org/2001/04/xmlenc#sha256"/><ds:DigestValue>` + digest +
		`</ds:DigestValue></ds:Reference></ds:SignedInfo><ds:SignatureValue>` + base64.StdEncoding.EncodeToString([]byte(a.sig)) + `</ds:SignatureValue><ds:KeyInfo><ds:X509Data><ds:X509Certificate>` + base64.StdEncoding.EncodeToString([]byte(a.cert)) + `</ds:X509Certificate></ds:X509Data></ds:KeyInfo></ds:Signature>`
}

func vfElement(s string) *etree.Element {
	doc := etree.NewDocument()
	if err := doc.ReadFromString(s); err != nil {
		panic(err)
	}
	return doc.Root()
}

// signed returns an assertion signed by the identity provider.
func (f *vfSAML) signed(a vfAssertion) string {
	var c dsig.Canonicalizer
	switch a.alg {
	case vfExcl:
		c = dsig.MakeC14N10ExclusiveCanonicalizerWithPrefixList("")
	default:
		c = dsig.MakeC14N11Canonicalizer()
	}
	b, err := c.Canonicalize(vfElement(strings.Replace(a.body(), "</saml:Issuer>@", "</saml:Issuer>", 1)))
	if err != nil {
		panic(err)
	}
	h := sha256.Sum256(b)
	s := strings.Replace(a.body(), "</saml:Issuer>@", "</saml:Issuer>"+a.signature(base64.StdEncoding.EncodeToString(h[:])), 1)
	f.rec = true
	_, err = f.p.dsigCtx.Validate(vfElement(s))
	f.rec = false
	vsym.Assert(err == nil, "an assertion isn't valid")
	return s
}

func (f *vfSAML) callback(method string, x string) *vfW {
	w := &vfW{h: http.Header{}}
	form := url.Values{"SAMLResponse": {base64.StdEncoding.EncodeToString([]byte(x))}}
	req := &http.Request{Method: method, URL: &url.URL{Path: "/.sso/saml"}, Header: http.Header{"Content-Type": {"application/x-www-form-urlencoded"}}, Body: io.NopCloser(strings.NewReader(form.Encode()))}
	if method != "POST" {
		req.URL.RawQuery = form.Encode()
	}
	f.p.HandleCallback(w, req)
	return w
}

func vfResponse(s string) string {
	return `<samlp:Response xmlns:samlp="urn:oasis:names:tc:SAML:2.0:protocol" ID="r">` + s + `</samlp:Response>`
}

func vfTime(t time.Time) string { return t.UTC().Format(time.RFC3339Nano) }

// say returns a proper assertion.
func (f *vfSAML) say(id, sub string) vfAssertion {
	now := time.Now()
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	return vfAssertion{
		id: "a" + string(rune('0'+f.n)), to: id, recipient: vfACS, audience: "https://login.x/",
		notBefore: vfTime(now.Add(-time.Minute)), notOnOrAfter: vfTime(now.Add(time.Hour)), confirm: "-",
		sub: sub, alg: vfExcl, sig: "s" + string(rune('0'+f.n)), cert: "cert A",
	}
}

// outcome checks what came of a response: nothing, or a session and a redirect.
func (f *vfSAML) outcome(w *vfW, n int, sub, id, orig string) bool {
	if len(f.sess) == n {
		vsym.Assert(w.code >= 400, "a refused response looks good")
		vsym.Assert(w.h.Get("Location") == "", "a refused response is redirected")
		return false
	}
	vsym.Assert(len(f.sess) == n+1, "more than one session")
	s := f.sess[n]
	vsym.Assert(s.sub == sub && s.email == sub, "a session for somebody else")
	vsym.Assert(s.sid == id, "a session for another request")
	u, err := url.Parse(orig)
	vsym.Assert(err == nil && s.host == u.Host, "a session for another service")
	vsym.Assert(w.code == 302 && w.h.Get("Location") == orig, "a redirect elsewhere")
	vsym.Assert(s.extra["group"] == "g" && s.extra["source"] == "https://idp.x", "a session without the attributes")
	return true
}

// A response comes at any time.
func VerifP34Time() {
	f := vfNewSAML()
	id := f.login("https://app.x/p")
	a := f.say(id, "u@x")
	start := time.Now()
	nb := []int{-60, 0, 60, 299}[vsym.Choose("not before", 4)]
	na := []int{30, 60, 301, 3600}[vsym.Choose("not on or after", 4)]
	nc := []int{0, 90, 3600}[vsym.Choose("confirm before", 3)]
	a.notBefore = vfTime(start.Add(time.Duration(nb) * time.Second))
	a.notOnOrAfter = vfTime(start.Add(time.Duration(na) * time.Second))
	if nc > 0 {
		a.confirm = vfTime(start.Add(time.Duration(nc) * time.Second))
	} else {
		nc = 1 << 20
	}
	s := f.signed(a)
	sec := vsym.Int("wait", 0, 720)
	vsym.Advance(sec)
	in := f.outcome(f.callback("POST", vfResponse(s)), 0, "u@x", id, "https://app.x/p")
	if in {
		vsym.Assert(sec >= nb, "an assertion is accepted before it is valid")
		vsym.Assert(sec < na, "an assertion is accepted when it isn't valid anymore")
		vsym.Assert(sec < nc, "an assertion is accepted when it can't be confirmed anymore")
		vsym.Assert(sec <= 300, "a response is accepted long after the request")
		vsym.Reach("in")
	} else {
		vsym.Assert(vsym.Or(sec < nb, sec >= na, sec >= nc, sec > 300), "a proper response is refused")
		vsym.Reach("out")
		if sec > 300 {
			vsym.Reach("stale")
		}
	}
}

// The identity provider says something that isn't for this proxy, or not for now.
func VerifP34Says() {
	f := vfNewSAML()
	f.login("https://c.x/")
	id := f.login("https://app.x/p?q=r")
	f.login("https://d.x/")
	a := f.say(id, "u@x")
	first := vsym.Choose("first deviation", 21)
	d := map[int]bool{first: true}
	if vsym.Param("PAIRS", 1) == 1 && first > 0 {
		d[vsym.Choose("second deviation", first)] = true
	}
	ok, n := true, 0
	bad := func(i int, do func()) {
		if d[i] {
			do()
			ok = false
		}
	}
	bad(1, func() { a.to = vsym.Pick("to", "", "-", "other", id+"0", " "+id, "samlid") })
	bad(2, func() {
		a.recipient = vsym.Pick("recipient", "", "-", "https://evil.x/.sso/saml", vfACS+"/", "https://login.x/")
	})
	bad(3, func() {
		a.audience = vsym.Pick("audience", "", "-", "https://evil.x/", "https://login.x", "http://login.x/", "https://login.x.evil/")
	})
	bad(4, func() { a.notBefore = vsym.Pick("not before", "", "-", "tomorrow", vfTime(time.Now().Add(time.Hour))) })
	bad(5, func() {
		a.notOnOrAfter = vsym.Pick("not on or after", "", "-", "tomorrow", vfTime(time.Now().Add(-time.Second)))
	})
	bad(6, func() { a.confirm = vsym.Pick("confirm", "tomorrow", vfTime(time.Now().Add(-time.Second))) })
	bad(7, func() { a.sub = "" })
	bad(8, func() { a.cert = "cert B" }) // which is fine
	if d[8] {
		ok = true
	}
	if d[9] {
		a.alg = "http://www.w3.org/2006/12/xml-c14n11"
	}
	if d[10] {
		a.confirm = vfTime(time.Now().Add(time.Minute))
		if d[6] {
			return
		}
	}
	for i := 1; i <= 7; i++ {
		ok = ok && !d[i]
	}
	if d[11] { // the request was answered already
		w := f.callback("POST", vfResponse(f.signed(f.say(id, "v@x"))))
		vsym.Assert(f.outcome(w, 0, "v@x", id, "https://app.x/p?q=r"), "a proper response is refused")
		ok, n = false, 1
		vsym.Reach("used")
	}
	if d[12] {
		vsym.Advance(301)
		ok = false
		vsym.Reach("expired")
	}
	if d[13] {
		a.cert, ok = "cert C", false
	}
	s := ""
	if d[13] {
		f.p.dsigCtx.CertificateStore.(*dsig.MemoryX509CertificateStore).Roots[0].Raw = []byte("cert C")
		s = f.signed(a)
		f.p.dsigCtx.CertificateStore.(*dsig.MemoryX509CertificateStore).Roots[0].Raw = []byte("cert A")
	} else {
		s = f.signed(a)
	}
	method, resp := "POST", vfResponse(s)
	if d[14] {
		method, ok = vsym.Pick("method", "GET", "PUT"), false
	}
	if d[15] {
		f.fail, ok = true, false
	}
	if d[16] {
		resp, ok = s, false
	}
	if d[17] {
		resp, ok = vsym.Pick("response", "", "x", "<a", "<a></b>", "<a/>", "<a><Assertion/></a>"), false
	}
	if d[18] {
		resp, ok = vfResponse(resp), false
	}
	if d[19] {
		f.expired = true
		ok = false
		if d[13] {
			return
		}
	}
	if d[20] { // a response without a request
		f = &vfSAML{p: f.p, sigs: f.sigs}
		g := vfNewSAML()
		g.sigs = f.sigs
		f, ok, n = g, false, 0
	}
	in := f.outcome(f.callback(method, resp), n, "u@x", id, "https://app.x/p?q=r")
	if in {
		vsym.Assert(ok, "an assertion is accepted that shouldn't")
		vsym.Reach("in")
	} else {
		vsym.Assert(!ok, "a proper response is refused")
		vsym.Reach("out")
	}
}

// Somebody who can log in as u@x makes a response from what the identity
// provider signed for them.
func VerifP34Forged() {
	f := vfNewSAML()
	id2 := f.login("https://b.x/q")
	id := f.login("https://app.x/p")
	a := f.say(id, "u@x.evil.x")
	if vsym.Bool("inclusive") {
		a.alg = "http://www.w3.org/2006/12/xml-c14n11"
	}
	s := f.signed(a)
	i := strings.Index(s, "<ds:Signature")
	j := strings.Index(s, "</ds:Signature>") + len("</ds:Signature>")
	sig := s[i:j]
	bare := s[:i] + s[j:]
	// What the attacker would like to be believed.
	e := a
	e.sub, e.to, e.id = "admin@x", vsym.Pick("answer", id, id2), vsym.Pick("id", "e1", a.id)
	evil := strings.Replace(e.body(), "</saml:Issuer>@", "</saml:Issuer>"+vsym.Pick("with", "", sig), 1)
	hole := strings.Replace(e.body(), "</saml:Issuer>@", "</saml:Issuer>@@", 1)
	fill := func(x string) string { return strings.Replace(hole, "@@", x, 1) }
	object := func(x string) string {
		return strings.Replace(sig, "</ds:Signature>", "<ds:Object>"+x+"</ds:Object></ds:Signature>", 1)
	}
	rs := func(old, new string) string {
		r := strings.Replace(s, old, new, 1)
		vsym.Assert(r != s, "nothing is replaced")
		return r
	}
	must := false
	r := ""
	switch vsym.Choose("how", 34) {
	case 0:
		r, must = s, true
	case 1:
		r = evil + s
	case 2:
		r = s + evil
	case 3:
		r = fill(s)
	case 4:
		r = fill(object(bare))
	case 5:
		r = fill(object(s))
	case 6:
		r = fill(sig + bare)
	case 7:
		r = fill("<x>" + s + "</x>")
	case 8:
		r = fill(sig)
	case 9:
		r = bare
	case 10:
		r = rs("u@x.evil.x", "u@x<!-- -->.evil.x")
	case 11:
		r = rs("u@x.evil.x", "<!-- -->u@x.evil.x")
	case 12:
		r = rs("u@x.evil.x", "u@x<?a b?>.evil.x")
	case 13:
		r = rs("u@x.evil.x", "u@x<![CDATA[.evil.x]]>")
	case 14:
		r = rs("u@x.evil.x", "u@x<b/>.evil.x")
	case 15:
		r = rs("u@x.evil.x", "&#x75;@x.evil.x")
	case 16:
		r = rs("u@x.evil.x", "u@x")
	case 17:
		r = rs("<saml:NameID>", "<saml:NameID>admin@x</saml:NameID><saml:NameID>")
	case 18:
		r = rs(`InResponseTo="`+id, `InResponseTo="`+id2)
	case 19:
		r = rs(`InResponseTo="`+id, `saml:InResponseTo="`+id2+`" InResponseTo="`+id)
	case 20:
		r = rs("<saml:Subject>", "<saml:Subject><saml:NameID>admin@x</saml:NameID></saml:Subject><saml:Subject>")
	case 21:
		r = rs("https://login.x/<", "https://login.x/ <")
	case 22:
		r = rs("<ds:Signature ", object(evil)+"<ds:Signature ")
	case 23:
		r = strings.Replace(s, sig, object("<saml:Subject><saml:NameID>admin@x</saml:NameID></saml:Subject>"), 1)
	case 24:
		r = strings.Replace(s, sig, sig+object(evil), 1)
	case 25:
		r = rs(a.alg+`"/></ds:Transforms>`, `http://www.w3.org/TR/2001/REC-xml-c14n-20010315"/></ds:Transforms>`)
	case 26:
		r = rs(`<ds:SignedInfo>`, `<ds:SignedInfo><ds:Reference URI=""></ds:Reference>`)
	case 27:
		r = rs(base64.StdEncoding.EncodeToString([]byte("cert A")), base64.StdEncoding.EncodeToString([]byte("cert B")))
	case 28:
		r = rs("rsa-sha256", "hmac-sha256")
	case 29: // a name space where the names mean something else
		r = rs("urn:oasis:names:tc:SAML:2.0:assertion", "urn:evil")
	case 30: // signed for another service
		b := f.say(id2, "admin@x")
		b.recipient, b.audience = "https://evil.x/acs", "https://evil.x/"
		r = f.signed(b)
	case 31:
		b := f.say(id2, "admin@x")
		b.recipient, b.audience = "https://evil.x/acs", "https://evil.x/"
		r = f.signed(b) + s
	case 32: // an assertion in the signature of another
		b := f.say(id2, "admin@x")
		b.recipient = "https://evil.x/acs"
		r = strings.Replace(s, sig, object(f.signed(b)), 1)
	case 33:
		r = "<!--" + s + "-->" + evil
	}
	in := f.outcome(f.callback("POST", vfResponse(r)), 0, "u@x.evil.x", id, "https://app.x/p")
	vsym.Assert(in || !must, "a proper response is refused")
	if in {
		vsym.Reach("in")
		// Once.
		f.outcome(f.callback("POST", vfResponse(r)), 1, "nobody", "", "")
		vsym.Assert(len(f.sess) == 1, "a response is accepted twice")
	} else {
		vsym.Reach("out")
	}
}

// Two logins are open. Responses come in any order, and more than once.
func VerifP34History() {
	f := vfNewSAML()
	orig := []string{"https://app.x/p", "https://b.x/q"}
	var id, s [2]string
	var left [2]int // seconds
	for i := range id {
		id[i] = f.login(orig[i])
		s[i] = f.signed(f.say(id[i], "u"+string(rune('0'+i))+"@x"))
		left[i] = 300
	}
	for k := 0; k < vsym.Param("N", 3); k++ {
		if vsym.Bool("wait") {
			vsym.Advance(151)
			left[0], left[1] = left[0]-151, left[1]-151
		}
		i := vsym.Choose("response", 2)
		if vsym.Bool("again") {
			id[i] = f.login(orig[i])
			s[i] = f.signed(f.say(id[i], "u"+string(rune('0'+i))+"@x"))
			left[i] = 300
		}
		n := len(f.sess)
		in := f.outcome(f.callback("POST", vfResponse(s[i])), n, "u"+string(rune('0'+i))+"@x", id[i], orig[i])
		vsym.Assert(in == (left[i] >= 0), "a response is accepted or refused that shouldn't")
		left[i] = -1 << 20
		if in {
			vsym.Reach("in")
		} else {
			vsym.Reach("out")
		}
	}
}

// The same response comes twice at the same time.
func VerifP34Race() {
	f := vfNewSAML()
	id := f.login("https://app.x/p")
	s := vfResponse(f.signed(f.say(id, "u@x")))
	vsym.DetectRaces()
	vsym.Explore(vsym.Param("PREEMPT", 1))
	var wg sync.WaitGroup
	other := vsym.Bool("login")
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if other && i == 1 {
				f.login("https://b.x/")
				return
			}
			f.callback("POST", s)
		}()
	}
	wg.Wait()
	vsym.Assert(len(f.sess) == 1, "a response is accepted twice, or not at all")
	vsym.Reach("once")
}

// The certificates of the configuration, and no others, are trusted.
func VerifP34Certs() {
	f := vfNewSAML()
	certs, trusted, broken := "", map[string]bool{}, false
	for i := 0; i < 2; i++ {
		switch vsym.Choose("block", 7) {
		case 0:
			certs += vfPEM("cert A")
			trusted["cert A"] = true
		case 1:
			certs += vfPEM("cert B")
			trusted["cert B"] = true
		case 2:
			certs += string(pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: []byte("cert C")}))
		case 3:
			certs += "\n"
		case 4:
			certs += "# this is my certificate\n"
		case 5:
			certs += strings.Replace(vfPEM("cert C"), "-----END", "", 1)
			broken = true
		case 6:
			certs += vfPEM("junk")
		}
	}
	p, err := New(Config{SSOURL: "https://idp.x/sso?a=b", EntityID: "me", ACSURL: vfACS, Certs: certs}, f, f)
	junk := strings.Contains(certs, vfPEM("junk"))
	vsym.Assert(err != nil || !junk, "an invalid certificate is accepted")
	if err != nil {
		vsym.Assert(junk || len(trusted) == 0 || broken, "proper certificates are refused")
		vsym.Reach("refused")
		return
	}
	cert := vsym.Pick("cert", "cert A", "cert B", "cert C")
	q := f.p
	f.p = p
	id := f.login("https://app.x/p")
	f.p = q
	a := f.say(id, "u@x")
	a.cert = cert
	roots := q.dsigCtx.CertificateStore.(*dsig.MemoryX509CertificateStore).Roots
	roots[0].Raw = []byte(cert)
	s := f.signed(a)
	f.p = p
	in := f.outcome(f.callback("POST", vfResponse(s)), 0, "u@x", id, "https://app.x/p")
	vsym.Assert(in == trusted[cert], "a certificate is trusted, or not, that shouldn't")
	if in {
		vsym.Reach("trusted")
	} else {
		vsym.Reach("untrusted")
	}
}

// The contents of a signed assertion are symbolic.
func VerifP34Fields() {
	f := vfNewSAML()
	ids := []string{f.login("https://b.x/q"), f.login("https://app.x/p")}
	n := vsym.Param("LEN", 3)
	// Strings that differ from the proper ones in the last bytes, or in length.
	near := func(name, s string) string {
		k := len(s) - n + 1
		return s[:k] + vsym.String(name, n-2, n)
	}
	// The numbers of requests are random, so the same is relative to them.
	nearID := func(name, s string) string {
		k := len(s) - n + 1
		b := append([]byte{}, vsym.Bytes(name, n-2, n)...)
		for i := range b {
			if k+i < len(s) {
				b[i] ^= s[k+i]
			}
		}
		return s[:k] + string(b)
	}
	which := vsym.Choose("request", 2)
	to := nearID("to", ids[which])
	recipient := near("recipient", vfACS)
	audience := near("audience", "https://login.x/")
	sub := vsym.String("sub", 0, n)
	signed := vsym.Bool("signed")
	el := etree.NewElement("saml:Assertion")
	s := el.CreateElement("saml:Subject")
	s.CreateElement("saml:NameID").SetText(sub)
	d := s.CreateElement("saml:SubjectConfirmation").CreateElement("saml:SubjectConfirmationData")
	d.CreateAttr("InResponseTo", to)
	d.CreateAttr("Recipient", recipient)
	c := el.CreateElement("saml:Conditions")
	c.CreateAttr("NotBefore", vfTime(time.Now()))
	c.CreateAttr("NotOnOrAfter", vfTime(time.Now().Add(time.Minute)))
	c.CreateElement("saml:AudienceRestriction").CreateElement("saml:Audience").SetText(audience)
	dsig.VerifHook_ValidationContext_Validate = func(_ *dsig.ValidationContext, el2 *etree.Element) (*etree.Element, error) {
		if !signed {
			return nil, dsig.ErrMissingSignature
		}
		return el, nil
	}
	w := f.callback("POST", vfResponse("<Assertion/>"))
	ok := vsym.And(signed, vsym.Eq(to, ids[which]), vsym.Eq(recipient, vfACS), vsym.Eq(audience, "https://login.x/"), sub != "")
	if len(f.sess) == 0 {
		vsym.Assert(!ok, "a proper response is refused")
		vsym.Assert(w.code >= 400 && w.h.Get("Location") == "", "a refused response looks good")
		vsym.Reach("out")
		if !signed {
			vsym.Reach("unsigned")
		}
		return
	}
	vsym.Assert(ok, "an assertion is accepted that shouldn't")
	vsym.Assert(len(f.sess) == 1, "more than one session")
	vsym.Assert(vsym.And(vsym.Eq(f.sess[0].sub, sub), vsym.Eq(f.sess[0].email, sub), vsym.Eq(f.sess[0].sid, ids[which])), "a session for somebody else")
	vsym.Assert(w.code == 302 && w.h.Get("Location") == []string{"https://b.x/q", "https://app.x/p"}[which], "a redirect elsewhere")
	vsym.Reach("in")
}
