//verif:pkg proxy/internal/pki
//verif:use jwt.go
//verif:use store.go
//verif:use x509.go
//verif:hook crypto/rand Int
//verif:hook golang.org/x/crypto/ocsp CreateResponse
//verif:unit name=history entry=VerifP20History share=4 synctest q.H=4 t.H=5 reach=revoked,good,crl,crlentry,restart,rotated
//verif:unit name=failure entry=VerifP20Failure share=2 synctest q.H=2 t.H=3 reach=failed,revoked,crlentry,restart
//verif:unit name=many entry=VerifP20Many share=1 synctest q.N=132 t.N=200 reach=revoked
//verif:unit name=inputs entry=VerifP20Inputs share=1 reach=unknown,otherissuer,good
//verif:hook golang.org/x/crypto/ocsp ParseRequest
//verif:unit name=web entry=VerifP20Web share=1 reach=get,post,any,big
//verif:unit name=race entry=VerifP20Race share=1 race q.P=1 t.P=2 reach=done
//verif:note histories of up to four (thorough: five) operations - issue, revoke, query everything, restart, 25 minutes or a week go by - on up to three certificates, then a pause of any number of seconds up to 12 days, at any of three fractions of a second; OCSP requests in all base64 forms with one symbolic byte; one failure of the store at any operation
package pki

import (
	"bytes"
	"crypto"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"sync"
	"time"

	"crypto/rand"

	"github.com/c2FmZQ/storage"
	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfLog struct{}

func (vfLog) Errorf(string, ...any) {}

type vfOCSP struct {
	t        ocsp.Response
	signer   crypto.PublicKey
	resp, ca *x509.Certificate
}

type vfPKI struct {
	store *vfStore
	keys  *vfKeys
	x     *vfX509
	m     *PKIManager
	sn    int64
	ocsps map[string]*vfOCSP

	certs               []*x509.Certificate
	asked, acknowledged []bool
	fraction            time.Duration // of a second, to wait before the last query
	failedNow           bool          // an operation of the store failed since it was reset
}

// vfMerge is how a gob is decoded: what's there is overwritten in place, and
// what has its zero value is not transmitted.
func vfMergeBytes(d *[]byte, s []byte) {
	if len(s) == 0 {
		return
	}
	if cap(*d) < len(s) {
		*d = make([]byte, len(s))
	}
	*d = (*d)[:len(s)]
	copy(*d, s)
}

func vfMergeCerts(d *[]*certificate, s []*certificate) {
	if len(s) == 0 {
		return
	}
	if cap(*d) < len(s) {
		n := make([]*certificate, len(s))
		copy(n, *d)
		*d = n
	}
	*d = (*d)[:len(s)]
	for i, c := range s {
		if (*d)[i] == nil {
			(*d)[i] = &certificate{}
		}
		vfMergeCert((*d)[i], c)
	}
}

func vfMergeCert(d, s *certificate) {
	if s.SHA256 != "" {
		d.SHA256 = s.SHA256
	}
	if s.SerialNumber != "" {
		d.SerialNumber = s.SerialNumber
	}
	vfMergeBytes(&d.Raw, s.Raw)
	if s.Revocation != nil {
		if d.Revocation == nil {
			d.Revocation = &revocation{}
		}
		d.Revocation.Time = s.Revocation.Time
		if s.Revocation.ReasonCode != 0 {
			d.Revocation.ReasonCode = s.Revocation.ReasonCode
		}
	}
}

func vfMerge(d, s *certificateAuthority) {
	if s.Name != "" {
		d.Name = s.Name
	}
	vfMergeBytes(&d.PrivateKey, s.PrivateKey)
	if s.CACert != nil {
		if d.CACert == nil {
			d.CACert = &certificate{}
		}
		vfMergeCert(d.CACert, s.CACert)
	}
	vfMergeBytes(&d.DelegateKey, s.DelegateKey)
	vfMergeCerts(&d.DelegateCerts, s.DelegateCerts)
	vfMergeCerts(&d.IssuedCerts, s.IssuedCerts)
	if s.CRLNumber != 0 {
		d.CRLNumber = s.CRLNumber
	}
	if n := len(s.RevocationLists); n > 0 {
		if cap(d.RevocationLists) < n {
			l := make([]revocationList, n)
			copy(l, d.RevocationLists)
			d.RevocationLists = l
		}
		d.RevocationLists = d.RevocationLists[:n]
		for i := range s.RevocationLists {
			vfMergeBytes(&d.RevocationLists[i].RawCert, s.RevocationLists[i].RawCert)
			vfMergeBytes(&d.RevocationLists[i].RawCRL, s.RevocationLists[i].RawCRL)
		}
	}
	if len(s.Revoked) > 0 && d.Revoked == nil {
		d.Revoked = map[string]bool{}
	}
	for k, v := range s.Revoked {
		d.Revoked[k] = v
	}
}

func vfDB(v any) *certificateAuthority {
	switch v := v.(type) {
	case *certificateAuthority:
		return v
	case **certificateAuthority:
		if *v == nil {
			*v = &certificateAuthority{}
		}
		return *v
	}
	panic("what is that")
}

func vfNewPKI() *vfPKI {
	f := &vfPKI{store: &vfStore{}, keys: &vfKeys{}, x: &vfX509{}, ocsps: map[string]*vfOCSP{}}
	f.keys.install()
	f.x.install()
	f.store.fresh = func(string) any { return &certificateAuthority{} }
	f.store.clone = func(dst, src any) { vfMerge(vfDB(dst), vfDB(src)) }
	f.store.install()
	rand.VerifHook_Int = func(io.Reader, *big.Int) (*big.Int, error) {
		f.sn++
		return new(big.Int).SetBytes([]byte{1, byte(f.sn), 0, 10}), nil
	}
	ocsp.VerifHook_CreateResponse = func(issuer, responder *x509.Certificate, t ocsp.Response, priv crypto.Signer) ([]byte, error) {
		k := fmt.Sprintf("OCSP%d", len(f.ocsps))
		t.SerialNumber = new(big.Int).Set(t.SerialNumber)
		t.ThisUpdate, t.NextUpdate = t.ThisUpdate.Truncate(time.Second), t.NextUpdate.Truncate(time.Second)
		f.ocsps[k] = &vfOCSP{t, priv.Public(), responder, issuer}
		return []byte(k), nil
	}
	f.start()
	return f
}

func (f *vfPKI) start() {
	m, err := New(Options{
		Name:   "ca",
		Store:  &storage.Storage{},
		Logger: vfLog{},
	})
	vsym.Assert(err == nil || f.failedNow, "the authority doesn't start")
	if err == nil {
		f.m = m
	}
}

func (f *vfPKI) issue() {
	k := f.keys.ec()
	raw, err := f.m.IssueCertificate(&x509.CertificateRequest{
		PublicKeyAlgorithm: x509.ECDSA,
		PublicKey:          k.Public(),
		Subject:            pkix.Name{CommonName: "c"},
	})
	vsym.Assert(err == nil || f.failedNow, "a certificate can't be issued")
	if err != nil {
		return
	}
	c, err := x509.ParseCertificate(raw)
	vsym.Assert(err == nil, "the certificate issued is none")
	f.certs = append(f.certs, c)
	f.asked = append(f.asked, false)
	f.acknowledged = append(f.acknowledged, false)
}

func (f *vfPKI) revoke(i int) {
	err := f.m.RevokeCertificate(f.certs[i].SerialNumber, RevokeReasonKeyCompromise)
	vsym.Assert(err == nil || f.failedNow, "a certificate can't be revoked")
	f.asked[i] = true
	if err == nil {
		f.acknowledged[i] = true
	}
}

func (f *vfPKI) caKey() crypto.PublicKey {
	c, err := f.m.CACert()
	vsym.Assert(err == nil, "no CA certificate")
	return c.PublicKey
}

// delegate checks that c may sign answers and lists now.
func (f *vfPKI) delegate(c *x509.Certificate, key crypto.PublicKey, what string) {
	now := time.Now()
	vsym.Assert(!now.Before(c.NotBefore) && !now.After(c.NotAfter), what+" is signed with an expired certificate")
	vsym.Assert(vfSameKey(f.x.signer[string(c.Raw)], f.caKey()), what+" is signed with a certificate that isn't the authority's")
	vsym.Assert(vfSameKey(c.PublicKey, key), what+" is not verifiable")
}

func vfSameKey(a, b crypto.PublicKey) bool {
	x, ok := vfKeyID(a)
	y, ok2 := vfKeyID(b)
	return ok && ok2 && x == y
}

// ocsp is the status that the responder gives for sn; -1 for none.
func (f *vfPKI) ocsp(sn *big.Int) int {
	ca, err := f.m.CACert()
	vsym.Assert(err == nil, "no CA certificate")
	pub, err := publicKeyFromCert(ca)
	vsym.Assert(err == nil, "no key")
	h := crypto.SHA256.New()
	h.Write(pub)
	kh := h.Sum(nil)
	h.Reset()
	h.Write(ca.RawSubject)
	nh := h.Sum(nil)
	raw, err := f.m.OCSPResponse(&ocsp.Request{HashAlgorithm: crypto.SHA256, IssuerNameHash: nh, IssuerKeyHash: kh, SerialNumber: sn})
	vsym.Assert(err == nil || f.failedNow, "no OCSP answer")
	if err != nil {
		return -1
	}
	r := f.ocsps[string(raw)]
	vsym.Assert(r != nil, "the OCSP answer is none")
	now := time.Now()
	vsym.Assert(r.t.SerialNumber.Cmp(sn) == 0, "the OCSP answer is for another certificate")
	vsym.Assert(!now.Before(r.t.ThisUpdate) && now.Before(r.t.NextUpdate), "the OCSP answer is not current")
	vsym.Assert(r.t.Certificate != nil && bytes.Equal(r.t.Certificate.Raw, r.resp.Raw) && bytes.Equal(r.ca.Raw, ca.Raw), "the OCSP answer has the wrong certificates")
	ok := false
	for _, u := range r.resp.ExtKeyUsage {
		ok = ok || u == x509.ExtKeyUsageOCSPSigning
	}
	vsym.Assert(ok, "the OCSP answer is signed with a certificate for other purposes")
	f.delegate(r.resp, r.signer, "the OCSP answer")
	return r.t.Status
}

// query asks for everything.
func (f *vfPKI) query() {
	now := time.Now()
	for i, c := range f.certs {
		rev := f.m.IsRevoked(c.SerialNumber)
		vsym.Assert(!f.acknowledged[i] || rev, "a revoked certificate is not known to be revoked")
		vsym.Assert(f.asked[i] || !rev, "a certificate that was not revoked is known to be revoked")
		switch f.ocsp(c.SerialNumber) {
		case ocsp.Good:
			vsym.Assert(!f.acknowledged[i], "OCSP says that a revoked certificate is good")
			vsym.Reach("good")
		case ocsp.Revoked:
			vsym.Assert(f.asked[i], "OCSP says that a certificate is revoked that is not")
			vsym.Reach("revoked")
		case -1:
		default:
			vsym.Fail("OCSP doesn't know a certificate")
		}
	}
	vsym.Assert(f.ocsp(big.NewInt(77)) != ocsp.Good, "OCSP says that an unknown certificate is good")
	cert, crl, err := f.m.RevocationList()
	vsym.Assert(err == nil || f.failedNow, "no revocation list")
	if err != nil {
		return
	}
	d, err := x509.ParseCertificate(cert)
	vsym.Assert(err == nil, "no certificate for the revocation list")
	l, err := x509.ParseRevocationList(crl)
	vsym.Assert(err == nil, "the revocation list is none")
	vsym.Assert(!now.Before(l.ThisUpdate), "the revocation list is from the future")
	vsym.Assert(now.Before(l.NextUpdate), "the revocation list is out of date")
	vsym.Assert(d.KeyUsage&x509.KeyUsageCRLSign != 0, "the revocation list is signed with a certificate for other purposes")
	f.delegate(d, f.x.lists[string(crl)].signer, "the revocation list")
	vsym.Reach("crl")
	for i, c := range f.certs {
		n := 0
		for _, e := range l.RevokedCertificateEntries {
			if e.SerialNumber.Cmp(c.SerialNumber) == 0 {
				n++
			}
		}
		vsym.Assert(!f.acknowledged[i] || n > 0, "a revoked certificate is not on the revocation list")
		vsym.Assert(f.asked[i] || n == 0, "a certificate that was not revoked is on the revocation list")
		if n > 0 {
			vsym.Reach("crlentry")
		}
	}
}

// pause lets any time go by.
func (f *vfPKI) pause() {
	vsym.Advance(vsym.Int("wait", 0, 12*24*3600))
	time.Sleep(f.fraction)
}

func (f *vfPKI) history(h int) {
	n := len(f.m.db.DelegateCerts)
	for i := 0; i < h; i++ {
		switch vsym.Choose("op", 6) {
		case 0:
			if len(f.certs) == 3 {
				return
			}
			f.issue()
		case 1:
			if len(f.certs) == 0 {
				return
			}
			f.revoke(len(f.certs) - 1)
		case 2:
			f.query()
		case 3:
			f.start()
			vsym.Reach("restart")
		case 4:
			vsym.Advance(1500)
		case 5:
			vsym.Advance(7 * 24 * 3600)
		}
	}
	f.pause()
	f.failedNow = false
	f.query()
	if len(f.m.db.DelegateCerts) > 1 && n <= 1 {
		vsym.Reach("rotated")
	}
}

func VerifP20History() {
	fr := [][2]time.Duration{{0, 0}, {350, 0}, {0, 350}}[vsym.Choose("fraction", 3)]
	time.Sleep(fr[0] * time.Millisecond)
	f := vfNewPKI()
	f.fraction = fr[1] * time.Millisecond
	f.issue()
	f.query()
	f.history(vsym.Param("H", 4))
}

// More certificates than there are revocation lists in the store.
func VerifP20Many() {
	f := vfNewPKI()
	n := vsym.Param("N", 132)
	for i := 0; i < n; i++ {
		f.issue()
	}
	good := vsym.Choose("good", 3) * (n - 1) / 2
	for i := range f.certs {
		if i == good {
			continue
		}
		f.revoke(i)
		if i == 1 || i == n-2 {
			f.query()
		}
	}
	f.query()
	f.start()
	f.query()
	vsym.Reach("revoked")
}

// The store fails once.
func VerifP20Failure() {
	f := vfNewPKI()
	f.issue()
	f.query()
	once := false
	f.store.fail = func(op, file string) bool {
		if !once && vsym.Bool("fail") {
			once = true
			f.failedNow = true
			vsym.Reach("failed")
			return true
		}
		return false
	}
	f.history(vsym.Param("H", 3))
	f.store.fail = nil
	f.failedNow = false
	f.query()
	f.start()
	f.query()
}

// Any serial number, any issuer.
func VerifP20Inputs() {
	f := vfNewPKI()
	f.issue()
	f.issue()
	f.revoke(1)
	sn := vsym.Bytes("sn", 1, 5)
	n := new(big.Int).SetBytes(sn)
	st := f.ocsp(n)
	switch {
	case n.Cmp(f.certs[0].SerialNumber) == 0:
		vsym.Assert(st == ocsp.Good, "a good certificate is not good")
		vsym.Reach("good")
	case n.Cmp(f.certs[1].SerialNumber) == 0:
		vsym.Assert(st == ocsp.Revoked, "a revoked certificate is not revoked")
	default:
		// The authority and the delegates.
		known := false
		for _, c := range f.m.db.IssuedCerts {
			p, err := c.parse()
			known = known || err == nil && p.SerialNumber.Cmp(n) == 0
		}
		vsym.Assert(known || st != ocsp.Good, "an unknown certificate is good")
		vsym.Assert(!f.m.IsRevoked(n), "an unknown certificate is known to be revoked")
		vsym.Reach("unknown")
	}
	ca, _ := f.m.CACert()
	pub, _ := publicKeyFromCert(ca)
	h := crypto.SHA256.New()
	h.Write(pub)
	kh := h.Sum(nil)
	h.Reset()
	h.Write(ca.RawSubject)
	nh := h.Sum(nil)
	d := vsym.Byte("diff")
	pos := vsym.Choose("pos", 4)
	vsym.Assume(d != 0)
	switch pos {
	case 0:
		nh[0] ^= d
	case 1:
		nh[31] ^= d
	case 2:
		kh[0] ^= d
	case 3:
		kh[31] ^= d
	}
	raw, err := f.m.OCSPResponse(&ocsp.Request{HashAlgorithm: crypto.SHA256, IssuerNameHash: nh, IssuerKeyHash: kh, SerialNumber: f.certs[0].SerialNumber})
	vsym.Assert(err != nil || f.ocsps[string(raw)].t.Status != ocsp.Good, "a certificate of another authority is good")
	vsym.Reach("otherissuer")
}

type vfResp struct {
	h    http.Header
	code int
	body bytes.Buffer
}

func (r *vfResp) Header() http.Header { return r.h }
func (r *vfResp) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *vfResp) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	return r.body.Write(b)
}

// OCSP requests in all the forms there are.
func VerifP20Web() {
	f := vfNewPKI()
	f.issue()
	var got []byte
	asked := 0
	ocsp.VerifHook_ParseRequest = func(b []byte) (*ocsp.Request, error) {
		got = b
		asked++
		if len(b) == 0 {
			return nil, errors.New("empty")
		}
		return &ocsp.Request{HashAlgorithm: crypto.SHA256, SerialNumber: f.certs[0].SerialNumber}, nil
	}
	req := &http.Request{Method: "GET", Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(nil))}
	w := &vfResp{h: http.Header{}}
	raw := []byte{0x3f, vsym.Byte("raw"), 0xff, 0xbe}[:vsym.Choose("len", 2)+3]
	switch form := vsym.Choose("form", 6); form {
	case 0, 1, 2, 3:
		var p string
		switch form {
		case 0:
			p = base64.StdEncoding.EncodeToString(raw)
		case 1:
			p = base64.RawStdEncoding.EncodeToString(raw)
		case 2:
			p = base64.URLEncoding.EncodeToString(raw)
		case 3:
			p = base64.RawURLEncoding.EncodeToString(raw)
		}
		// https://www.rfc-editor.org/rfc/rfc6960.html#appendix-A.1
		u, err := url.Parse("https://x/ocsp/" + url.QueryEscape(p))
		vsym.Assert(err == nil, "url")
		req.URL = u
		f.m.ServeOCSP(w, req)
		vsym.Assert(w.code == 200 && asked == 1, "an OCSP request is not answered")
		vsym.Assert(bytes.Equal(got, raw), "another OCSP request is answered")
		vsym.Reach("get")
	case 4:
		req.Method = "POST"
		req.URL = &url.URL{Path: "/ocsp"}
		req.Header.Set("content-type", "application/ocsp-request")
		n := vsym.Choose("size", 3)
		if n > 0 {
			raw = append(make([]byte, 4095-len(raw)), raw...)
		}
		if n > 1 {
			raw = append(raw, 0)
		}
		req.Body = io.NopCloser(bytes.NewReader(raw))
		f.m.ServeOCSP(w, req)
		if n > 1 {
			vsym.Assert(asked == 0 && w.code == 400, "a large request is answered")
			vsym.Reach("big")
			return
		}
		vsym.Assert(w.code == 200 && asked == 1, "an OCSP request is not answered")
		vsym.Assert(bytes.Equal(got, raw), "another OCSP request is answered")
		vsym.Reach("post")
	case 5:
		req.URL = &url.URL{Path: string(raw)}
		f.m.ServeOCSP(w, req)
		vsym.Assert((w.code == 200) == (asked == 1 && len(got) > 0), "the answer is wrong")
		vsym.Reach("any")
	}
	if w.code == 200 {
		r := f.ocsps[w.body.String()]
		vsym.Assert(r != nil, "the OCSP answer is none")
		vsym.Assert(w.h.Get("content-type") == "application/ocsp-response", "the OCSP answer doesn't look like one")
	}
}

// Everything at once.
func VerifP20Race() {
	vsym.Explore(vsym.Param("P", 1))
	vsym.DetectRaces()
	f := vfNewPKI()
	f.issue()
	if vsym.Bool("used") {
		f.query()
	}
	var wg sync.WaitGroup
	var l []byte
	var mu sync.Mutex
	do := func(fn func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fn()
		}()
	}
	ops := []func(){
		func() {
			_, crl, err := f.m.RevocationList()
			vsym.Assert(err == nil, "no revocation list")
			c := append([]byte{}, crl...) // sent
			mu.Lock()
			l = c
			mu.Unlock()
		},
		func() { f.m.IsRevoked(f.certs[0].SerialNumber) },
		func() {
			_, err := f.m.OCSPResponse(&ocsp.Request{HashAlgorithm: crypto.SHA256, SerialNumber: f.certs[0].SerialNumber})
			vsym.Assert(err == nil, "no answer")
		},
		func() {
			c, err := f.m.CACert()
			vsym.Assert(err == nil && bytes.Equal(c.Raw, c.Raw), "no CA certificate")
		},
	}
	do(func() { f.revoke(0) })
	do(ops[vsym.Choose("op", len(ops))])
	wg.Wait()
	f.query()
	_ = l
	vsym.Reach("done")
}
