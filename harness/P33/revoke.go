//verif:pkg proxy
//verif:use jwt.go
//verif:use store.go
//verif:hook golang.org/x/crypto/acme (*Client).RevokeCert
//verif:hook crypto/x509 ParseCertificate
//verif:hook github.com/c2FmZQ/storage (*Storage).Logger
//verif:unit name=revoke entry=VerifP33Revoke share=3 synctest q.N=2 t.N=3 reach=revoked,kept,expired,off,failed
//verif:unit name=all entry=VerifP33All share=2 synctest reach=all,reason,badreason,failed
//verif:unit name=entries entry=VerifP33Entries share=1 reach=odd
//verif:unit name=reload entry=VerifP33Reload share=1 race reach=reloaded
//verif:assume parsing of certificates and keys is ideal; the ACME server does what it is asked or fails; the encrypted store is ideal
//verif:note up to three stored certificates, the first with up to two and the others with one symbolic name, any expiry within a day for the first, two configured backends with symbolic names, failures of every ACME request
package proxy

import (
	"context"
	"crypto"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/autocertcache"
	scrypto "github.com/c2FmZQ/storage/crypto"
	"golang.org/x/crypto/acme"
	"golang.org/x/crypto/acme/autocert"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfSLog struct{}

func (vfSLog) Debug(...any)          {}
func (vfSLog) Debugf(string, ...any) {}
func (vfSLog) Info(...any)           {}
func (vfSLog) Infof(string, ...any)  {}
func (vfSLog) Error(...any)          {}
func (vfSLog) Errorf(string, ...any) {}
func (vfSLog) Fatal(...any)          { panic("fatal") }
func (vfSLog) Fatalf(string, ...any) { panic("fatal") }

// vfACME is the certificate store and the ACME server.
type vfACME struct {
	st      *vfStore
	keys    *vfKeys
	certs   map[string]*x509.Certificate // by DER
	entries map[string]string
	revoked []string // DER
	fail    func() bool
	mu      sync.Mutex
	signers []crypto.Signer
	reasons []acme.CRLReasonCode
}

func vfNewACME(p *Proxy) *vfACME {
	a := &vfACME{st: &vfStore{}, keys: &vfKeys{}, certs: map[string]*x509.Certificate{}, entries: map[string]string{}}
	a.keys.install()
	a.st.install()
	x509.VerifHook_ParseCertificate = func(der []byte) (*x509.Certificate, error) {
		if c := a.certs[string(der)]; c != nil {
			return c, nil
		}
		return nil, errors.New("not a certificate")
	}
	acme.VerifHook_Client_RevokeCert = func(c *acme.Client, ctx context.Context, key crypto.Signer, der []byte, reason acme.CRLReasonCode) error {
		a.mu.Lock()
		defer a.mu.Unlock()
		if a.fail != nil && a.fail() {
			return errors.New("no answer")
		}
		a.revoked = append(a.revoked, string(der))
		a.signers = append(a.signers, key)
		a.reasons = append(a.reasons, reason)
		return nil
	}
	storage.VerifHook_Storage_Logger = func(*storage.Storage) scrypto.Logger { return vfSLog{} }
	p.certManager = &autocert.Manager{Cache: autocertcache.New("autocert", &storage.Storage{})}
	a.entries["acme_account+key"] = a.pemKey()
	return a
}

func (a *vfACME) pemKey() string {
	b, err := x509.MarshalPKCS8PrivateKey(a.keys.ec())
	vsym.Assert(err == nil, "key")
	return string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b}))
}

func (a *vfACME) pemCert(der string, c *x509.Certificate) string {
	if c != nil {
		a.certs[der] = c
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: []byte(der)}))
}

type vfCacheContent struct {
	Entries map[string]string `json:"entries"`
}

func (a *vfACME) save() {
	e := map[string]string{}
	for k, v := range a.entries {
		e[k] = base64.StdEncoding.EncodeToString([]byte(v))
	}
	b, err := json.Marshal(vfCacheContent{e})
	vsym.Assert(err == nil, "cache")
	a.st.files["autocert"] = b
}

func (a *vfACME) left() map[string]string {
	var c vfCacheContent
	vsym.Assert(json.Unmarshal(a.st.files["autocert"].([]byte), &c) == nil, "cache")
	return c.Entries
}

func vfRevokeProxy(names ...string) *Proxy {
	p := &Proxy{cfg: &Config{}}
	for _, n := range names {
		p.cfg.Backends = append(p.cfg.Backends, &Backend{ServerNames: []string{n}})
	}
	return p
}

func VerifP33Revoke() {
	b1, b2 := vsym.String("server", 1, 1), "s"
	p := vfRevokeProxy(b1, b2)
	off := false
	switch vsym.Choose("auto", 3) {
	case 1:
		v := true
		p.cfg.RevokeUnusedCertificates = &v
	case 2:
		off = true
		v := false
		p.cfg.RevokeUnusedCertificates = &v
	}
	a := vfNewACME(p)
	now := time.Now()
	N := vsym.Param("N", 2)
	if p.cfg.RevokeUnusedCertificates != nil {
		N = 1
	}
	var certs []*x509.Certificate
	var ders, keys []string
	var left []int64
	for i := 0; i < N; i++ {
		c := &x509.Certificate{}
		j := 1
		if i == 0 {
			j = vsym.Choose("names", 4)
		}
		for ; j > 0; j-- {
			if len(c.DNSNames) == 0 { // this one is printed
				c.DNSNames = append(c.DNSNames, []string{"s", "t", "u"}[vsym.Choose("dns", 3)])
			} else {
				c.DNSNames = append(c.DNSNames, vsym.String("dns", 1, 1))
			}
		}
		s := int64(60)
		if i == 0 {
			s = vsym.Int64("left")
			vsym.Assume(vsym.And(s >= -86400, s <= 86400))
		} else if i == 1 {
			s = []int64{-60, 60}[vsym.Choose("left", 2)]
		}
		left = append(left, s)
		c.NotAfter = now.Add(time.Duration(s) * time.Second)
		der, key := fmt.Sprintf("DER%d", i), fmt.Sprintf("k%d", i)
		a.entries[key] = a.pemKey() + a.pemCert(der, c)
		certs, ders, keys = append(certs, c), append(ders, der), append(keys, key)
	}
	a.entries["tok+http-01"] = "a token"
	a.save()
	before := a.left()
	failed := false
	a.fail = func() bool {
		if !failed && vsym.Bool("fail") { // once
			failed = true
			return true
		}
		return false
	}
	err := p.revokeUnusedCertificates(context.Background())
	after := a.left()
	if failed {
		vsym.Assert(err != nil, "a failed revocation is not reported")
		vsym.Reach("failed")
	}
	if off {
		vsym.Assert(len(a.revoked) == 0, "a certificate is revoked though that is off")
		vsym.Reach("off")
	}
	for i, c := range certs {
		used := false
		for _, n := range c.DNSNames {
			used = vsym.Or(used, n == b1, n == b2)
		}
		n := 0
		for _, d := range a.revoked {
			if d == ders[i] {
				n++
			}
		}
		vsym.Assert(n <= 1, "a certificate is revoked twice")
		if n > 0 {
			vsym.Assert(!used, "a certificate that is in use is revoked")
			vsym.Assert(left[i] >= 0, "an expired certificate is revoked")
			vsym.Assert(len(c.DNSNames) > 0, "a certificate without names is revoked")
			vsym.Reach("revoked")
		} else if left[i] < 0 {
			vsym.Reach("expired")
		}
		if !off && !failed {
			vsym.Assert(err == nil, "the revocation fails")
			vsym.Assert(vsym.Or(used, len(c.DNSNames) == 0, left[i] < 0, n == 1), "an unused certificate is not revoked")
		}
		_, ok := after[keys[i]]
		if !ok {
			vsym.Assert(!used && len(c.DNSNames) > 0 && !off, "a certificate that is in use is thrown away")
			vsym.Assert(vsym.Or(n > 0, left[i] < 0), "a valid certificate is thrown away without being revoked")
		} else {
			vsym.Assert(after[keys[i]] == before[keys[i]], "a stored certificate is changed")
			vsym.Reach("kept")
		}
	}
	for _, k := range []string{"acme_account+key", "tok+http-01"} {
		vsym.Assert(after[k] == before[k], "another entry of the store is lost")
	}
}

// Revoking everything, on request.
func VerifP33All() {
	p := vfRevokeProxy("a.x")
	no := vsym.Bool("off")
	if no {
		f := false
		p.cfg.RevokeUnusedCertificates = &f
	}
	a := vfNewACME(p)
	now := time.Now()
	n := vsym.Choose("certs", 3)
	var ders []string
	var left []int64
	for i := 0; i < n; i++ {
		s := vsym.Int64("left")
		vsym.Assume(vsym.And(s >= -86400, s <= 86400))
		c := &x509.Certificate{NotAfter: now.Add(time.Duration(s) * time.Second)}
		switch vsym.Choose("names", 3) {
		case 1:
			c.DNSNames = []string{"a.x"}
		case 2:
			c.DNSNames = []string{"b.x"}
		}
		der := fmt.Sprintf("DER%d", i)
		a.entries[fmt.Sprintf("k%d", i)] = a.pemKey() + a.pemCert(der, c)
		ders, left = append(ders, der), append(left, s)
	}
	a.entries["tok+http-01"] = "a token"
	a.save()
	before := a.left()
	failed := false
	a.fail = func() bool {
		if !failed && vsym.Bool("fail") {
			failed = true
		}
		return failed
	}
	reason := vsym.Pick("reason", "unspecified", "keyCompromise", "superseded", "cessationOfOperation", "", "other", "KeyCompromise", "1")
	code, ok := map[string]acme.CRLReasonCode{"unspecified": 0, "keyCompromise": 1, "superseded": 4, "cessationOfOperation": 5}[reason]
	err := p.RevokeAllCertificates(context.Background(), reason)
	after := a.left()
	if !ok {
		vsym.Reach("badreason")
		vsym.Assert(err != nil && len(a.revoked) == 0 && len(after) == len(before), "something is revoked for an unknown reason")
		return
	}
	for _, r := range a.reasons {
		vsym.Assert(r == code, "another reason")
		vsym.Reach("reason")
	}
	if failed {
		vsym.Reach("failed")
		vsym.Assert(err != nil, "a failed revocation is not reported")
	} else {
		vsym.Assert(err == nil, "the revocation fails")
	}
	for i, d := range ders {
		c := 0
		for _, r := range a.revoked {
			if r == d {
				c++
			}
		}
		vsym.Assert(c <= 1, "a certificate is revoked twice")
		_, kept := after[fmt.Sprintf("k%d", i)]
		// The ten seconds in which the user can change their mind.
		vsym.Assert(vsym.Or(c == 0, left[i] >= 10), "an expired certificate is revoked")
		vsym.Assert(vsym.Or(failed, c == 1, left[i] <= 10), "a certificate is not revoked")
		vsym.Assert(vsym.Or(kept, c == 1, left[i] <= 10), "a valid certificate is thrown away without being revoked")
		vsym.Assert(!kept || failed, "a revoked certificate may be used again")
		vsym.Reach("all")
	}
	for _, k := range []string{"acme_account+key", "tok+http-01"} {
		vsym.Assert(after[k] == before[k], "another entry of the store is lost")
	}
}

// Entries that aren't complete certificates.
func VerifP33Entries() {
	p := vfRevokeProxy("a.x")
	a := vfNewACME(p)
	good := &x509.Certificate{DNSNames: []string{"b.x"}, NotAfter: time.Now().Add(time.Hour)}
	inter := &x509.Certificate{DNSNames: nil, NotAfter: time.Now().Add(time.Hour)}
	key := a.pemKey()
	odd := []string{
		"", "garbage", key, a.pemCert("D1", good), key + a.pemCert("D2", nil),
		a.pemCert("D3", good) + key + a.pemCert("I1", inter),
		key + a.pemCert("D4", &x509.Certificate{DNSNames: []string{"b.x", "a.x"}, NotAfter: good.NotAfter}) + a.pemCert("D5", good),
		string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: []byte("junk")})) + a.pemCert("D6", good),
	}
	i := vsym.Choose("entry", len(odd))
	a.entries["odd"] = odd[i]
	a.entries["good"] = key + a.pemCert("G", good)
	if vsym.Bool("noaccount") {
		delete(a.entries, "acme_account+key")
	}
	a.save()
	p.revokeUnusedCertificates(context.Background())
	for _, d := range a.revoked {
		vsym.Assert(d == "G" || d == "D3" && i == 5, "something other than an unused certificate is revoked")
	}
	for _, s := range a.signers {
		vsym.Assert(s != nil, "a certificate is revoked without its key")
	}
	after := a.left()
	_, ok := after["odd"]
	vsym.Assert(ok || i == 5, "an entry that is not a certificate is thrown away")
	vsym.Reach("odd")
}

// The configuration changes while certificates are revoked.
func VerifP33Reload() {
	vsym.Explore(vsym.Param("P", 2))
	vsym.DetectRaces()
	p := vfRevokeProxy("a.x")
	a := vfNewACME(p)
	exp := time.Now().Add(time.Hour)
	a.entries["a"] = a.pemKey() + a.pemCert("A", &x509.Certificate{DNSNames: []string{"a.x"}, NotAfter: exp})
	a.save()
	off := false
	cfg2 := &Config{RevokeUnusedCertificates: &off}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		p.revokeUnusedCertificates(context.Background())
	}()
	go func() {
		defer wg.Done()
		p.mu.Lock()
		defer p.mu.Unlock()
		p.cfg = cfg2
		vsym.Reach("reloaded")
	}()
	wg.Wait()
	vsym.Assert(len(a.revoked) == 0, "a certificate is revoked that neither configuration wants to be revoked")
}
