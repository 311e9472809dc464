//verif:pkg proxy/internal/pki
//verif:use pkiweb.go
//verif:use html.go
//verif:embed
//verif:unit name=request entry=VerifP21Request share=3 synctest reach=issued,refused,nobody,server,client,forged
//verif:unit name=revoke entry=VerifP21Revoke share=3 synctest reach=own,admin,denied,expired,nobody,again
//verif:unit name=list entry=VerifP21List share=6 synctest reach=listed,all,canrevoke
//verif:note e-mails of one or two symbolic bytes for up to three users; all combinations of mode, method, headers, administrator setting, and certificate owners and states
package pki

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"net"
	"net/url"
	"strings"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

func VerifP21Request() {
	f := vfNewWeb("root")
	k := f.keys.ec()
	f.csr = &x509.CertificateRequest{
		PublicKeyAlgorithm: x509.ECDSA,
		PublicKey:          k.Public(),
		Subject:            pkix.Name{Organization: []string{"Org"}},
		EmailAddresses:     []string{"victim"},
		IPAddresses:        nil,
	}
	name := vsym.String("name", 0, 2)
	f.csr.Subject.CommonName = name
	var dns []string
	switch vsym.Choose("csr", 6) {
	case 4:
		f.csr.PublicKeyAlgorithm = x509.Ed25519
	case 5:
		f.csr.PublicKeyAlgorithm = x509.RSA
	case 1:
		dns = []string{vsym.String("dns", 1, 1)}
		f.csr.DNSNames = dns
	case 2:
		f.csr.IPAddresses = []net.IP{{10, 0, 0, 1}}
	case 3:
		f.csr.URIs = []*url.URL{{Scheme: "spiffe", Host: "x"}}
	}
	f.csrSig = vsym.Bool("sig")
	email := vsym.String("email", 1, 2)
	who := vsym.Choose("who", 2)
	if who == 0 {
		f.email = email
	}
	method := []string{"POST", "GET"}[vsym.Choose("method", 2)]
	hdr := map[string]string{}
	csrf := vsym.Choose("csrf", 3)
	if csrf == 0 {
		hdr["x-csrf-check"] = "1"
	} else if csrf == 1 {
		hdr["x-csrf-check"] = "0"
	}
	ct := vsym.Bool("ctype")
	if ct {
		hdr["content-type"] = "application/x-pem-file"
	}
	n := len(f.m.db.IssuedCerts)
	w := f.do(method, url.Values{"get": {"requestCert"}, "admin": {"1"}}, hdr, vfCSR())
	now := len(f.m.db.IssuedCerts)
	good := who == 0 && method == "POST" && csrf == 0 && f.csrSig
	if now == n {
		vsym.Assert(!(good && ct), "a proper request is refused")
		if who != 0 {
			vsym.Reach("nobody")
		}
		if who == 0 && !f.csrSig {
			vsym.Reach("forged")
		}
		vsym.Reach("refused")
		vsym.Assert(!strings.Contains(w.body.String(), "CERTIFICATE"), "a refused request has a certificate")
		return
	}
	vsym.Assert(now == n+1, "more than one certificate is issued")
	vsym.Assert(who == 0, "a certificate is issued to nobody")
	vsym.Assert(method == "POST" && csrf == 0, "a certificate is issued for a request that isn't protected")
	vsym.Assert(f.csrSig, "a certificate is issued for a key that the user doesn't have")
	c := f.parsed(n)
	vsym.Assert(len(c.EmailAddresses) == 1 && c.EmailAddresses[0] == email, "a certificate is issued for someone else's e-mail")
	want := email
	if name != "" {
		want += "::" + name
	}
	vsym.Assert(c.Subject.CommonName == want, "a certificate is issued for another subject")
	vsym.Assert(len(c.Subject.Organization) == 0, "the user sets other parts of the subject")
	vsym.Assert(!c.IsCA && c.KeyUsage&(x509.KeyUsageCertSign|x509.KeyUsageCRLSign) == 0, "a user gets an authority")
	vsym.Assert(vfSameKeyW(c.PublicKey, k.Public()), "a certificate is issued for another key")
	vsym.Assert(len(c.URIs) == 0 && len(c.IPAddresses) == 0, "the user sets other names")
	client := false
	for _, u := range c.ExtKeyUsage {
		client = client || u == x509.ExtKeyUsageClientAuth || u == x509.ExtKeyUsageAny
		vsym.Assert(u == x509.ExtKeyUsageClientAuth || u == x509.ExtKeyUsageServerAuth, "a certificate is issued for other purposes")
	}
	vsym.Assert(len(c.ExtKeyUsage) > 0, "a certificate is issued for any purpose")
	if len(dns) > 0 {
		vsym.Assert(!client, "a client certificate is issued for names that aren't the user's")
		vsym.Reach("server")
	} else {
		vsym.Assert(client, "a client certificate isn't one")
		vsym.Assert(len(c.DNSNames) == 0, "a client certificate has a DNS name")
		vsym.Reach("client")
	}
	var reply map[string]string
	vsym.Assert(json.Unmarshal(w.body.Bytes(), &reply) == nil && reply["result"] == "ok", "the user is not told")
	b, _ := pem.Decode([]byte(reply["cert"]))
	vsym.Assert(b != nil && bytes.Equal(b.Bytes, c.Raw), "the user gets another certificate")
	vsym.Reach("issued")
}

func vfSameKeyW(a, b any) bool {
	x, ok := vfKeyID(a)
	y, ok2 := vfKeyID(b)
	return ok && ok2 && x == y
}

// issueTo gives owner a certificate.
func (f *vfWeb) issueTo(owner string) *x509.Certificate {
	cr := &x509.CertificateRequest{PublicKeyAlgorithm: x509.ECDSA, PublicKey: f.keys.ec().Public(), Subject: pkix.Name{CommonName: owner}, EmailAddresses: []string{owner}}
	raw, err := f.m.IssueCertificate(cr)
	vsym.Assert(err == nil, "not issued")
	c, err := x509.ParseCertificate(raw)
	vsym.Assert(err == nil, "not a certificate")
	return c
}

func VerifP21Revoke() {
	admin := vsym.String("admin", 1, 1)
	f := vfNewWeb(admin, "root")
	o1, o2 := vsym.String("owner", 1, 1), vsym.String("owner", 1, 1)
	c1 := f.issueTo(o1)
	c2 := f.issueTo(o2)
	email := vsym.String("email", 1, 2)
	who := vsym.Choose("who", 3)
	switch who {
	case 0:
		f.email = email
	case 1:
		f.email = 7 // not a string
	}
	q := url.Values{"get": {"revokeCert"}}
	adm := vsym.Choose("adm", 3)
	switch adm {
	case 1:
		q.Set("admin", "1")
	case 2:
		q.Set("admin", "")
	}
	sns := []string{bytesToHex(c1.SerialNumber.Bytes()), bytesToHex(c2.SerialNumber.Bytes()), "00:01", ""}
	t := vsym.Choose("sn", len(sns))
	q.Set("sn", sns[t])
	method := []string{"POST", "GET"}[vsym.Choose("method", 2)]
	hdr := map[string]string{}
	csrf := vsym.Choose("csrf", 3)
	if csrf == 0 {
		hdr["x-csrf-check"] = "1"
	} else if csrf == 1 {
		hdr["x-csrf-check"] = "true"
	}
	late := vsym.Bool("late")
	if late {
		vsym.Advance(10*365*24*3600 + 1)
	}
	f.do(method, q, hdr, "")
	owner := o1
	if t == 1 {
		owner = o2
	}
	own := who == 0 && owner == email
	isAdmin := adm == 1 && who == 0 && (email == admin || email == "root")
	allowed := t < 2 && method == "POST" && csrf == 0 && (own || isAdmin)
	for i, c := range f.m.db.IssuedCerts {
		rev := f.m.IsRevoked(f.parsed(i).SerialNumber)
		vsym.Assert(rev == (c.Revocation != nil), "what is revoked is not clear")
		if t < 2 && c.SerialNumber == sns[t] {
			vsym.Assert(!rev || allowed, "a certificate is revoked by someone who may not")
			vsym.Assert(rev || !allowed || late, "a certificate can't be revoked by someone who may")
			if late {
				vsym.Reach("expired")
			}
			continue
		}
		vsym.Assert(!rev, "another certificate is revoked")
	}
	switch {
	case allowed && own:
		vsym.Reach("own")
	case allowed:
		vsym.Reach("admin")
	case who > 0:
		vsym.Reach("nobody")
	default:
		vsym.Reach("denied")
	}
	if allowed && !late {
		r := f.m.db.IssuedCerts[1+t].Revocation
		time.Sleep(time.Hour)
		f.do(method, q, hdr, "")
		vsym.Assert(f.m.db.IssuedCerts[1+t].Revocation.Time.Equal(r.Time), "a certificate is revoked again")
		vsym.Reach("again")
	}
}

func VerifP21List() {
	users := []string{"a@x", "b@x", "a@x.y"}
	f := vfNewWeb("b@x")
	var cs []*x509.Certificate
	for _, u := range users {
		cs = append(cs, f.issueTo(u))
	}
	rev := vsym.Choose("revoked", 4)
	if rev < 3 {
		vsym.Assert(f.m.RevokeCertificate(cs[rev].SerialNumber, 1) == nil, "not revoked")
	}
	u := vsym.Choose("user", 5)
	if u < 3 {
		f.email = users[u]
	} else if u == 3 {
		f.email = 3
	}
	q := url.Values{}
	owner := []string{"", "me", "all", "b@x", "ALL"}[vsym.Choose("filter", 5)]
	if owner != "" {
		q.Set("owner", owner)
	}
	status := []string{"", "valid", "revoked", "expired", "all"}[vsym.Choose("status", 5)]
	q.Set("status", status)
	adm := vsym.Bool("admin")
	if adm {
		q.Set("admin", "1")
	}
	late := vsym.Bool("late")
	if late {
		vsym.Advance(10*365*24*3600 + 1)
	}
	n := f.nRevoked()
	w := f.do("GET", q, nil, "")
	vsym.Assert(f.nRevoked() == n && len(f.m.db.IssuedCerts) == 4, "looking changes something")
	if w.code >= 400 {
		vsym.Assert(u == 4, "there is no page")
		return
	}
	vsym.Assert(u != 4, "nobody gets a page")
	page := vfUnescape(w.body.String())
	_, page, ok := strings.Cut(page, "<body")
	vsym.Assert(ok, "there is no page")
	nRev := 0
	for i := range f.m.db.IssuedCerts {
		c := f.parsed(i)
		sn := f.m.db.IssuedCerts[i].SerialNumber
		mine, ca, revoked := false, true, false
		for j := range cs {
			if cs[j].SerialNumber.Cmp(c.SerialNumber) == 0 {
				mine = u < 3 && users[j] == users[u]
				ca, revoked = false, j == rev
			}
		}
		listed := strings.Contains(page, "downloadCert(\""+sn+"\")")
		can := strings.Contains(page, "revokeCert(\""+sn+"\")")
		if !listed {
			vsym.Assert(!can, "a certificate that isn't listed can be revoked")
			vsym.Assert(!(status == "all" && (mine || strings.EqualFold(owner, "all")) && !ca), "a certificate is missing")
			continue
		}
		if revoked {
			nRev++
		}
		vsym.Assert(mine || strings.EqualFold(owner, "all"), "someone else's certificate is among one's own")
		vsym.Assert(!(can && revoked), "a revoked certificate can be revoked")
		vsym.Assert(!can || !ca && (mine || adm && u == 1), "who may revoke a certificate is wrong")
		if !revoked && !late && !ca && (mine || adm && u == 1) {
			vsym.Assert(can, "who may revoke a certificate is wrong")
		}
		if can {
			vsym.Reach("canrevoke")
		}
		if !mine {
			vsym.Reach("all")
		}
		vsym.Reach("listed")
	}
	vsym.Assert(strings.Count(page, ">Revoked<")-strings.Count(page, ">Revoked</option>") == nRev, "the status is wrong")
}
