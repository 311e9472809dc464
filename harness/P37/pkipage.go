//verif:pkg proxy/internal/pki
//verif:use pkiweb.go
//verif:use html.go
//verif:embed
//verif:unit name=certs entry=VerifP37Certs share=2 synctest q.N=1 t.N=2 reach=listed
package pki

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"net/url"
	"strings"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

func vfP37Certs(kind int, text string) []byte {
	f := vfNewWeb()
	f.email = "a@x"
	cr := &x509.CertificateRequest{PublicKeyAlgorithm: x509.ECDSA, PublicKey: f.keys.ec().Public(), Subject: pkix.Name{CommonName: "a"}, EmailAddresses: []string{"a@x"}, DNSNames: []string{"d"}}
	switch kind {
	case 0:
		cr.Subject.CommonName = "a" + text
	case 1:
		cr.DNSNames[0] = "d" + text
	case 2:
		f.email = "a" + text + "@x"
		cr.EmailAddresses[0] = "a" + text + "@x"
	}
	raw, err := f.m.IssueCertificate(cr)
	vsym.Assert(err == nil && raw != nil, "no certificate")
	w := f.do("GET", url.Values{"owner": {"me"}}, nil, "")
	vsym.Assert(w.code == 200, "no page")
	return w.body.Bytes()
}

// The list of certificates, with names that users choose.
func VerifP37Certs() {
	kind := vsym.Choose("kind", 3)
	text := vfNasty(vsym.Param("N", 1))
	want, _ := vfSkeleton(vfP37Certs(kind, "zz"))
	page := vfP37Certs(kind, text)
	got, active := vfSkeleton(page)
	vsym.Assert(strings.Contains(want, "<body") && got == want, "what a user can choose changes the structure of a page")
	for _, a := range active {
		vsym.Assert(!strings.Contains(a, "alert(1)"), "a user chooses code")
	}
	if kind == 1 {
		vsym.Assert(strings.Contains(vfUnescape(string(page)), ">d"+text+"<"), "the page doesn't show the name")
	}
	vsym.Reach("listed")
}
