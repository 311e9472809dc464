//verif:use jwt.go
//verif:use store.go
//verif:use x509.go
//verif:hook crypto/rand Int
//verif:hook crypto/x509 ParseCertificateRequest
//verif:hook crypto/x509 (*CertificateRequest).CheckSignature
//verif:assume certificate requests are parsed ideally and their signature is checked by the library
package common

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"strings"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfLog struct{}

func (vfLog) Errorf(string, ...any) {}

type vfResp struct {
	h    http.Header
	code int
	body bytes.Buffer
}

func (r *vfResp) Header() http.Header { return r.h }
func (r *vfResp) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *vfResp) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	return r.body.Write(b)
}

type vfWeb struct {
	store  *vfStore
	keys   *vfKeys
	x      *vfX509
	m      *PKIManager
	sn     int64
	email  any // of the user, nil if nobody is logged in
	csr    *x509.CertificateRequest
	csrSig bool
}

func vfNewWeb(admins ...string) *vfWeb {
	f := &vfWeb{store: &vfStore{}, keys: &vfKeys{}, x: &vfX509{}}
	f.keys.install()
	f.x.install()
	f.store.fresh = func(string) any { return new(certificateAuthority) }
	db := func(v any) *certificateAuthority {
		if p, ok := v.(**certificateAuthority); ok {
			if *p == nil {
				*p = &certificateAuthority{}
			}
			return *p
		}
		return v.(*certificateAuthority)
	}
	f.store.clone = func(dst, src any) {
		d, s := db(dst), db(src)
		*d = *s
		d.PrivateKey = append([]byte{}, s.PrivateKey...)
		d.IssuedCerts = nil
		for _, c := range s.IssuedCerts {
			d.IssuedCerts = append(d.IssuedCerts, &certificate{SHA256: c.SHA256, SerialNumber: c.SerialNumber, Raw: c.Raw, Revocation: c.Revocation})
		}
		d.Revoked = map[string]bool{}
		for k, v := range s.Revoked {
			d.Revoked[k] = v
		}
	}
	f.store.install()
	rand.VerifHook_Int = func(io.Reader, *big.Int) (*big.Int, error) {
		f.sn++
		return new(big.Int).SetBytes([]byte{1, byte(f.sn), 0, 10}), nil
	}
	x509.VerifHook_ParseCertificateRequest = func(der []byte) (*x509.CertificateRequest, error) {
		if string(der) != "CSR" || f.csr == nil {
			return nil, errors.New("malformed request")
		}
		return f.csr, nil
	}
	x509.VerifHook_CertificateRequest_CheckSignature = func(*x509.CertificateRequest) error {
		if !f.csrSig {
			return errors.New("bad signature")
		}
		return nil
	}
	m, err := New(Options{
		Name:   "ca",
		Store:  &storage.Storage{},
		Logger: vfLog{},
		Admins: admins,
		ClaimsFromCtx: func(context.Context) jwt.MapClaims {
			if f.email == nil {
				return nil
			}
			return jwt.MapClaims{"email": f.email}
		},
	})
	vsym.Assert(err == nil, "no authority")
	f.m = m
	return f
}

func (f *vfWeb) do(method string, q url.Values, hdr map[string]string, body string) *vfResp {
	req := &http.Request{Method: method, URL: &url.URL{Path: "/pki", RawQuery: q.Encode()}, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body))}
	for k, v := range hdr {
		req.Header.Set(k, v)
	}
	w := &vfResp{h: http.Header{}}
	f.m.ServeCertificateManagement(w, req)
	return w
}

func vfCSR() string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: []byte("CSR")}))
}

func (f *vfWeb) parsed(i int) *x509.Certificate {
	c, err := x509.ParseCertificate(f.m.db.IssuedCerts[i].Raw)
	vsym.Assert(err == nil, "not a certificate")
	return c
}

func (f *vfWeb) nRevoked() int {
	n := 0
	for _, c := range f.m.db.IssuedCerts {
		if c.Revocation != nil {
			n++
		}
	}
	return n
}
