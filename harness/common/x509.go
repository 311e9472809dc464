//verif:hook crypto/x509 CreateCertificate
//verif:hook crypto/x509 ParseCertificate
//verif:hook crypto/x509 CreateRevocationList
//verif:hook crypto/x509 ParseRevocationList
//verif:assume encoding and parsing of certificates and revocation lists are inverse, times in them are whole seconds, and what is parsed shares the memory of the input
package common

import (
	"crypto"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"fmt"
	"io"
	"math/big"
	"sync"
	"time"
)

type vfCRL struct {
	t      x509.RevocationList
	signer crypto.PublicKey
	issuer *x509.Certificate
}

// vfX509 replaces the encoding and parsing of certificates.
type vfX509 struct {
	mu     sync.Mutex
	certs  map[string]*x509.Certificate
	signer map[string]crypto.PublicKey // by what key a certificate is signed
	parent map[string]*x509.Certificate
	lists  map[string]*vfCRL
}

func (v *vfX509) install() {
	v.certs = map[string]*x509.Certificate{}
	v.signer = map[string]crypto.PublicKey{}
	v.parent = map[string]*x509.Certificate{}
	v.lists = map[string]*vfCRL{}
	x509.VerifHook_CreateCertificate = func(_ io.Reader, t, parent *x509.Certificate, pub, priv any) ([]byte, error) {
		s, ok := priv.(crypto.Signer)
		if !ok {
			return nil, errors.New("not a signer")
		}
		if t.SerialNumber == nil || t.SerialNumber.Sign() < 0 {
			return nil, errors.New("no serial number")
		}
		v.mu.Lock()
		defer v.mu.Unlock()
		c := *t
		id, ok := vfKeyID(pub)
		if !ok {
			return nil, errors.New("no key")
		}
		c.PublicKey = pub
		c.NotBefore, c.NotAfter = t.NotBefore.Truncate(time.Second), t.NotAfter.Truncate(time.Second)
		c.Issuer = parent.Subject
		if t == parent {
			c.Issuer = t.Subject
		}
		c.SerialNumber = new(big.Int).Set(t.SerialNumber)
		c.Signature = nil
		c.SubjectKeyId = []byte{'k', byte(id >> 8), byte(id)}
		c.RawSubject = []byte("subject " + c.Subject.CommonName)
		spki, err := asn1.Marshal(struct {
			Algorithm pkix.AlgorithmIdentifier
			PublicKey asn1.BitString
		}{pkix.AlgorithmIdentifier{Algorithm: asn1.ObjectIdentifier{1, 2}}, asn1.BitString{Bytes: []byte{byte(id >> 8), byte(id)}, BitLength: 16}})
		if err != nil {
			return nil, err
		}
		c.RawSubjectPublicKeyInfo = spki
		c.PublicKeyAlgorithm = x509.ECDSA
		c.ExtraExtensions = nil
		raw := fmt.Sprintf("CERT%03d", len(v.certs))
		v.certs[raw] = &c
		v.signer[raw] = s.Public()
		v.parent[raw] = parent
		return []byte(raw), nil
	}
	x509.VerifHook_ParseCertificate = func(raw []byte) (*x509.Certificate, error) {
		v.mu.Lock()
		defer v.mu.Unlock()
		t := v.certs[string(raw)]
		if t == nil {
			return nil, errors.New("malformed certificate")
		}
		c := *t
		c.Raw = raw
		c.SerialNumber = new(big.Int).Set(t.SerialNumber)
		return &c, nil
	}
	x509.VerifHook_CreateRevocationList = func(_ io.Reader, t *x509.RevocationList, issuer *x509.Certificate, priv crypto.Signer) ([]byte, error) {
		if issuer.KeyUsage&x509.KeyUsageCRLSign == 0 || len(issuer.SubjectKeyId) == 0 || t.NextUpdate.Before(t.ThisUpdate) || t.Number == nil {
			return nil, errors.New("not possible")
		}
		v.mu.Lock()
		defer v.mu.Unlock()
		l := *t
		l.RevokedCertificateEntries = append([]x509.RevocationListEntry{}, t.RevokedCertificateEntries...)
		l.ThisUpdate, l.NextUpdate = t.ThisUpdate.Truncate(time.Second), t.NextUpdate.Truncate(time.Second)
		raw := fmt.Sprintf("LIST%03d", len(v.lists))
		v.lists[raw] = &vfCRL{l, priv.Public(), issuer}
		return []byte(raw), nil
	}
	x509.VerifHook_ParseRevocationList = func(raw []byte) (*x509.RevocationList, error) {
		v.mu.Lock()
		defer v.mu.Unlock()
		l := v.lists[string(raw)]
		if l == nil {
			return nil, errors.New("malformed list")
		}
		c := l.t
		c.Raw = raw
		return &c, nil
	}
}
