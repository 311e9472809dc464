//verif:pkg proxy/internal/sshca
//verif:use jwt.go
//verif:use store.go
//verif:hook golang.org/x/crypto/ssh ParseAuthorizedKey
//verif:hook golang.org/x/crypto/ssh MarshalAuthorizedKey
//verif:hook golang.org/x/crypto/ssh NewSignerFromKey
//verif:hook golang.org/x/crypto/ssh (*Certificate).SignCert
//verif:unit name=serve entry=VerifP22Serve share=2 synctest reach=issued,nobody,refused,notakey,plain
//verif:unit name=restart entry=VerifP22Restart share=1 synctest reach=failed,restart
//verif:assume SSH keys and certificates are encoded, parsed and signed ideally
//verif:note e-mails of up to three symbolic bytes or claims of other types, all combinations of method, headers and kinds of bodies, any time within a year; one failure of the store
package sshca

import (
	"bytes"
	"context"
	"crypto"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"time"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ssh"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfLog struct{}

func (vfLog) Errorf(string, ...any) {}

type vfResp struct {
	h    http.Header
	code int
	body bytes.Buffer
}

func (r *vfResp) Header() http.Header { return r.h }
func (r *vfResp) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *vfResp) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	return r.body.Write(b)
}

type vfPub struct{ id int }

func (p vfPub) Type() string                        { return "ssh-ed25519" }
func (p vfPub) Marshal() []byte                     { return []byte(fmt.Sprintf("key %d", p.id)) }
func (p vfPub) Verify([]byte, *ssh.Signature) error { return nil }

type vfSigner struct{ pub vfPub }

func (s vfSigner) PublicKey() ssh.PublicKey                       { return s.pub }
func (s vfSigner) Sign(io.Reader, []byte) (*ssh.Signature, error) { return &ssh.Signature{}, nil }

type vfSigned struct {
	cert ssh.Certificate
	by   ssh.Signer
	at   time.Time
}

type vfSSH struct {
	store  *vfStore
	keys   *vfKeys
	ca     *SSHCA
	claims jwt.MapClaims
	signed []vfSigned
	events int
	// certType is the type of the certificate in requests that have one.
	certType uint32
}

func (f *vfSSH) Record(string) { f.events++ }

func vfNewSSH() *vfSSH {
	f := &vfSSH{store: &vfStore{}, keys: &vfKeys{}}
	f.keys.install()
	f.store.install()
	ssh.VerifHook_ParseAuthorizedKey = func(in []byte) (ssh.PublicKey, string, []string, []byte, error) {
		switch string(in) {
		case "plain key\n":
			return vfPub{1000}, "comment", nil, nil, nil
		case "option key\n":
			return vfPub{1001}, "root@host", []string{"command=x", "principals=\"root\""}, nil, nil
		case "certificate\n":
			return &ssh.Certificate{Key: vfPub{1002}, CertType: f.certType, ValidPrincipals: []string{"root"}, KeyId: "root"}, "", nil, nil, nil
		}
		return nil, "", nil, nil, errors.New("ssh: no key found")
	}
	ssh.VerifHook_MarshalAuthorizedKey = func(k ssh.PublicKey) []byte {
		if c, ok := k.(*ssh.Certificate); ok {
			for i, s := range f.signed {
				if s.cert.Serial == c.Serial {
					return []byte(fmt.Sprintf("certificate %d\n", i))
				}
			}
			return []byte("unsigned certificate\n")
		}
		return k.Marshal()
	}
	ssh.VerifHook_NewSignerFromKey = func(key any) (ssh.Signer, error) {
		s, ok := key.(crypto.Signer)
		if !ok {
			return nil, errors.New("not a key")
		}
		id, _ := vfKeyID(s.Public())
		return vfSigner{vfPub{id}}, nil
	}
	ssh.VerifHook_Certificate_SignCert = func(c *ssh.Certificate, _ io.Reader, by ssh.Signer) error {
		f.signed = append(f.signed, vfSigned{*c, by, time.Now()})
		return nil
	}
	return f
}

func (f *vfSSH) start() error {
	ca, err := New(Options{
		Name:          "ssh",
		Store:         &storage.Storage{},
		Logger:        vfLog{},
		EventRecorder: f,
		ClaimsFromCtx: func(context.Context) jwt.MapClaims { return f.claims },
	})
	if err == nil {
		f.ca = ca
	}
	return err
}

func (f *vfSSH) post(hdr map[string]string, method, body string) *vfResp {
	req := &http.Request{Method: method, URL: &url.URL{Path: "/ssh"}, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader([]byte(body)))}
	for k, v := range hdr {
		req.Header.Set(k, v)
	}
	w := &vfResp{h: http.Header{}}
	f.ca.ServeCertificate(w, req)
	return w
}

func VerifP22Serve() {
	f := vfNewSSH()
	vsym.Assert(f.start() == nil, "no authority")
	email := vsym.String("email", 0, 3)
	who := vsym.Choose("who", 4)
	switch who {
	case 0:
		f.claims = jwt.MapClaims{"email": email, "sub": "root", "name": "root"}
	case 1:
		f.claims = jwt.MapClaims{"sub": "root"}
	case 2:
		f.claims = jwt.MapClaims{"email": []any{"root"}}
	}
	method := []string{"POST", "GET", "PUT", "HEAD"}[vsym.Choose("method", 4)]
	hdr := map[string]string{}
	csrf := vsym.Choose("csrf", 3)
	if csrf == 0 {
		hdr["x-csrf-check"] = "1"
	} else if csrf == 1 {
		hdr["x-csrf-check"] = "01"
	}
	ct := vsym.Choose("ctype", 3)
	if ct == 0 {
		hdr["content-type"] = "text/plain"
	} else if ct == 1 {
		hdr["content-type"] = "application/x-www-form-urlencoded"
	}
	vsym.Advance(vsym.Int("wait", 0, 365*24*3600))
	f.certType = []uint32{ssh.HostCert, ssh.UserCert}[vsym.Choose("certType", 2)]
	bodies := []string{"plain key\n", "option key\n", "certificate\n", "garbage", ""}
	b := vsym.Choose("body", len(bodies))
	w := f.post(hdr, method, bodies[b])
	auth := who == 0 && email != ""
	if len(f.signed) == 0 {
		vsym.Assert(w.code != 200, "a refused request looks good")
		vsym.Assert(f.events == 0, "a refused request is recorded")
		vsym.Assert(!(auth && method == "POST" && csrf == 0 && ct == 0 && b == 0), "a proper request is refused")
		switch {
		case !auth:
			vsym.Reach("nobody")
		case b > 1:
			vsym.Reach("notakey")
		default:
			vsym.Reach("refused")
		}
		return
	}
	vsym.Assert(len(f.signed) == 1, "more than one certificate is issued")
	vsym.Assert(auth, "a certificate is issued to nobody")
	vsym.Assert(method == "POST" && csrf == 0, "a certificate is issued for a request that isn't protected")
	s := f.signed[0]
	c := s.cert
	p, ok := c.Key.(vfPub)
	vsym.Assert(ok, "a certificate is issued for something that isn't a plain key")
	vsym.Assert(p.id == 1000+b, "a certificate is issued for another key")
	vsym.Assert(c.CertType == ssh.UserCert, "the certificate isn't a user certificate")
	vsym.Assert(len(c.ValidPrincipals) == 1 && c.ValidPrincipals[0] == email, "the certificate is for another user")
	vsym.Assert(c.KeyId == email, "the certificate names another user")
	now := time.Now().Unix()
	vsym.Assert(int64(c.ValidBefore) > now && int64(c.ValidBefore) <= now+24*3600*60, "the certificate is valid for too long, or not at all")
	vsym.Assert(int64(c.ValidBefore) == now+int64(issuedCertsLifetime/time.Second), "the certificate is not valid for the lifetime there is")
	vsym.Assert(int64(c.ValidAfter) <= now && int64(c.ValidAfter) >= now-3600, "the certificate is not valid now, or long before")
	vsym.Assert(len(c.CriticalOptions) == 0, "the certificate has options")
	vsym.Assert(s.by.PublicKey() == f.ca.signer.PublicKey(), "the certificate is signed by another key")
	vsym.Assert(w.code == 200 && w.body.String() == "certificate 0\n", "the user gets something else")
	vsym.Assert(w.h.Get("cache-control") == "no-store", "the certificate is cached")
	vsym.Assert(f.events == 1, "the certificate is not recorded")
	vsym.Reach("issued")
	if b == 0 {
		vsym.Reach("plain")
	}
}

// The key stays the same, and is published.
func VerifP22Restart() {
	f := vfNewSSH()
	once := false
	f.store.fail = func(op, file string) bool {
		if !once && vsym.Bool("fail") {
			once = true
			return true
		}
		return false
	}
	err := f.start()
	if err != nil {
		vsym.Assert(once, "no authority")
		vsym.Reach("failed")
		err = f.start()
	}
	vsym.Assert(err == nil, "no authority")
	key := func() string {
		w := &vfResp{h: http.Header{}}
		f.ca.ServePublicKey(w, nil)
		vsym.Assert(w.code == 200, "no key")
		return w.body.String()
	}
	k := key()
	for i := 0; i < 2; i++ {
		if err := f.start(); err != nil {
			vsym.Assert(once, "no authority")
			continue
		}
		vsym.Assert(key() == k, "the authority has a new key")
		f.claims = jwt.MapClaims{"email": "a"}
		f.post(map[string]string{"x-csrf-check": "1", "content-type": "text/plain"}, "POST", "plain key\n")
		n := len(f.signed)
		vsym.Assert(n > 0 && string(f.signed[n-1].by.PublicKey().Marshal()) == k, "a certificate is signed with a key that's not published")
		vsym.Reach("restart")
	}
}
