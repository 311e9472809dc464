//verif:pkg proxy/internal/ocspcache
//verif:use store.go
//verif:hook net/http (*Client).Do
//verif:hook golang.org/x/crypto/ocsp ParseResponseForCert
//verif:hook golang.org/x/crypto/ocsp ParseResponse
//verif:hook golang.org/x/crypto/ocsp CreateRequest
//verif:unit name=once entry=VerifP25Once share=2 synctest reach=accepted,revoked,stale,otherserial,forged,badaddr,second
//verif:unit name=history entry=VerifP25History share=3 synctest q.N=2 t.N=3 reach=cached,refetched,nowrevoked,restart
//verif:unit name=chains entry=VerifP25Chains share=2 synctest reach=onechain,nochain,partial
//verif:unit name=staple entry=VerifP25Staple share=4 synctest reach=margin,none
//verif:assume OCSP responses are ideal: one is only accepted by the library for an issuer that signed it and, when a certificate is given, for that certificate's serial number; requests can always be made; the storage is trusted
//verif:note a leaf, an intermediate and a root, each with no, one, two or unusable responder addresses; every responder answers with an error, garbage or a response for this or another certificate, signed by the issuer or not, good, revoked or unknown, with any or no end of validity within the hour; stapled responses likewise; up to three checks with any times and restarts between
package ocspcache

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"time"

	"github.com/c2FmZQ/storage"
	"golang.org/x/crypto/ocsp"

	"crypto/x509"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfLog struct{}

func (vfLog) Errorf(string, ...any) {}
func (vfLog) Fatalf(string, ...any) { panic("fatal") }

// vfResp is one response there is.
type vfResp struct {
	serial int64
	signer *x509.Certificate // nil: nobody we know
	status int
	next   time.Time
	// where it was seen
	stapled, fetched int // number of the check
}

type vfWorld struct {
	resps []*vfResp
	check int
	// answer returns the response that server has for the check at hand, nil
	// for none.
	answer func(server string) (*vfResp, error)
	asked  int
	begin  time.Time
}

func (w *vfWorld) raw(r *vfResp) []byte {
	for i, x := range w.resps {
		if x == r {
			return []byte(fmt.Sprintf("R%03d", i))
		}
	}
	w.resps = append(w.resps, r)
	return []byte(fmt.Sprintf("R%03d", len(w.resps)-1))
}

func (w *vfWorld) parse(b []byte, cert, issuer *x509.Certificate) (*ocsp.Response, error) {
	for i, x := range w.resps {
		if string(b) != fmt.Sprintf("R%03d", i) {
			continue
		}
		if cert != nil && cert.SerialNumber.Int64() != x.serial {
			return nil, ocsp.ParseError("no response matching the supplied certificate")
		}
		if issuer != nil && issuer != x.signer {
			return nil, ocsp.ParseError("bad OCSP signature")
		}
		return &ocsp.Response{Raw: b, Status: x.status, SerialNumber: big.NewInt(x.serial), NextUpdate: x.next, ThisUpdate: w.begin, ProducedAt: w.begin}, nil
	}
	return nil, ocsp.ParseError("garbage")
}

func (w *vfWorld) install() {
	w.begin = time.Now()
	ocsp.VerifHook_ParseResponseForCert = w.parse
	ocsp.VerifHook_ParseResponse = func(b []byte, issuer *x509.Certificate) (*ocsp.Response, error) {
		return w.parse(b, nil, issuer)
	}
	ocsp.VerifHook_CreateRequest = func(cert, issuer *x509.Certificate, _ *ocsp.RequestOptions) ([]byte, error) {
		return []byte("request"), nil
	}
	http.VerifHook_Client_Do = func(c *http.Client, req *http.Request) (*http.Response, error) {
		w.asked++
		r, err := w.answer(req.URL.String())
		if err != nil {
			return nil, err
		}
		body := []byte("garbage")
		if r != nil {
			body = w.raw(r)
			r.fetched = w.check
		}
		return &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader(body))}, nil
	}
}

func vfCert(serial int64, servers ...string) *x509.Certificate {
	return &x509.Certificate{Raw: []byte{byte(serial)}, SerialNumber: big.NewInt(serial), OCSPServer: servers}
}

func vfNewCache() *OCSPCache { return New(&storage.Storage{}, vfLog{}) }

// vfOK is whether what was seen says that cert is good.
func (w *vfWorld) vfOK(cert, issuer *x509.Certificate) bool {
	if len(cert.OCSPServer) == 0 {
		return true
	}
	good := false
	now := time.Now()
	for _, r := range w.resps {
		if r.serial != cert.SerialNumber.Int64() || r.signer != issuer || r.fetched == 0 && r.stapled == 0 {
			continue
		}
		if now.Before(r.next) || r.next.IsZero() && r.fetched == w.check {
			if r.status == ocsp.Revoked && r.fetched == w.check {
				return false
			}
			if r.status == ocsp.Good {
				good = true
			}
		}
	}
	return good
}

// vfAnyResp is any response for a certificate with the serial number.
func (w *vfWorld) vfAnyResp(name string, serial int64, issuer *x509.Certificate) *vfResp {
	r := &vfResp{serial: serial, signer: issuer}
	r.status = []int{ocsp.Good, ocsp.Revoked, ocsp.Unknown, 7}[vsym.Choose(name+"Status", 4)]
	switch vsym.Choose(name+"Validity", 2) {
	case 0:
	case 1:
		s := vsym.Int64(name + "Next")
		vsym.Assume(vsym.And(s >= -3600, s <= 3600))
		r.next = w.begin.Add(time.Duration(s) * time.Second)
	}
	switch vsym.Choose(name+"Flaw", 3) {
	case 1:
		r.serial = 99
	case 2:
		r.signer = nil
	}
	return r
}

// One check of a leaf certificate.
func VerifP25Once() {
	(&vfStore{}).install()
	w := &vfWorld{check: 1}
	w.install()
	root := vfCert(3)
	leaf := vfCert(1)
	switch vsym.Choose("servers", 4) {
	case 0:
		leaf.OCSPServer = []string{"http://s1/"}
	case 1:
		leaf.OCSPServer = []string{"http://s1/", "http://s2/"}
	case 2:
		leaf.OCSPServer = []string{"http://[::1/"}
	case 3:
		leaf.OCSPServer = []string{"http://[::1/", "http://s2/"}
	}
	second := false
	w.answer = func(s string) (*vfResp, error) {
		if s == "http://s2/" {
			second = true
			switch vsym.Choose("s2", 3) {
			case 0:
				return nil, errors.New("no answer")
			case 1:
				return &vfResp{serial: 1, signer: root, status: ocsp.Good, next: w.begin.Add(time.Hour)}, nil
			}
			return &vfResp{serial: 1, signer: root, status: ocsp.Revoked, next: w.begin.Add(time.Hour)}, nil
		}
		switch vsym.Choose("s1", 3) {
		case 0:
			return nil, errors.New("no answer")
		case 1:
			return nil, nil
		}
		return w.vfAnyResp("resp", 1, root), nil
	}
	var stapled []byte
	switch vsym.Choose("stapled", 3) {
	case 1:
		stapled = []byte("garbage")
	case 2:
		if len(leaf.OCSPServer) == 1 {
			r := w.vfAnyResp("staple", 1, root)
			r.stapled = 1
			stapled = w.raw(r)
		}
	}
	c := vfNewCache()
	err := c.VerifyChains([][]*x509.Certificate{{leaf, root}}, stapled)
	if err == nil {
		vsym.Assert(w.vfOK(leaf, root), "a certificate is accepted without a valid answer that it is good")
		vsym.Reach("accepted")
		if second {
			vsym.Reach("second")
		}
		return
	}
	if leaf.OCSPServer[0] != "http://s1/" {
		vsym.Reach("badaddr")
	}
	for _, r := range w.resps {
		switch {
		case r.serial != 1:
			vsym.Reach("otherserial")
		case r.signer == nil:
			vsym.Reach("forged")
		case r.status == ocsp.Revoked:
			vsym.Reach("revoked")
		case r.status == ocsp.Good && !r.next.IsZero():
			vsym.Reach("stale")
		}
	}
}

// Checks of one certificate at several times.
func VerifP25History() {
	(&vfStore{}).install()
	w := &vfWorld{}
	w.install()
	root := vfCert(3)
	leaf := vfCert(1, "http://s1/")
	var stapled []byte
	revoked := false
	w.answer = func(string) (*vfResp, error) {
		if w.check > 1 && vsym.Bool("down") {
			return nil, errors.New("no answer")
		}
		r := &vfResp{serial: 1, signer: root, status: ocsp.Good}
		if w.check > 1 && vsym.Bool("revoked") {
			r.status = ocsp.Revoked
			revoked = true
		}
		s := vsym.Int64("next")
		vsym.Assume(vsym.And(s >= 0, s <= 3600))
		r.next = time.Now().Add(time.Duration(s) * time.Second)
		return r, nil
	}
	c := vfNewCache()
	N := vsym.Param("N", 2)
	for w.check = 1; w.check <= N; w.check++ {
		stapled = nil
		if w.check > 1 {
			wait := vsym.Int64("wait")
			vsym.Assume(vsym.And(wait >= 0, wait <= 4000))
			vsym.Advance(int(wait))
			if vsym.Bool("restart") {
				vsym.Assert(c.flush() == nil, "flush")
				c = vfNewCache()
				vsym.Reach("restart")
			}
		}
		if vsym.Bool("staple") {
			r := &vfResp{serial: 1, signer: root, status: ocsp.Good, stapled: w.check}
			s := vsym.Int64("stapleNext")
			vsym.Assume(vsym.And(s >= 0, s <= 7200))
			r.next = w.begin.Add(time.Duration(s) * time.Second)
			stapled = w.raw(r)
		}
		was := revoked
		w.asked = 0
		err := c.VerifyChains([][]*x509.Certificate{{leaf, root}}, stapled)
		if err == nil {
			vsym.Assert(w.vfOK(leaf, root), "a certificate is accepted without a valid answer that it is good")
			if w.asked == 0 {
				vsym.Reach("cached")
			} else if w.check > 1 {
				vsym.Reach("refetched")
			}
		} else if was || revoked {
			vsym.Reach("nowrevoked")
		}
	}
}

// Several certificates to check, one or two chains.
func VerifP25Chains() {
	(&vfStore{}).install()
	w := &vfWorld{check: 1}
	w.install()
	root, root2 := vfCert(3), vfCert(4)
	leaf, ca, ca2 := vfCert(1), vfCert(2), vfCert(5)
	for i, c := range []*x509.Certificate{leaf, ca, ca2, root2} {
		if vsym.Bool(fmt.Sprintf("has%d", i)) {
			c.OCSPServer = []string{fmt.Sprintf("http://s%d/", i)}
		}
	}
	w.answer = func(s string) (*vfResp, error) {
		var r *vfResp
		switch s {
		case "http://s0/":
			r = &vfResp{serial: 1, signer: ca}
		case "http://s1/":
			r = &vfResp{serial: 2, signer: root}
		case "http://s2/":
			r = &vfResp{serial: 5, signer: root2}
		case "http://s3/":
			r = &vfResp{serial: 4, signer: root2}
		}
		switch vsym.Choose("answer"+s[8:9], 4) {
		case 0:
			return nil, errors.New("no answer")
		case 1:
			r.status = ocsp.Good
		case 2:
			r.status = ocsp.Revoked
		case 3:
			r.status = ocsp.Unknown
		}
		r.next = w.begin.Add(time.Hour)
		return r, nil
	}
	chains := [][]*x509.Certificate{{leaf, ca, root}}
	if vsym.Bool("two") {
		chains = append(chains, []*x509.Certificate{leaf, ca, ca2, root2})
	}
	err := vfNewCache().VerifyChains(chains, nil)
	good := 0
	for _, ch := range chains {
		ok := true
		for i, c := range ch {
			issuer := c
			if i+1 < len(ch) {
				issuer = ch[i+1]
			}
			if !w.vfOK(c, issuer) {
				ok = false
			}
		}
		if ok {
			good++
		}
	}
	if err == nil {
		vsym.Assert(good > 0, "a connection is accepted though no chain is known to be good")
		vsym.Reach("onechain")
	} else {
		vsym.Assert(good < len(chains), "a connection is refused though every chain is known to be good")
		vsym.Reach("nochain")
		if w.asked > 1 {
			vsym.Reach("partial")
		}
	}
}

// The proxy's own certificates.
func VerifP25Staple() {
	(&vfStore{}).install()
	w := &vfWorld{check: 1}
	w.install()
	root := vfCert(3)
	leaf := vfCert(1)
	if vsym.Bool("has") {
		leaf.OCSPServer = []string{"http://s1/"}
	}
	w.answer = func(string) (*vfResp, error) {
		if w.check > 1 && vsym.Bool("down") {
			return nil, errors.New("no answer")
		}
		return w.vfAnyResp("resp", 1, root), nil
	}
	c := vfNewCache()
	for w.check = 1; w.check <= 2; w.check++ {
		if w.check > 1 {
			wait := vsym.Int64("wait")
			vsym.Assume(vsym.And(wait >= 0, wait <= 4000))
			vsym.Advance(int(wait))
		}
		resp, err := c.Response(leaf, root, time.Duration(vsym.Choose("margin", 2))*time.Hour)
		if len(leaf.OCSPServer) == 0 {
			vsym.Assert(err != nil, "an answer about a certificate without responders")
			vsym.Reach("none")
			continue
		}
		if err != nil {
			continue
		}
		vsym.Assert(resp != nil, "no answer and no error")
		vsym.Assert(resp.SerialNumber.Int64() == 1, "an answer about another certificate")
		vsym.Assert(resp.NextUpdate.IsZero() || time.Now().Before(resp.NextUpdate), "an answer is used past its validity")
		vsym.Reach("margin")
	}
	vsym.Assert(c.flush() == nil, "flush")
}
