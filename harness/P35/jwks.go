//verif:pkg proxy/internal/tokenmanager
//verif:hook encoding/json MarshalIndent
//verif:hook github.com/c2FmZQ/tpm (*Key).Sign
//verif:hook github.com/c2FmZQ/tpm (*Key).Curve
//verif:unit name=exact entry=VerifP35Exact share=3 reach=ec,ed,rsa,leadingzero
//verif:unit name=document entry=VerifP35Document share=2 reach=document,cached,none
//verif:unit name=tpm entry=VerifP35TPM share=1 reach=ec,rsa,short
//verif:note coordinates and 2048-bit RSA moduli with any first three bytes and any last one and any RSA exponent up to 31 bits; sets of up to three keys of any kinds; the sizes of the numbers in TPM signatures are from a table
package tokenmanager

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"strings"
	"time"

	"github.com/c2FmZQ/tpm"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfPriv struct{ pub crypto.PublicKey }

func (p vfPriv) Public() crypto.PublicKey { return p.pub }

type vfW struct {
	h    http.Header
	code int
	body bytes.Buffer
}

func (w *vfW) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *vfW) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	return w.body.Write(b)
}
func (w *vfW) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}

// vfCoord is a coordinate with any first bytes and any last one.
func vfCoord(name string, n int) []byte {
	b := vfConcrete(n, byte(len(name)))
	copy(b, vsym.Bytes(name, 3, 3))
	b[n-1] = vsym.Byte(name + "End")
	return b
}

func vfB64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// Any key is published as it is, in the form that RFC 7518 and RFC 8037 want:
// the coordinates of points have the full size of the curve, and RSA's numbers
// are as short as can be.
func VerifP35Exact() {
	var got []jwk
	json.VerifHook_MarshalIndent = func(v any, _, _ string) ([]byte, error) {
		got = v.(jwks).Keys
		return []byte("document"), nil
	}
	var want jwk
	var key crypto.PublicKey
	switch vsym.Choose("kind", 3) {
	case 0:
		x, y := vfCoord("x", 32), vfCoord("y", 32)
		key = &ecdsa.PublicKey{Curve: &elliptic.CurveParams{Name: "P-256", BitSize: 256}, X: new(big.Int).SetBytes(x), Y: new(big.Int).SetBytes(y)}
		want = jwk{Type: "EC", Alg: "ES256", Curve: "P-256", X: vfB64(x), Y: vfB64(y)}
		if vsym.Or(x[0] == 0, y[0] == 0) {
			vsym.Reach("leadingzero")
		}
		vsym.Reach("ec")
	case 1:
		x := vfCoord("x", 32)
		key = ed25519.PublicKey(x)
		want = jwk{Type: "OKP", Alg: "EdDSA", Curve: "Ed25519", X: vfB64(x)}
		vsym.Reach("ed")
	case 2:
		n := vfCoord("n", 256)
		vsym.Assume(n[0] != 0)
		eb := vsym.Bytes("e", 1, 4)
		vsym.Assume(eb[0] != 0)
		e := 0
		for _, b := range eb {
			e = e<<8 | int(b)
		}
		vsym.Assume(e < 1<<31)
		key = &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: e}
		want = jwk{Type: "RSA", Alg: "RS256", N: vfB64(n), E: vfB64(eb)}
		vsym.Reach("rsa")
	}
	tm := &TokenManager{keys: tokenKeys{Keys: []*tokenKey{{ID: "kid", privKey: vfPriv{key}}}}}
	w := &vfW{}
	tm.ServeJWKS(w, &http.Request{Method: "GET", Header: http.Header{}})
	vsym.Assert(w.code == 200 && w.body.String() == "document", "the document isn't served")
	vsym.Assert(len(got) == 1, "not one key")
	k := got[0]
	vsym.Assert(k.ID == "kid" && k.Use == "sig" && k.Type == want.Type && k.Alg == want.Alg && k.Curve == want.Curve, "the key has another description")
	vsym.Assert(vsym.Eq(k.X, want.X), "x is another or in another form")
	vsym.Assert(vsym.Eq(k.Y, want.Y), "y is another or in another form")
	vsym.Assert(vsym.Eq(k.N, want.N), "n is another or in another form")
	vsym.Assert(vsym.Eq(k.E, want.E), "e is another or in another form")
}

func vfConcrete(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*3 + seed + 1
	}
	return b
}

// The document has all keys and nothing else.
func VerifP35Document() {
	n := vsym.Choose("keys", 4)
	var keys []*tokenKey
	want := map[string]map[string]string{}
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("kid%d", i)
		a, b := vfConcrete(32, byte(i)), vfConcrete(32, byte(i)+100)
		k := &tokenKey{ID: id, Type: "t", Key: []byte("PRIVATE"), CreationTime: time.Now()}
		m := map[string]string{"kid": id, "use": "sig"}
		switch vsym.Choose("kind", 3) {
		case 0:
			k.privKey = vfPriv{&ecdsa.PublicKey{Curve: &elliptic.CurveParams{Name: "P-256", BitSize: 256}, X: new(big.Int).SetBytes(a), Y: new(big.Int).SetBytes(b)}}
			m["kty"], m["alg"], m["crv"], m["x"], m["y"] = "EC", "ES256", "P-256", vfB64(a), vfB64(b)
		case 1:
			k.privKey = vfPriv{ed25519.PublicKey(a)}
			m["kty"], m["alg"], m["crv"], m["x"] = "OKP", "EdDSA", "Ed25519", vfB64(a)
		case 2:
			k.privKey = vfPriv{&rsa.PublicKey{N: new(big.Int).SetBytes(a), E: 65537}}
			m["kty"], m["alg"], m["n"], m["e"] = "RSA", "RS256", vfB64(a), "AQAB"
		}
		keys = append(keys, k)
		want[id] = m
	}
	tm := &TokenManager{keys: tokenKeys{Keys: keys}}
	w := &vfW{}
	tm.ServeJWKS(w, &http.Request{Method: "GET", Header: http.Header{}})
	vsym.Assert(w.code == 200 && w.Header().Get("Content-Type") == "application/json", "the document isn't served")
	vsym.Assert(!strings.Contains(w.body.String(), "PRIVATE"), "a private key is published")
	var doc map[string]any
	vsym.Assert(json.Unmarshal(w.body.Bytes(), &doc) == nil, "the document is no JSON")
	l, _ := doc["keys"].([]any)
	vsym.Assert(len(doc) == 1 && len(l) == n, "the document has other things, or fewer")
	for _, e := range l {
		m, ok := e.(map[string]any)
		vsym.Assert(ok, "a key is no object")
		id, _ := m["kid"].(string)
		x := want[id]
		vsym.Assert(x != nil && len(x) == len(m), "a key has more, or less, than it should have")
		for f, v := range x {
			vsym.Assert(m[f] == v, "a key is described wrong")
		}
		delete(want, id)
	}
	if n == 0 {
		vsym.Reach("none")
	}
	tag := w.Header().Get("Etag")
	vsym.Assert(tag != "", "no tag")
	have := vsym.Pick("have", "same", "other", "")
	// What the client has is what was served before the first key was rotated.
	if n > 0 && have == "other" {
		tm.keys.Keys = tm.keys.Keys[1:]
	}
	hdr := http.Header{}
	if have != "" {
		hdr.Set("If-None-Match", tag)
	}
	w2 := &vfW{}
	tm.ServeJWKS(w2, &http.Request{Method: "GET", Header: hdr})
	if have == "same" || have == "other" && n == 0 {
		vsym.Assert(w2.code == 304 && w2.body.Len() == 0, "what the client has is served again")
		vsym.Reach("cached")
		return
	}
	vsym.Assert(w2.code == 200 && w2.body.Len() > 0, "the client has to use what it has though it's not current")
	if have == "" {
		vsym.Assert(w2.body.String() == w.body.String(), "the document changes though the keys don't")
	}
	vsym.Reach("document")
}

// Signatures that are made by a TPM have the form that tokens have.
func VerifP35TPM() {
	k := &tpm.Key{}
	curve := &elliptic.CurveParams{Name: "P-256", BitSize: 256}
	tpm.VerifHook_Key_Curve = func(*tpm.Key) elliptic.Curve { return curve }
	var digest []byte
	var sig []byte
	fail := vsym.Bool("fail")
	tpm.VerifHook_Key_Sign = func(_ *tpm.Key, _ io.Reader, d []byte, _ crypto.SignerOpts) ([]byte, error) {
		digest = append([]byte{}, d...)
		if fail {
			return nil, errors.New("no TPM")
		}
		return sig, nil
	}
	msg := "header.claims"
	h := crypto.SHA256.New()
	h.Write([]byte(msg))
	sum := h.Sum(nil)
	if vsym.Bool("rsa") {
		sig = vsym.Bytes("sig", 2, 4)
		out, err := (&tpmSigningMethod{jwt.SigningMethodRS256}).Sign(msg, k)
		vsym.Assert(bytes.Equal(digest, sum), "something else is signed")
		vsym.Assert((err != nil) == fail, "error")
		if err == nil {
			vsym.Assert(vsym.Eq(string(out), string(sig)), "the signature is another")
			vsym.Reach("rsa")
		}
		return
	}
	sizes := []int{32, 31, 30, 1}
	r, s := vfConcrete(sizes[vsym.Choose("r", 4)], 1), vfConcrete(sizes[vsym.Choose("s", 4)], 5)
	var err error
	sig, err = asn1.Marshal([]*big.Int{new(big.Int).SetBytes(r), new(big.Int).SetBytes(s)})
	vsym.Assert(err == nil, "asn1")
	out, err := (&tpmSigningMethod{jwt.SigningMethodES256}).Sign(msg, k)
	vsym.Assert(bytes.Equal(digest, sum), "something else is signed")
	vsym.Assert((err != nil) == fail, "error")
	if err != nil {
		return
	}
	vsym.Assert(len(out) == 64, "the signature doesn't have its size")
	vsym.Assert(bytes.Equal(out[32-len(r):32], r) && bytes.Equal(out[64-len(s):], s), "the signature is another")
	for i := 0; i < 32; i++ {
		vsym.Assert(i >= 32-len(r) || out[i] == 0, "r is padded wrong")
		vsym.Assert(i >= 32-len(s) || out[32+i] == 0, "s is padded wrong")
	}
	if len(r) < 32 {
		vsym.Reach("short")
	}
	vsym.Reach("ec")
}
