//verif:hook crypto/elliptic P256
//verif:hook crypto/ecdsa GenerateKey
//verif:hook crypto/rsa GenerateKey
//verif:hook crypto/ed25519 GenerateKey
//verif:hook crypto/x509 MarshalPKCS8PrivateKey
//verif:hook crypto/x509 ParsePKCS8PrivateKey
//verif:hook github.com/golang-jwt/jwt/v5 (*SigningMethodECDSA).Sign
//verif:hook github.com/golang-jwt/jwt/v5 (*SigningMethodECDSA).Verify
//verif:hook github.com/golang-jwt/jwt/v5 (*SigningMethodRSA).Sign
//verif:hook github.com/golang-jwt/jwt/v5 (*SigningMethodRSA).Verify
//verif:hook github.com/golang-jwt/jwt/v5 (*SigningMethodEd25519).Sign
//verif:hook github.com/golang-jwt/jwt/v5 (*SigningMethodEd25519).Verify
//verif:assume signatures are ideal: one verifies only if the holder of that very key made it for that very message with that method; keys are distinct; PKCS #8 encoding and decoding of keys are inverse; no TPM is used for token keys
package common

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	"fmt"
	"io"
	"math/big"
	"sync"

	jwt "github.com/golang-jwt/jwt/v5"
)

// vfKeys makes keys and signatures ideal.
type vfKeys struct {
	mu   sync.Mutex
	n    int
	keys map[int]any
	sigs map[string]string // key, method and signature to message
}

func vfKeyID(key any) (int, bool) {
	switch k := key.(type) {
	case *ecdsa.PrivateKey:
		return int(k.X.Int64()), true
	case *ecdsa.PublicKey:
		return int(k.X.Int64()), true
	case *rsa.PrivateKey:
		return int(k.N.Int64()), true
	case *rsa.PublicKey:
		return int(k.N.Int64()), true
	case ed25519.PrivateKey:
		return int(k[32])<<8 | int(k[33]), true
	case ed25519.PublicKey:
		return int(k[0])<<8 | int(k[1]), true
	}
	return 0, false
}

func (v *vfKeys) next() int {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.n++
	return v.n
}

func (v *vfKeys) ec() *ecdsa.PrivateKey {
	n := v.next()
	k := &ecdsa.PrivateKey{D: big.NewInt(1)}
	k.X, k.Y = big.NewInt(int64(n)), big.NewInt(1)
	v.remember(n, k)
	return k
}

func (v *vfKeys) rsa() *rsa.PrivateKey {
	n := v.next()
	k := &rsa.PrivateKey{}
	k.N, k.E = big.NewInt(int64(n)), 65537
	v.remember(n, k)
	return k
}

func (v *vfKeys) ed() ed25519.PrivateKey {
	n := v.next()
	k := make(ed25519.PrivateKey, 64)
	k[32], k[33] = byte(n>>8), byte(n)
	v.remember(n, k)
	return k
}

func (v *vfKeys) remember(n int, k any) {
	v.mu.Lock()
	v.keys[n] = k
	v.mu.Unlock()
}

func (v *vfKeys) sign(method string, msg string, key any) []byte {
	id, _ := vfKeyID(key)
	v.mu.Lock()
	defer v.mu.Unlock()
	sig := fmt.Sprintf("%s-%d-%d", method, id, len(v.sigs))
	v.sigs[sig] = msg
	return []byte(sig)
}

func (v *vfKeys) verify(method string, msg string, sig []byte, key any) error {
	id, _ := vfKeyID(key)
	v.mu.Lock()
	defer v.mu.Unlock()
	m, ok := v.sigs[string(sig)]
	p := fmt.Sprintf("%s-%d-", method, id)
	if !ok || len(sig) < len(p) || string(sig[:len(p)]) != p || m != msg {
		return jwt.ErrSignatureInvalid
	}
	return nil
}

func (v *vfKeys) install() {
	v.keys = map[int]any{}
	v.sigs = map[string]string{}
	p256 := &elliptic.CurveParams{Name: "P-256", BitSize: 256}
	elliptic.VerifHook_P256 = func() elliptic.Curve { return p256 }
	ecdsa.VerifHook_GenerateKey = func(elliptic.Curve, io.Reader) (*ecdsa.PrivateKey, error) { return v.ec(), nil }
	rsa.VerifHook_GenerateKey = func(io.Reader, int) (*rsa.PrivateKey, error) { return v.rsa(), nil }
	ed25519.VerifHook_GenerateKey = func(io.Reader) (ed25519.PublicKey, ed25519.PrivateKey, error) {
		k := v.ed()
		return ed25519.PublicKey(k[32:]), k, nil
	}
	x509.VerifHook_MarshalPKCS8PrivateKey = func(key any) ([]byte, error) {
		id, ok := vfKeyID(key)
		if !ok {
			return nil, fmt.Errorf("unknown key type %T", key)
		}
		return []byte{byte(id >> 8), byte(id)}, nil
	}
	x509.VerifHook_ParsePKCS8PrivateKey = func(b []byte) (any, error) {
		v.mu.Lock()
		defer v.mu.Unlock()
		if len(b) != 2 || v.keys[int(b[0])<<8|int(b[1])] == nil {
			return nil, fmt.Errorf("invalid key")
		}
		return v.keys[int(b[0])<<8|int(b[1])], nil
	}
	jwt.VerifHook_SigningMethodECDSA_Sign = func(m *jwt.SigningMethodECDSA, s string, key any) ([]byte, error) {
		if _, ok := key.(*ecdsa.PrivateKey); !ok {
			return nil, jwt.ErrInvalidKeyType
		}
		return v.sign(m.Name, s, key), nil
	}
	jwt.VerifHook_SigningMethodECDSA_Verify = func(m *jwt.SigningMethodECDSA, s string, sig []byte, key any) error {
		if _, ok := key.(*ecdsa.PublicKey); !ok {
			return jwt.ErrInvalidKeyType
		}
		return v.verify(m.Name, s, sig, key)
	}
	jwt.VerifHook_SigningMethodRSA_Sign = func(m *jwt.SigningMethodRSA, s string, key any) ([]byte, error) {
		if _, ok := key.(*rsa.PrivateKey); !ok {
			return nil, jwt.ErrInvalidKeyType
		}
		return v.sign(m.Name, s, key), nil
	}
	jwt.VerifHook_SigningMethodRSA_Verify = func(m *jwt.SigningMethodRSA, s string, sig []byte, key any) error {
		if _, ok := key.(*rsa.PublicKey); !ok {
			return jwt.ErrInvalidKeyType
		}
		return v.verify(m.Name, s, sig, key)
	}
	jwt.VerifHook_SigningMethodEd25519_Sign = func(m *jwt.SigningMethodEd25519, s string, key any) ([]byte, error) {
		if _, ok := key.(crypto.Signer); !ok {
			return nil, jwt.ErrInvalidKeyType
		}
		return v.sign(m.Alg(), s, key), nil
	}
	jwt.VerifHook_SigningMethodEd25519_Verify = func(m *jwt.SigningMethodEd25519, s string, sig []byte, key any) error {
		if _, ok := key.(ed25519.PublicKey); !ok {
			return jwt.ErrInvalidKeyType
		}
		return v.verify(m.Alg(), s, sig, key)
	}
}
