//verif:pkg proxy/internal/passkeys
//verif:unit name=flat entry=VerifP24Flat q.MAX=55 t.MAX=62 share=1 reach=short,parsed,nocred
//verif:unit name=cred entry=VerifP24Cred q.ID=2 t.ID=2 q.KEY=2 t.KEY=3 share=4 reach=short,parsed,badkey,toolong
//verif:assume the COSE key is reported as the first well-formed CBOR item after the credential id; CBOR well-formedness is decided by the real fxamacker/cbor code, executed symbolically
package passkeys

import (
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

func vfEq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, a[i] == b[i])
	}
	return r
}

func vfBit(b byte, n int) bool { return b&(1<<n) != 0 }

func vfCheckHead(raw []byte, ad *authenticatorData) {
	vsym.Assert(vfEq(ad.RPIDHash, raw[:32]), "rpid hash")
	f := raw[32]
	vsym.Assert(vsym.And(
		vsym.Iff(ad.UserPresence, vfBit(f, 0)),
		vsym.Iff(ad.UserVerification, vfBit(f, 2)),
		vsym.Iff(ad.BackupEligible, vfBit(f, 3)),
		vsym.Iff(ad.BackupState, vfBit(f, 4)),
		vsym.Iff(ad.AttestedCredentialData, vfBit(f, 6)),
		vsym.Iff(ad.ExtensionData, vfBit(f, 7)),
	), "flags")
	vsym.Assert(ad.SignCount == uint32(raw[33])<<24|uint32(raw[34])<<16|uint32(raw[35])<<8|uint32(raw[36]), "sign count")
}

// Arbitrary bytes of every length up to MAX, no structure assumed.
func VerifP24Flat() {
	raw := vsym.Bytes("raw", 0, vsym.Param("MAX", 40))
	in := append([]byte(nil), raw...)
	var ad authenticatorData
	err := parseAuthenticatorData(raw, &ad)
	vsym.Observe("err", err)
	vsym.Assert(vfEq(in, raw), "input modified")
	if len(in) < 37 {
		vsym.Reach("short")
		vsym.Assert(err != nil, "short data accepted")
		return
	}
	if err != nil {
		vsym.Assert(vfBit(in[32], 6), "well-formed data without credential rejected")
		return
	}
	vsym.Reach("parsed")
	vfCheckHead(in, &ad)
	if !vfBit(in[32], 6) {
		vsym.Reach("nocred")
		vsym.Assert(ad.AttestedCredentials == nil, "credential invented")
	}
}

// Data with attested credentials: arbitrary declared id length, id and key
// bytes.
func VerifP24Cred() {
	head := vsym.Bytes("head", 37, 37)
	vsym.Assume(vfBit(head[32], 6))
	aaguid := vsym.Bytes("aaguid", 16, 16)
	declared := vsym.Int("declared", 0, 65535)
	rest := vsym.Bytes("rest", 0, vsym.Param("ID", 5)+vsym.Param("KEY", 5))
	raw := append(append([]byte(nil), head...), aaguid...)
	raw = append(raw, byte(declared>>8), byte(declared))
	raw = append(raw, rest...)
	in := append([]byte(nil), raw...)
	var ad authenticatorData
	err := parseAuthenticatorData(raw, &ad)
	vsym.Observe("err", err)
	vsym.Assert(vfEq(in, raw), "input modified")
	if declared > len(rest) {
		if declared > 1023 {
			vsym.Reach("toolong")
		} else {
			vsym.Reach("short")
		}
		vsym.Assert(err != nil, "credential id longer than the data accepted")
		return
	}
	declared = vsym.Concrete(declared)
	key := rest[declared:]
	n, ok := vfCBORItem(key, 0)
	if ok == 0 {
		vsym.Reach("badkey")
		vsym.Assert(err != nil, "malformed key accepted")
		return
	}
	if err != nil {
		vsym.Assert(ok == 2, "well-formed key rejected")
		return
	}
	vsym.Reach("parsed")
	vfCheckHead(in, &ad)
	ac := ad.AttestedCredentials
	vsym.Assert(ac != nil, "credential missing")
	vsym.Assert(vfEq(ac.AAGUID, aaguid), "aaguid")
	vsym.Assert(vfEq(ac.ID, rest[:declared]), "credential id")
	if n > 0 {
		vsym.Assert(vfEq(ac.COSEKey, key[:n]), "cose key")
	} else {
		// a leading self-described-CBOR tag (d9d9f7) is not part of the key
		ck := ac.COSEKey
		pre := len(ck) <= len(key) && vfEq(ck, key[:len(ck)])
		tagged := len(ck)+3 <= len(key) && vfEq(ck, key[3:3+len(ck)])
		vsym.Assert(vsym.Or(pre, tagged), "cose key is not taken from the data")
	}
}

// vfCBORItem returns the length of the first CBOR item of b for definite
// lengths; ok: 0 = cannot be well formed, 1 = well formed, 2 = not decided
// here (indefinite lengths, tags, simple values, text, limits).
func vfCBORItem(b []byte, depth int) (n, ok int) {
	if len(b) == 0 {
		return 0, 0
	}
	if depth > 3 {
		return 0, 2
	}
	maj, ai := b[0]>>5, b[0]&31
	if ai >= 28 && ai <= 30 {
		return 0, 0
	}
	if ai == 31 || maj == 6 || maj == 7 || maj == 3 {
		return 0, 2
	}
	h := 1
	var v uint64
	switch {
	case ai < 24:
		v = uint64(ai)
	default:
		k := 1 << vsym.Concrete(int(ai-24))
		if len(b) < 1+k {
			return 0, 0
		}
		for i := 0; i < k; i++ {
			v = v<<8 | uint64(b[1+i])
		}
		h = 1 + k
	}
	switch maj {
	case 0, 1:
		return h, 1
	case 2:
		if v > uint64(len(b)-h) {
			return 0, 0
		}
		return h + vsym.Concrete(int(v)), 1
	default:
		cnt := v
		if maj == 5 {
			if v > uint64(len(b)) {
				return 0, 0
			}
			cnt = 2 * v
		}
		if cnt > uint64(len(b)-h) {
			return 0, 0
		}
		p := h
		r := 1
		for i := 0; i < vsym.Concrete(int(cnt)); i++ {
			m, o := vfCBORItem(b[p:], depth+1)
			if o != 1 {
				return 0, o
			}
			p += m
		}
		return p, r
	}
}
