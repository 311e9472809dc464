//verif:pkg proxy
//verif:unit name=subject entry=VerifP27Subject share=2 q.LEN=2 t.LEN=3 reach=parsed,special
//verif:unit name=names entry=VerifP27Names share=1 q.LEN=1 t.LEN=2 reach=parsed
//verif:assume subject attribute values and DNS names are ASCII
package proxy

import (
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"net/http"
	"net/url"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfField struct{ key, val string }

// vfParseXFCC reads the header as its consumers do: elements are separated by
// commas, fields by semicolons, values may be quoted, and a backslash escapes
// the next character. It reports false when the header is malformed.
func vfParseXFCC(s string) (out [][]vfField, ok bool) {
	var cur []vfField
	var key, val []byte
	inVal, quoted, wasQuoted, special := false, false, false, false
	flush := func() {
		cur = append(cur, vfField{string(key), string(val)})
		key, val = nil, nil
		inVal, wasQuoted, special = false, false, false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\\':
			if i+1 >= len(s) || !inVal {
				return nil, false
			}
			i++
			val = append(val, s[i])
		case c == '"':
			if !inVal || wasQuoted || (!quoted && len(val) > 0) {
				return nil, false
			}
			if quoted {
				wasQuoted = true
			}
			quoted = !quoted
		case quoted:
			val = append(val, c)
		case wasQuoted && c != ',' && c != ';':
			return nil, false
		case c == ';':
			flush()
		case c == ',':
			flush()
			out = append(out, cur)
			cur = nil
		case c == '=' && !inVal:
			inVal = true
		case c == '=':
			special = true
			val = append(val, c)
		default:
			if inVal {
				val = append(val, c)
			} else {
				key = append(key, c)
			}
		}
	}
	if quoted || special || !inVal {
		return nil, false
	}
	flush()
	return append(out, cur), true
}

func vfASCII(name string, lo, hi int) string {
	s := vsym.String(name, lo, hi)
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] < 0x80)
	}
	return s
}

// vfEsc escapes an attribute value as in a distinguished name string.
func vfEsc(v string) string {
	var out []byte
	for i := 0; i < len(v); i++ {
		c := v[i]
		esc := false
		switch c {
		case ',', '+', '"', '\\', '<', '>', ';':
			esc = true
		case ' ':
			esc = i == 0 || i == len(v)-1
		case '#':
			esc = i == 0
		}
		if esc {
			vsym.Reach("special")
			out = append(out, '\\')
		}
		out = append(out, c)
	}
	return string(out)
}

func vfCheckXFCC(cert *x509.Certificate, which []string, want []vfField) {
	req := &http.Request{Header: http.Header{}, TLS: &tls.ConnectionState{
		PeerCertificates: []*x509.Certificate{cert, {Raw: []byte("ca"), DNSNames: []string{"ca"}}},
		VerifiedChains:   [][]*x509.Certificate{{cert, {Raw: []byte("ca")}}},
	}}
	addXFCCHeader(req, which)
	vsym.Assert(len(req.Header) == 1 && len(req.Header.Values(xFCCHeader)) == 1, "not exactly one header")
	el, ok := vfParseXFCC(req.Header.Get(xFCCHeader))
	vsym.Assert(ok, "the header is malformed")
	if !ok {
		return
	}
	vsym.Assert(len(el) == 1, "the header has another element")
	if len(el) != 1 {
		return
	}
	vsym.Reach("parsed")
	vsym.Assert(len(el[0]) == len(want), "the header has another field")
	if len(el[0]) != len(want) {
		return
	}
	for i, f := range el[0] {
		v := f.val
		switch f.key {
		case "URI", "DNS":
			u, err := url.QueryUnescape(v)
			vsym.Assert(err == nil, "value is not decodable")
			v = u
		}
		vsym.Assert(vsym.And(f.key == want[i].key, v == want[i].val), "a field does not carry the certificate's value")
	}
}

func VerifP27Subject() {
	n := vsym.Param("LEN", 2)
	var name pkix.Name
	cn := vfASCII("cn", 0, n)
	name.CommonName = cn
	subj := ""
	if cn != "" {
		subj = "/CN=" + vfEsc(cn)
	}
	if vsym.Bool("hasorg") {
		o := vfASCII("org", 1, n)
		name.Organization = []string{o}
		subj += "/O=" + vfEsc(o)
	}
	if subj == "" {
		subj = "/"
	}
	cert := &x509.Certificate{Raw: []byte("leaf"), Subject: name}
	sum := sha256.Sum256(cert.Raw)
	hash := hex.EncodeToString(sum[:])
	switch vsym.Choose("which", 3) {
	case 0:
		vfCheckXFCC(cert, []string{"subject"}, []vfField{{"Subject", subj}})
	case 1:
		vfCheckXFCC(cert, []string{"hash", "Subject"}, []vfField{{"Hash", hash}, {"Subject", subj}})
	case 2:
		vfCheckXFCC(cert, []string{"SUBJECT", "Hash"}, []vfField{{"Subject", subj}, {"Hash", hash}})
	}
}

func VerifP27Names() {
	n := vsym.Param("LEN", 2)
	cert := &x509.Certificate{Raw: []byte("leaf"), DNSNames: []string{"d" + vfASCII("dns", 0, n)}}
	uri := &url.URL{Scheme: "spiffe", Host: "h", Path: "/" + vfASCII("path", 0, n)}
	if vsym.Bool("query") {
		uri.RawQuery = "q=a,b;c=\"d\"\\"
	}
	cert.URIs = []*url.URL{uri}
	want := []vfField{{"DNS", cert.DNSNames[0]}}
	if vsym.Bool("two") {
		cert.DNSNames = append(cert.DNSNames, "x;URI=evil,Hash=00")
		want = append(want, vfField{"DNS", cert.DNSNames[1]})
	}
	which := []string{"dns", "uri"}
	if vsym.Bool("reverse") {
		which = []string{"URI", "Dns"}
		want = append([]vfField{{"URI", uri.String()}}, want...)
	} else {
		want = append(want, vfField{"URI", uri.String()})
	}
	vfCheckXFCC(cert, which, want)
}
