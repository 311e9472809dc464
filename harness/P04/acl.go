//verif:pkg proxy
//verif:use quicflow.go
//verif:use cas.go
//verif:unit name=match entry=VerifP04Match share=1 q.LEN=2 t.LEN=3 reach=allowed,denied,empty,absent
//verif:unit name=flow entry=VerifP04Flow share=4 reach=nocert,untrusted,denied,served
//verif:unit name=quic entry=VerifP04QUIC share=3 reach=nocert,untrusted,denied,served
//verif:assume certificates have a subject with one common name, at most one DNS name, e-mail address and URI; names and list entries are at most LEN arbitrary lower-case letters plus type prefix
package proxy

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"net"
	"net/url"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

func vfName(label string, lo, n int) string {
	b := vsym.Bytes(label, lo, n)
	for _, c := range b {
		vsym.Assume(vsym.And(c >= 'a', c <= 'z'))
	}
	return string(b)
}

// The typed identities of a certificate against a typed list.
func VerifP04Match() {
	n := vsym.Param("LEN", 2)
	cert := &x509.Certificate{SerialNumber: big.NewInt(7)}
	type id struct{ typ, val string }
	var ids []id
	if vsym.Bool("subject") {
		cn := vfName("cn", 1, n)
		cert.Subject = pkix.Name{CommonName: cn}
		ids = append(ids, id{"SUBJECT", "CN=" + cn})
	}
	if vsym.Bool("dns") {
		v := vfName("dns.v", 1, n)
		cert.DNSNames = []string{v}
		ids = append(ids, id{"DNS", v})
	}
	if vsym.Bool("email") {
		v := vfName("email.v", 1, n)
		cert.EmailAddresses = []string{"x@y", v}
		ids = append(ids, id{"EMAIL", "x@y"}, id{"EMAIL", v})
	}
	if vsym.Bool("uri") {
		v := vfName("uri.v", 1, n)
		cert.URIs = []*url.URL{{Scheme: "s", Opaque: v}}
		ids = append(ids, id{"URI", "s:" + v})
	}
	be := &Backend{ClientAuth: &ClientAuth{}}
	if vsym.Bool("acl") {
		acl := []string{}
		be.ClientAuth.ACL = &acl
	}
	var list []id
	if be.ClientAuth.ACL != nil {
		k := vsym.Choose("entries", 3)
		for i := 0; i < k; i++ {
			typ := vsym.Pick("type", "", "SUBJECT", "DNS", "EMAIL", "URI", "dns")
			val := vsym.Pick("form", "", "CN=", "s:") + vfName("val", 0, n)
			text := val
			if typ != "" {
				text = typ + ":" + val
			}
			*be.ClientAuth.ACL = append(*be.ClientAuth.ACL, text)
			if typ == "" {
				typ = "SUBJECT"
			}
			list = append(list, id{typ, val})
			if i == 0 && vsym.Param("LEN", 2) < 3 {
				// the second entry only repeats the pattern
				*be.ClientAuth.ACL = append(*be.ClientAuth.ACL, "DNS:zzzz")
				break
			}
		}
	}
	err := be.authorize(cert)
	if be.ClientAuth.ACL == nil {
		vsym.Reach("absent")
		vsym.Assert(err == nil, "a valid certificate is refused without an access list")
		return
	}
	if len(*be.ClientAuth.ACL) == 0 {
		vsym.Reach("empty")
		vsym.Assert(err != nil, "an empty access list lets a client in")
		return
	}
	ok := false
	for _, e := range list {
		for _, i := range ids {
			if i.typ == e.typ && len(i.val) == len(e.val) {
				ok = vsym.Or(ok, i.val == e.val)
			}
		}
	}
	if ok {
		vsym.Reach("allowed")
		vsym.Assert(err == nil, "a listed client is refused")
	} else {
		vsym.Reach("denied")
		vsym.Assert(err != nil, "a client that is not listed is let in")
	}
}

type vfClientRule struct {
	require bool
	ca      string
	acl     *[]string
}

// vfACLSetup configures two backends for one name, each with its own rules.
func vfACLSetup(f *vfFlow, mode string, quic bool) (rules []vfClientRule) {
	protos := [][]string{{"h2"}, {"x"}}
	addrs := []string{"1.1.1.1:1", "2.2.2.2:2"}
	if quic {
		protos[0] = []string{"h3", "h2"}
	}
	pems := map[string]string{"CA1": vfCA1, "CA2": vfCA2}
	var bes []*Backend
	for i := range protos {
		l := string('0' + rune(i))
		r := vfClientRule{require: i == 0 || vsym.Bool("require"+l)}
		pr := append([]string{}, protos[i]...)
		be := &Backend{ServerNames: []string{"a.x"}, ALPNProtos: &pr, Mode: mode}
		if mode != ModeLocal {
			be.Addresses = []string{addrs[i]}
		}
		if r.require {
			r.ca = "CA1"
			if i == 1 {
				r.ca = vsym.Pick("ca"+l, "CA1", "CA2")
			}
			be.ClientAuth = &ClientAuth{RootCAs: []string{pems[r.ca]}}
			switch vsym.Choose("acl"+l, 4-i) {
			case 0:
				r.acl = &[]string{"EMAIL:bob@x"}
			case 1:
				r.acl = &[]string{}
			case 2:
				r.acl = nil
			case 3:
				r.acl = &[]string{"CN=alice", "DNS:bob@x"}
			}
			if r.acl != nil {
				a := append([]string{}, *r.acl...)
				be.ClientAuth.ACL = &a
			}
		}
		rules = append(rules, r)
		bes = append(bes, be)
	}
	cfg := f.config(bes...)
	cfg.EnableQUIC = &quic
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	switch vsym.Choose("cert", 3) {
	case 1:
		f.cert = &x509.Certificate{SerialNumber: big.NewInt(7), EmailAddresses: []string{"bob@x"}, Subject: pkix.Name{CommonName: "bob"}}
	case 2:
		f.cert = &x509.Certificate{SerialNumber: big.NewInt(7), EmailAddresses: []string{"alice@x"}, Subject: pkix.Name{CommonName: "alice"}}
	}
	f.ca = vsym.Pick("issuer", "CA1", "CA2", "")
	return rules
}

func (r vfClientRule) ok(f *vfFlow) bool {
	if !r.require {
		return true
	}
	if f.cert == nil {
		vsym.Reach("nocert")
		return false
	}
	if f.ca != r.ca {
		vsym.Reach("untrusted")
		return false
	}
	if r.acl == nil {
		return true
	}
	for _, e := range *r.acl {
		if e == "EMAIL:"+f.cert.EmailAddresses[0] || e == "CN="+f.cert.Subject.CommonName {
			return true
		}
	}
	vsym.Reach("denied")
	return false
}

func VerifP04Flow() {
	f := vfNewFlow()
	mode := vsym.Pick("mode", ModeTLS, ModeHTTP, ModeLocal)
	rules := vfACLSetup(f, mode, false)
	offers := [][]string{{"h2"}, {"x"}, {"x", "h2"}}[vsym.Choose("offers", 3)]
	_, vc := f.client("a.x", offers, "data")
	vsym.Settle()
	want := 0
	if offers[0] == "x" {
		want = 1
	}
	served := len(f.dials) + len(f.served)
	if !rules[want].ok(f) {
		vsym.Assert(served == 0, "a client that does not meet the certificate rules is served")
		vsym.Assert(vc.closed > 0, "the connection of a refused client stays open")
		return
	}
	vsym.Reach("served")
	vsym.Assert(served == 1, "a client that meets the certificate rules is not served")
}

func VerifP04QUIC() {
	f := vfNewFlow()
	mode := vsym.Pick("mode", ModeTLS, ModeHTTP, ModeQUIC)
	rules := vfACLSetup(f, mode, true)
	q := vfNewQUIC(f)
	offers := [][]string{{"h2"}, {"x"}}[vsym.Choose("offers", 2)]
	c := q.connect("a.x", offers, &net.UDPAddr{IP: net.IPv4(198, 51, 100, 7), Port: 5555}, &vfQS{})
	vsym.Settle()
	want := 0
	if offers[0] == "x" {
		want = 1
	}
	served := len(f.dials) + len(f.served) + len(q.qdials) + len(q.h3)
	if !rules[want].ok(f) {
		vsym.Assert(served == 0, "a client that does not meet the certificate rules is served")
		vsym.Assert(c == nil || c.closed > 0, "the connection of a refused client stays open")
		return
	}
	vsym.Reach("served")
	vsym.Assert(served == 1, "a client that meets the certificate rules is not served")
}
