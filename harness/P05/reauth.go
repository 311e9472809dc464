//verif:pkg proxy
//verif:use quicflow.go
//verif:use cas.go
//verif:unit name=tcp entry=VerifP05TCP share=5 reach=hello,handshake,dial,relay,http,closed,open
//verif:unit name=quic entry=VerifP05QUIC share=3 reach=relay,http,closed,open
//verif:unit name=cert entry=VerifP05Cert share=3 reach=closed,open
//verif:unit name=twice entry=VerifP05Twice share=4 q.LEN=1 t.LEN=2 reach=closed,open
//verif:unit name=pair entry=VerifP05Pair share=3 q.N=3 t.N=6 reach=closed,open
//verif:note two backends for one name (one per ALPN protocol), one open connection in each of its states, or two at once, one or two reloads; the rules of the new configuration are chosen from the lists in the harness
package proxy

import (
	"context"
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"net"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfRule struct {
	present bool
	name    string
	mode    string
	allow   string
	deny    string
	require bool
	acl     *[]string
}

var vfProtos = []string{"h2", "x"}

func vfRules(f *vfFlow, rules []vfRule, quic bool) *Config {
	var bes []*Backend
	for i, r := range rules {
		if !r.present {
			continue
		}
		be := &Backend{ServerNames: []string{r.name}, Mode: r.mode}
		if r.mode != ModeTLSPassthrough {
			be.ALPNProtos = &[]string{vfProtos[i]}
		}
		if quic && i == 0 {
			be.ALPNProtos = &[]string{"h3", "h2"}
		}
		if r.mode != ModeLocal {
			be.Addresses = []string{[]string{"1.1.1.1:1", "2.2.2.2:2"}[i]}
		}
		if r.allow != "" {
			be.AllowIPs = &[]string{r.allow}
		}
		if r.deny != "" {
			be.DenyIPs = &[]string{r.deny}
		}
		if r.require {
			be.ClientAuth = &ClientAuth{RootCAs: []string{vfCA1}}
			if r.acl != nil {
				a := append([]string{}, *r.acl...)
				be.ClientAuth.ACL = &a
			}
		}
		bes = append(bes, be)
	}
	// The configuration is never empty.
	bes = append(bes, &Backend{ServerNames: []string{"other.x"}, Mode: ModeLocal})
	cfg := f.config(bes...)
	cfg.EnableQUIC = &quic
	return cfg
}

func vfReload(f *vfFlow, rules []vfRule, quic bool) {
	vsym.Assert(f.p.Reconfigure(vfRules(f, rules, quic)) == nil, "a valid configuration is refused")
}

// vfWant is the index of the rules for a connection, or -1.
func vfWant(rules []vfRule, name string, offers []string) int {
	for _, o := range offers {
		for i, r := range rules {
			if r.present && r.name == name && r.mode != ModeTLSPassthrough && vfProtos[i] == o {
				return i
			}
		}
	}
	for i, r := range rules {
		if r.present && r.name == name {
			return i
		}
	}
	return -1
}

func vfIPOk(r vfRule, ip []byte) bool {
	in := func(n string) bool {
		switch n {
		case "198.51.100.0/24":
			return vsym.And(ip[0] == 198, ip[1] == 51, ip[2] == 100)
		case "128.0.0.0/1":
			return ip[0] >= 128
		}
		return false
	}
	return vsym.And(!in(r.deny), r.allow == "" || in(r.allow))
}

func vfCertOk(r vfRule, cert *x509.Certificate) bool {
	if !r.require {
		return true
	}
	if cert == nil {
		return false
	}
	if r.acl == nil {
		return true
	}
	for _, e := range *r.acl {
		if e == "EMAIL:"+cert.EmailAddresses[0] {
			return true
		}
	}
	return false
}

// vfNewRules chooses the rules after the reload.
func vfNewRules(old []vfRule, label string) []vfRule {
	rules := append([]vfRule{}, old...)
	i := vsym.Choose(label+".which", len(old))
	r := &rules[i]
	change := vsym.Choose(label+".change", 9)
	if i == 1 {
		// The other backend must not matter, whatever its rules.
		vsym.Assume(change == 1 || change == 4 || change == 8)
	}
	switch change {
	case 0: // nothing
	case 1:
		r.present = false
	case 2:
		r.name = "b.x"
	case 3:
		r.mode = map[string]string{ModeTLS: ModeTCP, ModeTCP: ModeTLS, ModeHTTP: ModeHTTPS, ModeLocal: ModeHTTP, ModeQUIC: ModeTLS, ModeTLSPassthrough: ModeTLS}[r.mode]
	case 4:
		r.deny = "198.51.100.0/24"
	case 5:
		r.deny = "128.0.0.0/1"
	case 6:
		r.allow = "128.0.0.0/1"
	case 7:
		r.allow = "198.51.100.0/24"
	case 8:
		if r.mode != ModeTLSPassthrough {
			r.require = true
		}
	}
	return rules
}

type vfState struct {
	name   string
	offers []string
	mode   string
	hs     bool // the handshake is done
	cert   *x509.Certificate
	ip     []byte
	fixed  bool
}

// addr is any IPv4 address, unless it is fixed.
func (s *vfState) addr(udp bool) net.Addr {
	s.ip = []byte{198, 51, 100, 7}
	if !s.fixed {
		s.ip = vsym.Bytes("ip", 4, 4)
	}
	ip := net.IP(append([]byte{}, s.ip...))
	if udp {
		return &net.UDPAddr{IP: ip, Port: 5555}
	}
	return &net.TCPAddr{IP: ip, Port: 5555}
}

// vfMust returns whether the connection must close, and whether it must stay.
func vfMust(s vfState, rules []vfRule) (closed, open bool) {
	offers := s.offers
	if s.hs {
		// The handshake settled on the protocol of the backend.
		offers = offers[:1]
	}
	i := vfWant(rules, s.name, offers)
	if i < 0 {
		return true, false
	}
	r := rules[i]
	if !vfIPOk(r, s.ip) || r.mode != s.mode {
		return true, false
	}
	if !s.hs && r.require {
		// Not authorized yet: may be closed, or be checked later.
		return false, false
	}
	if !vfCertOk(r, s.cert) {
		return true, false
	}
	return false, true
}

func vfCheck(s vfState, rules []vfRule, closed bool) {
	c, o := vfMust(s, rules)
	if c {
		vsym.Reach("closed")
		vsym.Assert(closed, "a connection that is no longer allowed stays open")
	}
	if o {
		vsym.Reach("open")
		vsym.Assert(!closed, "a connection that is still allowed is closed")
	}
}

func vfOpenTCP(f *vfFlow, s *vfState, stage int) *vfConn {
	f.name, f.alpn = s.name, s.offers
	vc := &vfConn{name: "client", in: append(vfHello(s.name, s.offers), "data"...), hold: make(chan struct{}), remote: s.addr(false)}
	f.newConn = func(string) *vfConn { return &vfConn{name: "up", hold: make(chan struct{})} }
	switch stage {
	case 0:
		vc.in = vc.in[:3]
	case 1:
		f.hsWait = make(chan struct{})
	case 2:
		wait := make(chan struct{})
		f.dialErr = func(context.Context, string) error { <-wait; return nil }
	}
	go f.p.handleConnection(netw.NewConn(vc))
	vsym.Settle()
	return vc
}

// A TCP connection in every state, without client certificates.
func VerifP05TCP() {
	vsym.NoTimers()
	f := vfNewFlow()
	mode := vsym.Pick("mode", ModeTLSPassthrough, ModeTLS, ModeTCP, ModeHTTP, ModeLocal)
	rules := []vfRule{{present: true, name: "a.x", mode: mode}, {present: mode != ModeTLSPassthrough, name: "a.x", mode: ModeTLS}}
	vfReload(f, rules, false)
	vsym.Settle()
	s := vfState{name: "a.x", mode: mode}
	s.offers = [][]string{{"h2"}, {"h2", "x"}}[vsym.Choose("offers", 2)]
	stage := vsym.Choose("stage", 4)
	if stage > 0 && mode == ModeTLSPassthrough {
		stage = max(stage, 2)
	}
	if stage == 2 && (mode == ModeHTTP || mode == ModeLocal) {
		stage = 3
	}
	vc := vfOpenTCP(f, &s, stage)
	switch {
	case stage == 0:
		vsym.Reach("hello")
	case stage == 1:
		vsym.Reach("handshake")
		vsym.Assert(f.hsCount == 1, "the connection does not get to its handshake")
	case stage == 2:
		vsym.Reach("dial")
		vsym.Assert(len(f.dials) == 1, "the upstream is not dialled")
	case mode == ModeHTTP || mode == ModeLocal:
		vsym.Reach("http")
		vsym.Assert(len(f.served) == 1, "the connection is not served")
	default:
		vsym.Reach("relay")
		vsym.Assert(len(f.dials) == 1 && f.dials[0].conn != nil, "the upstream is not dialled")
	}
	vsym.Assert(vc.closed == 0, "an allowed connection is closed")
	s.hs = stage >= 2 && mode != ModeTLSPassthrough
	rules = vfNewRules(rules, "new")
	vfReload(f, rules, false)
	vsym.Settle()
	if stage == 0 {
		vsym.Assert(vc.closed == 0, "a connection that is still in its hello is closed")
		return
	}
	vfCheck(s, rules, vc.closed > 0)
}

func VerifP05QUIC() {
	vsym.NoTimers()
	f := vfNewFlow()
	mode := vsym.Pick("mode", ModeTLS, ModeHTTP, ModeQUIC, ModeLocal)
	rules := []vfRule{{present: true, name: "a.x", mode: mode}, {present: true, name: "a.x", mode: ModeTLS}}
	vfReload(f, rules, true)
	q := vfNewQUIC(f)
	vsym.Settle()
	s := vfState{name: "a.x", mode: mode, offers: []string{"h2"}, hs: true}
	f.newConn = func(string) *vfConn { return &vfConn{name: "up", hold: make(chan struct{})} }
	offers := s.offers
	h3 := (mode == ModeHTTP || mode == ModeLocal) || mode == ModeQUIC && vsym.Bool("h3")
	if h3 {
		offers = []string{"h3"}
	}
	st := &vfQS{vfConn: vfConn{name: "st", in: []byte("data"), hold: make(chan struct{})}}
	c := q.connect(s.name, offers, s.addr(true), st)
	vsym.Settle()
	vsym.Assert(c != nil && c.closed == 0, "an allowed connection is closed")
	if mode == ModeTLS || mode == ModeQUIC {
		vsym.Reach("relay")
	} else {
		vsym.Reach("http")
	}
	vsym.Assert(len(f.dials)+len(q.qdials)+len(q.h3) == 1, "the connection is not served")
	rules = vfNewRules(rules, "new")
	if rules[0].mode != mode && h3 && !rules[1].present {
		return
	}
	vfReload(f, rules, true)
	vsym.Settle()
	vfCheck(s, rules, c.closed > 0)
}

// Connections with and without certificates.
func VerifP05Cert() {
	vsym.NoTimers()
	f := vfNewFlow()
	f.ca = "CA1"
	quic := vsym.Bool("quic")
	if k := vsym.Choose("cert", 3); k > 0 {
		// One certificate has an e-mail address that nothing restricts.
		email := "bob@x"
		if k == 2 {
			email = vsym.String("email", 5, 5)
		}
		f.cert = &x509.Certificate{SerialNumber: big.NewInt(7), EmailAddresses: []string{email}, Subject: pkix.Name{CommonName: "bob"}}
	}
	mode := vsym.Pick("mode", ModeTLS, ModeHTTP)
	acl := func(label string) (bool, *[]string) {
		switch vsym.Choose(label, 5) {
		case 1:
			return true, nil
		case 2:
			return true, &[]string{}
		case 3:
			return true, &[]string{"EMAIL:bob@x"}
		case 4:
			return true, &[]string{"DNS:bob@x", "EMAIL:eve@x"}
		}
		return false, nil
	}
	rules := []vfRule{{present: true, name: "a.x", mode: mode}, {present: true, name: "a.x", mode: ModeTLS, require: true, acl: &[]string{}}}
	rules[0].require, rules[0].acl = acl("old")
	vfReload(f, rules, quic)
	vsym.Settle()
	s := vfState{name: "a.x", mode: mode, offers: []string{"h2"}, hs: true}
	if rules[0].require {
		s.cert = f.cert // otherwise it isn't asked for
	}
	allowed := vfCertOk(rules[0], f.cert)
	closed := func() bool { return false }
	if quic {
		q := vfNewQUIC(f)
		f.newConn = func(string) *vfConn { return &vfConn{name: "up", hold: make(chan struct{})} }
		st := &vfQS{vfConn: vfConn{name: "st", in: []byte("data"), hold: make(chan struct{})}}
		offers := s.offers
		if mode == ModeHTTP {
			offers = []string{"h3"}
		}
		c := q.connect(s.name, offers, s.addr(true), st)
		vsym.Settle()
		if c == nil {
			vsym.Assert(!allowed, "an allowed connection is refused")
			return
		}
		closed = func() bool { return c.closed > 0 }
	} else {
		stage := 3
		if vsym.Bool("handshake") {
			stage, s.hs = 1, false
		}
		vc := vfOpenTCP(f, &s, stage)
		closed = func() bool { return vc.closed > 0 }
		if stage == 1 {
			allowed = true
		}
	}
	vsym.Assert(allowed == !closed(), "the connection is not handled by the rules of its backend")
	if !allowed {
		return
	}
	rules[0].require, rules[0].acl = acl("new")
	vfReload(f, rules, quic)
	vsym.Settle()
	vfCheck(s, rules, closed())
}

// Two reloads.
func VerifP05Twice() {
	vsym.NoTimers()
	f := vfNewFlow()
	mode := ModeTLS
	if vsym.Param("LEN", 1) > 1 {
		mode = vsym.Pick("mode", ModeTLS, ModeHTTP)
	}
	rules := []vfRule{{present: true, name: "a.x", mode: mode}, {present: true, name: "a.x", mode: ModeTLS}}
	vfReload(f, rules, false)
	vsym.Settle()
	s := vfState{name: "a.x", mode: mode, offers: []string{"h2", "x"}, hs: true}
	vc := vfOpenTCP(f, &s, 3)
	vsym.Assert(vc.closed == 0, "an allowed connection is closed")
	rules2 := vfNewRules(rules, "first")
	vfReload(f, rules2, false)
	if vsym.Bool("settle") {
		vsym.Settle()
		if c, _ := vfMust(s, rules2); c {
			return // see VerifP05TCP
		}
	}
	rules = vfNewRules(rules, "second")
	vfReload(f, rules, false)
	vsym.Settle()
	if c, _ := vfMust(s, rules2); c && vc.closed > 0 {
		return
	}
	vfCheck(s, rules, vc.closed > 0)
}

// Two open connections.
func VerifP05Pair() {
	vsym.NoTimers()
	f := vfNewFlow()
	rules := []vfRule{{present: true, name: "a.x", mode: ModeTLS}, {present: true, name: "b.x", mode: ModeTLS}}
	vfReload(f, rules, false)
	vsym.Settle()
	var st [2]vfState
	var vc [2]*vfConn
	for i, k := range []int{0, vsym.Choose("name", 2)} {
		st[i] = vfState{name: []string{"a.x", "b.x"}[k], mode: ModeTLS, offers: []string{[]string{"h2", "x"}[k]}, hs: true, fixed: i == 1}
		vc[i] = vfOpenTCP(f, &st[i], 3)
		vsym.Assert(vc[i].closed == 0, "an allowed connection is closed")
	}
	for i := range rules {
		r := &rules[i]
		n := 6
		if i == 1 {
			n = vsym.Param("N", 3)
		}
		switch vsym.Choose("change", n) {
		case 1:
			r.present = false
		case 2:
			r.mode = ModeTCP
		case 3:
			r.deny = "128.0.0.0/1"
		case 4:
			r.require = true
		case 5:
			r.allow = "198.51.100.0/24"
		}
	}
	vfReload(f, rules, false)
	vsym.Settle()
	for i := range st {
		vfCheck(st[i], rules, vc[i].closed > 0)
	}
}
