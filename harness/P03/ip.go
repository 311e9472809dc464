//verif:pkg proxy
//verif:use quicflow.go
//verif:unit name=match entry=VerifP03Match share=3 reach=allowed,denied,outside,mapped
//verif:unit name=prefix entry=VerifP03Prefix share=2 reach=in,out
//verif:unit name=flow entry=VerifP03Flow share=2 reach=refused,passthrough,tls,http
//verif:unit name=quic entry=VerifP03QUIC share=1 reach=refused,served
//verif:assume networks: one or two per list, taken from the forms listed in the harness (match) or any prefix length of a fixed IPv4 and IPv6 network (prefix); peer addresses are fully symbolic (4 or 16 bytes)
package proxy

import (
	"fmt"
	"net"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfNet struct {
	cidr string
	ip   []byte
	bits int
}

var vfNets = []vfNet{
	{"10.1.2.0/23", []byte{10, 1, 2, 0}, 23},
	{"10.1.3.7/32", []byte{10, 1, 3, 7}, 32},
	{"0.0.0.0/0", []byte{0, 0, 0, 0}, 0},
	{"2001:db8:8000::/33", []byte{0x20, 1, 0x0d, 0xb8, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 33},
	{"::/0", make([]byte, 16), 0},
}

// vfIn is an independent membership test on the bits of the addresses.
func vfIn(n vfNet, ip []byte) bool {
	four := len(ip) == 4
	if !four {
		m := ip[10] == 255 && ip[11] == 255
		for i := 0; i < 10; i++ {
			m = vsym.And(m, ip[i] == 0)
		}
		if m {
			ip, four = ip[12:], true
		}
	}
	if four != (len(n.ip) == 4) {
		return false
	}
	in := true
	for b := 0; b < n.bits; b++ {
		s := 7 - b%8
		in = vsym.And(in, (ip[b/8]>>s)&1 == (n.ip[b/8]>>s)&1)
	}
	return in
}

func vfPeer(label string) (net.Addr, []byte) {
	n := []int{4, 16}[vsym.Choose(label+".len", 2)]
	b := vsym.Bytes(label, n, n)
	ref := append([]byte{}, b...)
	if vsym.Bool(label + ".udp") {
		return &net.UDPAddr{IP: net.IP(b), Port: 5555}, ref
	}
	return &net.TCPAddr{IP: net.IP(b), Port: 5555}, ref
}

func vfChecked(allow, deny *[]string) *Backend {
	be := &Backend{ServerNames: []string{"a.x"}, Mode: ModeTLS, Addresses: []string{"1.1.1.1:1"}, AllowIPs: allow, DenyIPs: deny}
	no := false
	cfg := &Config{CacheDir: vfTree(nil), MaxOpen: 100, EnableQUIC: &no, Backends: []*Backend{be}}
	if err := cfg.Check(); err != nil {
		vsym.Fail("a valid configuration is refused: " + err.Error())
	}
	return be
}

// Any address against allow and deny lists.
func VerifP03Match() {
	list := func(label string) (*[]string, []vfNet) {
		switch vsym.Choose(label, 4) {
		case 0:
			return nil, nil
		case 1:
			return &[]string{}, nil
		case 2:
			k := vsym.Choose(label+"1", len(vfNets))
			return &[]string{vfNets[k].cidr}, []vfNet{vfNets[k]}
		}
		k := vsym.Choose(label+"2", len(vfNets))
		j := (k + 3) % len(vfNets)
		return &[]string{vfNets[k].cidr, vfNets[j].cidr}, []vfNet{vfNets[k], vfNets[j]}
	}
	allow, an := list("allow")
	deny, dn := list("deny")
	be := vfChecked(allow, deny)
	addr, ip := vfPeer("ip")
	err := be.checkIP(addr)
	den, all := false, false
	for _, n := range dn {
		den = vsym.Or(den, vfIn(n, ip))
	}
	for _, n := range an {
		all = vsym.Or(all, vfIn(n, ip))
	}
	if len(ip) == 16 {
		vsym.Reach("mapped")
	}
	switch {
	case den:
		vsym.Reach("denied")
		vsym.Assert(err != nil, "an address in a denied network is accepted")
	case allow != nil && !all:
		vsym.Reach("outside")
		vsym.Assert(err != nil, "an address outside of the allowed networks is accepted")
	default:
		vsym.Reach("allowed")
		vsym.Assert(err == nil, "an acceptable address is refused")
	}
}

// Every prefix length.
func VerifP03Prefix() {
	var n vfNet
	if vsym.Bool("v6") {
		n.bits = vsym.Concrete(vsym.Choose("bits6", 129))
		n.ip = []byte{0x20, 0x01, 0x0d, 0xb8, 0xa5, 0x5a, 0xff, 0x00, 0x3c, 0xc3, 0x81, 0x18, 0x77, 0xee, 0x01, 0x80}
		n.cidr = fmt.Sprintf("2001:db8:a55a:ff00:3cc3:8118:77ee:180/%d", n.bits)
	} else {
		n.bits = vsym.Concrete(vsym.Choose("bits4", 33))
		n.ip = []byte{172, 165, 90, 129}
		n.cidr = fmt.Sprintf("172.165.90.129/%d", n.bits)
	}
	deny := vsym.Bool("deny")
	var be *Backend
	if deny {
		be = vfChecked(nil, &[]string{n.cidr})
	} else {
		be = vfChecked(&[]string{n.cidr}, nil)
	}
	addr, ip := vfPeer("ip")
	err := be.checkIP(addr)
	if vfIn(n, ip) {
		vsym.Reach("in")
		vsym.Assert((err != nil) == deny, "an address in the network is treated as outside of it")
	} else {
		vsym.Reach("out")
		vsym.Assert((err == nil) == deny, "an address outside of the network is treated as in it")
	}
}

var vfPeers = []net.Addr{
	&net.TCPAddr{IP: net.IPv4(10, 1, 3, 7), Port: 5555},
	&net.TCPAddr{IP: net.IP{10, 1, 3, 6}, Port: 5555},
	&net.TCPAddr{IP: net.IP{10, 1, 4, 7}, Port: 5555},
	&net.TCPAddr{IP: net.ParseIP("2001:db8:8000::1"), Port: 5555},
	&net.TCPAddr{IP: net.ParseIP("2001:db8:7000::1"), Port: 5555},
}

func vfFlowIP(mode string, udp bool) (*vfFlow, *Config, net.Addr, bool) {
	f := vfNewFlow()
	be := &Backend{ServerNames: []string{"a.x"}, Mode: mode, ALPNProtos: &[]string{"h2", "h3"}}
	if mode != ModeLocal && mode != ModeConsole {
		be.Addresses = []string{"1.1.1.1:1"}
	}
	var an, dn []vfNet
	if k := vsym.Choose("allow", 4); k > 0 {
		an = []vfNet{vfNets[[]int{0, 1, 3}[k-1]]}
		be.AllowIPs = &[]string{an[0].cidr}
	}
	if k := vsym.Choose("deny", 3); k > 0 {
		dn = []vfNet{vfNets[[]int{1, 3}[k-1]]}
		be.DenyIPs = &[]string{dn[0].cidr}
	}
	peer := vfPeers[vsym.Choose("peer", len(vfPeers))].(*net.TCPAddr)
	ok := true
	for _, n := range dn {
		ok = ok && !vfIn(n, peer.IP)
	}
	if an != nil {
		ok = ok && vfIn(an[0], peer.IP)
	}
	cfg := f.config(be)
	if udp {
		yes := true
		cfg.EnableQUIC = &yes
		return f, cfg, &net.UDPAddr{IP: peer.IP, Port: peer.Port}, ok
	}
	return f, cfg, peer, ok
}

// A whole connection in every mode.
func VerifP03Flow() {
	mode := vsym.Pick("mode", ModeTLSPassthrough, ModeTLS, ModeTCP, ModeHTTP, ModeHTTPS, ModeLocal, ModeConsole)
	f, cfg, peer, ok := vfFlowIP(mode, false)
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	f.peer = peer
	_, vc := f.client("a.x", []string{"h2"}, "data")
	vsym.Settle()
	if !ok {
		vsym.Reach("refused")
		vsym.Assert(f.hsCount == 0, "the handshake of a denied peer is answered")
		vsym.Assert(len(f.dials) == 0, "an upstream is dialled for a denied peer")
		vsym.Assert(len(f.served) == 0, "a denied peer is served")
		vsym.Assert(len(vc.out) == 0 || vc.out[0] == 21 && len(vc.out) == 7, "a denied peer is sent data")
		vsym.Assert(vc.closed > 0, "the connection of a denied peer stays open")
		return
	}
	switch mode {
	case ModeTLSPassthrough:
		vsym.Reach("passthrough")
		vsym.Assert(len(f.dials) == 1, "an accepted peer is not served")
	case ModeTLS, ModeTCP:
		vsym.Reach("tls")
		vsym.Assert(f.hsOK == 1 && len(f.dials) == 1, "an accepted peer is not served")
	default:
		vsym.Reach("http")
		vsym.Assert(f.hsOK == 1 && len(f.served) == 1, "an accepted peer is not served")
	}
}

func VerifP03QUIC() {
	mode := vsym.Pick("mode", ModeTLS, ModeHTTP, ModeQUIC, ModeLocal)
	f, cfg, peer, ok := vfFlowIP(mode, true)
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	q := vfNewQUIC(f)
	proto := vsym.Pick("proto", "h2", "h3")
	c := q.connect("a.x", []string{proto}, peer, &vfQS{})
	vsym.Settle()
	n := len(f.dials) + len(q.qdials) + len(f.served) + len(q.h3)
	if !ok {
		vsym.Reach("refused")
		vsym.Assert(n == 0, "a denied peer is served")
		vsym.Assert(c == nil || c.closed > 0, "the connection of a denied peer stays open")
	} else if c != nil {
		vsym.Reach("served")
		vsym.Assert(n == 1, "an accepted peer is not served")
	}
}
