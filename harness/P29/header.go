//verif:pkg proxy
//verif:use flow.go
//verif:use rp.go
//verif:unit name=accept entry=VerifP29Accept share=4 reach=trusted,untrusted,header,local,malformed,allowed,denied,served
//verif:unit name=send entry=VerifP29Send share=3 q.low=4 t.low=250 reach=v1,v2,off,override,failover
//verif:unit name=relay entry=VerifP29Relay share=2 reach=v1,v2,off
//verif:unit name=pool entry=VerifP29Pool share=2 reach=same,other,off
//verif:note peers are any IPv4 address or one IPv6 address; headers of both versions with any IPv4 source address (version 2), or, being text, any last digit on the way in and last bytes 0-3 and 250-255 (thorough: all) on the way out (version 1), IPv6, LOCAL and UNKNOWN headers, truncated and malformed ones; UDP client addresses cannot be expressed in version 1, which then says UNKNOWN
package proxy

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

var vfSigV2 = []byte("\r\n\r\n\x00\r\nQUIT\n")

func vfV2(cmd, fam byte, addr ...byte) []byte {
	h := append([]byte{}, vfSigV2...)
	h = append(h, cmd, fam, byte(len(addr)>>8), byte(len(addr)))
	return append(h, addr...)
}

var vfV6 = net.ParseIP("2001:db8::7")

func vfIn24(ip []byte, a, b, c byte) bool {
	return vsym.And(ip[0] == a, ip[1] == b, ip[2] == c)
}

// The address that counts is that of a PROXY header from a trusted peer, else
// that of the peer.
func VerifP29Accept() {
	vsym.NoTimers()
	f := vfNewFlow()
	f.p.ctx = context.Background()
	mode := vsym.Pick("mode", ModeTLSPassthrough, ModeTLS, ModeLocal)
	be := &Backend{ServerNames: []string{"a.x"}, Mode: mode}
	if mode != ModeLocal {
		be.Addresses = []string{"1.1.1.1:1"}
	}
	allow := []string{"192.0.2.0/24", "2001:db8::/32"}
	deny := vsym.Bool("deny")
	if deny {
		be.DenyIPs = &allow
	} else {
		be.AllowIPs = &allow
	}
	cfg := f.config(be)
	from := vsym.Choose("from", 4)
	cfg.AcceptProxyHeaderFrom = [][]string{nil, {"198.51.100.0/24"}, {"203.0.113.9/32", "2001:db8::/64"}, {"0.0.0.0/0"}}[from]
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")

	// The peer.
	var peer net.IP
	trusted := false
	peerIn := true
	if vsym.Bool("v6") {
		peer = vfV6
		trusted = from == 2
	} else {
		ip := vsym.Bytes("peer", 4, 4)
		peer = net.IP(ip)
		switch from {
		case 1:
			trusted = vfIn24(ip, 198, 51, 100)
		case 2:
			trusted = vsym.And(vfIn24(ip, 203, 0, 113), ip[3] == 9)
		case 3:
			trusted = true
		}
		peerIn = vfIn24(ip, 192, 0, 2)
	}
	f.peer = &net.TCPAddr{IP: peer, Port: 5555}

	// The header.
	src := vsym.Bytes("src", 4, 4)
	var hdr []byte
	var want net.IP
	wantPort := 5555
	valid, hdrIn := true, false
	switch vsym.Choose("header", 10) {
	case 0: // none
	case 1:
		vsym.Reach("header")
		d := vsym.Byte("digit")
		vsym.Assume(d >= '0' && d <= '9')
		hdr = append([]byte("PROXY TCP4 192.0.2."), d)
		hdr = append(hdr, " 192.0.2.1 1000 443\r\n"...)
		want, wantPort, hdrIn = net.IP{192, 0, 2, d - '0'}, 1000, true
	case 2:
		hdr = []byte("PROXY TCP6 2001:db9::1 2001:db8::1 1001 443\r\n")
		want, wantPort = net.ParseIP("2001:db9::1"), 1001
	case 3:
		vsym.Reach("local")
		hdr = []byte("PROXY UNKNOWN\r\n")
	case 4:
		hdr = vfV2(0x21, 0x11, append(append([]byte{}, src...), 192, 0, 2, 1, 4, 1, 1, 187)...)
		want, wantPort, hdrIn = net.IP(src), 1025, vfIn24(src, 192, 0, 2)
	case 5:
		a := append(append([]byte{}, vfV6...), vfV6...)
		hdr = vfV2(0x21, 0x21, append(a, 4, 2, 1, 187)...)
		want, wantPort, hdrIn = vfV6, 1026, true
	case 6: // LOCAL: the addresses don't count
		hdr = vfV2(0x20, 0x11, append(append([]byte{}, src...), 192, 0, 2, 1, 4, 1, 1, 187)...)
	case 7:
		vsym.Reach("malformed")
		hdr = []byte("PROXY TCP4 192.0.2.7\r\n")
		valid = false
	case 8: // wrong version and command
		c := vsym.Byte("cmd")
		vsym.Assume(c != 0x20 && c != 0x21)
		hdr = vfV2(c, 0x11, append(append([]byte{}, src...), 192, 0, 2, 1, 4, 1, 1, 187)...)
		valid = false
	case 9: // too short for its addresses
		hdr = vfV2(0x21, 0x11, src...)
		valid = false
	}
	f.name, f.alpn = "a.x", nil
	vc := &vfConn{name: "client", in: append(append([]byte{}, hdr...), vfHello("a.x", nil)...), remote: f.peer}
	c := netw.NewConn(vc)
	f.newConn = func(string) *vfConn { return &vfConn{name: "up"} }
	f.p.handleConnection(c)
	vsym.Settle()

	got := len(f.dials) > 0 || len(f.served) > 0
	if trusted {
		vsym.Reach("trusted")
	} else {
		vsym.Reach("untrusted")
	}
	usable := trusted && valid || len(hdr) == 0
	eff := peer
	effPort := 5555
	in := peerIn
	if trusted && valid && want != nil {
		eff, effPort, in = want, wantPort, hdrIn
	}
	if !usable {
		vsym.Assert(!got, "a connection without a valid hello or header is served")
		return
	}
	if vsym.Iff(in, deny) {
		vsym.Reach("denied")
		vsym.Assert(!got, "the address that counts is not allowed, but the connection is served")
		return
	}
	vsym.Reach("allowed")
	vsym.Assert(got, "the address that counts is allowed, but the connection is not served")
	var ra net.Addr
	if len(f.served) > 0 {
		vsym.Reach("served")
		ra = f.served[0].conn.RemoteAddr()
	} else {
		ra = c.RemoteAddr()
	}
	ta, ok := ra.(*net.TCPAddr)
	vsym.Assert(ok && ta.Port == effPort, "the client's port")
	vsym.Assert(vfSameIP(ta.IP, eff), "the client's address is not the one that counts")
}

func vfSameIP(a, b net.IP) bool {
	a, b = a.To16(), b.To16()
	r := len(a) == len(b)
	for i := range a {
		r = vsym.And(r, a[i] == b[i])
	}
	return r
}

// vfClientAddr is an arbitrary client address.
func vfClientAddr(v string) (remote, local net.Addr, ip net.IP, port int, udp bool) {
	port = int(vsym.Uint16("port"))
	switch vsym.Choose("family", 3) {
	case 0:
		b := vsym.Bytes("ip", 4, 4)
		if v == "v1" {
			// In text: only the last byte is arbitrary.
			port = 1234
			vsym.Assume(vsym.Or(b[3] < byte(vsym.Param("low", 4)), b[3] >= 250))
			b[0], b[1], b[2] = 203, 0, 113
		}
		if vsym.Bool("mapped") {
			ip = net.IPv4(b[0], b[1], b[2], b[3])
		} else {
			ip = net.IP{b[0], b[1], b[2], b[3]}
		}
		local = &net.TCPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 443}
	case 1:
		ip = append(net.IP{}, vfV6...)
		if v == "v1" {
			port = 1235
		} else {
			ip[15] = vsym.Byte("last")
		}
		local = &net.TCPAddr{IP: net.ParseIP("2001:db8::1"), Port: 443}
	case 2:
		udp = true
		ip = net.IP{203, 0, 113, 9}
		local = &net.UDPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 443}
		remote = &net.UDPAddr{IP: ip, Port: port}
		return
	}
	remote = &net.TCPAddr{IP: ip, Port: port}
	return
}

// vfHeader checks that out starts with a header of the given version for the
// client, and returns what follows.
func vfHeader(v string, out []byte, ip net.IP, port int, udp bool, name string) []byte {
	ip4 := ip.To4()
	if v == "v1" {
		vsym.Reach("v1")
		i := bytes.IndexByte(out, '\n')
		vsym.Assert(i > 0, "no header")
		want := "PROXY UNKNOWN\r\n"
		if !udp && ip4 != nil {
			want = fmt.Sprintf("PROXY TCP4 %d.%d.%d.%d 192.0.2.1 %d 443\r\n", ip4[0], ip4[1], ip4[2], ip4[3], port)
		} else if !udp {
			want = fmt.Sprintf("PROXY TCP6 2001:db8::7 2001:db8::1 %d 443\r\n", port)
		}
		vsym.Assert(vsym.Eq(string(out[:i+1]), want), "the header is not that of the client")
		return out[i+1:]
	}
	vsym.Reach("v2")
	vsym.Assert(len(out) >= 16 && bytes.Equal(out[:12], vfSigV2), "no header")
	fam, n := byte(0x11), 12
	if udp {
		fam = 0x12
	} else if ip4 == nil {
		fam, n = 0x21, 36
	}
	vsym.Assert(out[12] == 0x21 && out[13] == fam, "command and family")
	total := int(out[14])<<8 | int(out[15])
	vsym.Assert(total >= n && len(out) >= 16+total, "length")
	var want []byte
	if ip4 != nil {
		want = append(append(want, ip4...), 192, 0, 2, 1)
	} else {
		want = append(append(want, ip...), net.ParseIP("2001:db8::1")...)
	}
	want = append(want, byte(port>>8), byte(port), 1, 187)
	same := true
	for i := range want {
		same = vsym.And(same, out[16+i] == want[i])
	}
	vsym.Assert(same, "the header does not carry the client's addresses")
	// TLVs
	tlv := out[16+n : 16+total]
	for len(tlv) > 0 {
		vsym.Assert(len(tlv) >= 3, "truncated TLV")
		l := int(tlv[1])<<8 | int(tlv[2])
		vsym.Assert(len(tlv) >= 3+l, "truncated TLV")
		if tlv[0] == 2 {
			vsym.Assert(string(tlv[3:3+l]) == name, "the header names another server")
		}
		tlv = tlv[3+l:]
	}
	return out[16+total:]
}

// What an upstream gets first.
func VerifP29Send() {
	f := vfNewFlow()
	ver := vsym.Pick("ver", "", "v1", "v2")
	over := vsym.Pick("over", "", "v1", "v2")
	po := &PathOverride{Paths: []string{"/o/"}, Addresses: []string{"10.9.9.1:1"}, ProxyProtocolVersion: over}
	be := &Backend{ServerNames: []string{"a.x"}, Mode: vsym.Pick("mode", ModeHTTP, ModeHTTPS), Addresses: []string{"10.0.0.1:1", "10.0.0.2:1"}, ProxyProtocolVersion: ver, PathOverrides: []*PathOverride{po}, ForwardServerName: "up.x"}
	po.ForwardServerName = "up.x"
	vsym.Assert(f.p.Reconfigure(f.config(be)) == nil, "a valid configuration is refused")
	vsym.Settle()
	be = f.p.cfg.Backends[0]
	v := ver
	override := vsym.Bool("override")
	if override {
		vsym.Reach("override")
		v = over
	}
	remote, local, ip, port, udp := vfClientAddr(v)
	c := netw.NewConn(&vfConn{name: "client", remote: remote, local: local})
	c.SetAnnotation(serverNameKey, "a.x")
	ctx := context.WithValue(context.Background(), connCtxKey, c)
	if override {
		ctx = context.WithValue(ctx, ctxOverrideIDKey, 0)
	}
	// The first address may fail, or fail to take the header.
	first := vsym.Choose("first", 3)
	f.dialErr = func(context.Context, string) error {
		if first == 1 && len(f.dials) == 1 {
			return errVF
		}
		return nil
	}
	f.newConn = func(string) *vfConn {
		c := &vfConn{name: "up"}
		if first == 2 && len(f.dials) == 1 {
			c.writeErr = errVF
		}
		return c
	}
	up, err := be.dial(ctx)
	failed := first == 1 || first == 2 && v != ""
	if override && failed {
		vsym.Assert(err != nil, "the only address failed")
		if first == 2 {
			vsym.Assert(f.dials[0].conn.closed > 0, "a connection that failed is not closed")
		}
		return
	}
	vsym.Assert(err == nil, "the dial fails")
	n := 1
	if failed {
		vsym.Reach("failover")
		n = 2
		if first == 2 {
			vsym.Assert(f.dials[0].conn.closed > 0, "a connection that failed is not closed")
		}
	}
	vsym.Assert(len(f.dials) == n, "number of dials")
	d := f.dials[n-1].conn
	d.writeErr = nil
	up.Write([]byte("DATA"))
	out := d.out
	if v == "" {
		vsym.Reach("off")
		vsym.Assert(string(out) == "DATA", "a header is sent although none is configured")
		return
	}
	rest := vfHeader(v, out, ip, port, udp, "a.x")
	vsym.Assert(string(rest) == "DATA", "the data does not follow the header")
}

// Relayed connections, possibly with a header of their own.
func VerifP29Relay() {
	vsym.NoTimers()
	f := vfNewFlow()
	v := vsym.Pick("ver", "", "v1", "v2")
	no := false
	mode := vsym.Pick("mode", ModeTCP, ModeTLS, ModeTLSPassthrough)
	be := &Backend{ServerNames: []string{"a.x"}, Mode: mode, Addresses: []string{"10.0.0.1:1"}, ProxyProtocolVersion: v, ForwardServerName: "up.x", ServerCloseEndsConnection: &no}
	cfg := f.config(be)
	cfg.AcceptProxyHeaderFrom = []string{"198.51.100.0/24"}
	vsym.Assert(f.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	ip := net.IP{198, 51, 100, 7}
	port := 5555
	hello := vfHello("a.x", nil)
	in := append([]byte{}, hello...)
	if vsym.Bool("inbound") {
		b := vsym.Bytes("src", 4, 4)
		if v == "v1" {
			b[0], b[1], b[2] = 203, 0, 113
		}
		ip = net.IP{b[0], b[1], b[2], b[3]}
		port = 1025
		in = append(vfV2(0x21, 0x11, append(append([]byte{}, b...), 192, 0, 2, 1, 4, 1, 1, 187)...), in...)
	}
	in = append(in, "DATA"...)
	vc := &vfConn{name: "client", in: in, remote: &net.TCPAddr{IP: net.IPv4(198, 51, 100, 7), Port: 5555}}
	f.name, f.alpn = "a.x", nil
	f.p.handleConnection(netw.NewConn(vc))
	vsym.Assert(len(f.dials) == 1, "not relayed")
	out := f.dials[0].conn.out
	if v != "" {
		out = vfHeader(v, out, ip, port, false, "a.x")
	} else {
		vsym.Reach("off")
	}
	want := "DATA"
	if mode == ModeTLSPassthrough {
		want = string(hello) + want
	}
	vsym.Assert(string(out) == want, "the client's data does not follow the header")
}

// A request is never sent on an upstream connection that says it is for
// another client.
func VerifP29Pool() {
	v := vsym.Pick("ver", "", "v1", "v2")
	over := vsym.Pick("over", "", "v2")
	f := vfNewFlow()
	po := &PathOverride{Paths: []string{"/o/"}, Addresses: []string{"10.9.9.1:1"}, ProxyProtocolVersion: over, Mode: ModeHTTP}
	cfgd := f.config(&Backend{ServerNames: []string{"a.x"}, Mode: ModeHTTP, Addresses: []string{"10.0.0.1:80"}, ProxyProtocolVersion: v, PathOverrides: []*PathOverride{po}})
	vsym.Assert(f.p.Reconfigure(cfgd) == nil, "a valid configuration is refused")
	be := f.p.cfg.Backends[0]
	// The real client pools connections by host.
	pool := map[string]*vfConn{}
	var last *vfConn
	http.VerifHook_Transport_RoundTrip = func(t *http.Transport, req *http.Request) (*http.Response, error) {
		c := pool[req.URL.Host]
		if c == nil {
			if _, err := t.DialContext(req.Context(), "tcp", req.URL.Host); err != nil {
				return nil, err
			}
			c = f.dials[len(f.dials)-1].conn
			pool[req.URL.Host] = c
		}
		last = c
		return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(nil)), Request: req}, nil
	}
	h := be.reverseProxy()
	ips := []net.IP{{203, 0, 113, 1}, {203, 0, 113, 1}}
	ports := []int{1000, 1000}
	switch vsym.Choose("second", 3) {
	case 0:
		vsym.Reach("same")
	case 1:
		vsym.Reach("other")
		d := vsym.Byte("ip")
		vsym.Assume(d != 1)
		ips[1] = net.IP{203, 0, 113, d}
	case 2:
		p := vsym.Uint16("port")
		vsym.Assume(p != 1000 && p < 1010 && p > 990)
		ports[1] = int(p)
	}
	paths := []string{"/", "/o/x"}
	for i := range ips {
		c := netw.NewConn(&vfConn{name: "client", remote: &net.TCPAddr{IP: ips[i], Port: ports[i]}})
		c.SetAnnotation(serverNameKey, "a.x")
		k := vsym.Choose("path", 2)
		req := vfRequest(c, "GET", "a.x", paths[k], nil)
		w := &vfRW{}
		last = nil
		h.ServeHTTP(w, req)
		vsym.Assert(w.code == 200 && last != nil, "not forwarded")
		want := []string{v, over}[k]
		if want == "" {
			vsym.Reach("off")
			vsym.Assert(len(last.out) == 0, "a header is sent although none is configured")
			continue
		}
		rest := vfHeader(want, last.out, ips[i], ports[i], false, "a.x")
		vsym.Assert(len(rest) == 0, "something follows the header")
	}
}
