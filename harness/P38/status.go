//verif:pkg proxy
//verif:use quicflow.go
//verif:use rp.go
//verif:use html.go
//verif:use cas.go
//verif:embed
//verif:hook crypto/rand Read
//verif:unit name=secrets entry=VerifP38Secrets share=2 reach=sso,reload q.LEN=1 t.LEN=2
//verif:unit name=text entry=VerifP38Text share=3 reach=event,name,email q.LEN=2 t.LEN=3
//verif:unit name=conns entry=VerifP38Conns share=4 reach=hello,handshake,relay,http,quic,proxied,cert,closed q.N=2 t.N=3
//verif:unit name=stall entry=VerifP38Stall share=1 reach=silent,full
//verif:unit name=race entry=VerifP38Race share=8 race reach=page q.DELAYS=1 t.DELAYS=2
//verif:note up to two (thorough: three) other connections in each of their states, TCP and QUIC, with and without PROXY headers and certificates; what the Go runtime reports about itself is fixed; secrets are arbitrary printable bytes in several positions of the configuration
package proxy

import (
	"context"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync/atomic"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfStatus struct {
	*vfFlow
	srv   *http.Server
	conn  net.Conn
	email string
}

var vfAdmin = &net.TCPAddr{IP: net.IPv4(10, 9, 9, 9), Port: 999}

// vfConsole is a configuration with a status page.
func (s *vfStatus) console(backends ...*Backend) *Config {
	return s.config(append(backends, &Backend{ServerNames: []string{"status.x"}, Mode: ModeConsole})...)
}

func vfNewStatus(cfg func(s *vfStatus) *Config) *vfStatus {
	s := &vfStatus{vfFlow: vfNewFlow()}
	vsym.Assert(s.p.Reconfigure(cfg(s)) == nil, "a valid configuration is refused")
	return s
}

// login opens the connection that asks for the page.
func (s *vfStatus) login() {
	peer := s.peer
	s.peer = vfAdmin
	s.name, s.alpn = "status.x", []string{"http/1.1"}
	vc := &vfConn{name: "admin", in: vfHello("status.x", s.alpn), remote: vfAdmin, hold: make(chan struct{})}
	n := len(s.served)
	go s.p.handleConnection(netw.NewConn(vc))
	vsym.Settle()
	vsym.Assert(len(s.served) == n+1, "the status page is not served")
	s.srv, s.conn = s.served[n].srv, s.served[n].conn
	s.peer = peer
}

func (s *vfStatus) page() string {
	w := &vfRW{}
	req := &http.Request{Method: "GET", Host: "status.x", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RemoteAddr: vfAdmin.String(), Header: http.Header{}, URL: &url.URL{Path: "/"}, RequestURI: "/"}
	ctx := context.WithValue(context.Background(), connCtxKey, s.conn)
	if s.email != "" {
		ctx = context.WithValue(ctx, authCtxKey, jwt.MapClaims{"email": s.email})
	}
	s.srv.Handler.ServeHTTP(w, req.WithContext(ctx))
	vsym.Assert(w.code == 200, "no status page")
	vsym.Assert(strings.HasPrefix(w.Header().Get("content-type"), "text/html"), "the status page is no page")
	return string(w.body)
}

// The secrets of the configuration are neither shown nor touched.
func VerifP38Secrets() {
	rand.VerifHook_Read = func(b []byte) (int, error) { clear(b); return len(b), nil }
	vsym.NoTimers()
	odd := vsym.Pick("odd", "", "one", "four")
	secret := func(label string) string {
		b := []byte("s3cr" + label)
		if label != odd {
			return string(b)
		}
		x := vsym.Bytes(label, 1, vsym.Param("LEN", 1))
		for _, c := range x {
			vsym.Assume(vsym.Or(c == 'a', c == ':', c == '"', c == '\'', c == '\\', c == '&', c == '#', c == ' ', c == '\n', c == '-', c == '{'))
		}
		return string(b) + string(x) + "tail" + label
	}
	c1 := &LocalOIDCClient{ID: "c1", Secret: secret("one"), RedirectURI: []string{"https://rp.x/cb"}}
	c2 := &LocalOIDCClient{ID: "c2", Secret: "s3crtwo", RedirectURI: []string{"https://rp.x/cb"}}
	c3 := &LocalOIDCClient{ID: "c3", Secret: "s3crthree", RedirectURI: []string{"https://rp.x/cb"}}
	p1 := &ConfigOIDC{Name: "prov1", AuthEndpoint: "https://idp.x/auth", TokenEndpoint: "https://idp.x/token", RedirectURL: "https://a.x/.sso/cb", ClientID: "id1", ClientSecret: secret("four")}
	p2 := &ConfigOIDC{Name: "prov2", AuthEndpoint: "https://idp.x/auth", TokenEndpoint: "https://idp.x/token", RedirectURL: "https://b.x/.sso/cb", ClientID: "id2", ClientSecret: "s3crfive"}
	s := vfNewStatus(func(s *vfStatus) *Config {
		a := &Backend{ServerNames: []string{"a.x"}, Mode: ModeLocal, SSO: &BackendSSO{Provider: "prov1", LocalOIDCServer: &LocalOIDCServer{PathPrefix: "", Clients: []*LocalOIDCClient{c1, c2}}}}
		b := &Backend{ServerNames: []string{"b.x"}, Mode: ModeLocal, SSO: &BackendSSO{Provider: "prov2"}}
		c := &Backend{ServerNames: []string{"c.x"}, Mode: ModeLocal, SSO: &BackendSSO{Provider: "prov2", LocalOIDCServer: &LocalOIDCServer{Clients: []*LocalOIDCClient{c3}}}}
		cfg := s.console(a, b, c)
		cfg.OIDCProviders = []*ConfigOIDC{p1, p2}
		return cfg
	})
	vsym.Reach("sso")
	s.login()
	check := func() {
		page := vfUnescape(s.page())
		for _, want := range []string{"prov1", "prov2", "id1", "c1", "a.x", "c.x"} {
			vsym.Assert(strings.Contains(page, want), "the page does not show the configuration")
		}
		for _, l := range []string{"s3crone", "s3crtwo", "s3crthree", "s3crfour", "s3crfive", "tailone", "tailfour"} {
			vsym.Assert(!strings.Contains(page, l), "a secret is shown")
		}
	}
	live := func(cfg *Config) []string {
		return []string{cfg.OIDCProviders[0].ClientSecret, cfg.OIDCProviders[1].ClientSecret,
			cfg.Backends[0].SSO.LocalOIDCServer.Clients[0].Secret, cfg.Backends[0].SSO.LocalOIDCServer.Clients[1].Secret,
			cfg.Backends[2].SSO.LocalOIDCServer.Clients[0].Secret}
	}
	cfg := s.p.cfg
	before, ser := live(cfg), string(cfg.serialize())
	vsym.Assert(before[0] == p1.ClientSecret && before[2] == c1.Secret, "the secrets are not those that are configured")
	check()
	check()
	vsym.Assert(s.p.cfg == cfg, "looking at the page changes the configuration")
	for i, l := range live(cfg) {
		vsym.Assert(l == before[i], "looking at the page changes a secret")
	}
	vsym.Assert(string(cfg.serialize()) == ser, "looking at the page changes the configuration")
	vsym.Reach("reload")
}

// Whatever names and events there are, the page shows them as text.
func VerifP38Text() {
	vsym.NoTimers()
	what := vsym.Choose("what", 3)
	run := func(text string) (string, string) {
		s := vfNewStatus(func(s *vfStatus) *Config {
			return s.console(&Backend{ServerNames: []string{"a.x"}, Mode: ModeTLSPassthrough, Addresses: []string{"1.1.1.1:1"}})
		})
		switch what {
		case 0:
			vsym.Reach("event")
			s.p.recordEvent("other")
			s.p.recordEvent("zz " + text)
			s.p.recordEvent("zz " + text)
		case 1:
			// The name that a client sends is part of an event.
			vsym.Reach("name")
			s.newConn = func(string) *vfConn { return &vfConn{name: "up", hold: make(chan struct{})} }
			vc := &vfConn{name: "client", in: append(vfHello(text+".x", nil), "data"...), hold: make(chan struct{})}
			go s.p.handleConnection(netw.NewConn(vc))
			vsym.Settle()
		case 2:
			vsym.Reach("email")
			s.email = text + "@x"
		}
		s.login()
		page := s.page()
		// What the runtime says about itself changes all the time.
		i := strings.Index(page, "Backend[0]")
		vsym.Assert(i > 0, "the page does not show the backends")
		page = page[:i]
		skel, active := vfSkeleton([]byte(page))
		return page, skel + strings.Join(active, "\n")
	}
	text := vfNasty(vsym.Param("LEN", 2))
	page, got := run(text)
	_, want := run("harmless")
	vsym.Assert(got == want, "a text changes the structure of the status page")
	vsym.Assert(what == 1 || strings.Contains(vfUnescape(page), text), "the status page does not show a text")
	if what == 0 {
		i := strings.Index(page, "zz ")
		vsym.Assert(i > 0 && strings.Contains(page[max(0, i-120):i], ">2<"), "the number of events is wrong")
	}
}

type vfShown struct {
	src, dst, extra []string
	in, out         int
}

// Every open connection is shown once, with its ends, until it is closed.
func VerifP38Conns() {
	vsym.NoTimers()
	var names = []string{"a.x", "b.x", "c.x"}
	n := vsym.Param("N", 1)
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = vsym.Choose("kind", 8)
	}
	s := vfNewStatus(func(s *vfStatus) *Config {
		var bes []*Backend
		for i, k := range kinds {
			be := &Backend{ServerNames: []string{names[i]}, Mode: ModeTLS, Addresses: []string{fmt.Sprintf("1.1.1.%d:1", i+1)}}
			switch k {
			case 2:
				be.Mode = ModeTLSPassthrough
			case 3, 5:
				be.Mode = ModeHTTP
			case 6:
				be.ClientAuth = &ClientAuth{RootCAs: []string{vfCA1}}
			case 7:
				be.ProxyProtocolVersion = "v2"
			}
			bes = append(bes, be)
		}
		cfg := s.console(bes...)
		yes := true
		cfg.EnableQUIC = &yes
		cfg.AcceptProxyHeaderFrom = []string{"203.0.113.0/24"}
		return cfg
	})
	s.newConn = func(addr string) *vfConn {
		h, p, _ := net.SplitHostPort(addr)
		port := 0
		fmt.Sscan(p, &port)
		return &vfConn{name: "up", remote: &net.TCPAddr{IP: net.ParseIP(h), Port: port}, local: &net.TCPAddr{IP: net.IPv4(192, 0, 2, 2), Port: 7000 + len(s.dials)}, hold: make(chan struct{})}
	}
	q := vfNewQUIC(s.vfFlow)
	s.ca = "CA1"
	var want []vfShown
	var closers []func()
	for i, k := range kinds {
		src := &net.TCPAddr{IP: net.IPv4(198, 51, 100, byte(20+i)), Port: 2000 + i}
		vc := &vfConn{name: "client", remote: src, hold: make(chan struct{})}
		hello := vfHello(names[i], []string{"h2"})
		s.name, s.alpn = names[i], []string{"h2"}
		sh := vfShown{src: []string{"tcp:" + src.String()}, in: 1}
		up := fmt.Sprintf("tcp:1.1.1.%d:1", i+1)
		vc.in = append(hello, "data"...)
		start := func() { go s.p.handleConnection(netw.NewConn(vc)); vsym.Settle() }
		closer := func() { vc.Close() }
		switch k {
		case 0:
			vsym.Reach("hello")
			vc.in = hello[:7]
			start()
		case 1:
			vsym.Reach("handshake")
			s.hsWait = make(chan struct{})
			start()
			s.hsWait = nil
			closer = nil
			sh.extra = []string{names[i]}
		case 2, 7:
			vsym.Reach("relay")
			start()
			sh.dst, sh.out = []string{up}, 1
			sh.extra = []string{names[i]}
			if k == 7 {
				sh.extra = append(sh.extra, "PROXY RemoteAddr: tcp:"+src.String())
			}
			d := s.dials[len(s.dials)-1].conn
			closer = func() { vc.Close(); d.Close() }
		case 3:
			vsym.Reach("http")
			start()
			sh.extra = []string{names[i]}
			c := s.served[len(s.served)-1].conn
			closer = func() { c.Close() }
		case 4:
			vsym.Reach("proxied")
			vc.remote = &net.TCPAddr{IP: net.IPv4(203, 0, 113, 1), Port: 3000}
			vc.in = append(append([]byte(fmt.Sprintf("PROXY TCP4 198.51.100.%d 192.0.2.77 %d 443\r\n", 20+i, 2000+i)), hello...), "data"...)
			start()
			sh.dst, sh.out = []string{up}, 1
			sh.extra = []string{"tcp:192.0.2.77:443"}
		case 5:
			vsym.Reach("quic")
			ua := &net.UDPAddr{IP: src.IP, Port: src.Port}
			c := q.connect(names[i], []string{"h3"}, ua)
			vsym.Settle()
			sh.src = []string{"udp:" + ua.String()}
			sh.extra = []string{"QUIC", names[i]}
			closer = func() { c.cancel() }
		case 6:
			vsym.Reach("cert")
			s.cert = &x509.Certificate{SerialNumber: big.NewInt(7), EmailAddresses: []string{"bob@x"}, Subject: pkix.Name{CommonName: "bob"}}
			start()
			s.cert = nil
			sh.dst, sh.out = []string{up}, 1
			sh.extra = []string{"bob"}
		}
		want = append(want, sh)
		closers = append(closers, closer)
	}
	s.login()
	list := func(page string) string {
		page = vfUnescape(page)
		i := strings.Index(page, "Backend[0]")
		vsym.Assert(i > 0, "the page does not show the backends")
		return page[:i]
	}
	page := list(s.page())
	rows := 1
	for _, sh := range want {
		rows += sh.in + sh.out
		for _, a := range sh.src {
			vsym.Assert(strings.Count(page, a+" ") == 1, "a connection is not shown exactly once")
		}
		for _, a := range sh.dst {
			vsym.Assert(strings.Count(page, a) == 2, "a connection is not shown with its server, and that with its own")
		}
		for _, a := range sh.extra {
			vsym.Assert(strings.Contains(page, a), "a detail of a connection is not shown")
		}
	}
	vsym.Assert(strings.Count(page, "Elapsed:") == rows, "the page does not show as many connections as there are")
	for i, c := range closers {
		if c == nil {
			continue
		}
		vsym.Reach("closed")
		c()
		vsym.Settle()
		rows -= want[i].in + want[i].out
		page := list(s.page())
		vsym.Assert(strings.Count(page, "Elapsed:") == rows, "a closed connection is still shown, or an open one is not")
		vsym.Assert(!strings.Contains(page, want[i].src[0]), "a closed connection is still shown")
	}
}

// vfSlow is a connection whose reads end when their deadline has passed.
type vfSlow struct {
	*vfConn
	dl chan struct{}
}

func (c *vfSlow) Read(b []byte) (int, error) {
	if len(c.vfConn.in) == 0 {
		select {
		case <-c.dl:
			return 0, errVF
		case <-c.hold:
			return 0, net.ErrClosed
		}
	}
	return c.vfConn.Read(b)
}

func (c *vfSlow) SetReadDeadline(t time.Time) error {
	if c.dl == nil {
		c.dl = make(chan struct{})
	}
	if !t.IsZero() {
		close(c.dl)
	}
	return nil
}

func (c *vfSlow) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }

// A client that keeps silent holds up neither the status page's users, nor
// reloads, nor other clients.
func VerifP38Stall() {
	vsym.NoTimers()
	cfg := func(s *vfStatus) *Config {
		cfg := s.console(&Backend{ServerNames: []string{"a.x"}, Mode: ModeTLSPassthrough, Addresses: []string{"1.1.1.1:1"}})
		cfg.AcceptProxyHeaderFrom = []string{"203.0.113.0/24"}
		return cfg
	}
	s := vfNewStatus(cfg)
	s.newConn = func(string) *vfConn { return &vfConn{name: "up", hold: make(chan struct{})} }
	trusted := vsym.Bool("trusted")
	silent := &vfConn{name: "silent", remote: &net.TCPAddr{IP: net.IPv4(203, 0, 113, 1), Port: 3000}, hold: make(chan struct{})}
	if !trusted {
		silent.remote = &net.TCPAddr{IP: net.IPv4(198, 51, 100, 1), Port: 3000}
	}
	switch k := vsym.Choose("sent", 3); {
	case k == 1:
		silent.in = []byte("PROXY TCP4 198")
	case k == 2:
		silent.in = []byte{22, 3, 1}
	}
	if vsym.Bool("full") {
		// Too many connections.
		vsym.Reach("full")
		s.p.cfg.MaxOpen = 0
		silent.hold = make(chan struct{})
		slow := &vfSlow{vfConn: silent, dl: make(chan struct{})}
		go s.p.handleConnection(netw.NewConn(slow))
		vsym.Settle()
		vsym.Assert(silent.closed > 0, "a connection above the maximum stays open")
		vsym.Assert(len(s.p.inConns.slice()) == 0, "a connection above the maximum stays open")
		return
	}
	vsym.Reach("silent")
	s.login()
	go s.p.handleConnection(netw.NewConn(silent))
	vsym.Settle()
	var shown, reloaded atomic.Bool
	go func() { s.page(); shown.Store(true) }()
	if vsym.Bool("settle") {
		vsym.Settle()
	}
	go func() {
		vsym.Assert(s.p.Reconfigure(cfg(s)) == nil, "a valid configuration is refused")
		reloaded.Store(true)
	}()
	vsym.Assert(vfSoon(reloaded.Load), "a client that keeps silent holds up a reload")
	vc := &vfConn{name: "client", in: append(vfHello("a.x", nil), "data"...), hold: make(chan struct{})}
	go s.p.handleConnection(netw.NewConn(vc))
	vsym.Assert(vfSoon(func() bool { s.mu.Lock(); defer s.mu.Unlock(); return len(s.dials) == 1 }), "a client that keeps silent holds up other clients")
	silent.Close()
	vsym.Assert(vfSoon(shown.Load), "the status page is never served")
}

// vfSoon waits for something; outside of the engine that takes time.
func vfSoon(f func() bool) bool {
	for i := 0; i < 100 && !f(); i++ {
		vsym.Settle()
	}
	return f()
}

// The page can be looked at while anything happens.
func VerifP38Race() {
	vsym.NoTimers()
	cfg := func(s *vfStatus) *Config {
		return s.console(&Backend{ServerNames: []string{"a.x"}, Mode: ModeTLSPassthrough, Addresses: []string{"1.1.1.1:1"}},
			&Backend{ServerNames: []string{"b.x"}, Mode: ModeTLS, Addresses: []string{"1.1.1.2:1"}})
	}
	s := vfNewStatus(cfg)
	s.newConn = func(string) *vfConn { return &vfConn{name: "up", hold: make(chan struct{})} }
	s.login()
	what := vsym.Choose("what", 4)
	name := "a.x"
	if what == 1 {
		name = "b.x"
	}
	s.name = name
	s.alpn = nil
	vc := &vfConn{name: "client", in: append(vfHello(name, nil), "data"...), hold: make(chan struct{})}
	c := netw.NewConn(vc)
	done := make(chan bool, 2)
	vsym.DetectRaces()
	vsym.ExploreDelays(vsym.Param("DELAYS", 1))
	go func() { s.page(); done <- true }()
	go func() {
		switch what {
		case 0, 1:
			go s.p.handleConnection(c)
		case 2:
			s.p.Reconfigure(cfg(s))
		case 3:
			s.p.recordEvent("x")
			s.p.setCounters(c, "a.x")
		}
		done <- true
	}()
	<-done
	<-done
	vsym.Reach("page")
}
