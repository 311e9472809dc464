//verif:hook crypto/tls Server
//verif:hook crypto/tls Client
//verif:hook crypto/tls (*Conn).HandshakeContext
//verif:hook crypto/tls (*Conn).ConnectionState
//verif:hook crypto/tls (*Conn).Read
//verif:hook crypto/tls (*Conn).Write
//verif:hook crypto/tls (*Conn).Close
//verif:hook crypto/tls (*Conn).CloseWrite
//verif:hook net (*Dialer).DialContext
//verif:hook net/http (*Server).Serve
//verif:hook net/http (*Server).Shutdown
//verif:hook net/http (*Server).Close
//verif:use fakeconn.go
//verif:use fs.go
//verif:assume the TLS handshake is ideal: it consumes the ClientHello, negotiates ALPN from the configured list in server order, verifies client certificates as the configured ClientAuth mode says and calls VerifyConnection; records carry the application bytes unchanged
//verif:assume net.Dialer and http.Server.Serve are replaced by recorders
package common

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"io"
	"net"
	"net/http"
	"slices"
	"sync"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

type vfCM struct{}

func (vfCM) HTTPHandler(fallback http.Handler) http.Handler { return fallback }
func (vfCM) TLSConfig() *tls.Config {
	return &tls.Config{GetCertificate: vfCM{}.GetCertificate}
}
func (vfCM) GetCertificate(hello *tls.ClientHelloInfo) (*tls.Certificate, error) {
	return &tls.Certificate{}, nil
}

type vfDial struct {
	addr    string
	conn    *vfConn
	tc      *tls.Config
	name    string
	dialer  *net.Dialer
	network string
	ctx     context.Context
}

type vfTLS struct {
	conn   net.Conn
	config *tls.Config
	server bool
	done   bool
	cs     tls.ConnectionState
}

// vfFlow drives whole connections through a Proxy.
type vfFlow struct {
	p    *Proxy
	name string   // server name and ALPN offer of the client's hello
	alpn []string // that the handshake sees

	peer    net.Addr
	cert    *x509.Certificate // what the client presents
	trusted bool              // its chain ends in one of the configured CAs
	ca      string            // or in the CA of this name
	hsErr   error
	hsWait  chan struct{} // if set, the handshake waits here
	hsPanic bool

	tls     map[*tls.Conn]*vfTLS
	hsCount int
	hsOK    int
	dials   []*vfDial
	dialErr func(ctx context.Context, addr string) error
	newConn func(addr string) *vfConn
	served  []vfServed
	lis     map[*http.Server]net.Listener
	stopped map[*http.Server]bool
	mu      sync.Mutex
}

type vfServed struct {
	srv  *http.Server
	conn net.Conn
}

func vfNewFlow() *vfFlow {
	f := &vfFlow{tls: map[*tls.Conn]*vfTLS{}}
	f.p = &Proxy{
		certManager: vfCM{},
		bwLimits:    map[string]*bwLimit{},
		inConns:     newConnTracker(),
		outConns:    newConnTracker(),
		ctx:         context.Background(),
	}
	f.p.connClosed = sync.NewCond(&f.p.mu)
	f.install()
	return f
}

func vfNewTLS(server bool, conn net.Conn, config *tls.Config) *tls.Conn {
	h, g := tls.VerifHook_Server, tls.VerifHook_Client
	tls.VerifHook_Server, tls.VerifHook_Client = nil, nil
	defer func() { tls.VerifHook_Server, tls.VerifHook_Client = h, g }()
	if server {
		return tls.Server(conn, config)
	}
	return tls.Client(conn, config)
}

func (f *vfFlow) install() {
	tls.VerifHook_Server = func(conn net.Conn, config *tls.Config) *tls.Conn {
		c := vfNewTLS(true, conn, config)
		f.tls[c] = &vfTLS{conn: conn, config: config, server: true}
		return c
	}
	tls.VerifHook_Client = func(conn net.Conn, config *tls.Config) *tls.Conn {
		c := vfNewTLS(false, conn, config)
		f.tls[c] = &vfTLS{conn: conn, config: config, done: true}
		if vc, ok := conn.(*vfConn); ok {
			for _, d := range f.dials {
				if d.conn == vc {
					d.tc = config
				}
			}
		}
		return c
	}
	tls.VerifHook_Conn_HandshakeContext = func(c *tls.Conn, ctx context.Context) error {
		return f.handshake(c)
	}
	tls.VerifHook_Conn_ConnectionState = func(c *tls.Conn) tls.ConnectionState {
		if t := f.tls[c]; t != nil {
			return t.cs
		}
		return tls.ConnectionState{}
	}
	tls.VerifHook_Conn_Read = func(c *tls.Conn, b []byte) (int, error) {
		if err := f.handshake(c); err != nil {
			return 0, err
		}
		return c.NetConn().Read(b)
	}
	tls.VerifHook_Conn_Write = func(c *tls.Conn, b []byte) (int, error) {
		if err := f.handshake(c); err != nil {
			return 0, err
		}
		return c.NetConn().Write(b)
	}
	tls.VerifHook_Conn_Close = func(c *tls.Conn) error { return c.NetConn().Close() }
	tls.VerifHook_Conn_CloseWrite = func(c *tls.Conn) error {
		n := c.NetConn()
		for {
			switch cc := n.(type) {
			case *netw.Conn:
				n = cc.Conn
				continue
			case interface{ Raw() net.Conn }:
				n = cc.Raw()
				continue
			}
			return n.(interface{ CloseWrite() error }).CloseWrite()
		}
	}
	net.VerifHook_Dialer_DialContext = func(dl *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
		d := &vfDial{addr: addr, dialer: dl, network: network, ctx: ctx}
		f.mu.Lock()
		f.dials = append(f.dials, d)
		f.mu.Unlock()
		if f.dialErr != nil {
			if err := f.dialErr(ctx, addr); err != nil {
				return nil, err
			}
		}
		if f.newConn != nil {
			d.conn = f.newConn(addr)
		} else {
			d.conn = &vfConn{name: "up"}
		}
		return d.conn, nil
	}
	stop := func(s *http.Server) error {
		f.mu.Lock()
		l := f.lis[s]
		if f.stopped == nil {
			f.stopped = map[*http.Server]bool{}
		}
		f.stopped[s] = true
		f.mu.Unlock()
		if l != nil {
			return l.Close()
		}
		return nil
	}
	http.VerifHook_Server_Shutdown = func(s *http.Server, ctx context.Context) error { return stop(s) }
	http.VerifHook_Server_Close = func(s *http.Server) error { return stop(s) }
	http.VerifHook_Server_Serve = func(s *http.Server, l net.Listener) error {
		f.mu.Lock()
		if f.lis == nil {
			f.lis = map[*http.Server]net.Listener{}
		}
		f.lis[s] = l
		if f.stopped[s] {
			f.mu.Unlock()
			l.Close()
			return http.ErrServerClosed
		}
		f.mu.Unlock()
		for {
			c, err := l.Accept()
			if err != nil {
				f.mu.Lock()
				stopped := f.stopped[s]
				f.mu.Unlock()
				if stopped {
					return http.ErrServerClosed
				}
				return err
			}
			f.mu.Lock()
			f.served = append(f.served, vfServed{s, c})
			f.mu.Unlock()
		}
	}
}

// trusts says whether the client's certificate verifies with the given pool;
// without a pool, that is the system's roots, which never sign it.
func (f *vfFlow) trusts(pool *x509.CertPool) bool {
	if f.trusted || pool == nil || f.ca == "" {
		return f.trusted
	}
	for _, s := range pool.Subjects() {
		if bytes.HasSuffix(s, []byte(f.ca)) {
			return true
		}
	}
	return false
}

var errVFNoCert = errors.New("tls: client didn't provide a certificate")

func (f *vfFlow) handshake(c *tls.Conn) error {
	t := f.tls[c]
	if t == nil || t.done {
		return nil
	}
	if !t.server {
		t.done = true
		return nil
	}
	f.hsCount++
	if f.hsWait != nil {
		<-f.hsWait
	}
	if f.hsPanic {
		panic("verif")
	}
	if f.hsErr != nil {
		return f.hsErr
	}
	// The ClientHello must still be there for the handshake to read.
	var h [5]byte
	if _, err := io.ReadFull(t.conn, h[:]); err != nil {
		return err
	}
	if _, err := io.ReadFull(t.conn, make([]byte, int(h[3])<<8|int(h[4]))); err != nil {
		return err
	}
	cfg := t.config
	if cfg.GetCertificate == nil {
		return errVF
	}
	if _, err := cfg.GetCertificate(&tls.ClientHelloInfo{ServerName: f.name, SupportedProtos: f.alpn, Conn: t.conn}); err != nil {
		return err
	}
	cs := tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, ServerName: f.name}
	if len(cfg.NextProtos) > 0 && len(f.alpn) > 0 {
		for _, s := range cfg.NextProtos {
			if slices.Contains(f.alpn, s) {
				cs.NegotiatedProtocol = s
				break
			}
		}
		if cs.NegotiatedProtocol == "" {
			return errVF
		}
	}
	if cfg.ClientAuth != tls.NoClientCert {
		if f.cert == nil {
			if cfg.ClientAuth == tls.RequireAnyClientCert || cfg.ClientAuth == tls.RequireAndVerifyClientCert {
				return errVFNoCert
			}
		} else {
			cs.PeerCertificates = []*x509.Certificate{f.cert}
			if cfg.ClientAuth >= tls.VerifyClientCertIfGiven {
				if !f.trusts(cfg.ClientCAs) {
					return errVF
				}
				cs.VerifiedChains = [][]*x509.Certificate{{f.cert}}
			}
		}
	}
	if cfg.VerifyConnection != nil {
		if err := cfg.VerifyConnection(cs); err != nil {
			return err
		}
	}
	t.done = true
	t.cs = cs
	f.hsOK++
	return nil
}

// vfHello is a TLS record with a ClientHello.
func vfHello(name string, alpn []string) []byte {
	var ext []byte
	u16 := func(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
	add := func(typ int, body []byte) {
		ext = append(ext, u16(typ)...)
		ext = append(ext, u16(len(body))...)
		ext = append(ext, body...)
	}
	if name != "" {
		b := append(u16(len(name)+3), 0)
		b = append(b, u16(len(name))...)
		add(0, append(b, name...))
	}
	if len(alpn) > 0 {
		var l []byte
		for _, p := range alpn {
			l = append(l, byte(len(p)))
			l = append(l, p...)
		}
		add(16, append(u16(len(l)), l...))
	}
	body := []byte{3, 3}
	body = append(body, make([]byte, 32)...)
	body = append(body, 0)                // session id
	body = append(body, 0, 2, 0x13, 0x01) // cipher suites
	body = append(body, 1, 0)             // compression
	body = append(body, u16(len(ext))...)
	body = append(body, ext...)
	msg := append([]byte{1, 0}, u16(len(body))...)
	msg = append(msg, body...)
	rec := append([]byte{22, 3, 1}, u16(len(msg))...)
	return append(rec, msg...)
}

// config returns a configuration with the given backends.
func (f *vfFlow) config(backends ...*Backend) *Config {
	no := false
	cfg := &Config{CacheDir: vfTree(nil), MaxOpen: 100, EnableQUIC: &no, Backends: backends}
	for _, be := range backends {
		be.LogFilter = LogFilter{Connections: &no, Requests: &no, Errors: &no}
	}
	cfg.LogFilter = LogFilter{Connections: &no, Requests: &no, Errors: &no}
	return cfg
}

// client runs a new client connection through the proxy.
func (f *vfFlow) client(name string, alpn []string, data string) (*netw.Conn, *vfConn) {
	f.name, f.alpn = name, alpn
	vc := &vfConn{name: "client", in: append(vfHello(name, alpn), data...), remote: f.peer}
	c := netw.NewConn(vc)
	f.p.handleConnection(c)
	return c, vc
}
