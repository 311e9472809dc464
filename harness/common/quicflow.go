//verif:use flow.go
//verif:hook github.com/quic-go/quic-go (*Transport).Listen
//verif:hook github.com/quic-go/quic-go (*Transport).Dial
//verif:hook github.com/quic-go/quic-go (*Transport).Close
//verif:hook github.com/quic-go/quic-go (*Listener).Accept
//verif:hook github.com/quic-go/quic-go (*Listener).Addr
//verif:hook github.com/quic-go/quic-go/http3 (*Server).ServeQUICConn
//verif:hook net ListenUDP
//verif:hook github.com/c2FmZQ/storage (*Storage).CreateEmptyFile
//verif:hook github.com/c2FmZQ/storage (*Storage).ReadDataFile
//verif:assume quic-go is replaced by an in-memory transport whose handshake calls GetConfigForClient, negotiates ALPN, and checks client certificates as crypto/tls does
package common

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"net"
	"slices"

	"github.com/c2FmZQ/storage"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

// vfQC is a QUIC connection with in-memory streams.
type vfQC struct {
	quic.Connection
	cs      tls.ConnectionState
	remote  net.Addr
	ctx     context.Context
	cancel  func()
	closed  int
	code    quic.ApplicationErrorCode
	streams chan quic.Stream
	opened  []*vfQS
	openErr error
}

func vfNewQC(cs tls.ConnectionState, remote net.Addr) *vfQC {
	c := &vfQC{cs: cs, remote: remote, streams: make(chan quic.Stream, 4)}
	c.ctx, c.cancel = context.WithCancel(context.Background())
	return c
}

func (c *vfQC) AcceptStream(ctx context.Context) (quic.Stream, error) {
	select {
	case s := <-c.streams:
		return s, nil
	case <-ctx.Done():
		return nil, ctx.Err()
	case <-c.ctx.Done():
		return nil, context.Canceled
	}
}

func (c *vfQC) AcceptUniStream(ctx context.Context) (quic.ReceiveStream, error) {
	select {
	case <-ctx.Done():
		return nil, ctx.Err()
	case <-c.ctx.Done():
		return nil, context.Canceled
	}
}

func (c *vfQC) OpenStreamSync(ctx context.Context) (quic.Stream, error) {
	if c.openErr != nil {
		return nil, c.openErr
	}
	s := &vfQS{vfConn: vfConn{name: "qstream"}, qc: c}
	c.opened = append(c.opened, s)
	return s, nil
}

func (c *vfQC) LocalAddr() net.Addr {
	return vfQUICLocal
}

var vfQUICLocal = &net.UDPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 443}

func (c *vfQC) RemoteAddr() net.Addr { return c.remote }

func (c *vfQC) CloseWithError(code quic.ApplicationErrorCode, _ string) error {
	c.closed++
	if c.closed == 1 {
		c.code = code
	}
	c.cancel()
	return nil
}

func (c *vfQC) Context() context.Context { return c.ctx }

func (c *vfQC) ConnectionState() quic.ConnectionState {
	return quic.ConnectionState{TLS: c.cs}
}

// vfQS is a QUIC stream.
type vfQS struct {
	vfConn
	qc       *vfQC
	id       int64
	noRead   int
	noWrite  int
	closedWr int
}

func (s *vfQS) StreamID() quic.StreamID          { return quic.StreamID(s.id) }
func (s *vfQS) Context() context.Context         { return s.qc.ctx }
func (s *vfQS) CancelRead(quic.StreamErrorCode)  { s.noRead++ }
func (s *vfQS) CancelWrite(quic.StreamErrorCode) { s.noWrite++ }
func (s *vfQS) Close() error                     { s.closedWr++; s.closeW++; return nil }

type vfQUIC struct {
	*vfFlow
	tc        *tls.Config
	conns     chan quic.Connection
	qdials    []vfQDial
	h3        []quic.Connection
	h3srv     []*http3.Server
	qdial     func(addr string) (*vfQC, error)
	lastState tls.ConnectionState
}

type vfQDial struct {
	addr string
	tc   *tls.Config
	conn *vfQC
}

// vfNewQUIC starts the QUIC side of f's proxy, which must be configured.
func vfNewQUIC(f *vfFlow) *vfQUIC {
	q := &vfQUIC{vfFlow: f, conns: make(chan quic.Connection)}
	net.VerifHook_ListenUDP = func(string, *net.UDPAddr) (*net.UDPConn, error) { return &net.UDPConn{}, nil }
	quic.VerifHook_Transport_Listen = func(_ *quic.Transport, tc *tls.Config, _ *quic.Config) (*quic.Listener, error) {
		q.tc = tc
		return &quic.Listener{}, nil
	}
	quic.VerifHook_Transport_Close = func(*quic.Transport) error { return nil }
	quic.VerifHook_Listener_Accept = func(_ *quic.Listener, ctx context.Context) (quic.Connection, error) {
		if c := <-q.conns; c != nil {
			return c, nil
		}
		return nil, quic.ErrServerClosed
	}
	quic.VerifHook_Listener_Addr = func(*quic.Listener) net.Addr { return vfQUICLocal }
	quic.VerifHook_Transport_Dial = func(_ *quic.Transport, ctx context.Context, addr net.Addr, tc *tls.Config, _ *quic.Config) (quic.Connection, error) {
		c := vfNewQC(tls.ConnectionState{}, addr)
		var err error
		if q.qdial != nil {
			c, err = q.qdial(addr.String())
		}
		f.mu.Lock()
		q.qdials = append(q.qdials, vfQDial{addr.String(), tc, c})
		f.mu.Unlock()
		if err != nil {
			return nil, err
		}
		return c, nil
	}
	http3.VerifHook_Server_ServeQUICConn = func(s *http3.Server, c quic.Connection) error {
		f.mu.Lock()
		q.h3 = append(q.h3, c)
		q.h3srv = append(q.h3srv, s)
		f.mu.Unlock()
		<-c.Context().Done()
		return nil
	}
	storage.VerifHook_Storage_CreateEmptyFile = func(*storage.Storage, string, interface{}) error { return nil }
	storage.VerifHook_Storage_ReadDataFile = func(*storage.Storage, string, interface{}) error { return nil }
	if err := f.p.startQUIC(context.Background()); err != nil {
		panic(err)
	}
	return q
}

// handshake is what the QUIC stack does with a client's hello.
func (q *vfQUIC) handshake(name string, alpn []string) (tls.ConnectionState, error) {
	cs := tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, ServerName: name}
	cfg := q.tc
	hello := &tls.ClientHelloInfo{ServerName: name, SupportedProtos: alpn}
	if cfg.GetConfigForClient != nil {
		c, err := cfg.GetConfigForClient(hello)
		if err != nil {
			return cs, err
		}
		if c != nil {
			cfg = c
		}
	}
	for _, s := range cfg.NextProtos {
		if slices.Contains(alpn, s) {
			cs.NegotiatedProtocol = s
			break
		}
	}
	// QUIC requires ALPN.
	if cs.NegotiatedProtocol == "" {
		return cs, errVF
	}
	if cfg.GetCertificate != nil {
		if _, err := cfg.GetCertificate(&tls.ClientHelloInfo{ServerName: name, SupportedProtos: alpn}); err != nil {
			return cs, err
		}
	}
	if cfg.ClientAuth != tls.NoClientCert {
		if q.cert == nil {
			if cfg.ClientAuth == tls.RequireAnyClientCert || cfg.ClientAuth == tls.RequireAndVerifyClientCert {
				return cs, errVFNoCert
			}
		} else {
			cs.PeerCertificates = []*x509.Certificate{q.cert}
			if cfg.ClientAuth >= tls.VerifyClientCertIfGiven {
				if !q.trusts(cfg.ClientCAs) {
					return cs, errVF
				}
				cs.VerifiedChains = [][]*x509.Certificate{{q.cert}}
			}
		}
	}
	if cfg.VerifyConnection != nil {
		if err := cfg.VerifyConnection(cs); err != nil {
			return cs, err
		}
	}
	q.hsOK++
	return cs, nil
}

// connect runs a QUIC client connection; nil means that the handshake failed.
func (q *vfQUIC) connect(name string, alpn []string, remote net.Addr, streams ...*vfQS) *vfQC {
	cs, err := q.handshake(name, alpn)
	if err != nil {
		return nil
	}
	q.lastState = cs
	c := vfNewQC(cs, remote)
	for _, s := range streams {
		s.qc = c
		c.streams <- s
	}
	q.conns <- c
	return c
}
