//verif:pkg proxy
//verif:use quicflow.go
//verif:hook net Listen
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager (*TokenManager).KeyRotationLoop
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache (*OCSPCache).FlushLoop
//verif:hook github.com/c2FmZQ/tlsproxy/proxy (*Proxy).revokeUnusedCertificates
//verif:hook github.com/c2FmZQ/tlsproxy/proxy (*Proxy).Stop
//verif:unit name=stop entry=VerifP39Stop share=1 reach=stop,cancel,hello,handshake,dial,relay,http q.N=2 t.N=3
//verif:unit name=shutdown entry=VerifP39Shutdown share=1 reach=wait,expire,relay,http q.N=2 t.N=3
//verif:unit name=wake entry=VerifP39Wake share=6 reach=done q.DELAYS=2 t.DELAYS=2 t.TWO=1
//verif:unit name=late entry=VerifP39Late share=1 reach=done q.DELAYS=1 t.DELAYS=2
//verif:note the listeners and the loops that rotate keys, flush caches and look for unused certificates are stand-ins that end with their context or when they are closed
package proxy

import (
	"context"
	"net"
	"sync"
	"sync/atomic"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfListener struct {
	addr   string
	mu     sync.Mutex
	closed chan struct{}
	n      int
	conns  chan net.Conn
}

func (l *vfListener) Accept() (net.Conn, error) {
	select {
	case <-l.closed:
		return nil, net.ErrClosed
	case c := <-l.conns:
		return c, nil
	}
}

func (l *vfListener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.n++
	if l.n > 1 {
		return net.ErrClosed
	}
	close(l.closed)
	return nil
}

func (l *vfListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 443} }

type vfRunning struct {
	*vfFlow
	lis    map[string]*vfListener
	cancel func()
	mu     sync.Mutex
	loops  int // background loops that run
	open   []*vfConn
}

const vfMain = "[::]:10443"

// vfStart starts a proxy.
func vfStart(cfg *Config) *vfRunning {
	r := &vfRunning{vfFlow: vfNewFlow(), lis: map[string]*vfListener{}}
	net.VerifHook_Listen = func(network, addr string) (net.Listener, error) {
		l := &vfListener{addr: addr, closed: make(chan struct{}), conns: make(chan net.Conn)}
		r.lis[addr] = l
		return l, nil
	}
	loop := func(ctx context.Context) {
		r.mu.Lock()
		r.loops++
		r.mu.Unlock()
		<-ctx.Done()
		r.mu.Lock()
		r.loops--
		r.mu.Unlock()
	}
	tokenmanager.VerifHook_TokenManager_KeyRotationLoop = func(_ *tokenmanager.TokenManager, ctx context.Context) { loop(ctx) }
	ocspcache.VerifHook_OCSPCache_FlushLoop = func(_ *ocspcache.OCSPCache, ctx context.Context) { loop(ctx) }
	VerifHook_Proxy_revokeUnusedCertificates = func(_ *Proxy, ctx context.Context) error { return nil }
	r.newConn = func(string) *vfConn {
		c := &vfConn{name: "up", hold: make(chan struct{})}
		r.mu.Lock()
		r.open = append(r.open, c)
		r.mu.Unlock()
		return c
	}
	cfg.TLSAddr, cfg.HTTPAddr = vfMain, ":80"
	cfg.CacheDir, cfg.MaxOpen = vfTree(nil), 100
	no := false
	cfg.EnableQUIC = &no
	cfg.LogFilter = LogFilter{Connections: &no, Requests: &no, Errors: &no}
	for _, be := range cfg.Backends {
		be.LogFilter = cfg.LogFilter
	}
	vsym.Assert(r.p.Reconfigure(cfg) == nil, "a valid configuration is refused")
	ctx, cancel := context.WithCancel(context.Background())
	r.cancel = cancel
	vsym.Assert(r.p.Start(ctx) == nil, "the proxy does not start")
	vsym.Settle()
	vsym.Assert(len(r.lis) == 2, "the proxy does not listen")
	vsym.Assert(r.loops == 2, "the background work is not started")
	return r
}

// connect opens a client connection in one of its states.
func (r *vfRunning) connect(kind int) *vfConn {
	name := []string{"a.x", "a.x", "a.x", "b.x", "c.x", "d.x"}[kind]
	hello := vfHello(name, nil)
	vc := &vfConn{name: "client", in: append(hello, "data"...), hold: make(chan struct{})}
	r.name, r.alpn = name, nil
	switch kind {
	case 0:
		vc.in = hello[:7]
	case 1:
		r.hsWait = make(chan struct{})
	case 2:
		r.dialErr = func(ctx context.Context, _ string) error { <-ctx.Done(); return ctx.Err() }
	}
	r.mu.Lock()
	r.open = append(r.open, vc)
	r.mu.Unlock()
	r.lis[vfMain].conns <- vc
	vsym.Settle()
	return vc
}

func vfBackends() *Config {
	return &Config{Backends: []*Backend{
		{ServerNames: []string{"a.x"}, Mode: ModeTLS, Addresses: []string{"1.1.1.1:1"}},
		{ServerNames: []string{"b.x"}, Mode: ModeTLSPassthrough, Addresses: []string{"1.1.1.2:1"}},
		{ServerNames: []string{"c.x"}, Mode: ModeLocal},
		{ServerNames: []string{"d.x"}, Mode: ModeHTTP, Addresses: []string{"1.1.1.3:1"}},
	}}
}

// stopped checks that nothing is left.
func (r *vfRunning) stopped() {
	for a, l := range r.lis {
		vsym.Assert(l.n > 0, "a stopped proxy still listens on "+a)
	}
	vsym.Assert(len(r.p.inConns.slice()) == 0, "a stopped proxy still has connections of clients")
	vsym.Assert(len(r.p.outConns.slice()) == 0, "a stopped proxy still has connections to servers")
	for _, c := range r.open {
		vsym.Assert(c.closed > 0, "a stopped proxy keeps a connection open")
	}
	vsym.Assert(r.loops == 0, "a stopped proxy still works in the background")
	for srv, l := range r.vfFlow.lis {
		_ = l
		vsym.Assert(r.vfFlow.stopped[srv], "a stopped proxy still has a web server")
	}
}

// some opens up to N connections of any kinds.
func (r *vfRunning) some() (kinds []int, conns []*vfConn) {
	for i := 0; i < vsym.Param("N", 1); i++ {
		if i > 0 && kinds[i-1] == 1 {
			break // the handshakes of all that follow wait as well
		}
		k := vsym.Choose("kind", 6)
		vsym.Reach([]string{"hello", "handshake", "dial", "relay", "http", "http"}[k])
		kinds = append(kinds, k)
		conns = append(conns, r.connect(k))
	}
	return
}

// release lets the stages go on that don't depend on the connection here.
func (r *vfRunning) release() {
	if r.hsWait != nil {
		close(r.hsWait)
		r.hsWait = nil
	}
	vsym.Settle()
}

// Stop and the end of the context close everything, whatever is going on.
func VerifP39Stop() {
	vsym.NoTimers()
	r := vfStart(vfBackends())
	_, conns := r.some()
	for _, c := range conns {
		vsym.Assert(c.closed == 0, "an acceptable connection is closed")
	}
	if vsym.Bool("cancel") {
		vsym.Reach("cancel")
		r.cancel()
	} else {
		vsym.Reach("stop")
		r.p.Stop()
	}
	vsym.Settle()
	r.release()
	r.stopped()
	if vsym.Bool("again") {
		r.p.Stop()
		r.cancel()
		vsym.Settle()
		r.stopped()
	}
}

// Shutdown stops accepting, lets requests finish, and then stops.
func VerifP39Shutdown() {
	vsym.NoTimers()
	r := vfStart(vfBackends())
	kinds, conns := r.some()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var done atomic.Bool
	go func() { r.p.Shutdown(ctx); done.Store(true) }()
	vsym.Settle()
	vsym.Assert(r.lis[vfMain].n > 0, "a proxy that shuts down still listens")
	web := 0
	for i, k := range kinds {
		if k >= 4 {
			web++
			vsym.Assert(conns[i].closed == 0, "shutting down breaks off a request")
		}
	}
	if web > 0 {
		vsym.Assert(!done.Load(), "shutting down does not wait for requests")
	}
	if vsym.Bool("expire") {
		vsym.Reach("expire")
		cancel()
	} else {
		vsym.Reach("wait")
		// Everything ends by itself, in any order.
		first := vsym.Choose("first", len(conns))
		for i := range conns {
			c := conns[(first+i)%len(conns)]
			if c.closed == 0 {
				close(c.hold)
				c.hold = nil
			}
			r.release()
			for _, s := range r.served {
				if s.conn.(interface{ NetConn() net.Conn }).NetConn().(*netw.Conn).Conn == net.Conn(c) {
					s.conn.Close()
				}
			}
			r.mu.Lock()
			open := append([]*vfConn{}, r.open...)
			r.mu.Unlock()
			for _, u := range open {
				if u.name == "up" && u.closed == 0 && u.hold != nil {
					close(u.hold)
					u.hold = nil
				}
			}
			vsym.Settle()
			if kinds[(first+i)%len(conns)] == 2 {
				// Still waiting for the server.
				cancel()
			}
		}
	}
	vsym.Settle()
	vsym.Assert(done.Load(), "shutting down does not end")
	r.release()
	r.stopped()
}

// The last connection that closes ends the wait, however that coincides.
func VerifP39Wake() {
	vsym.NoTimers()
	vsym.DeadlockFails("shutting down waits for connections that are gone")
	r := vfStart(vfBackends())
	r.connect(4)
	two := vsym.Param("TWO", 0) == 1 && vsym.Bool("two")
	if two {
		r.connect(4)
	}
	vsym.Assert(len(r.served) > 0, "the connection is not served")
	done := make(chan bool, 1)
	// What comes after the wait is not explored here.
	stops := 0
	VerifHook_Proxy_Stop = func(*Proxy) { stops++ }
	vsym.ExploreDelays(vsym.Param("DELAYS", 2))
	go func() { r.p.Shutdown(context.Background()); done <- true }()
	for _, s := range r.served {
		s := s
		go s.conn.Close()
	}
	<-done
	VerifHook_Proxy_Stop = nil
	vsym.Assert(stops == 1, "shutting down does not end by stopping")
	vsym.Assert(len(r.p.inConns.slice()) == 0, "shutting down does not wait")
	vsym.Reach("done")
}

// A connection that comes when the proxy stops is closed, too.
func VerifP39Late() {
	vsym.NoTimers()
	r := vfStart(vfBackends())
	kind := 3 + vsym.Choose("kind", 2)
	name := []string{"b.x", "c.x"}[kind-3]
	vc := &vfConn{name: "client", in: append(vfHello(name, nil), "data"...), hold: make(chan struct{})}
	r.name = name
	r.open = append(r.open, vc)
	done := make(chan bool, 2)
	vsym.ExploreDelays(vsym.Param("DELAYS", 2))
	go func() { r.p.handleConnection(netw.NewConn(vc)); done <- true }()
	go func() { r.p.Stop(); done <- true }()
	<-done
	vsym.Settle()
	r.stopped()
	vsym.Reach("done")
}
