//verif:pkg proxy
//verif:use flow.go
//verif:unit name=data entry=VerifP12Data share=4 q.LEN=3 t.LEN=4 reach=both,half,serverhalf
//verif:unit name=sched entry=VerifP12Sched share=4 q.LEN=2 t.LEN=3 q.PRE=2 t.PRE=3 reach=both
//verif:unit name=fault entry=VerifP12Fault share=3 q.LEN=3 t.LEN=4 reach=readerr,writeerr,closeerr
//verif:unit name=end entry=VerifP12End share=2 synctest reach=serverclose,clientclose,timeout
//verif:note each side sends at most LEN arbitrary bytes in chunks of any size; plain, PROXY-protocol and TLS connections on the client side, plain and TLS on the upstream side
package proxy

import (
	"crypto/tls"
	"io"
	"net"
	"sync"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
	proxyproto "github.com/pires/go-proxyproto"
)

// vfEnd is one end of the relay: what is read from it is what the remote
// program sends, what is written to it is what that program gets.
type vfEnd struct {
	vfConn
	mu        sync.Mutex
	ch        chan struct{}
	send      []byte
	after     int  // the program sends once it got this many bytes
	afterEOF  bool // or end-of-stream
	never     bool // the program never finishes sending
	readErr   bool // reading fails at the end
	writeOK   int  // writing fails after this many bytes, if >= 0
	closeWErr bool
	whole     bool
	got       []byte
	gotEOF    bool
	shut      bool
	rdl       time.Time
}

func vfNewEnd(name string, send []byte) *vfEnd {
	return &vfEnd{vfConn: vfConn{name: name}, send: send, writeOK: -1, ch: make(chan struct{})}
}

func (e *vfEnd) event() {
	close(e.ch)
	e.ch = make(chan struct{})
}

func (e *vfEnd) Read(b []byte) (int, error) {
	for {
		e.mu.Lock()
		if e.shut {
			e.mu.Unlock()
			return 0, net.ErrClosed
		}
		if len(e.got) >= e.after && (!e.afterEOF || e.gotEOF) {
			if n := len(e.send); n > 0 {
				if n = min(n, len(b)); n > 1 && !e.whole {
					n = 1 + vsym.Choose(e.name+".chunk", n)
				}
				copy(b, e.send[:n])
				e.send = e.send[n:]
				e.mu.Unlock()
				return n, nil
			}
			if e.readErr {
				e.mu.Unlock()
				return 0, errVF
			}
			if !e.never {
				e.mu.Unlock()
				return 0, io.EOF
			}
		}
		ch, dl := e.ch, e.rdl
		e.mu.Unlock()
		if dl.IsZero() {
			<-ch
			continue
		}
		t := time.NewTimer(time.Until(dl))
		select {
		case <-ch:
		case <-t.C:
			return 0, errVFTimeout
		}
		t.Stop()
	}
}

var errVFTimeout error = vfTimeout{}

type vfTimeout struct{}

func (vfTimeout) Error() string   { return "i/o timeout" }
func (vfTimeout) Timeout() bool   { return true }
func (vfTimeout) Temporary() bool { return true }

func (e *vfEnd) Write(b []byte) (int, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.shut || e.gotEOF {
		return 0, net.ErrClosed
	}
	n := len(b)
	if e.writeOK >= 0 {
		n = min(n, e.writeOK-len(e.got))
	}
	e.got = append(e.got, b[:n]...)
	e.event()
	if n < len(b) {
		return n, errVF
	}
	return n, nil
}

func (e *vfEnd) Close() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	if !e.shut {
		e.shut = true
		e.gotEOF = true
		e.event()
	}
	return nil
}

func (e *vfEnd) CloseWrite() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.closeWErr {
		return errVF
	}
	if !e.gotEOF {
		e.gotEOF = true
		e.event()
	}
	return nil
}

func (e *vfEnd) CloseRead() error { return nil }

func (e *vfEnd) SetReadDeadline(t time.Time) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.rdl = t
	e.event()
	return nil
}

// vfRelay wraps the ends the way connections are in the proxy.
func vfRelay(f *vfFlow, client, server *vfEnd) (net.Conn, net.Conn) {
	var c, s net.Conn
	switch vsym.Choose("client", 3) {
	case 0:
		c = netw.NewConn(client)
	case 1:
		// The header is read before the relay starts.
		pc := proxyproto.NewConn(client)
		data, after, eof := client.send, client.after, client.afterEOF
		client.send, client.after, client.afterEOF, client.whole = []byte("PROXY TCP4 192.0.2.7 192.0.2.8 1 2\r\n"), 0, false, true
		vsym.Assert(pc.RemoteAddr().String() == "192.0.2.7:1", "the PROXY header is not used")
		client.send, client.after, client.afterEOF, client.whole = data, after, eof, false
		c = netw.NewConn(pc)
	case 2:
		tc := tls.Server(netw.NewConn(client), &tls.Config{})
		f.tls[tc].done = true
		c = tc
	}
	if vsym.Bool("server") {
		tc := tls.Client(server, &tls.Config{})
		f.tls[tc].done = true
		s = netw.NewConn(tc)
	} else {
		s = netw.NewConn(server)
	}
	return c, s
}

func vfPtr[T any](v T) *T { return &v }

// vfSame states that got is exactly (or, after a fault, a prefix of) want.
func vfSame(got, want []byte, prefix bool, dir string) {
	if prefix {
		vsym.Assert(len(got) <= len(want), "bytes are invented "+dir)
	} else {
		vsym.Assert(len(got) == len(want), "bytes are lost or invented "+dir)
	}
	same := true
	for i := range got {
		same = vsym.And(same, got[i] == want[i])
	}
	vsym.Assert(same, "bytes are changed "+dir)
}

func vfData(n int) (up, down []byte) {
	return vsym.Bytes("up", 0, n), vsym.Bytes("down", 0, n)
}

// Complete transfers in both directions.
func VerifP12Data() {
	vsym.NoTimers()
	f := vfNewFlow()
	up, down := vfData(vsym.Param("LEN", 2))
	client := vfNewEnd("client", append([]byte{}, up...))
	server := vfNewEnd("server", append([]byte{}, down...))
	be := &Backend{}
	switch vsym.Choose("pattern", 4) {
	case 0: // both send at once
		vsym.Reach("both")
		// The server finishes last, or its end-of-stream does not end
		// the connection.
		be.ServerCloseEndsConnection = vfPtr(false)
	case 1: // the server answers after the end of the request
		vsym.Reach("half")
		server.afterEOF = true
	case 2: // the server answers when it has it all
		server.after = len(up)
		be.ServerCloseEndsConnection = vfPtr(vsym.Bool("serverclose"))
	case 3: // the client goes on after the end of the server's data
		vsym.Reach("serverhalf")
		client.afterEOF = true
		be.ServerCloseEndsConnection = vfPtr(false)
		be.ClientCloseEndsConnection = vfPtr(vsym.Bool("clientclose"))
	}
	c, s := vfRelay(f, client, server)
	vsym.DeadlockFails("the relay never ends")
	be.bridgeConns(c, s)
	vfSame(server.got, up, false, "from the client to the server")
	vfSame(client.got, down, false, "from the server to the client")
	vsym.Assert(client.gotEOF && server.gotEOF, "end-of-stream is not passed on")
}

// The same with any interleaving.
func VerifP12Sched() {
	vsym.NoTimers()
	f := vfNewFlow()
	up, down := vfData(vsym.Param("LEN", 2))
	client := vfNewEnd("client", append([]byte{}, up...))
	server := vfNewEnd("server", append([]byte{}, down...))
	be := &Backend{ServerCloseEndsConnection: vfPtr(false)}
	if vsym.Bool("half") {
		server.afterEOF = true
		be.ServerCloseEndsConnection = nil
	}
	c, s := vfRelay(f, client, server)
	vsym.Explore(vsym.Param("PRE", 1))
	vsym.DeadlockFails("the relay never ends")
	be.bridgeConns(c, s)
	vsym.Explore(-1)
	vsym.Reach("both")
	vfSame(server.got, up, false, "from the client to the server")
	vfSame(client.got, down, false, "from the server to the client")
	vsym.Assert(client.gotEOF && server.gotEOF, "end-of-stream is not passed on")
}

// A failure ends the relay and closes both connections.
func VerifP12Fault() {
	vsym.NoTimers()
	f := vfNewFlow()
	up, down := vfData(vsym.Param("LEN", 2))
	client := vfNewEnd("client", append([]byte{}, up...))
	server := vfNewEnd("server", append([]byte{}, down...))
	be := &Backend{ServerCloseEndsConnection: vfPtr(vsym.Bool("serverclose")), ClientCloseEndsConnection: vfPtr(vsym.Bool("clientclose"))}
	bad, other := client, server
	if vsym.Bool("server") {
		bad, other = server, client
	}
	other.never = vsym.Bool("never")
	switch vsym.Choose("fault", 3) {
	case 0:
		vsym.Reach("readerr")
		bad.readErr = true
	case 1:
		vsym.Reach("writeerr")
		bad.writeOK = vsym.Choose("ok", 2)
		bad.never = true
		vsym.Assume(len(other.send) > bad.writeOK)
	case 2:
		vsym.Reach("closeerr")
		bad.closeWErr = true
		bad.never = true
		other.never = false
	}
	c, s := vfRelay(f, client, server)
	vsym.DeadlockFails("the relay never ends")
	be.bridgeConns(c, s)
	vfSame(server.got, up, true, "from the client to the server")
	vfSame(client.got, down, true, "from the server to the client")
	vsym.Assert(client.shut && server.shut, "a connection stays open after a failure")
}

// One side finishes and the other never does.
func VerifP12End() {
	f := vfNewFlow()
	up, down := vfData(1)
	client := vfNewEnd("client", append([]byte{}, up...))
	server := vfNewEnd("server", append([]byte{}, down...))
	be := &Backend{}
	timeout := time.Minute
	if vsym.Bool("timeout") {
		timeout = 7 * time.Second
		be.HalfCloseTimeout = &timeout
	}
	done := make(chan bool)
	start := time.Now()
	c, s := vfRelay(f, client, server)
	first, last := client, server
	ends := false
	if vsym.Bool("server") {
		first, last = server, client
		ends = true // the default
		switch vsym.Choose("cfg", 3) {
		case 1:
			be.ServerCloseEndsConnection = vfPtr(true)
		case 2:
			be.ServerCloseEndsConnection = vfPtr(false)
			ends = false
		}
	} else {
		switch vsym.Choose("cfg", 3) {
		case 1:
			be.ClientCloseEndsConnection = vfPtr(true)
			ends = true
		case 2:
			be.ClientCloseEndsConnection = vfPtr(false)
		}
	}
	last.never = true
	go func() {
		be.bridgeConns(c, s)
		done <- true
	}()
	vsym.Settle()
	vsym.Advance(int(timeout/time.Second) - 1)
	vsym.Settle()
	ended := false
	select {
	case <-done:
		ended = true
	default:
	}
	if ends {
		if first == server {
			vsym.Reach("serverclose")
		} else {
			vsym.Reach("clientclose")
		}
		vsym.Assert(ended && client.shut && server.shut, "the connection does not end although the configuration says so")
		return
	}
	vsym.Reach("timeout")
	vsym.Assert(!ended && !first.shut && !last.shut, "a half-closed connection ends before its timeout")
	vsym.Assert(last.gotEOF, "end-of-stream is not passed on")
	vfSame(server.got, up, false, "from the client to the server")
	vfSame(client.got, down, false, "from the server to the client")
	vsym.Advance(2)
	<-done
	vsym.Assert(client.shut && server.shut, "a connection stays open after its timeout")
	vsym.Assert(time.Since(start) <= timeout+2*time.Second, "a half-closed connection outlives its timeout")
}
