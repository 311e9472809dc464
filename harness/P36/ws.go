//verif:pkg proxy
//verif:use flow.go
//verif:unit name=relay entry=VerifP36Relay share=5 synctest q.N=3 t.N=3 q.LEN=1 t.LEN=2 reach=fragments,text,ping,closed,dropped,serverend,serverfail
//verif:unit name=pieces entry=VerifP36Relay share=1 synctest q.N=1 t.N=2 q.LEN=2 t.LEN=1 t.CUT=1 reach=fragments,text,ping,closed,dropped,serverend,serverfail
//verif:unit name=large entry=VerifP36Large share=1 synctest reach=in,out
//verif:unit name=alive entry=VerifP36Alive share=1 synctest race reach=gone,alive
//verif:unit name=open entry=VerifP36Open share=2 reach=opened,refused,foreign,nodial
//verif:unit name=sched entry=VerifP36Sched share=2 synctest race q.PRE=1 t.PRE=2 reach=done
//verif:note up to three frames of every kind with up to one (thorough: two) arbitrary bytes each under arbitrary masking keys, an answer of up to two (four) arbitrary bytes, in two pieces of any size; messages and answers of twelve sizes from 125 to 65,536 bytes; upgrade requests with one deviation from a proper one; the connection is closed without a close frame when the server ends it, which the property does not forbid
//verif:replace github.com/gorilla/websocket.maskBytes vfMaskBytes
//verif:assume gorilla's word-wise masking does what masking byte by byte does
package proxy

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// vfPeer is a connection to a program that sends, waits, and ends.
type vfPeer struct {
	vfConn
	mu      sync.Mutex
	ch      chan struct{}
	send    []byte
	never   bool // it never ends
	failEnd bool // it ends with an error
	lastEOF bool // the last data comes together with the end
	shut    bool
	dl      time.Time
	got     []byte
	// react is called with what was written.
	react func(p *vfPeer)
}

func vfNewPeer(name string, send []byte) *vfPeer {
	return &vfPeer{vfConn: vfConn{name: name}, send: send, ch: make(chan struct{})}
}

func (p *vfPeer) event() {
	close(p.ch)
	p.ch = make(chan struct{})
}

func (p *vfPeer) Read(b []byte) (int, error) {
	for {
		p.mu.Lock()
		if p.shut {
			p.mu.Unlock()
			return 0, net.ErrClosed
		}
		if n := min(len(p.send), len(b)); n > 0 {
			if n > 1 && p.chunks {
				// in two pieces
				n = 1 + vsym.Choose(p.name+".chunk", n)
				p.chunks = false
			}
			copy(b, p.send[:n])
			p.send = p.send[n:]
			last := p.lastEOF && len(p.send) == 0
			p.mu.Unlock()
			if last {
				return n, io.EOF
			}
			return n, nil
		}
		if !p.never {
			p.mu.Unlock()
			if p.failEnd {
				return 0, errVF
			}
			return 0, io.EOF
		}
		ch, dl := p.ch, p.dl
		p.mu.Unlock()
		if dl.IsZero() {
			<-ch
			continue
		}
		t := time.NewTimer(time.Until(dl))
		select {
		case <-ch:
			t.Stop()
		case <-t.C:
			return 0, errors.New("timeout")
		}
	}
}

func (p *vfPeer) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.shut {
		return 0, net.ErrClosed
	}
	p.got = append(p.got, b...)
	if p.react != nil {
		p.react(p)
		p.event()
	}
	return len(b), nil
}

func (p *vfPeer) Close() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.shut {
		p.shut = true
		p.event()
	}
	return nil
}

func (p *vfPeer) SetDeadline(t time.Time) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.dl = t
	p.event()
	return nil
}

func (p *vfPeer) isShut() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.shut
}

// vfHijack is the http server's side of an upgraded connection.
type vfHijack struct {
	vfRespW
	conn net.Conn
}

type vfRespW struct {
	h    http.Header
	code int
	body []byte
}

func (w *vfRespW) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *vfRespW) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *vfRespW) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	w.body = append(w.body, b...)
	return len(b), nil
}

func (w *vfHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return w.conn, bufio.NewReadWriter(bufio.NewReader(w.conn), bufio.NewWriter(w.conn)), nil
}

func vfUpgrade(ctx context.Context, conn net.Conn) *http.Request {
	ctx = context.WithValue(ctx, connCtxKey, anyConn(netw.NewConnForTest(conn)))
	return (&http.Request{
		Method: "GET", URL: &url.URL{Path: "/ws"}, Host: "ws.x", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{
			"Connection":            {"Upgrade"},
			"Upgrade":               {"websocket"},
			"Sec-Websocket-Version": {"13"},
			"Sec-Websocket-Key":     {"AAAAAAAAAAAAAAAAAAAAAA=="},
		},
	}).WithContext(ctx)
}

// vfFrame is a frame that a client sends.
func vfFrame(op byte, fin bool, mask, payload []byte) []byte {
	b := []byte{op}
	switch n := len(payload); {
	case n < 126:
		b = append(b, 0x80|byte(n))
	case n < 65536:
		b = append(b, 0x80|126, byte(n>>8), byte(n))
	default:
		b = append(b, 0x80|127, 0, 0, 0, 0, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	if fin {
		b[0] |= 0x80
	}
	b = append(b, mask...)
	for i, c := range payload {
		b = append(b, c^mask[i%4])
	}
	return b
}

// vfMaskBytes masks byte by byte, where the library does it word by word.
func vfMaskBytes(key [4]byte, pos int, b []byte) int {
	for i := range b {
		b[i] ^= key[pos&3]
		pos++
	}
	return pos & 3
}

type vfFrameIn struct {
	op   byte
	data []byte
}

// vfFrames parses what a client got: the answer to its request, and frames.
func vfFrames(got []byte) (frames []vfFrameIn) {
	i := bytes.Index(got, []byte("\r\n\r\n"))
	vsym.Assert(i > 0 && bytes.HasPrefix(got, []byte("HTTP/1.1 101 ")), "no proper answer to the upgrade request")
	got = got[i+4:]
	for len(got) > 0 {
		vsym.Assert(len(got) >= 2 && got[0]&0x70 == 0 && got[1] < 127, "the client gets something that's no frame")
		vsym.Assert(got[0]&0x80 != 0, "a message in pieces")
		op, n, h := got[0]&0xf, int(got[1]), 2
		if n == 126 {
			vsym.Assert(len(got) >= 4, "the client gets something that's no frame")
			n, h = int(got[2])<<8|int(got[3]), 4
		}
		vsym.Assert(len(got) >= h+n, "the client gets something that's no frame")
		frames = append(frames, vfFrameIn{op, got[h : h+n]})
		got = got[h+n:]
	}
	return frames
}

func vfSame(a, b []byte) bool {
	return len(a) == len(b) && vsym.Eq(string(a), string(b))
}

func vfWSProxy(server *vfPeer) (*vfFlow, http.Handler) {
	f := vfNewFlow()
	f.p.cfg = &Config{}
	f.p.wsUpgrader = newWebSocketUpgrader()
	net.VerifHook_Dialer_DialContext = func(_ *net.Dialer, _ context.Context, network, addr string) (net.Conn, error) {
		f.dials = append(f.dials, &vfDial{addr: addr, network: network})
		if server == nil {
			return nil, errVF
		}
		return server, nil
	}
	return f, f.p.webSocketHandler(WebSocketConfig{Endpoint: "wss://ws.x/ws", Address: "10.0.0.9:22"})
}

// serve runs the handler as the http server does.
func vfServeWS(h http.Handler, client *vfPeer, req *http.Request) {
	ctx, cancel := context.WithCancel(req.Context())
	h.ServeHTTP(&vfHijack{conn: client}, req.WithContext(ctx))
	cancel()
}

// Whatever frames the client sends and whatever the server answers: the server
// gets the content of the binary messages, the client what the server sent, and
// both connections are closed when either ends.
func VerifP36Relay() {
	n, l := vsym.Param("N", 2), vsym.Param("LEN", 1)
	var in, want, pings []byte
	open := true
	inMsg := byte(0)
	nPings := 0
	mask := vsym.Bytes("mask", 4, 4)
	for i := 0; i < n && open; i++ {
		k := vsym.Choose("frame", 6)
		var data []byte
		if k < 5 {
			data = vsym.Bytes("data", 0, l)
		}
		first := byte(2)
		if inMsg != 0 {
			first = 0
		}
		switch k {
		case 0: // a binary message, or the rest of it
			in = append(in, vfFrame(first, true, mask, data)...)
			if inMsg != 1 {
				want = append(want, data...)
			}
			inMsg = 0
		case 1: // a part of one
			in = append(in, vfFrame(first, false, mask, data)...)
			if inMsg != 1 {
				inMsg = 2
				want = append(want, data...)
			}
			vsym.Reach("fragments")
		case 2: // a text message
			if inMsg != 0 {
				return
			}
			for _, c := range data {
				vsym.Assume(c < 0x80)
			}
			in = append(in, vfFrame(1, true, mask, data)...)
			vsym.Reach("text")
		case 3:
			in = append(in, vfFrame(9, true, mask, data)...)
			pings = append(pings, data...)
			nPings++
			vsym.Reach("ping")
		case 4:
			in = append(in, vfFrame(10, true, mask, data)...)
		case 5:
			in = append(in, vfFrame(8, true, mask, []byte{3, 232})...)
			open = false
			vsym.Reach("closed")
		}
	}
	client := vfNewPeer("client", in)
	server := vfNewPeer("server", vsym.Bytes("answer", 0, 2*l))
	client.chunks = n == 1 || vsym.Param("CUT", 0) == 1
	server.chunks = true
	answer := append([]byte(nil), server.send...)
	// Who ends it?
	end := vsym.Choose("end", 3)
	if open {
		client.never = end != 0
	} else {
		client.never = vsym.Bool("stays")
	}
	server.never = end == 0
	server.failEnd = end == 2
	f, h := vfWSProxy(server)
	vfServeWS(h, client, vfUpgrade(context.Background(), client))
	vsym.Settle()
	vsym.Assert(client.isShut() && server.isShut(), "a connection stays open")
	vsym.Assert(len(f.p.outConns.slice()) == 0, "a connection stays tracked")
	vsym.Assert(len(f.dials) == 1 && f.dials[0].addr == "10.0.0.9:22" && f.dials[0].network == "tcp", "another server")
	var got []byte
	pongs := 0
	for _, fr := range vfFrames(client.got) {
		switch fr.op {
		case 2:
			got = append(got, fr.data...)
		case 10:
			pongs++
		case 8:
		case 9:
		default:
			vsym.Fail("a frame of another kind")
		}
	}
	vsym.Assert(pongs <= nPings, "pongs without pings")
	switch {
	case end == 0:
		// The server stays until the client is gone.
		vsym.Assert(vfSame(server.got, want), "the server doesn't get what the client sent")
		vsym.Assert(pongs == nPings, "a ping isn't answered")
		vsym.Assert(len(got) <= len(answer) && vfSame(got, answer[:len(got)]), "the client gets something else than the server sent")
		vsym.Reach("dropped")
	case open:
		// The client stays until the server is gone.
		vsym.Assert(vfSame(got, answer), "the client doesn't get what the server sent")
		vsym.Assert(len(server.got) <= len(want) && vfSame(server.got, want[:len(server.got)]), "the server gets something else than the client sent")
		if end == 2 {
			vsym.Reach("serverfail")
		}
		vsym.Reach("serverend")
	default:
		vsym.Assert(len(got) <= len(answer) && vfSame(got, answer[:len(got)]), "the client gets something else than the server sent")
		vsym.Assert(len(server.got) <= len(want) && vfSame(server.got, want[:len(server.got)]), "the server gets something else than the client sent")
	}
}

// Messages and answers that exceed the buffers.
func VerifP36Large() {
	sizes := [...]int{125, 126, 127, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 65535, 65536}
	data := bytes.Repeat([]byte("0123456789abcde"), 70000/15)[:sizes[vsym.Choose("size", len(sizes))]]
	b := vsym.Bytes("ends", 2, 2)
	data[0], data[len(data)-1] = b[0], b[1]
	in := vsym.Bool("in")
	client, server := vfNewPeer("client", nil), vfNewPeer("server", nil)
	if in {
		mask := []byte{1, 2, 3, 4}
		if k := vsym.Choose("parts", 3); k > 0 {
			client.send = append(vfFrame(2, false, mask, data[:k]), vfFrame(0, true, mask, data[k:])...)
		} else {
			client.send = vfFrame(2, true, mask, data)
		}
		server.never = true
	} else {
		server.send = append(server.send, data...)
		server.lastEOF = vsym.Bool("the end comes with the last data")
		client.never = true
	}
	_, h := vfWSProxy(server)
	vfServeWS(h, client, vfUpgrade(context.Background(), client))
	vsym.Settle()
	if in {
		vsym.Assert(vfSame(server.got, data), "the server doesn't get what the client sent")
		vsym.Reach("in")
		return
	}
	var got []byte
	for _, fr := range vfFrames(client.got) {
		if fr.op == 2 {
			got = append(got, fr.data...)
		}
	}
	vsym.Assert(vfSame(got, data), "the client doesn't get what the server sent")
	vsym.Reach("out")
}

// A client that answers pings stays connected, one that doesn't is
// disconnected before long.
func VerifP36Alive() {
	vsym.DetectRaces()
	answers := vsym.Choose("answers", 7)
	client, server := vfNewPeer("client", nil), vfNewPeer("server", nil)
	client.never, server.never = true, true
	start := time.Now()
	last := start
	n := 0
	seen := 0
	client.react = func(p *vfPeer) {
		i := bytes.Index(p.got, []byte("\r\n\r\n"))
		if i < 0 {
			return
		}
		pings := 0
		for _, fr := range vfFrames(p.got) {
			if fr.op == 9 {
				pings++
			}
		}
		for ; seen < pings; seen++ {
			if n < answers {
				n++
				last = time.Now()
				p.send = append(p.send, vfFrame(10, true, []byte{1, 2, 3, 4}, []byte("ping"))...)
			}
		}
	}
	_, h := vfWSProxy(server)
	done := make(chan bool)
	go func() {
		vfServeWS(h, client, vfUpgrade(context.Background(), client))
		close(done)
	}()
	t := time.NewTimer(5 * time.Minute)
	select {
	case <-done:
	case <-t.C:
		vsym.Fail("a client that is gone stays connected")
	}
	client.mu.Lock()
	quiet := time.Since(last)
	client.mu.Unlock()
	vsym.Assert(n == answers, "a client that answers is disconnected")
	vsym.Assert(quiet > 20*time.Second && quiet <= time.Minute, "a client that is gone is disconnected too early or too late")
	vsym.Assert(client.isShut() && server.isShut(), "a connection stays open")
	vsym.Reach("gone")
	if answers > 0 {
		vsym.Reach("alive")
	}
}

// Only proper upgrade requests, from pages of the same host, open a connection.
func VerifP36Open() {
	client, server := vfNewPeer("client", nil), vfNewPeer("server", nil)
	if vsym.Bool("unreachable") {
		server = nil
	} else {
		server.never = true
	}
	f, h := vfWSProxy(server)
	req := vfUpgrade(context.Background(), client)
	good, foreign := true, false
	switch vsym.Choose("deviation", 9) {
	case 0:
	case 1:
		req.Header.Del("Upgrade")
		good = false
	case 2:
		req.Header.Set("Connection", "keep-alive")
		good = false
	case 3:
		req.Header.Set("Sec-Websocket-Version", "12")
		good = false
	case 4:
		req.Header.Del("Sec-Websocket-Key")
		good = false
	case 5:
		req.Method = vsym.Pick("method", "POST", "PUT", "OPTIONS")
		good = false
	case 6:
		req.Header.Set("Origin", "https://ws.x")
	case 7:
		req.Header.Set("Origin", "https://"+vsym.Pick("page", "evil.x", "ws.x.evil.x", "xws.x", "ws.x:8443", "ws.xx", "evil.x/ws.x", "ws.x@evil.x"))
		good, foreign = false, true
	case 8:
		o := vsym.String("origin", 1, 2)
		vsym.Assume(vsym.And(o[0] >= 'a', o[0] <= 'z', o[len(o)-1] >= 'a', o[len(o)-1] <= 'z'))
		req.Header.Set("Origin", "https://w"+o+".x")
		good = vsym.Eq(o, "s")
		foreign = !good
	}
	w := &vfHijack{conn: client}
	ctx, cancel := context.WithCancel(req.Context())
	h.ServeHTTP(w, req.WithContext(ctx))
	cancel()
	if !good {
		vsym.Assert(len(f.dials) == 0, "the server is dialled for a request that isn't proper")
		vsym.Assert(w.code >= 400 && len(client.got) == 0, "a request that isn't proper is accepted")
		vsym.Reach("refused")
		if foreign {
			vsym.Reach("foreign")
		}
		return
	}
	vsym.Assert(w.code == 0 && len(f.dials) == 1, "a proper request is refused")
	vsym.Assert(client.isShut(), "the connection stays open")
	vsym.Assert(len(f.p.outConns.slice()) == 0, "a connection stays tracked")
	r := string(client.got)
	vsym.Assert(strings.HasPrefix(r, "HTTP/1.1 101 ") && strings.Contains(r, "\r\nSec-WebSocket-Accept: ICX+Yqv66kxgM0FcWaLWlFLwTAI=\r\n"), "the answer isn't proper")
	if server == nil {
		vsym.Reach("nodial")
	} else {
		vsym.Assert(server.isShut(), "the connection to the server stays open")
		vsym.Reach("opened")
	}
}

// Data both ways at once, in all schedules.
func VerifP36Sched() {
	vsym.ExploreDelays(vsym.Param("PRE", 1))
	vsym.DetectRaces()
	client := vfNewPeer("client", append(vfFrame(2, true, []byte{1, 2, 3, 4}, []byte("ab")), vfFrame(9, true, []byte{1, 2, 3, 4}, []byte("p"))...))
	server := vfNewPeer("server", []byte("cd"))
	end := vsym.Choose("end", 2)
	client.never, server.never = end != 0, end == 0
	f, h := vfWSProxy(server)
	vfServeWS(h, client, vfUpgrade(context.Background(), client))
	vsym.Settle()
	var got []byte
	for _, fr := range vfFrames(client.got) {
		if fr.op == 2 {
			got = append(got, fr.data...)
		}
	}
	if end == 0 {
		vsym.Assert(string(server.got) == "ab", "the server doesn't get what the client sent")
		vsym.Assert(strings.HasPrefix("cd", string(got)), "the client gets something else than the server sent")
	} else {
		vsym.Assert(string(got) == "cd", "the client doesn't get what the server sent")
		vsym.Assert(strings.HasPrefix("ab", string(server.got)), "the server gets something else than the client sent")
	}
	vsym.Assert(client.isShut() && server.isShut() && len(f.p.outConns.slice()) == 0, "a connection stays open")
	vsym.Reach("done")
}

var _ = websocket.BinaryMessage
