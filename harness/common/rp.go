//verif:hook net/http (*Transport).RoundTrip
//verif:hook github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager (*TokenManager).ValidateToken
//verif:assume the HTTP client transport delivers the request it is given; it is replaced by a recorder that answers 200
//verif:use fakeconn.go
package common

import (
	"context"
	"crypto/tls"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"

	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/time/rate"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// vfRW records a response.
type vfRW struct {
	h    http.Header
	code int
	body []byte
}

func (w *vfRW) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}

func (w *vfRW) WriteHeader(c int) {
	if w.code == 0 && c >= 200 {
		w.code = c
	}
}

func (w *vfRW) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

// vfUp records what reached an upstream server.
type vfUp struct {
	n    int
	req  *http.Request
	hdr  http.Header
	host string
	key  string
	path string
	ovr  int
}

func (u *vfUp) install() {
	http.VerifHook_Transport_RoundTrip = func(_ *http.Transport, req *http.Request) (*http.Response, error) {
		u.n++
		u.req = req
		u.hdr = req.Header
		u.host = req.Host
		u.key = req.URL.Host
		u.path = req.URL.Path
		u.ovr = -1
		if id, ok := req.Context().Value(ctxOverrideIDKey).(int); ok {
			u.ovr = id
		}
		return &http.Response{
			StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{}, Body: io.NopCloser(strings.NewReader("")), Request: req,
		}, nil
	}
}

// vfClient is a client connection as an HTTP handler sees it.
func vfClient(serverName string) *netw.Conn {
	c := netw.NewConnForTest(&vfConn{name: "client",
		local:  &net.TCPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 443},
		remote: &net.TCPAddr{IP: net.IPv4(198, 51, 100, 7), Port: 5555}})
	c.SetAnnotation(serverNameKey, serverName)
	return c
}

func vfBackend(mode string, names ...string) *Backend {
	f := false
	return &Backend{
		ServerNames: names,
		Mode:        mode,
		Addresses:   []string{"10.0.0.1:80"},
		LogFilter:   LogFilter{Connections: &f, Requests: &f, Errors: &f},
		connLimit:   rate.NewLimiter(rate.Inf, 1),
		recordEvent: func(string) {},
		state:       &backendState{},
		tm:          &tokenmanager.TokenManager{},
	}
}

func vfRequest(c *netw.Conn, method, host, path string, hdr http.Header) *http.Request {
	if hdr == nil {
		hdr = http.Header{}
	}
	req := &http.Request{
		Method: method, Host: host, URL: &url.URL{Path: path}, RequestURI: path,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: hdr, RemoteAddr: "198.51.100.7:5555",
		TLS: &tls.ConnectionState{},
	}
	return req.WithContext(context.WithValue(context.Background(), connCtxKey, c))
}

// vfVary gives the request one of several methods and protocol versions.
func vfVary(req *http.Request) *http.Request {
	switch vsym.Choose("request", 4) {
	case 1:
		req.Method, req.Proto, req.ProtoMajor, req.ProtoMinor = "POST", "HTTP/2.0", 2, 0
	case 2:
		req.Method, req.Proto, req.ProtoMajor, req.ProtoMinor = "OPTIONS", "HTTP/1.0", 1, 0
	case 3:
		req.Method, req.Proto, req.ProtoMajor, req.ProtoMinor = "HEAD", "HTTP/3.0", 3, 0
	}
	return req
}

// vfSSO gives the backend a policy whose tokens are those in toks.
func vfSSO(be *Backend, toks map[string]jwt.MapClaims) {
	tokenmanager.VerifHook_TokenManager_ValidateToken = func(_ *tokenmanager.TokenManager, t string, _ ...jwt.ParserOption) (*jwt.Token, error) {
		c, ok := toks[t]
		if !ok {
			return nil, errVF
		}
		return &jwt.Token{Raw: t, Claims: c, Valid: true}, nil
	}
	be.SSO = &BackendSSO{
		Provider: "p",
		cm:       cookiemanager.New(be.tm, "p", "", "https://issuer/"),
	}
}
