From 87caa09608f2de5958a51ea5a4de9a8ca893b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 01/50] fix: reject zero-length TLS records instead of
 panicking in peekClientHello

---
 proxy/hello.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/hello.go b/proxy/hello.go
index 0ba263a..c5d627f 100644
--- a/proxy/hello.go
+++ b/proxy/hello.go
@@ -57,6 +57,9 @@ func peekClientHello(c peeker) (hello clientHello, err error) {
 	if !s.ReadUint16(&length) || length > 16384 {
 		return hello, fmt.Errorf("packet length %d > 16384", length)
 	}
+	if length == 0 {
+		return hello, errors.New("empty packet")
+	}
 	buf = make([]byte, 5+length)
 	if _, err := c.Peek(buf); err != nil {
 		return hello, fmt.Errorf("read packet: %v", err)
-- 
2.43.0


From 3e90dd8ee10c88b9acfd02843712437e843cb501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 02/50] fix: use all Via header lines for loop detection

---
 proxy/backend-http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 2c136c7..39c3b48 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -301,7 +301,7 @@ func (be *Backend) reverseProxy() http.Handler {
 		// Detect forwarding loops using the via headers.
 		me := localNetConn(req.Context().Value(connCtxKey).(anyConn)).LocalAddr().String()
 		var hops []string
-		if h := req.Header.Get(viaHeader); h != "" {
+		if h := strings.Join(req.Header.Values(viaHeader), ", "); h != "" {
 			hops = commaRE.Split(h, -1)
 		}
 		for _, via := range hops {
-- 
2.43.0


From 6c6fa2bc4e5baca0b087fbd650a8822dbca0da51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 03/50] fix: clients must not be able to strip the headers set
 by the proxy

---
 proxy/backend-http.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 39c3b48..4724ed3 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -204,6 +204,7 @@ func (be *Backend) reverseProxy() http.Handler {
 				be.logPanic(req, r)
 			}
 		}()
+		removeHopByHopHeaders(req.Header)
 		if !be.authenticateUser(w, &req) {
 			return
 		}
@@ -354,6 +355,27 @@ func (be *Backend) reverseProxy() http.Handler {
 	})
 }
 
+// removeHopByHopHeaders removes the headers that the client declared to be
+// hop-by-hop with the Connection header. This must be done before the proxy
+// sets its own headers. Otherwise, the client could get them removed from the
+// forwarded request.
+func removeHopByHopHeaders(h http.Header) {
+	var upgrade bool
+	for _, v := range h.Values("Connection") {
+		for _, name := range strings.Split(v, ",") {
+			if name = strings.TrimSpace(name); strings.EqualFold(name, "upgrade") {
+				upgrade = true
+				continue
+			}
+			h.Del(name)
+		}
+	}
+	h.Del("Connection")
+	if upgrade {
+		h.Set("Connection", "Upgrade")
+	}
+}
+
 func addr2ip(addr net.Addr) string {
 	switch a := addr.(type) {
 	case *net.TCPAddr:
-- 
2.43.0


From 572ffb857f09d822b380d3b313e784976117e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 04/50] fix: forward to the path override's addresses when the
 backend has none

---
 proxy/backend-http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 4724ed3..858e558 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -286,7 +286,7 @@ func (be *Backend) reverseProxy() http.Handler {
 				break L
 			}
 		}
-		if len(be.Addresses) == 0 {
+		if override == "" && len(be.Addresses) == 0 {
 			be.serveStaticFiles(w, req, be.DocumentRoot, "")
 			return
 		}
-- 
2.43.0


From 1217f246b913808d45a6541552fca6ad55d1401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 05/50] fix: forward cookies unchanged after single sign-on

---
 proxy/internal/cookiemanager/cookiemanager.go | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/proxy/internal/cookiemanager/cookiemanager.go b/proxy/internal/cookiemanager/cookiemanager.go
index f989cbc..ef4672a 100644
--- a/proxy/internal/cookiemanager/cookiemanager.go
+++ b/proxy/internal/cookiemanager/cookiemanager.go
@@ -245,14 +245,24 @@ func (cm *CookieManager) ValidateAuthorizationHeader(req *http.Request) (*jwt.To
 	return tok, nil
 }
 
+// FilterOutAuthTokenCookie removes the auth token cookie and any cookie with
+// one of the given names from the request. The other cookies are left as is.
 func FilterOutAuthTokenCookie(req *http.Request, names ...string) {
-	cookies := req.Cookies()
-	req.Header.Del("Cookie")
-	for _, c := range cookies {
-		if c.Name != tlsProxyAuthCookie && !slices.Contains(names, c.Name) {
-			req.AddCookie(c)
+	var cookies []string
+	for _, line := range req.Header.Values("Cookie") {
+		for _, c := range strings.Split(line, ";") {
+			c = strings.TrimSpace(c)
+			name, _, _ := strings.Cut(c, "=")
+			name = strings.TrimSpace(name)
+			if c != "" && name != tlsProxyAuthCookie && !slices.Contains(names, name) {
+				cookies = append(cookies, c)
+			}
 		}
 	}
+	req.Header.Del("Cookie")
+	if len(cookies) > 0 {
+		req.Header.Set("Cookie", strings.Join(cookies, "; "))
+	}
 }
 
 func audienceFromReq(req *http.Request) string {
-- 
2.43.0


From 46caa3e5deb84c372ad152284e15123fa4954770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 06/50] fix: don't dereference missing backends when
 re-authorizing connections

A connection whose backend was removed from the configuration, or that was
not assigned to a backend yet, crashed the whole process when the
configuration was replaced.
---
 proxy/proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index fd4c9bc..59d9e06 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -872,11 +872,11 @@ func (p *Proxy) reAuthorize() {
 		be, err := p.backend(serverName, proto)
 		if err != nil {
 			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
 			conn.Close()
 			continue
 		}
-		if oldBE := connBackend(conn); be.Mode != oldBE.Mode {
+		if oldBE := connBackend(conn); oldBE != nil && be.Mode != oldBE.Mode {
 			be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
 			conn.Close()
 			continue
-- 
2.43.0


From 40cbb95483aecce6ae136f494455feb43544fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 07/50] fix: close connections without a certificate when the
 backend requires one

When a reload added client authentication to a backend, or happened during
the handshake, re-authorization dereferenced a nil certificate when there
was an ACL, and left the connection open when there wasn't.
---
 proxy/proxy.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 59d9e06..9856215 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -891,6 +891,14 @@ func (p *Proxy) reAuthorize() {
 			continue
 		}
 		clientCert := connClientCert(conn)
+		if clientCert == nil {
+			// Either the backend didn't require a certificate before,
+			// or the handshake isn't done yet.
+			p.recordEvent(fmt.Sprintf("deny no cert to %s", idnaToUnicode(serverName)))
+			be.logErrorF("BAD [-] ReAuth %s ➔ %q: no client certificate", conn.RemoteAddr(), idnaToUnicode(serverName))
+			conn.Close()
+			continue
+		}
 		if err := be.authorize(clientCert); err != nil {
 			p.recordEvent(err.Error())
 			be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
-- 
2.43.0


From c79f2795fad66db851794fdb0ec8b04224f60764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 08/50] fix: don't panic on QUIC connections without a backend

handleQUICConnection used the nil backend to log the error, and panicked
instead of closing the connection with the unrecognized name error.
---
 proxy/quic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/quic.go b/proxy/quic.go
index f05fe8e..2cea290 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -158,7 +158,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
 	if err != nil {
 		p.recordEvent(err.Error())
-		be.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
+		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
-- 
2.43.0


From 4608d5dc415ab89462cbb36d14abc1929b151c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 09/50] fix: re-authorize connections against the backend that
 handles them

TLS passthrough connections and connections whose handshake is not done
have no negotiated protocol, so they were checked against the first backend
of their server name, instead of the one that was selected with the protocols
offered by the client. Also record the selected backend before the
configuration can change.
---
 proxy/proxy.go | 32 +++++++++++++++++++++++++++-----
 proxy/quic.go  |  4 +---
 proxy/util.go  |  8 ++++++++
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 9856215..e2b8b5b 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -81,6 +81,7 @@ const (
 	handshakeDoneKey = "h"
 	dialDoneKey      = "d"
 	serverNameKey    = "sn"
+	clientProtosKey  = "cp"
 	protoKey         = "p"
 	clientCertKey    = "c"
 	internalConnKey  = "ic"
@@ -868,8 +869,11 @@ func (p *Proxy) reAuthorize() {
 			continue
 		}
 		serverName := connServerName(conn)
-		proto := connProto(conn)
-		be, err := p.backend(serverName, proto)
+		protos := connClientProtos(conn)
+		if proto := connProto(conn); proto != "" {
+			protos = []string{proto}
+		}
+		be, err := p.backend(serverName, protos...)
 		if err != nil {
 			p.recordEvent(err.Error())
 			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
@@ -1180,15 +1184,14 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 	}
 	conn.SetAnnotation(serverNameKey, serverName)
 
-	be, err := p.backend(serverName, hello.ALPNProtos...)
+	conn.SetAnnotation(clientProtosKey, hello.ALPNProtos)
+	be, err := p.assignBackend(conn, serverName, hello.ALPNProtos...)
 	if err != nil {
 		p.recordEvent(err.Error())
 		p.logErrorF("BAD [-] %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
 		sendUnrecognizedName(conn)
 		return
 	}
-	conn.SetAnnotation(backendKey, be)
-	be.incInFlight(1)
 	p.setCounters(conn, serverName)
 	if l := be.bwLimit; l != nil {
 		conn.SetLimiters(l.ingress, l.egress)
@@ -1416,6 +1419,25 @@ func (p *Proxy) defaultServerName() string {
 func (p *Proxy) backend(serverName string, protos ...string) (*Backend, error) {
 	p.mu.RLock()
 	defer p.mu.RUnlock()
+	return p.backendLocked(serverName, protos...)
+}
+
+// assignBackend selects the backend for a connection and records it on the
+// connection before the configuration can change, so that reAuthorize either
+// sees it, or it is already using the new configuration.
+func (p *Proxy) assignBackend(conn annotatedConnection, serverName string, protos ...string) (*Backend, error) {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+	be, err := p.backendLocked(serverName, protos...)
+	if err != nil {
+		return nil, err
+	}
+	conn.SetAnnotation(backendKey, be)
+	be.incInFlight(1)
+	return be, nil
+}
+
+func (p *Proxy) backendLocked(serverName string, protos ...string) (*Backend, error) {
 	var be *Backend
 	var ok bool
 	for _, proto := range protos {
diff --git a/proxy/quic.go b/proxy/quic.go
index 2cea290..0dd43eb 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -155,15 +155,13 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		sum = "-"
 	}
 
-	be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
+	be, err := p.assignBackend(qc, cs.ServerName, cs.NegotiatedProtocol)
 	if err != nil {
 		p.recordEvent(err.Error())
 		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
-	be.incInFlight(1)
-	qc.SetAnnotation(backendKey, be)
 	p.setCounters(qc, cs.ServerName)
 
 	if numOpen >= p.cfg.MaxOpen {
diff --git a/proxy/util.go b/proxy/util.go
index ab3db02..2c1b412 100644
--- a/proxy/util.go
+++ b/proxy/util.go
@@ -92,6 +92,14 @@ func connProto(c anyConn) string {
 	return ""
 }
 
+// connClientProtos returns the ALPN protocols offered by the client.
+func connClientProtos(c anyConn) []string {
+	if v, ok := annotatedConn(c).Annotation(clientProtosKey, nil).([]string); ok {
+		return v
+	}
+	return nil
+}
+
 func connClientCert(c anyConn) *x509.Certificate {
 	if v, ok := annotatedConn(c).Annotation(clientCertKey, (*x509.Certificate)(nil)).(*x509.Certificate); ok {
 		return v
-- 
2.43.0


From 4d2225b77dcd70760de1dc2250ab991fe249ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 10/50] fix: concurrent dials must each try every address

When several connections fail over at the same time, they shared the
position in the address list, so one of them could try the same address
twice and give up without having tried another one.
---
 proxy/backend.go | 7 +++++--
 proxy/quic.go    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 4187ce7..65d6f03 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -130,14 +130,17 @@ func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error)
 			return nil
 		},
 	}
-	var max int
+	var max, idx int
 	for {
 		be.state.mu.Lock()
 		sz := len(addresses)
 		if max == 0 {
 			max = sz
+			idx = *next
 		}
-		addr := addresses[*next]
+		// Other dials may move next while this one is failing over.
+		addr := addresses[idx]
+		idx = (idx + 1) % sz
 		*next = (*next + 1) % sz
 		be.state.mu.Unlock()
 
diff --git a/proxy/quic.go b/proxy/quic.go
index 0dd43eb..03ec89f 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -541,14 +541,17 @@ func (be *Backend) dialQUICBackend(ctx context.Context, proto string) (*netw.QUI
 		},
 	}
 
-	var max int
+	var max, idx int
 	for {
 		be.state.mu.Lock()
 		sz := len(addresses)
 		if max == 0 {
 			max = sz
+			idx = *next
 		}
-		addr := addresses[*next]
+		// Other dials may move next while this one is failing over.
+		addr := addresses[idx]
+		idx = (idx + 1) % sz
 		*next = (*next + 1) % sz
 		be.state.mu.Unlock()
 
-- 
2.43.0


From 2dec103d94321a00580d46b63db1044b50d98d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 11/50] fix: half-close connections that came with a PROXY
 header

closeWrite didn't know about proxyproto.Conn, so the end of the server's
data closed the whole connection even when serverCloseEndsConnection is
false.
---
 proxy/backend.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/backend.go b/proxy/backend.go
index 65d6f03..ae8cf36 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -334,6 +334,9 @@ func closeWrite(c net.Conn) error {
 	if cc, ok := c.(*netw.Conn); ok {
 		return closeWrite(cc.Conn)
 	}
+	if cc, ok := c.(*proxyproto.Conn); ok {
+		return closeWrite(cc.Raw())
+	}
 	return fmt.Errorf("unexpected type: %T", c)
 }
 
@@ -347,5 +350,8 @@ func closeRead(c net.Conn) error {
 	if cc, ok := c.(*netw.Conn); ok {
 		return closeRead(cc.Conn)
 	}
+	if cc, ok := c.(*proxyproto.Conn); ok {
+		return closeRead(cc.Raw())
+	}
 	return nil
 }
-- 
2.43.0


From 695ec78f8b56aeb28ceb475519da54a52b43ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 12/50] fix: close connections handed to an http server that
 was shut down

---
 proxy/http.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proxy/http.go b/proxy/http.go
index f511d55..1ded834 100644
--- a/proxy/http.go
+++ b/proxy/http.go
@@ -90,7 +90,9 @@ func (l *proxyListener) Close() error {
 		l.closed = true
 		close(l.closedCh)
 		go func() {
-			for range l.ch {
+			// Connections handed over too late would never be served.
+			for c := range l.ch {
+				c.Close()
 			}
 		}()
 	}
-- 
2.43.0


From c1b65f847686fa688086798c69803de0f1538ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 13/50] fix: count connections that are closed while a backend
 is assigned

---
 proxy/proxy.go |  5 +++--
 proxy/quic.go  | 25 +++++++++++++------------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index e2b8b5b..4ad981b 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1182,8 +1182,6 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		p.recordEvent("no SNI")
 		serverName = p.defaultServerName()
 	}
-	conn.SetAnnotation(serverNameKey, serverName)
-
 	conn.SetAnnotation(clientProtosKey, hello.ALPNProtos)
 	be, err := p.assignBackend(conn, serverName, hello.ALPNProtos...)
 	if err != nil {
@@ -1434,6 +1432,9 @@ func (p *Proxy) assignBackend(conn annotatedConnection, serverName string, proto
 	}
 	conn.SetAnnotation(backendKey, be)
 	be.incInFlight(1)
+	// From here on, reAuthorize can close the connection, which decrements
+	// the number of connections in flight.
+	conn.SetAnnotation(serverNameKey, serverName)
 	return be, nil
 }
 
diff --git a/proxy/quic.go b/proxy/quic.go
index 03ec89f..9149a66 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -127,21 +127,9 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	defer qc.Close()
 
 	numOpen := p.inConns.add(qc)
-	qc.OnClose(func() {
-		p.inConns.remove(qc)
-		if be := connBackend(qc); be != nil {
-			be.incInFlight(-1)
-			startTime := qc.Annotation(startTimeKey, time.Time{}).(time.Time)
-			be.logConnF("END %s; Dur:%s Recv:%d Sent:%d",
-				formatConnDesc(qc), time.Since(startTime).Truncate(time.Millisecond),
-				qc.BytesReceived(), qc.BytesSent())
-		}
-		p.connClosed.Broadcast()
-	})
 	qc.SetAnnotation(startTimeKey, time.Now())
 
 	cs := qc.TLSConnectionState()
-	qc.SetAnnotation(serverNameKey, cs.ServerName)
 	qc.SetAnnotation(protoKey, cs.NegotiatedProtocol)
 
 	var clientCert *x509.Certificate
@@ -156,6 +144,19 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	}
 
 	be, err := p.assignBackend(qc, cs.ServerName, cs.NegotiatedProtocol)
+	// The connection can close at any time. If it already did, the callback
+	// is called right away.
+	qc.OnClose(func() {
+		p.inConns.remove(qc)
+		if be := connBackend(qc); be != nil {
+			be.incInFlight(-1)
+			startTime := qc.Annotation(startTimeKey, time.Time{}).(time.Time)
+			be.logConnF("END %s; Dur:%s Recv:%d Sent:%d",
+				formatConnDesc(qc), time.Since(startTime).Truncate(time.Millisecond),
+				qc.BytesReceived(), qc.BytesSent())
+		}
+		p.connClosed.Broadcast()
+	})
 	if err != nil {
 		p.recordEvent(err.Error())
 		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
-- 
2.43.0


From 39fc1b77ad160cde18b04c575f070311e9438853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 14/50] fix: don't crash when a QUIC stream is opened on a
 closed connection

---
 proxy/quic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index 9149a66..50e9203 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -357,6 +357,14 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 
 func (p *Proxy) handleQUICTCPStream(ctx context.Context, be *Backend, conn *netw.Conn) {
 	serverName := idnaToUnicode(connServerName(conn))
+	defer func() {
+		// Like in handleConnection, e.g. when httpConnChan is closed.
+		if r := recover(); r != nil {
+			p.recordEvent("panic")
+			be.logErrorF("ERR [-] %s ➔  %q: PANIC: %v", conn.RemoteAddr(), serverName, r)
+			conn.Close()
+		}
+	}()
 	closeConnNeeded := true
 	defer func() {
 		if closeConnNeeded {
-- 
2.43.0


From 462897a9f7fc86a08e51872dda373f1cb486bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 15/50] fix: don't keep track of upstream QUIC connections that
 already closed

---
 proxy/quic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/quic.go b/proxy/quic.go
index 50e9203..ca3e801 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -574,10 +574,11 @@ func (be *Backend) dialQUICBackend(ctx context.Context, proto string) (*netw.QUI
 			}
 			return nil, err
 		}
+		be.outConns.add(conn)
+		// The callback is called right away if the connection already closed.
 		conn.OnClose(func() {
 			be.outConns.remove(conn)
 		})
-		be.outConns.add(conn)
 		conn.SetAnnotation(startTimeKey, time.Now())
 		conn.SetAnnotation(modeKey, be.Mode)
 		conn.SetAnnotation(protoKey, proto)
-- 
2.43.0


From 6ab4e1f522d8bc6ac8952f3dd98a7aabf721dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 16/50] fix: bandwidth limit groups are found by the name they
 are configured with

---
 proxy/proxy.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 4ad981b..f328726 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -414,15 +414,14 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 
 	for _, bwl := range cfg.BWLimits {
 		const minBurst = 1 << 17 // 128 KB
-		name := strings.ToLower(bwl.Name)
-		if l, ok := p.bwLimits[name]; ok {
+		if l, ok := p.bwLimits[bwl.Name]; ok {
 			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
 			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
 			l.egress.SetLimit(rate.Limit(bwl.Egress))
 			l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
 			continue
 		}
-		p.bwLimits[name] = &bwLimit{
+		p.bwLimits[bwl.Name] = &bwLimit{
 			ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
 			egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
 		}
-- 
2.43.0


From a073d3425f399bb77e19ac546af45379b84219fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 17/50] fix: keep token keys until the tokens signed with them
 have expired

---
 proxy/internal/tokenmanager/tokenmanager.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 7178468..ebf2847 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -156,7 +156,7 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 		keys.Keys = append(keys.Keys, tk...)
 		changed = true
 	}
-	if keys.Keys[0].CreationTime.Add(7 * 24 * time.Hour).Before(now) {
+	if keys.Keys[0].CreationTime.Add(7*24*time.Hour).Before(now) && keys.replaced(0, now.Add(-26*time.Hour)) {
 		keys.Keys = keys.Keys[1:]
 		changed = true
 	}
@@ -190,6 +190,19 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 	return commit(true, nil)
 }
 
+// replaced indicates whether keys that can be used instead of keys[i] were
+// created before t. A key can be used to sign tokens for up to 2 hours after it
+// is replaced, e.g. when the server was down for a while, and these tokens are
+// valid for up to 24 hours.
+func (k tokenKeys) replaced(i int, t time.Time) bool {
+	for _, n := range k.Keys[i+1:] {
+		if n.CreationTime.Sub(k.Keys[i].CreationTime) > 12*time.Hour && n.CreationTime.Before(t) {
+			return true
+		}
+	}
+	return false
+}
+
 func (tm *TokenManager) createNewTokenKeys() ([]*tokenKey, error) {
 	if tm.tpm != nil {
 		ecKey, err := tm.createNewTPMECDSATokenKey()
-- 
2.43.0


From c8f16114b3e352d1157b7db34c683c5acd66f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 18/50] fix: bearer tokens must come from the backend's
 identity provider

---
 proxy/internal/cookiemanager/cookiemanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/cookiemanager/cookiemanager.go b/proxy/internal/cookiemanager/cookiemanager.go
index ef4672a..50c86be 100644
--- a/proxy/internal/cookiemanager/cookiemanager.go
+++ b/proxy/internal/cookiemanager/cookiemanager.go
@@ -239,8 +239,8 @@ func (cm *CookieManager) ValidateAuthorizationHeader(req *http.Request) (*jwt.To
 	if err != nil {
 		return nil, err
 	}
-	if c, ok := tok.Claims.(jwt.MapClaims); !ok || c["proxyauth"] != nil {
-		return nil, errors.New("invalid proxyauth")
+	if c, ok := tok.Claims.(jwt.MapClaims); !ok || c["proxyauth"] != nil || c["provider"] != cm.provider {
+		return nil, errors.New("invalid proxyauth or provider")
 	}
 	return tok, nil
 }
-- 
2.43.0


From 8f26d80bb9cf79deed25ab6fb4587ac1ea33831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 19/50] fix: identity tokens must carry the nonce of the login

---
 proxy/internal/oidc/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index 872b074..637310e 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -304,10 +304,10 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 		claims.Nonce = nonce
 	}
 	p.mu.Lock()
-	state, ok = p.states[claims.Nonce]
-	delete(p.states, claims.Nonce)
+	state, ok = p.states[nonce]
+	delete(p.states, nonce)
 	p.mu.Unlock()
-	if !ok {
+	if !ok || claims.Nonce != nonce {
 		p.er.Record("invalid nonce")
 		http.Error(w, "timeout", http.StatusForbidden)
 		return
-- 
2.43.0


From e265145cf518af8c9c5df365ee9605188d4728df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 20/50] fix: OCSP responses must be for the certificate that is
 checked

---
 proxy/internal/ocspcache/ocsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index be2bc54..ea257a1 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -243,7 +243,7 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR body: %v", err)
 		return nil, errOCSPProtocol
 	}
-	ocspResp, err := ocsp.ParseResponse(body, issuer)
+	ocspResp, err := ocsp.ParseResponseForCert(body, cert, issuer)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
-- 
2.43.0


From e518310548e8f463b0ef8d90a8a4ce35633d6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 21/50] fix: stale OCSP responses from responders are not
 accepted

---
 proxy/internal/ocspcache/ocsp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index ea257a1..7bc7add 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -248,5 +248,9 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
 	}
+	if !ocspResp.NextUpdate.IsZero() && !time.Now().Before(ocspResp.NextUpdate) {
+		c.logger.Errorf("ERR OCSP response for %s from %s is stale", cert.Subject, server)
+		return nil, errOCSPProtocol
+	}
 	return ocspResp, nil
 }
-- 
2.43.0


From 7cadeefcfb683d8aaa39317fbe314c45a245ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 22/50] fix: certificates without OCSP responders have no
 response to staple

---
 proxy/internal/ocspcache/ocsp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index 7bc7add..eb8d2a4 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -204,6 +204,9 @@ func (c *OCSPCache) Response(cert, issuer *x509.Certificate, margin time.Duratio
 }
 
 func (c *OCSPCache) fetchOCSP(cert, issuer *x509.Certificate) (*ocsp.Response, error) {
+	if len(cert.OCSPServer) == 0 {
+		return nil, errOCSPProtocol
+	}
 	ocspReq, err := ocsp.CreateRequest(cert, issuer, nil)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.CreateRequest: %v", err)
-- 
2.43.0


From 463808d9d1fed606105a59f8498723461ae240f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 23/50] fix: an unusable OCSP responder address is an error

---
 proxy/internal/ocspcache/ocsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index eb8d2a4..30f323e 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -229,7 +229,7 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 	httpReq, err := http.NewRequest(http.MethodPost, server, bytes.NewReader(ocspReq))
 	if err != nil {
 		c.logger.Errorf("ERR http.NewRequest: %v", err)
-		return nil, errOCSPInternal
+		return nil, errOCSPProtocol
 	}
 	httpReq.Header.Set("content-type", "application/ocsp-request")
 	httpReq.Header.Set("accept", "application/ocsp-response")
-- 
2.43.0


From f3252242377fbc97a78957c840289c5ea26306d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 24/50] fix: only versions 1 and 2 of the PROXY protocol are
 valid

---
 proxy/config.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/proxy/config.go b/proxy/config.go
index d728f27..ceb9169 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -38,7 +38,6 @@ import (
 	"path/filepath"
 	"regexp"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -1177,14 +1176,13 @@ func validateProxyProtoVersion(s string) (byte, error) {
 	if s == "" {
 		return 0, nil
 	}
-	if len(s) < 2 || s[0] != 'v' {
-		return 0, fmt.Errorf("invalid value %q, expected v1 or v2", s)
+	switch s {
+	case "v1":
+		return 1, nil
+	case "v2":
+		return 2, nil
 	}
-	v, err := strconv.ParseInt(s[1:], 10, 8)
-	if err != nil {
-		return 0, err
-	}
-	return byte(v), nil
+	return 0, fmt.Errorf("invalid value %q, expected v1 or v2", s)
 }
 
 // ReadConfig reads and validates a YAML config file.
-- 
2.43.0


From bcdc3980f08eb38add369fafb18a745601382cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 25/50] fix: empty list entries in the configuration are an
 error, not a crash

---
 proxy/config.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/proxy/config.go b/proxy/config.go
index ceb9169..877e0ab 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -778,6 +778,9 @@ func (cfg *Config) clone() *Config {
 // initializes internal data structures.
 func (cfg *Config) Check() error {
 	cfg.Definitions = nil
+	if err := cfg.checkEmptyEntries(); err != nil {
+		return err
+	}
 	if cfg.CacheDir == "" {
 		d, err := os.UserCacheDir()
 		if err != nil {
@@ -1172,6 +1175,44 @@ func (cfg *Config) Check() error {
 	return os.MkdirAll(cfg.CacheDir, 0o700)
 }
 
+// checkEmptyEntries returns an error if any list has an empty entry, e.g.
+// backends: [ ~ ].
+func (cfg *Config) checkEmptyEntries() error {
+	errs := []error{
+		checkEmpty("oidc", cfg.OIDCProviders),
+		checkEmpty("saml", cfg.SAMLProviders),
+		checkEmpty("passkey", cfg.PasskeyProviders),
+		checkEmpty("pki", cfg.PKI),
+		checkEmpty("sshCertificateAuthorities", cfg.SSHCertificateAuthorities),
+		checkEmpty("tlsCertificates", cfg.TLSCertificates),
+		checkEmpty("bwLimits", cfg.BWLimits),
+		checkEmpty("webSockets", cfg.WebSockets),
+		checkEmpty("backend", cfg.Backends),
+	}
+	for i, be := range cfg.Backends {
+		if be == nil {
+			continue
+		}
+		errs = append(errs, checkEmpty(fmt.Sprintf("backend[%d].PathOverrides", i), be.PathOverrides))
+		if be.SSO != nil && be.SSO.LocalOIDCServer != nil {
+			errs = append(errs,
+				checkEmpty(fmt.Sprintf("backend[%d].SSO.LocalOIDCServer.Clients", i), be.SSO.LocalOIDCServer.Clients),
+				checkEmpty(fmt.Sprintf("backend[%d].SSO.LocalOIDCServer.RewriteRules", i), be.SSO.LocalOIDCServer.RewriteRules),
+			)
+		}
+	}
+	return errors.Join(errs...)
+}
+
+func checkEmpty[T any](name string, list []*T) error {
+	for i, v := range list {
+		if v == nil {
+			return fmt.Errorf("%s[%d]: entry is empty", name, i)
+		}
+	}
+	return nil
+}
+
 func validateProxyProtoVersion(s string) (byte, error) {
 	if s == "" {
 		return 0, nil
-- 
2.43.0


From b7a441128b8f8851c66eb850cae4a6a44a3ddff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 26/50] fix: path overrides with a document root must not have
 addresses either

---
 proxy/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/config.go b/proxy/config.go
index 877e0ab..05d2ae0 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -1137,6 +1137,9 @@ func (cfg *Config) Check() error {
 			return fmt.Errorf("backend[%d].PathOverrides is only valid in %s or %s mode", i, ModeHTTP, ModeHTTPS)
 		}
 		for j, po := range be.PathOverrides {
+			if po.DocumentRoot != "" && len(po.Addresses) != 0 {
+				return fmt.Errorf("backend[%d].PathOverrides[%d].DocumentRoot: only valid when Addresses is empty", i, j)
+			}
 			if len(po.Paths) == 0 {
 				return fmt.Errorf("backend[%d].PathOverrides[%d].Paths: cannot be empty", i, j)
 			}
-- 
2.43.0


From e456f56db7a7cf8b446b3ad3373c8fc7a63f9983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 27/50] fix: a passkey provider must not use itself as identity
 provider

---
 proxy/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/config.go b/proxy/config.go
index 05d2ae0..58db9b1 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -896,7 +896,6 @@ func (cfg *Config) Check() error {
 		if identityProviders[pp.Name] {
 			return fmt.Errorf("passkey[%d].Name: duplicate provider name %q", i, pp.Name)
 		}
-		identityProviders[pp.Name] = true
 		if pp.Endpoint == "" {
 			return fmt.Errorf("passkey[%d].Endpoint must be set", i)
 		}
@@ -906,6 +905,7 @@ func (cfg *Config) Check() error {
 		if _, ok := identityProviders[pp.IdentityProvider]; !ok {
 			return fmt.Errorf("passkey[%d].IdentityProvider has unexpected value %q", i, pp.IdentityProvider)
 		}
+		identityProviders[pp.Name] = true
 		if pp.Domain != "" {
 			pp.Domain = idnaToASCII(pp.Domain)
 			host, _, _, err := hostAndPath(pp.Endpoint)
-- 
2.43.0


From 19fdb3aaa6a8baed7bc4e9004be7b11a37639499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 28/50] fix: read whether unused certificates are revoked
 together with the names in use

---
 proxy/revoke.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proxy/revoke.go b/proxy/revoke.go
index ad7897c..74a8409 100644
--- a/proxy/revoke.go
+++ b/proxy/revoke.go
@@ -103,10 +103,9 @@ func (p *Proxy) RevokeAllCertificates(ctx context.Context, reason string) error
 }
 
 func (p *Proxy) revokeUnusedCertificates(ctx context.Context) error {
-	actuallyRevoke := p.cfg.RevokeUnusedCertificates == nil || *p.cfg.RevokeUnusedCertificates
-
 	names := make(map[string]bool)
 	p.mu.Lock()
+	actuallyRevoke := p.cfg.RevokeUnusedCertificates == nil || *p.cfg.RevokeUnusedCertificates
 	for _, be := range p.cfg.Backends {
 		for _, n := range be.ServerNames {
 			names[n] = true
-- 
2.43.0


From ce099e0b8839fcd86c8f04840f5278e114533197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 29/50] fix: an invalid private key is an error

---
 proxy/revoke.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/revoke.go b/proxy/revoke.go
index 74a8409..ea3803d 100644
--- a/proxy/revoke.go
+++ b/proxy/revoke.go
@@ -275,6 +275,9 @@ func parsePrivateKey(b []byte) (crypto.Signer, error) {
 	if err != nil {
 		privKey, err = x509.ParsePKCS1PrivateKey(b)
 	}
+	if err != nil {
+		return nil, errors.New("invalid private key")
+	}
 	if key, ok := privKey.(crypto.Signer); ok {
 		return key, nil
 	}
-- 
2.43.0


From b57e39cd0f06f2b1b0372a9d67e1c741c037bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 30/50] fix: don't serve revocation lists past their validity

---
 proxy/internal/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index c2111f9..ab7b433 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -509,7 +509,7 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(crlRefreshPeriod/2).After(now) {
+		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 0e801fb00dd76a373ad4982eb5031f6d1228aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 31/50] fix: certificates revoked in the second of the last
 revocation list are missing from it

---
 proxy/internal/pki/pki.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index ab7b433..7e6a422 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -498,18 +498,32 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 	now := time.Now().UTC()
 
 	if len(m.db.RevocationLists) > 0 {
-		var lastRevocation time.Time
-		for _, c := range m.db.IssuedCerts {
-			if c.Revocation != nil && c.Revocation.Time.After(lastRevocation) {
-				lastRevocation = c.Revocation.Time
-			}
-		}
 		last := m.db.RevocationLists[len(m.db.RevocationLists)-1]
 		rl, err := x509.ParseRevocationList(last.RawCRL)
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
+		// The times in the list are truncated to the second. They can't tell
+		// whether a certificate was revoked before or after the list was made.
+		listed := make(map[string]bool)
+		for _, e := range rl.RevokedCertificateEntries {
+			listed[bytesToHex(e.SerialNumber.Bytes())] = true
+		}
+		complete := true
+		for _, c := range m.db.IssuedCerts {
+			if c.Revocation == nil || listed[c.SerialNumber] {
+				continue
+			}
+			cert, err := c.parse()
+			if err != nil {
+				return nil, nil, err
+			}
+			if !now.After(cert.NotAfter) {
+				complete = false
+				break
+			}
+		}
+		if complete && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 3d42e06ed67267ea0a16af699f5f5939068c6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 32/50] fix: a failed update of the PKI database must not be
 mixed with its content

---
 proxy/internal/pki/pki.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index 7e6a422..c7960d7 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -210,13 +210,25 @@ type revocationList struct {
 }
 
 func (m *PKIManager) open() (func(commit bool, errp *error) error, error) {
-	commit, err := m.opts.Store.OpenForUpdate(m.pkiFile, &m.db)
+	// Don't read into the existing object. It can't be mixed with what's in
+	// the store, and it's what we go back to if the update fails.
+	var db *certificateAuthority
+	commit, err := m.opts.Store.OpenForUpdate(m.pkiFile, &db)
 	if err != nil {
 		return nil, err
 	}
+	prev := m.db
+	m.db = db
+	var committed bool
 	return func(doCommit bool, errp *error) error {
 		err := commit(doCommit, errp)
-		wipe(m.db.PrivateKey)
+		if doCommit && err == nil {
+			committed = true
+		}
+		if !committed && prev != nil {
+			m.db = prev
+		}
+		wipe(db.PrivateKey)
 		return err
 	}, nil
 }
-- 
2.43.0


From ee18033965139631e7c4c49293d9dc0aa18c3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 33/50] fix: check the delegate certificate under the lock

---
 proxy/internal/pki/pki.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index c7960d7..09a0c6b 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -396,12 +396,14 @@ func (m *PKIManager) parseKeyBytes(b []byte) (any, error) {
 	return x509.ParsePKCS8PrivateKey(b)
 }
 
-func (m *PKIManager) maybeRotateDelegateCert() error {
+// needDelegateCert returns the CA certificate if a new delegate certificate is
+// needed, or nil.
+func (m *PKIManager) needDelegateCert(now time.Time) (*x509.Certificate, error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	if m.db == nil {
-		return errors.New("no ca")
+		return nil, errors.New("no ca")
 	}
-	now := time.Now().UTC()
-
 	var needUpdate bool
 	if len(m.db.DelegateCerts) == 0 {
 		needUpdate = true
@@ -412,11 +414,16 @@ func (m *PKIManager) maybeRotateDelegateCert() error {
 		}
 	}
 	if !needUpdate {
-		return nil
+		return nil, nil
 	}
+	return m.db.CACert.parse()
+}
 
-	caCert, err := m.db.CACert.parse()
-	if err != nil {
+func (m *PKIManager) maybeRotateDelegateCert() error {
+	now := time.Now().UTC()
+
+	caCert, err := m.needDelegateCert(now)
+	if err != nil || caCert == nil {
 		return err
 	}
 
-- 
2.43.0


From 297cc38db2b4676c08f8de56940c1a396bb30ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 34/50] fix: OCSP requests by GET whose base64 encoding
 contains a slash

---
 proxy/internal/pki/http.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/pki/http.go b/proxy/internal/pki/http.go
index dadb055..2187c37 100644
--- a/proxy/internal/pki/http.go
+++ b/proxy/internal/pki/http.go
@@ -128,12 +128,14 @@ func (m *PKIManager) ServeOCSP(w http.ResponseWriter, req *http.Request) {
 	switch req.Method {
 	case http.MethodGet:
 		// https://www.rfc-editor.org/rfc/rfc6960.html#page-30
-		off := strings.LastIndex(req.URL.Path, "/")
+		// The base64 encoding can contain slashes, which are escaped.
+		path := req.URL.EscapedPath()
+		off := strings.LastIndex(path, "/")
 		if off < 0 {
 			http.Error(w, "invalid request", http.StatusBadRequest)
 			return
 		}
-		data, err := url.PathUnescape(req.URL.Path[off+1:])
+		data, err := url.PathUnescape(path[off+1:])
 		if err != nil {
 			m.opts.Logger.Errorf("ERR url.PathUnescape: %v", err)
 			http.Error(w, "invalid request", http.StatusBadRequest)
-- 
2.43.0


From 4fa2aad7dd2ef2e26800edb93af13364d41cf01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 35/50] fix: an SSH certificate is not a public key to certify

---
 proxy/internal/sshca/sshca.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxy/internal/sshca/sshca.go b/proxy/internal/sshca/sshca.go
index d3e4efa..5e7b1aa 100644
--- a/proxy/internal/sshca/sshca.go
+++ b/proxy/internal/sshca/sshca.go
@@ -301,6 +301,11 @@ func (ca *SSHCA) ServeCertificate(w http.ResponseWriter, req *http.Request) {
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
 	}
+	if _, ok := pub.(*ssh.Certificate); ok {
+		ca.opts.Logger.Errorf("ERR body is a certificate: %s", pub.Type())
+		http.Error(w, "invalid request", http.StatusBadRequest)
+		return
+	}
 	rnd := make([]byte, 8)
 	if _, err := io.ReadFull(rand.Reader, rnd); err != nil {
 		ca.opts.Logger.Errorf("ERR rand: %v", err)
-- 
2.43.0


From 654b0514a7d4b79f6de964bcdfaeb3e50575c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 36/50] fix: a challenge for a passkey registration must not be
 good for a login

---
 proxy/internal/passkeys/manager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index dba74a4..26ef1e2 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -986,10 +986,12 @@ func (m *Manager) processAssertion(jsargs string, token *jwt.Token) (claims map[
 
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	if _, ok := m.challenges[cd.Challenge]; !ok {
+	challenge, ok := m.challenges[cd.Challenge]
+	delete(m.challenges, cd.Challenge)
+	// Challenges with a uid are for attestations.
+	if !ok || challenge.uid != nil {
 		return nil, errors.New("invalid challenge")
 	}
-	delete(m.challenges, cd.Challenge)
 
 	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
 	if err != nil {
-- 
2.43.0


From 5d18103eb253c5412ae5dffac0bb25499fbcc627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 37/50] fix: report a failure to delete a passkey

---
 proxy/internal/passkeys/manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index 26ef1e2..9903c89 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -627,6 +627,8 @@ func (m *Manager) ManageKeys(w http.ResponseWriter, req *http.Request) {
 		}
 		if err := m.deleteKey(email, id); err != nil {
 			m.cfg.Logger.Errorf("ERR deleteKey(%q, %v): %v", email, id, err)
+			http.Error(w, "internal error", http.StatusInternalServerError)
+			return
 		}
 		w.Header().Set("content-type", "application/json")
 		json.NewEncoder(w).Encode(map[string]string{
-- 
2.43.0


From 0e298e14199e7ab20496b04829cd95d881d61f5f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 38/50] fix: SAML assertions aren't valid anymore at
 NotOnOrAfter

---
 proxy/internal/saml/saml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/saml/saml.go b/proxy/internal/saml/saml.go
index c6fa425..4507819 100644
--- a/proxy/internal/saml/saml.go
+++ b/proxy/internal/saml/saml.go
@@ -228,7 +228,7 @@ func (p *Provider) HandleCallback(w http.ResponseWriter, req *http.Request) {
 		http.Error(w, "invalid saml response", http.StatusForbidden)
 		return
 	}
-	if t, err := time.Parse(time.RFC3339Nano, findElementAttr(v, "./Conditions", "NotOnOrAfter")); err != nil || t.Before(now) {
+	if t, err := time.Parse(time.RFC3339Nano, findElementAttr(v, "./Conditions", "NotOnOrAfter")); err != nil || !t.After(now) {
 		http.Error(w, "invalid saml response", http.StatusForbidden)
 		return
 	}
-- 
2.43.0


From f4866736a9972610366cdbc28cac8fddca355294 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 39/50] fix: honor the NotOnOrAfter of SAML subject
 confirmations

---
 proxy/internal/saml/saml.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/internal/saml/saml.go b/proxy/internal/saml/saml.go
index 4507819..920b36a 100644
--- a/proxy/internal/saml/saml.go
+++ b/proxy/internal/saml/saml.go
@@ -209,6 +209,12 @@ func (p *Provider) HandleCallback(w http.ResponseWriter, req *http.Request) {
 		http.Error(w, "invalid saml response", http.StatusForbidden)
 		return
 	}
+	if s := findElementAttr(v, "./Subject/SubjectConfirmation/SubjectConfirmationData", "NotOnOrAfter"); s != "" {
+		if t, err := time.Parse(time.RFC3339Nano, s); err != nil || !t.After(time.Now()) {
+			http.Error(w, "invalid saml response", http.StatusForbidden)
+			return
+		}
+	}
 	u, err := url.Parse(p.cfg.ACSURL)
 	if err != nil {
 		http.Error(w, "internal error", http.StatusInternalServerError)
-- 
2.43.0


From 46170165822f3d509594c286cd5adf8428e5ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:29:13 +0000
Subject: [PATCH 40/50] fix: text after the last SAML certificate must not
 crash the proxy

---
 proxy/internal/saml/saml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/internal/saml/saml.go b/proxy/internal/saml/saml.go
index 920b36a..97f39f3 100644
--- a/proxy/internal/saml/saml.go
+++ b/proxy/internal/saml/saml.go
@@ -279,6 +279,9 @@ func readCerts(s string) ([]*x509.Certificate, error) {
 	var certs []*x509.Certificate
 	for len(b) > 0 {
 		block, rest := pem.Decode(b)
+		if block == nil {
+			break
+		}
 		b = rest
 		if block.Type == "CERTIFICATE" {
 			cert, err := x509.ParseCertificate(block.Bytes)
-- 
2.43.0


From 1fca4b0adad169e05af08143dd359c1d59e9713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 41/50] fix: publish EC coordinates with the full size of the
 curve

---
 proxy/internal/tokenmanager/tokenmanager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index ebf2847..d1810c9 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -475,8 +475,10 @@ func (tm *TokenManager) ServeJWKS(w http.ResponseWriter, req *http.Request) {
 				ID:    key.ID,
 				Alg:   "ES256",
 				Curve: "P-256",
-				X:     base64.RawURLEncoding.EncodeToString(pub.X.Bytes()),
-				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.Bytes()),
+				// The coordinates have the full size of the curve.
+				// RFC 7518 section 6.2.1.2.
+				X: base64.RawURLEncoding.EncodeToString(pub.X.FillBytes(make([]byte, 32))),
+				Y: base64.RawURLEncoding.EncodeToString(pub.Y.FillBytes(make([]byte, 32))),
 			})
 		case ed25519.PublicKey:
 			out.Keys = append(out.Keys, jwk{
-- 
2.43.0


From 7b6caa93acc80031bf58f8cd44788f73a0395c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:07 +0000
Subject: [PATCH 42/50] fix: data race on the time of the last pong of a
 WebSocket client

---
 proxy/websocket.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/proxy/websocket.go b/proxy/websocket.go
index 0d24e8f..4464b65 100644
--- a/proxy/websocket.go
+++ b/proxy/websocket.go
@@ -27,6 +27,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"sync/atomic"
 	"time"
 
 	"github.com/gorilla/websocket"
@@ -76,9 +77,16 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 
 		done := make(chan bool, 1)
 
-		lastActive := time.Now()
+		// lastActive is set by the goroutine that reads messages, and used
+		// by the one that sends pings.
+		var lastActive atomic.Pointer[time.Time]
+		markActive := func() {
+			now := time.Now()
+			lastActive.Store(&now)
+		}
+		markActive()
 		in.SetPongHandler(func(string) error {
-			lastActive = time.Now()
+			markActive()
 			return nil
 		})
 		go func() {
@@ -91,7 +99,7 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 					out.SetDeadline(time.Now())
 					return
 				case <-ticker.C:
-					if time.Since(lastActive) > 30*time.Second {
+					if time.Since(*lastActive.Load()) > 30*time.Second {
 						select {
 						case done <- true:
 						default:
-- 
2.43.0


From b1da7909fdfa70d4e0aff6a5f9a0f79de24ee895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:07 +0000
Subject: [PATCH 43/50] fix: open redirect after the identity token cookie is
 set for a path that starts with //

---
 proxy/backend-sso.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proxy/backend-sso.go b/proxy/backend-sso.go
index 644f33c..e14b0b9 100644
--- a/proxy/backend-sso.go
+++ b/proxy/backend-sso.go
@@ -140,7 +140,11 @@ func (be *Backend) checkCookies(w http.ResponseWriter, req *http.Request) (jwt.M
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return nil, false
 	}
-	http.Redirect(w, req, req.URL.String(), http.StatusFound)
+	// The redirect must be to this host, even if the path starts with //.
+	here := *req.URL
+	here.Scheme = "https"
+	here.Host = req.Host
+	http.Redirect(w, req, here.String(), http.StatusFound)
 	return nil, false
 }
 
-- 
2.43.0


From fa77448849714788ca7431919f9a372da80ab57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:07 +0000
Subject: [PATCH 44/50] fix: the status page held the lock while waiting for
 PROXY headers of silent clients

---
 proxy/metrics.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/proxy/metrics.go b/proxy/metrics.go
index 3bfa56f..7e04dc1 100644
--- a/proxy/metrics.go
+++ b/proxy/metrics.go
@@ -232,15 +232,14 @@ func (p *Proxy) metricsHandler(w http.ResponseWriter, req *http.Request) {
 	var buf bytes.Buffer
 	defer buf.WriteTo(w)
 
-	p.mu.RLock()
-	defer p.mu.RUnlock()
-
 	totals := make(map[string]*backendMetrics)
+	p.mu.RLock()
 	for k, v := range p.metrics {
 		m := *v
 		k = idnaToUnicode(k)
 		totals[k] = &m
 	}
+	p.mu.RUnlock()
 
 	var serverNames []string
 	var maxLen int
@@ -402,6 +401,11 @@ func (p *Proxy) metricsHandler(w http.ResponseWriter, req *http.Request) {
 		})
 	}
 
+	// The addresses of the connections above can have to wait for a PROXY
+	// header. Nobody else should have to.
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+
 	for _, be := range p.cfg.Backends {
 		backend := backend{
 			Mode: be.Mode,
-- 
2.43.0


From 82c5cdf926cb106120ffdcd5901a000e232b2852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:07 +0000
Subject: [PATCH 45/50] fix: connections above the maximum stayed open until
 their PROXY header arrived

---
 proxy/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index f328726..d2e1e7a 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1164,7 +1164,8 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 	})
 	if numOpen >= p.cfg.MaxOpen {
 		p.recordEvent("too many open connections")
-		p.logErrorF("ERR [-] %s: too many open connections: %d >= %d", conn.RemoteAddr(), numOpen, p.cfg.MaxOpen)
+		// Don't wait for a PROXY header.
+		p.logErrorF("ERR [-] %s: too many open connections: %d >= %d", localNetConn(conn).RemoteAddr(), numOpen, p.cfg.MaxOpen)
 		sendCloseNotify(conn)
 		return
 	}
-- 
2.43.0


From fe7cc9fa099642d60802f70a48f200733abc9b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:07 +0000
Subject: [PATCH 46/50] fix: Shutdown missed the end of the last connection if
 it came at the wrong moment (lost wakeup)

---
 proxy/proxy.go | 16 ++++++++++++----
 proxy/quic.go  |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index d2e1e7a..9f564e1 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -915,7 +915,7 @@ func (p *Proxy) reAuthorize() {
 // in background until the context is canceled.
 func (p *Proxy) Start(ctx context.Context) error {
 	p.startTime = time.Now()
-	p.connClosed = sync.NewCond(&p.mu)
+	p.connClosed = sync.NewCond(&sync.Mutex{})
 	var httpServer *http.Server
 	if p.cfg.HTTPAddr != "" {
 		httpServer = &http.Server{
@@ -1026,8 +1026,8 @@ func (p *Proxy) Shutdown(ctx context.Context) {
 			}
 			return false
 		}
-		p.mu.Lock()
-		defer p.mu.Unlock()
+		p.connClosed.L.Lock()
+		defer p.connClosed.L.Unlock()
 		for connLeft() {
 			p.connClosed.Wait()
 		}
@@ -1040,6 +1040,14 @@ func (p *Proxy) Shutdown(ctx context.Context) {
 	p.Stop()
 }
 
+// notifyConnClosed tells Shutdown that a connection is gone. The lock ensures
+// that this doesn't happen after Shutdown looked, and before it waits.
+func (p *Proxy) notifyConnClosed() {
+	p.connClosed.L.Lock()
+	defer p.connClosed.L.Unlock()
+	p.connClosed.Broadcast()
+}
+
 func (p *Proxy) baseTLSConfig() *tls.Config {
 	tc := p.certManager.TLSConfig()
 	getCert := tc.GetCertificate
@@ -1160,7 +1168,7 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 					conn.BytesReceived(), conn.BytesSent())
 			}
 		}
-		p.connClosed.Broadcast()
+		p.notifyConnClosed()
 	})
 	if numOpen >= p.cfg.MaxOpen {
 		p.recordEvent("too many open connections")
diff --git a/proxy/quic.go b/proxy/quic.go
index ca3e801..0ac718b 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -155,7 +155,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 				formatConnDesc(qc), time.Since(startTime).Truncate(time.Millisecond),
 				qc.BytesReceived(), qc.BytesSent())
 		}
-		p.connClosed.Broadcast()
+		p.notifyConnClosed()
 	})
 	if err != nil {
 		p.recordEvent(err.Error())
-- 
2.43.0


From 0bdad93211164bb14c71cb77293d8c13a97693ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:15 +0000
Subject: [PATCH 47/50] fix: use the ACL of the passkey endpoint's own backend

---
 proxy/config.go |  3 ++-
 proxy/proxy.go  | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/proxy/config.go b/proxy/config.go
index 58db9b1..7ace8be 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -456,7 +456,8 @@ type localHandler struct {
 	handler     http.Handler
 	ssoBypass   bool
 	matchPrefix bool
-	isCallback  bool
+	// provider is set when this is the callback of an identity provider.
+	provider identityProvider
 }
 
 // ClientAuth specifies how to authenticate and authorize the TLS client's
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 9f564e1..ada23d1 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -749,10 +749,10 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 			h.path = path
 			be.localHandlers = append(be.localHandlers, h)
 
-			if h.isCallback && be.SSO != nil {
-				if m, ok := be.SSO.p.(*passkeys.Manager); ok {
-					m.SetACL(be.SSO.ACL)
-				}
+			// The passkey provider uses the ACL of the backend that
+			// serves its own endpoint.
+			if m, ok := h.provider.(*passkeys.Manager); ok && be.SSO != nil && be.SSO.p == h.provider {
+				m.SetACL(be.SSO.ACL)
 			}
 		}
 	}
@@ -766,8 +766,8 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				}
 				p.identityProvider.HandleCallback(w, req)
 			}),
-			ssoBypass:  true,
-			isCallback: true,
+			ssoBypass: true,
+			provider:  p.identityProvider,
 		}, p.callback)
 	}
 	for _, pp := range cfg.PKI {
-- 
2.43.0


From 9a4b04b3d5cf8a54e3d1f6acad8f138176207ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:20 +0000
Subject: [PATCH 48/50] fix: a configuration that is refused changed rate
 limits and left web servers running

---
 proxy/proxy.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index ada23d1..49abb8b 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -412,21 +412,31 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		pkis[pp.Name] = m
 	}
 
+	const minBurst = 1 << 17 // 128 KB
+	bwLimits := make(map[string]*bwLimit, len(cfg.BWLimits))
 	for _, bwl := range cfg.BWLimits {
-		const minBurst = 1 << 17 // 128 KB
 		if l, ok := p.bwLimits[bwl.Name]; ok {
-			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
-			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
-			l.egress.SetLimit(rate.Limit(bwl.Egress))
-			l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
+			bwLimits[bwl.Name] = l
 			continue
 		}
-		p.bwLimits[bwl.Name] = &bwLimit{
+		bwLimits[bwl.Name] = &bwLimit{
 			ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
 			egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
 		}
 	}
 
+	// When the new configuration cannot be used, nothing of it must keep
+	// running.
+	var done bool
+	defer func() {
+		if done {
+			return
+		}
+		for _, be := range cfg.Backends {
+			be.close(nil)
+		}
+	}()
+
 	backends := make(map[beKey]*Backend, len(cfg.Backends))
 	for _, be := range cfg.Backends {
 		be.recordEvent = p.recordEvent
@@ -447,7 +457,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				backends[beKey{serverName: sn, proto: proto}] = be
 			}
 		}
-		if l, ok := p.bwLimits[be.BWLimit]; ok {
+		if l, ok := bwLimits[be.BWLimit]; ok {
 			be.bwLimit = l
 		}
 		if be.SSO != nil {
@@ -854,6 +864,15 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 			be.close(p.ctx)
 		}
 	}
+	for _, bwl := range cfg.BWLimits {
+		l := bwLimits[bwl.Name]
+		l.ingress.SetLimit(rate.Limit(bwl.Ingress))
+		l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
+		l.egress.SetLimit(rate.Limit(bwl.Egress))
+		l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
+		p.bwLimits[bwl.Name] = l
+	}
+	done = true
 	p.defServerName = cfg.DefaultServerName
 	p.backends = backends
 	p.pkis = pkis
-- 
2.43.0


From 48757bf52c587412e9136c7b6116ac085343009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:25 +0000
Subject: [PATCH 49/50] fix: find configured certificates of internationalized
 names

---
 proxy/config.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/proxy/config.go b/proxy/config.go
index 7ace8be..9cf0d36 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -203,7 +203,8 @@ type LogFilter struct {
 // names.
 type TLSCertificate struct {
 	// ServerNames is a list of server names for which this certificate
-	// should be used.
+	// should be used. Internationalized names are converted to ascii, as
+	// in Backend.
 	ServerNames []string `yaml:"serverNames"`
 	// KeyFile is the name of the file that contains the private key.
 	KeyFile string `yaml:"key"`
@@ -1016,6 +1017,17 @@ func (cfg *Config) Check() error {
 		}
 	}
 
+	for _, c := range cfg.TLSCertificates {
+		for j, sn := range c.ServerNames {
+			// The name can have a wildcard.
+			if n, ok := strings.CutPrefix(sn, "*."); ok {
+				c.ServerNames[j] = "*." + idnaToASCII(n)
+			} else {
+				c.ServerNames[j] = idnaToASCII(sn)
+			}
+		}
+	}
+
 	bwLimits := make(map[string]bool)
 	for i, l := range cfg.BWLimits {
 		if bwLimits[l.Name] {
-- 
2.43.0


From c3609ea0aaa7c785f5bc742a2e5daf6e0c6f1178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:30 +0000
Subject: [PATCH 50/50] fix: keep what clients send within one line of the log

---
 proxy/backend-http.go | 10 +++++-----
 proxy/proxy.go        |  6 +++---
 proxy/quic.go         |  2 +-
 proxy/util.go         | 12 ++++++++++++
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 858e558..b184593 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -101,7 +101,7 @@ func (be *Backend) redirectPermanently(w http.ResponseWriter, req *http.Request,
 		Path:     path,
 		RawQuery: req.URL.RawQuery,
 	}
-	be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.Path, code, userAgent(req))
+	be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.EscapedPath(), code, userAgent(req))
 	http.Redirect(w, req, u.String(), code)
 }
 
@@ -133,7 +133,7 @@ func (be *Backend) serveStaticFiles(w http.ResponseWriter, req *http.Request, do
 	switch req.Method {
 	case http.MethodGet, http.MethodHead:
 	default:
-		be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.Path, http.StatusMethodNotAllowed, userAgent(req))
+		be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.EscapedPath(), http.StatusMethodNotAllowed, userAgent(req))
 		w.Header().Set("Allow", "GET, HEAD")
 		http.Error(w, "Method Not Allowed", http.StatusMethodNotAllowed)
 		return
@@ -165,7 +165,7 @@ func (be *Backend) serveStaticFiles(w http.ResponseWriter, req *http.Request, do
 		}
 		p = filepath.Join(p, "index.html")
 		if s, err := os.Stat(p); err != nil || s.IsDir() {
-			be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.Path, http.StatusForbidden, userAgent(req))
+			be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.EscapedPath(), http.StatusForbidden, userAgent(req))
 			w.WriteHeader(http.StatusForbidden)
 			return
 		}
@@ -180,11 +180,11 @@ func (be *Backend) serveStaticFiles(w http.ResponseWriter, req *http.Request, do
 	}
 	defer f.Close()
 	if fi, err := f.Stat(); err != nil || !fi.Mode().IsRegular() {
-		be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.Path, http.StatusForbidden, userAgent(req))
+		be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.EscapedPath(), http.StatusForbidden, userAgent(req))
 		w.WriteHeader(http.StatusForbidden)
 		return
 	}
-	be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.Path, http.StatusOK, userAgent(req))
+	be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.EscapedPath(), http.StatusOK, userAgent(req))
 	be.setAltSvc(w.Header(), req)
 	http.ServeContent(w, req, p, fi.ModTime(), f)
 }
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 49abb8b..13a91f6 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -772,7 +772,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 			desc: fmt.Sprintf("OIDC Client Redirect Endpoint (%s)", p.name),
 			handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
 				if be := connBackend(req.Context().Value(connCtxKey).(anyConn)); be != nil {
-					be.logRequestF("REQ %s ➔ %s %s (SSO callback) (%q)", formatReqDesc(req), req.Method, req.URL.Path, userAgent(req))
+					be.logRequestF("REQ %s ➔ %s %s (SSO callback) (%q)", formatReqDesc(req), req.Method, req.URL.EscapedPath(), userAgent(req))
 				}
 				p.identityProvider.HandleCallback(w, req)
 			}),
@@ -1491,7 +1491,7 @@ func formatReqDesc(req *http.Request) string {
 	var ids []string
 	if claims := claimsFromCtx(req.Context()); claims != nil {
 		email, _ := claims["email"].(string)
-		ids = append(ids, email)
+		ids = append(ids, printable(email))
 	}
 	conn, ok := req.Context().Value(connCtxKey).(anyConn)
 	if !ok {
@@ -1614,7 +1614,7 @@ func certSummary(c *x509.Certificate) string {
 	for _, v := range c.URIs {
 		parts = append(parts, "URI:"+v.String())
 	}
-	return strings.Join(parts, ";")
+	return printable(strings.Join(parts, ";"))
 }
 
 func guessIDP(url string) string {
diff --git a/proxy/quic.go b/proxy/quic.go
index 0ac718b..0e1d83b 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -79,7 +79,7 @@ func (p *Proxy) startQUIC(ctx context.Context) error {
 				return be.tlsConfigQUIC, nil
 			}
 		}
-		p.logErrorF("ERR QUIC connection %s %s", hello.ServerName, hello.SupportedProtos)
+		p.logErrorF("ERR QUIC connection %q %q", hello.ServerName, hello.SupportedProtos)
 		return nil, tlsUnrecognizedName
 	}
 	qt, err := netw.NewQUIC(p.cfg.TLSAddr, statelessResetKey)
diff --git a/proxy/util.go b/proxy/util.go
index 2c1b412..116e4c9 100644
--- a/proxy/util.go
+++ b/proxy/util.go
@@ -29,6 +29,9 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"strconv"
+	"strings"
+	"unicode"
 
 	"github.com/pires/go-proxyproto"
 	"golang.org/x/net/idna"
@@ -159,6 +162,15 @@ func idnaToUnicode(h string) string {
 	return h
 }
 
+// printable escapes the control characters of s, so that it can be logged.
+func printable(s string) string {
+	if strings.IndexFunc(s, unicode.IsControl) < 0 {
+		return s
+	}
+	q := strconv.Quote(s)
+	return q[1 : len(q)-1]
+}
+
 func formatSize10[T float64 | int64](n T) string {
 	if n > 1000000000 {
 		return fmt.Sprintf("%.1f GB", float64(n)/1000000000)
-- 
2.43.0

