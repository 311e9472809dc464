//verif:pkg proxy
//verif:use rp.go
//verif:use fs.go
//verif:unit name=choice entry=VerifP10Choice share=3 q.LEN=3 t.LEN=5 reach=main,override0,override1,static,slash
//verif:unit name=pool entry=VerifP10Pool share=1 reach=shared,separate
//verif:assume request paths are built from '/', '.', and the letters a and b
package proxy

import (
	"net"
	"net/http"
	"strings"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// vfClean is an independent canonicalisation of a request path.
func vfClean(p string) string {
	var st []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, c)
		}
	}
	out := "/" + strings.Join(st, "/")
	if out != "/" && strings.HasSuffix(p, "/") {
		out += "/"
	}
	return out
}

func vfSymPath(label string, n int) string {
	p := vsym.Bytes(label, 0, n)
	for _, c := range p {
		vsym.Assume(vsym.Or(c == '/', c == '.', c == 'a', c == 'b'))
	}
	return "/" + string(p)
}

func VerifP10Choice() {
	up := &vfUp{}
	up.install()
	root := vfTree(map[string]string{
		"main/a": "main", "main/b": "main", "main/a/a": "main", "main/a/b": "main", "main/b/a": "main",
		"o0/a": "o0", "o0/b": "o0", "o0/a/a": "o0", "o0/a/b": "o0", "o0/b/a": "o0",
		"o1/a": "o1", "o1/b": "o1", "o1/a/a": "o1", "o1/a/b": "o1", "o1/b/a": "o1",
	})
	be := vfBackend(ModeHTTP, "example.com")
	if vsym.Bool("mainstatic") {
		be.Addresses = nil
		be.DocumentRoot = root + "/main"
	}
	prefixes := [][]string{
		{vsym.Pick("p0", "/a/", "/b/", "/")},
		{vsym.Pick("p1", "/a/", "/a/b/", "/b/")},
	}
	if vsym.Bool("two") {
		prefixes[0] = append(prefixes[0], "/b/")
	}
	static := [2]bool{vsym.Bool("static0"), vsym.Bool("static1")}
	for i, ps := range prefixes {
		po := &PathOverride{Paths: ps, Addresses: []string{"10.0.0.2:80"}}
		if static[i] {
			po.Addresses = nil
			po.DocumentRoot = root + []string{"/o0", "/o1"}[i]
		}
		be.PathOverrides = append(be.PathOverrides, po)
	}
	san := 0
	if vsym.Bool("raw") {
		f := false
		be.SanitizePath = &f
		san = 1
	}
	p := vfSymPath("path", vsym.Param("LEN", 3))
	req := vfRequest(vfClient("example.com"), "GET", "example.com", p, nil)
	if len(p) <= 3 {
		req = vfVary(req)
	}
	w := &vfRW{}
	be.reverseProxy().ServeHTTP(w, req)
	vsym.Observe("code", w.code)

	// Which override applies, and would a final slash change that?
	clean := vfClean(p)
	want, slash := -1, false
	for i, ps := range prefixes {
		for _, pre := range ps {
			if want >= 0 || slash {
				break
			}
			if strings.HasPrefix(clean, pre) {
				want = i
			} else if clean+"/" == pre {
				slash = true
			}
		}
	}
	if slash {
		vsym.Reach("slash")
		vsym.Assert(up.n == 0 && (w.code == 301 || w.code == 303 && req.Method != "GET" && req.Method != "HEAD") && w.Header().Get("Location") == clean+"/", "a path that names an override without its final slash is not redirected")
		return
	}
	isStatic := be.DocumentRoot != ""
	name := "main"
	if want >= 0 {
		isStatic = static[want]
		name = []string{"o0", "o1"}[want]
	}
	if isStatic {
		vsym.Reach("static")
		vsym.Assert(up.n == 0, "a request for static files is forwarded")
		if w.code == 200 {
			vsym.Assert(string(w.body) == name, "a file of another document root is served")
		}
		return
	}
	vsym.Assert(up.n == 1, "the request is not forwarded to the upstream of its path")
	if up.n != 1 {
		return
	}
	vsym.Assert(up.ovr == want, "the request is forwarded to the upstream of another path")
	if san == 0 {
		vsym.Assert(up.path == clean, "the forwarded path is not canonical")
	} else {
		vsym.Assert(up.path == p, "the forwarded path is changed")
	}
	switch want {
	case -1:
		vsym.Reach("main")
	case 0:
		vsym.Reach("override0")
	case 1:
		vsym.Reach("override1")
	}
}

type vfReqKind struct {
	name  string
	path  string
	port  int
	proto int
}

// vfPool sends one request and returns the pool key it was given.
func vfPool(up *vfUp, be *Backend, k vfReqKind) string {
	c := vfClient(k.name)
	c.Conn.(*vfConn).remote = &net.TCPAddr{IP: net.IPv4(198, 51, 100, 7), Port: k.port}
	req := vfRequest(c, "GET", k.name, k.path, http.Header{})
	up.n = 0
	be.reverseProxy().ServeHTTP(&vfRW{}, req)
	vsym.Assert(up.n == 1, "the request is not forwarded")
	return up.key
}

// Two requests on the same backend.
func VerifP10Pool() {
	up := &vfUp{}
	up.install()
	be := vfBackend(ModeHTTP, "example.com", "www.example.com")
	be.proxyProtocolVersion = byte(vsym.Choose("mainpp", 3))
	pp := [2]byte{byte(vsym.Choose("pp0", 3)), byte(vsym.Choose("pp1", 3))}
	be.PathOverrides = []*PathOverride{
		{Paths: []string{"/a/"}, Addresses: []string{"10.0.0.2:80"}, proxyProtocolVersion: pp[0]},
		{Paths: []string{"/b/"}, Addresses: []string{"10.0.0.3:80"}, proxyProtocolVersion: pp[1]},
	}
	kind := func(l string) vfReqKind {
		return vfReqKind{
			name: vsym.Pick(l+"name", "example.com", "www.example.com"),
			path: vsym.Pick(l+"path", "/", "/a/", "/b/", "/a/x"),
			port: 1000 + vsym.Choose(l+"port", 2),
		}
	}
	k1, k2 := kind("1"), kind("2")
	key1 := vfPool(up, be, k1)
	key2 := vfPool(up, be, k2)
	ov := func(k vfReqKind) (int, byte) {
		switch k.path {
		case "/a/", "/a/x":
			return 0, pp[0]
		case "/b/":
			return 1, pp[1]
		}
		return -1, be.proxyProtocolVersion
	}
	o1, v1 := ov(k1)
	o2, _ := ov(k2)
	if key1 == key2 {
		vsym.Reach("shared")
		vsym.Assert(o1 == o2, "requests for different upstreams share a connection")
		if v1 > 0 {
			vsym.Assert(k1.port == k2.port, "requests of different clients share a connection with a PROXY header")
			vsym.Assert(k1.name == k2.name, "requests for different server names share a connection with a PROXY header")
		}
	} else {
		vsym.Reach("separate")
		vsym.Assert(k1 != k2, "identical requests do not share a connection")
	}
}
