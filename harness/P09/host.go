//verif:pkg proxy
//verif:use rp.go
//verif:unit name=host entry=VerifP09Host share=1 q.LEN=5 t.LEN=7 reach=served,refused,port
//verif:unit name=again entry=VerifP09Again share=1 q.LEN=4 t.LEN=5 reach=served,refused
package proxy

import (
	"strings"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// Every short host value, for backends with one or two short names.
func VerifP09Host() {
	up := &vfUp{}
	up.install()
	names := []string{"ab.c", "d"}
	be := vfBackend(vsym.Pick("mode", ModeHTTP, ModeHTTPS), names[:1+vsym.Choose("names", 2)]...)
	conn := "ab.c"
	host := vsym.String("host", 0, vsym.Param("LEN", 5))
	if vsym.Bool("port") {
		vsym.Reach("port")
		host += ":" + vsym.Pick("portval", "443", "8443", "")
	}
	if vsym.Bool("override") {
		be.PathOverrides = []*PathOverride{{Paths: []string{"/"}, Addresses: []string{"10.0.0.2:80"}}}
	}
	req := vfVary(vfRequest(vfClient(conn), "GET", host, "/", nil))
	w := &vfRW{}
	be.reverseProxy().ServeHTTP(w, req)
	vsym.Observe("code", w.code)

	ours := vfOurs(be, conn, host)
	if up.n > 0 {
		vsym.Reach("served")
		vsym.Assert(ours, "a request for a host of another backend is forwarded")
		vsym.Assert(up.n == 1, "forwarded more than once")
	} else {
		vsym.Reach("refused")
		vsym.Assert(!ours, "a request for a host of this backend is refused")
		vsym.Assert(w.code == 421, "a misdirected request does not get 421")
	}
}

// vfOurs is an independent reading of the host.
func vfOurs(be *Backend, conn, host string) bool {
	// Everything before the port.
	name := host
	if name == "" {
		name = conn
	}
	if i := strings.LastIndexByte(name, ':'); i >= 0 {
		digits := true
		for j := i + 1; j < len(name); j++ {
			if name[j] < '0' || name[j] > '9' {
				digits = false
			}
		}
		if digits {
			name = name[:i]
		}
	}
	if strings.HasPrefix(name, "[") && strings.HasSuffix(name, "]") {
		name = name[1 : len(name)-1]
	}
	for _, n := range be.ServerNames {
		if name == n {
			return true
		}
	}
	return false
}

// Two requests on one connection.
func VerifP09Again() {
	up := &vfUp{}
	up.install()
	be := vfBackend(vsym.Pick("mode", ModeHTTP, ModeHTTPS), "ab.c", "d")
	h := be.reverseProxy()
	c := vfClient("ab.c")
	for i := 0; i < 2; i++ {
		var host string
		if i == 0 {
			host = vsym.Pick("first", "ab.c", "d", "x", "d:1")
		} else {
			host = vsym.String("host", 0, vsym.Param("LEN", 4))
		}
		n := up.n
		w := &vfRW{}
		h.ServeHTTP(w, vfRequest(c, "GET", host, "/", nil))
		ours := vfOurs(be, "ab.c", host)
		if up.n > n {
			vsym.Reach("served")
			vsym.Assert(ours, "a request for a host of another backend is forwarded")
		} else {
			vsym.Reach("refused")
			vsym.Assert(!ours, "a request for a host of this backend is refused")
			vsym.Assert(w.code == 421, "a misdirected request does not get 421")
		}
	}
}
