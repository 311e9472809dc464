//verif:pkg proxy
//verif:use rp.go
//verif:unit name=via entry=VerifP30Via q.N=3 t.N=4 share=1 reach=loop,forwarded,two
package proxy

import (
	"net/http"
	"strings"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

const vfMe = "192.0.2.1:443"

// Every combination of up to N markers, after none or 40 others, spread over header lines, with the
// usual spellings, one of them possibly this instance's own.
func VerifP30Via() {
	up := &vfUp{}
	up.install()
	be := vfBackend(ModeHTTP, "example.com")
	h := http.Header{}
	n := vsym.Choose("n", vsym.Param("N", 3)+1)
	var markers []string
	mine := false
	line := ""
	lines := 0
	// There may be many more hops before them.
	more := n == 2 && vsym.Bool("more")
	for i := 0; i < 40 && more; i++ {
		if line != "" {
			line += ", "
		}
		line += "1.1 gw"
		markers = append(markers, "1.1 gw")
	}
	flush := func() {
		if line != "" {
			h["Via"] = append(h["Via"], line)
			line = ""
			lines++
		}
	}
	for i := 0; i < n; i++ {
		proto := vsym.Pick("proto", "HTTP/1.1", "2")
		who := vfMe
		if vsym.Bool("other") {
			who = vsym.Pick("who", "10.1.1.1:80", "gw", "192.0.2.1:4433", "192.0.2.1:44")
		} else {
			mine = true
		}
		m := proto + " " + who
		markers = append(markers, m)
		switch vsym.Choose("sep", 3) {
		case 0:
			flush()
			line = m
		case 1:
			if line != "" {
				line += ", "
			}
			line += m
		case 2:
			if line != "" {
				line += ","
			}
			line += m
		}
	}
	flush()
	if lines > 1 {
		vsym.Reach("two")
	}
	c := vfClient("example.com")
	req := vfRequest(c, "GET", "example.com", "/x", h)
	if n <= 2 && !more {
		req = vfVary(req)
	}
	w := &vfRW{}
	be.reverseProxy().ServeHTTP(w, req)
	vsym.Observe("code", w.code)
	if mine {
		vsym.Reach("loop")
		vsym.Assert(up.n == 0, "a looping request is forwarded")
		vsym.Assert(w.code == http.StatusLoopDetected, "a looping request is not answered with a loop error")
		return
	}
	vsym.Reach("forwarded")
	vsym.Assert(up.n == 1, "a request that does not loop is not forwarded")
	got := strings.Split(strings.Join(up.hdr["Via"], ","), ",")
	for i := range got {
		got[i] = strings.TrimSpace(got[i])
	}
	want := append(markers, req.Proto+" "+vfMe)
	vsym.Assert(strings.Join(got, "|") == strings.Join(want, "|"), "the markers sent upstream are not the received ones plus this instance")
}
