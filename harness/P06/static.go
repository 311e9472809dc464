//verif:pkg proxy
//verif:use rp.go
//verif:use fs.go
//verif:unit name=local entry=VerifP06Local share=3 q.LEN=5 t.LEN=7 reach=file,index,redirect,forbidden,missing
//verif:unit name=override entry=VerifP06Override share=1 q.LEN=5 t.LEN=6 reach=file,redirect,missing
//verif:unit name=deep entry=VerifP06Deep share=2 q.N=3 t.N=4 reach=file,redirect,missing
//verif:assume request paths are built from the bytes that matter to path handling ('/', '.', '\', NUL, '%') and from two letters that name files and directories of the tree
package proxy

import (
	"net/http"
	"strings"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

var vfP06Tree = map[string]string{
	"d/a":              "PUBLIC a",
	"d/b/a":            "PUBLIC b/a",
	"d/b/index.html":   "PUBLIC b/index",
	"d/b/.a":           "SECRET b/.a",
	"d/.a":             "SECRET .a",
	"d/.b/a":           "SECRET .b/a",
	"d/.b/index.html":  "SECRET .b/index",
	"d/b/b/":           "",
	"d/b/.b/a":         "SECRET b/.b/a",
	"d/b/b/.b/a":       "SECRET b/b/.b/a",
	"d/b/b/b":          "PUBLIC b/b/b",
	"d/b/a.a/":         "",
	`d/b\a`:            `SECRET b\a`,
	"d/bb/index.html/": "",
	"d/bb/a":           "PUBLIC bb/a",
	"a":                "SECRET outside",
	"b/a":              "SECRET outside b/a",
	"index.html":       "SECRET outside index",
	"da":               "SECRET sibling",
	"d.a":              "SECRET sibling 2",
}

// vfPath is an arbitrary path over the bytes that matter.
func vfPath(n int) string {
	p := vsym.Bytes("path", 0, n)
	for _, c := range p {
		vsym.Assume(vsym.Or(c == '/', c == '.', c == '\\', c == 'a', c == 'b', c == 0, c == '%'))
	}
	return "/" + string(p)
}

// vfRef decides independently what a canonical path may be answered with: the
// file below the document root with that name, when no component is hidden.
func vfRef(p string) (string, bool) {
	if p == "" || p[0] != '/' {
		return "", false
	}
	dir := p[len(p)-1] == '/'
	name := "d"
	for _, c := range strings.Split(strings.Trim(p, "/"), "/") {
		if c == "" && strings.Trim(p, "/") == "" {
			continue
		}
		if c == "" || c[0] == '.' || strings.IndexByte(c, '\\') >= 0 {
			return "", false
		}
		name += "/" + c
	}
	if dir {
		name += "/index.html"
	}
	for k, v := range vfP06Tree {
		if k == name {
			return v, true
		}
	}
	return "", false
}

func vfCheckStatic(w *vfRW, path, ref string) {
	vsym.Observe("code", w.code)
	body := string(w.body)
	if w.code < 300 {
		vsym.Assert(!strings.Contains(body, "SECRET"), "a file that must not be served is served")
		vsym.Assert(!strings.Contains(body, "<pre>"), "a directory is listed")
	}
	switch w.code {
	case 200:
		want, ok := vfRef(ref)
		vsym.Assert(ok && body == want, "the answer is not the file the path names")
		if strings.HasSuffix(path, "/") {
			vsym.Reach("index")
		} else {
			vsym.Reach("file")
		}
	case http.StatusMovedPermanently:
		vsym.Reach("redirect")
		loc := w.Header().Get("Location")
		vsym.Assert(strings.HasPrefix(loc, "/") && !strings.HasPrefix(loc, "//") && !strings.HasPrefix(loc, "/\\"), "the redirect leaves the host")
	case http.StatusForbidden:
		vsym.Reach("forbidden")
		_, ok := vfRef(ref)
		vsym.Assert(!ok, "an existing file is refused")
	case http.StatusNotFound:
		vsym.Reach("missing")
		_, ok := vfRef(ref)
		vsym.Assert(!ok, "an existing file is not found")
	default:
		vsym.Fail("unexpected status")
	}
}

func VerifP06Local() {
	root := vfTree(vfP06Tree)
	be := vfBackend(ModeLocal, "example.com")
	be.Addresses = nil
	be.DocumentRoot = root + "/d"
	p := vfPath(vsym.Param("LEN", 6))
	req := vfRequest(vfClient("example.com"), "GET", "example.com", p, nil)
	w := &vfRW{}
	be.localHandler().ServeHTTP(w, req)
	vfCheckStatic(w, p, p)
}

// The same with a document root that is set for some paths only.
func VerifP06Override() {
	up := &vfUp{}
	up.install()
	root := vfTree(vfP06Tree)
	be := vfBackend(ModeHTTP, "example.com")
	be.PathOverrides = []*PathOverride{{Paths: []string{"/o/"}, DocumentRoot: root + "/d"}}
	p := "/o" + vfPath(vsym.Param("LEN", 5))
	req := vfRequest(vfClient("example.com"), "GET", "example.com", p, nil)
	w := &vfRW{}
	be.reverseProxy().ServeHTTP(w, req)
	if up.n > 0 {
		vsym.Assert(!strings.HasPrefix(up.path, "/o/"), "a path of the override is forwarded")
		return
	}
	vfCheckStatic(w, p, strings.TrimPrefix(p, "/o"))
}

// Longer paths made of components with a meaning and an arbitrary one.
func VerifP06Deep() {
	root := vfTree(vfP06Tree)
	be := vfBackend(ModeLocal, "example.com")
	be.Addresses = nil
	be.DocumentRoot = root + "/d"
	n := 1 + vsym.Choose("n", vsym.Param("N", 3))
	any := vsym.Choose("any", n+1)
	p := ""
	for i := 0; i < n; i++ {
		if i == any {
			c := vsym.Bytes("c", 1, 2)
			for _, c := range c {
				vsym.Assume(vsym.Or(c == '.', c == '\\', c == 'a', c == 'b'))
			}
			p += "/" + string(c)
			continue
		}
		p += "/" + vsym.Pick("part", "a", "b", ".b", "..")
	}
	if vsym.Bool("slash") {
		p += "/"
	}
	req := vfRequest(vfClient("example.com"), "GET", "example.com", p, nil)
	w := &vfRW{}
	be.localHandler().ServeHTTP(w, req)
	vfCheckStatic(w, p, p)
}
