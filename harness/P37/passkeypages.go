//verif:pkg proxy/internal/passkeys
//verif:use passkeyweb.go
//verif:use html.go
//verif:embed
//verif:unit name=passkeypages entry=VerifP37Passkeys share=2 synctest reach=login,register,refresh,manage
package passkeys

import (
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

func vfP37Passkeys(kind int, text string) []byte {
	email := "a" + text + "@x"
	f := vfNewPK(nil, time.Hour)
	f.redirect()
	u := &url.URL{Scheme: "https", Host: "app.x", Path: "/p"}
	var extra map[string]any
	get, cookie := "Login", ""
	switch kind {
	case 0: // the suggested address
		extra = map[string]any{"email": email}
	case 1:
		u.Path += text
	case 2:
		u.RawQuery = text
	case 3:
		get, cookie = "RegisterNewID", f.cookie(f.other, email)
	case 4:
		get, cookie = "RefreshID", f.cookie(f.other, email)
	case 5: // the list of keys
		w := f.manage("GET", "", nil, f.mine(email, 0), false)
		vsym.Assert(w.code == 200, "no page")
		return w.body.Bytes()
	}
	h := http.Header{"Cookie": {tokenmanager.SessionIDCookieName + "=" + f.sid}}
	tok, _, err := f.tm.URLToken(&vfResp{h: http.Header{}}, &http.Request{Header: h}, u, extra)
	vsym.Assert(err == nil, "no redirect token")
	w := &vfResp{h: http.Header{}}
	f.m.HandleCallback(w, f.request("GET", get, url.Values{"redirect": {tok}}, cookie, false))
	vsym.Assert(w.code == 200, "no page")
	return w.body.Bytes()
}

// The pages about passkeys, with addresses that others can choose.
func VerifP37Passkeys() {
	kind := vsym.Choose("kind", 6)
	text := [...]string{"<script>alert(1)</script>", "javascript:alert(1)", "</div><b>", "\"onload=alert(1) x=\"", "');alert(1);('", "</script><script>", "{{.Token}}", "<!--", "\\'", "&#39;);alert(1);(&#39;", "`"}[vsym.Choose("text", 11)]
	want, _ := vfSkeleton(vfP37Passkeys(kind, "zz"))
	page := vfP37Passkeys(kind, text)
	got, active := vfSkeleton(page)
	vsym.Assert(strings.Contains(want, "<body") && got == want, "what a user can choose changes the structure of a page")
	for _, a := range active {
		attr, val, _ := strings.Cut(a, "=")
		val = vfUnescape(val)
		if attr == "href" || attr == "src" {
			vsym.Assert(!strings.HasPrefix(strings.ToLower(strings.TrimSpace(val)), "javascript:"), "an address is code")
			continue
		}
		// In code, the text is part of a string literal.
		vsym.Assert(vfLiterals(val) == vfLiterals(strings.ReplaceAll(val, "alert(1)", "")), "a user chooses code")
	}
	vsym.Reach([...]string{"login", "login", "login", "register", "refresh", "manage"}[kind])
}

// vfLiterals returns code without the content of its string literals.
func vfLiterals(code string) string {
	var out []byte
	q := byte(0)
	for i := 0; i < len(code); i++ {
		c := code[i]
		switch {
		case q == 0:
			out = append(out, c)
			if c == '"' || c == '\'' || c == '`' {
				q = c
			}
		case c == '\\':
			i++
		case c == q:
			out = append(out, c)
			q = 0
		}
	}
	return string(out)
}
