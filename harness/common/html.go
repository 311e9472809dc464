package common

import (
	"strings"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// vfSkeleton returns the structure of a page: its tags with the names of their
// attributes, and the attributes that hold addresses or code.
func vfSkeleton(page []byte) (skel string, active []string) {
	var b strings.Builder
	lower := func(c byte) byte {
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		return c
	}
	space := func(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' }
	hasPrefix := func(i int, p string) bool {
		if len(page)-i < len(p) {
			return false
		}
		for k := 0; k < len(p); k++ {
			if lower(page[i+k]) != p[k] {
				return false
			}
		}
		return true
	}
	raw := ""
	for i := 0; i < len(page); {
		if raw != "" {
			// Only the end tag ends a script or a style sheet.
			if hasPrefix(i, "</"+raw) {
				raw = ""
				continue
			}
			i++
			continue
		}
		if page[i] != '<' {
			i++
			continue
		}
		if hasPrefix(i, "<!--") {
			i += 4
			for i < len(page) && !hasPrefix(i, "-->") {
				i++
			}
			b.WriteString("<!-->")
			continue
		}
		if i+1 >= len(page) || !(page[i+1] == '/' || page[i+1] == '!' || page[i+1] == '?' || lower(page[i+1]) >= 'a' && lower(page[i+1]) <= 'z') {
			i++
			continue
		}
		i++
		b.WriteByte('<')
		name := ""
		for i < len(page) && !space(page[i]) && page[i] != '>' && (page[i] != '/' || name == "") {
			name += string([]byte{lower(page[i])})
			i++
		}
		b.WriteString(name)
		for i < len(page) && page[i] != '>' {
			if space(page[i]) || page[i] == '/' {
				i++
				continue
			}
			attr := string([]byte{lower(page[i])})
			i++
			for i < len(page) && !space(page[i]) && page[i] != '>' && page[i] != '=' && page[i] != '/' {
				attr += string([]byte{lower(page[i])})
				i++
			}
			b.WriteString(" " + attr)
			for i < len(page) && space(page[i]) {
				i++
			}
			if i >= len(page) || page[i] != '=' {
				continue
			}
			i++
			for i < len(page) && space(page[i]) {
				i++
			}
			var val []byte
			if i < len(page) && (page[i] == '"' || page[i] == '\'') {
				q := page[i]
				i++
				for i < len(page) && page[i] != q {
					val = append(val, page[i])
					i++
				}
				i++
				b.WriteByte(q)
			} else {
				for i < len(page) && !space(page[i]) && page[i] != '>' {
					val = append(val, page[i])
					i++
				}
				b.WriteByte('=')
			}
			if attr == "href" || attr == "src" || strings.HasPrefix(attr, "on") {
				active = append(active, attr+"="+string(val))
			}
		}
		i++
		b.WriteByte('>')
		if name == "script" || name == "style" || name == "textarea" || name == "title" {
			raw = name
		}
	}
	return b.String(), active
}

// vfUnescape undoes HTML's character references.
func vfUnescape(s string) string {
	return strings.NewReplacer("&lt;", "<", "&gt;", ">", "&#34;", `"`, "&#39;", "'", "&quot;", `"`, "&amp;", "&", "&#43;", "+", "&#61;", "=", "&#96;", "`").Replace(s)
}

// vfNasty is a string that a page must not take for anything but text: any
// bytes of those that mean something, or one of a few longer ones.
func vfNasty(n int) string {
	if k := vsym.Choose("nasty", 10); k > 0 {
		return [...]string{"<script>alert(1)</script>", "javascript:alert(1)", "</pre><b>", "\"onload=alert(1) x=\"", "'-alert(1)-'", "</script><script>", "{{.Token}}", "<!--", "vbscript:x"}[k-1]
	}
	b := vsym.Bytes("text", n, n)
	for _, c := range b {
		vsym.Assume(vsym.Or(c == '<', c == '>', c == '"', c == '\'', c == '&', c == '/', c == 'a', c == ':', c == ' ', c == '\\', c == '=', c == '`', c == '\n'))
	}
	return string(b)
}
