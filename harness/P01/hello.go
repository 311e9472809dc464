//verif:pkg proxy
//verif:use fakeconn.go
//verif:unit name=ext entry=VerifP01Extensions q.EXT=13 t.EXT=20 share=3 reach=parsed,rejected,sni,alpn
//verif:unit name=list entry=VerifP01List q.LEN=1 t.LEN=2 q.EXTS=2 t.EXTS=3 share=3 reach=parsed,rejected,sni,alpn
//verif:unit name=tail entry=VerifP01Tail q.TAIL=9 t.TAIL=14 share=3 reach=parsed,rejected,sni,alpn
//verif:unit name=prefix entry=VerifP01Prefix q.MAX=50 t.MAX=54 share=2 reach=parsed,rejected
//verif:unit name=header entry=VerifP01Header reach=rejected
//verif:unit name=peek entry=VerifP01Peek q.N=5 t.N=6 reach=same,short
//verif:assume the underlying connection delivers bytes in order in arbitrary chunks and then ends with EOF or an error
package proxy

import (
	"bytes"
	"io"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// the reference reading of a ClientHello record body (RFC 8446 4.1.2, 6066 3,
// 7301 3.1); ok is 0 = must be an error, 1 = well formed, 2 = unspecified
// (malformed in a way the TLS stack will refuse later).
func refHello(rec []byte) (ok int, name string, alpn []string) {
	if len(rec) < 4 || rec[0] != 1 {
		return 0, "", nil
	}
	ok = 1
	hl := int(rec[1])<<16 | int(rec[2])<<8 | int(rec[3])
	if hl != len(rec)-4 {
		ok = 2
	}
	b := rec[4:]
	take := func(n int) []byte {
		if b == nil || len(b) < n {
			b = nil
			return nil
		}
		n = vsym.Concrete(n)
		x := b[:n]
		b = b[n:]
		return x
	}
	num := func(k int) int {
		x := take(k)
		if x == nil {
			return 0
		}
		n := 0
		for _, y := range x {
			n = n<<8 | int(y)
		}
		return n
	}
	take(34)
	take(num(1))
	take(num(2))
	take(num(1))
	n := num(2)
	if b == nil || len(b) < n {
		return 0, "", nil
	}
	n = vsym.Concrete(n)
	if len(b) != n {
		ok = 2
	}
	b = b[:n]
	seen := map[int]bool{}
	for len(b) > 0 {
		typ := num(2)
		d := take(num(2))
		if b == nil {
			return 0, "", nil
		}
		if typ != 0 && typ != 16 {
			continue
		}
		if seen[typ] {
			ok = 2
		}
		seen[typ] = true
		if len(d) < 2 {
			return 0, "", nil
		}
		ll := int(d[0])<<8 | int(d[1])
		if ll > len(d)-2 {
			return 0, "", nil
		}
		ll = vsym.Concrete(ll)
		if ll != len(d)-2 {
			ok = 2
		}
		d = d[2 : 2+ll]
		if typ == 0 {
			for len(d) > 0 {
				if len(d) < 3 || d[0] != 0 {
					return 0, "", nil
				}
				l := int(d[1])<<8 | int(d[2])
				if l > len(d)-3 {
					return 0, "", nil
				}
				l = vsym.Concrete(l)
				if name != "" {
					return 0, "", nil
				}
				if l == 0 {
					ok = 2
				}
				name = string(d[3 : 3+l])
				d = d[3+l:]
			}
		} else {
			for len(d) > 0 {
				l := int(d[0])
				if l > len(d)-1 {
					return 0, "", nil
				}
				l = vsym.Concrete(l)
				if l == 0 {
					ok = 2
				}
				alpn = append(alpn, string(d[1:1+l]))
				d = d[1+l:]
			}
		}
	}
	return ok, name, alpn
}

func verifP01Check(stream []byte) {
	fc := &vfConn{name: "c", in: append([]byte(nil), stream...)}
	conn := netw.NewConn(fc)
	var h clientHello
	var err error
	p, _ := vsym.TryPanic(func() { h, err = peekClientHello(conn) })
	vsym.Assert(!p, "inspecting a client's bytes never crashes")
	if p {
		return
	}
	bodyLen := 0
	ok := 0
	var name string
	var alpn []string
	if len(stream) >= 5 {
		bodyLen = vsym.Concrete(int(stream[3])<<8 | int(stream[4]))
		if stream[0] == 0x16 && bodyLen <= 16384 && bodyLen <= len(stream)-5 {
			ok, name, alpn = refHello(stream[5 : 5+bodyLen])
		}
	}
	if err == nil {
		vsym.Reach("parsed")
		vsym.Assert(ok != 0, "a stream that is not a complete ClientHello is an error")
	} else {
		vsym.Reach("rejected")
		vsym.Assert(ok != 1, "a well-formed ClientHello is accepted")
	}
	vsym.Observe("err", err)
	if ok == 1 && err == nil {
		if name != "" {
			vsym.Reach("sni")
		}
		if len(alpn) > 0 {
			vsym.Reach("alpn")
		}
		vsym.Observe("sni", h.ServerName)
		vsym.Observe("alpn", h.ALPNProtos)
		vsym.Assert(len(h.ServerName) == len(name) && vsym.Eq(h.ServerName, name), "the reported server name is the one in the hello")
		same := len(alpn) == len(h.ALPNProtos)
		if same {
			for i := range alpn {
				if len(alpn[i]) != len(h.ALPNProtos[i]) {
					same = false
					break
				}
				same = vsym.And(same, vsym.Eq(alpn[i], h.ALPNProtos[i]))
			}
		}
		vsym.Assert(same, "the reported ALPN list is the one in the hello")
	}
	// Nothing that was inspected is lost.
	got, rerr := io.ReadAll(conn)
	vsym.Assert(rerr == nil && len(got) == len(stream), "every inspected byte stays readable")
	if len(got) == len(stream) {
		vsym.Assert(bytes.Equal(got, stream), "inspected bytes are unchanged and in order")
	}
}

// VerifP01Extensions: a complete record with a symbolic extension block.
func VerifP01Extensions() {
	maxExt := vsym.Param("EXT", 20)
	ext := vsym.Bytes("ext", 0, maxExt)
	n := 38 + 1 + 0 + 2 + 2 + 1 + 1 + 2 + len(ext)
	declared := n - 4
	s := []byte{0x16, 3, 1, byte(n >> 8), byte(n), 1, 0, byte(declared >> 8), byte(declared), 3, 3}
	s = append(s, make([]byte, 32)...)
	s = append(s, 0)
	s = append(s, 0, 2, 0x13, 1)
	s = append(s, 1, 0)
	s = append(s, byte(len(ext)>>8), byte(len(ext)))
	s = append(s, ext...)
	verifP01Check(s)
}

// VerifP01List: a hello with up to three extensions of any relevant type, each
// holding up to two entries, with at most one length field off by any amount.
func VerifP01List() {
	maxLen := vsym.Param("LEN", 2)
	bad := vsym.Choose("bad", 5)
	delta := byte(0)
	if bad > 0 {
		delta = vsym.Byte("delta")
		vsym.Assume(vsym.Or(delta < 5, delta > 250))
	}
	var ext []byte
	n := vsym.Choose("extensions", 1+vsym.Param("EXTS", 2))
	for i := 0; i < n; i++ {
		typ := []byte{0, 16, 43}[vsym.Choose("type", 3)]
		var list []byte
		entries := vsym.Choose("entries", 3)
		for j := 0; j < entries; j++ {
			v := vsym.Bytes("value", 0, maxLen)
			l := byte(len(v))
			if bad == 1 && i == n-1 && j == entries-1 {
				l += delta
			}
			if typ == 0 {
				list = append(list, vsym.Byte("nametype"), 0)
			}
			list = append(list, l)
			list = append(list, v...)
		}
		ll, dl := byte(len(list)), byte(len(list)+2)
		if bad == 2 && i == n-1 {
			ll += delta
		}
		if bad == 3 && i == n-1 {
			dl += delta
		}
		ext = append(ext, 0, typ, 0, dl, 0, ll)
		ext = append(ext, list...)
	}
	m := 38 + 1 + 2 + 2 + 2 + 2 + len(ext)
	s := []byte{0x16, 3, 1, byte(m >> 8), byte(m), 1, 0, byte((m - 4) >> 8), byte(m - 4), 3, 3}
	s = append(s, make([]byte, 32)...)
	s = append(s, 0, 0, 2, 0x13, 1, 1, 0)
	el := byte(len(ext))
	if bad == 4 {
		el += delta
	}
	s = append(s, 0, el)
	s = append(s, ext...)
	s = append(s, vsym.Bytes("next", 0, 1)...)
	verifP01Check(s)
}

// VerifP01Tail: anything after extensions that were already understood.
func VerifP01Tail() {
	sni := []byte{0, 0, 0, 6, 0, 4, 0, 0, 1, 'n'}
	alpn := []byte{0, 16, 0, 5, 0, 3, 2, 'h', '2'}
	var ext []byte
	switch vsym.Choose("head", 4) {
	case 0:
		ext = append(ext, sni...)
	case 1:
		ext = append(ext, alpn...)
	case 2:
		ext = append(append(ext, sni...), alpn...)
	case 3:
		ext = append(append(ext, alpn...), sni...)
	}
	ext = append(ext, vsym.Bytes("tail", 0, vsym.Param("TAIL", 9))...)
	m := 38 + 1 + 2 + 2 + 2 + 2 + len(ext)
	s := []byte{0x16, 3, 1, byte(m >> 8), byte(m), 1, 0, byte((m - 4) >> 8), byte(m - 4), 3, 3}
	s = append(s, make([]byte, 32)...)
	s = append(s, 0, 0, 2, 0x13, 1, 1, 0)
	s = append(s, 0, byte(len(ext)))
	s = append(s, ext...)
	verifP01Check(s)
}

// VerifP01Prefix: a whole record body symbolic up to MAX bytes.
func VerifP01Prefix() {
	maxLen := vsym.Param("MAX", 54)
	body := vsym.Bytes("body", 0, 8)
	if vsym.Bool("long") {
		body = append(append([]byte{vsym.Byte("t"), 0, 0, vsym.Byte("hl"), 3, 3}, make([]byte, 32)...), vsym.Bytes("rest", 0, maxLen-38)...)
	}
	s := append([]byte{0x16, 3, 1, byte(len(body) >> 8), byte(len(body))}, body...)
	verifP01Check(s)
}

// VerifP01Header: arbitrary streams of up to 11 bytes, including the record header.
func VerifP01Header() {
	s := vsym.Bytes("stream", 0, 11)
	if len(s) >= 5 {
		lens := []int{0, 1, 2, 3, 4, 5, 6, 255, 256, 16383, 16384, 16385, 32768, 65535}
		l := lens[vsym.Choose("length", len(lens))]
		s[3], s[4] = byte(l>>8), byte(l)
	}
	verifP01Check(s)
}

// VerifP01Peek: any sequence of peeks and reads returns the stream in order.
func VerifP01Peek() {
	n := vsym.Param("N", 5)
	data := vsym.Bytes("data", 0, n)
	fc := &vfConn{name: "c", in: append([]byte(nil), data...), chunks: true}
	conn := netw.NewConn(fc)
	var got []byte
	ended := false
	for i := 0; i < 4; i++ {
		k := vsym.Choose("size", n) + 1
		buf := make([]byte, k)
		if vsym.Bool("peek") {
			m, err := conn.Peek(buf)
			left := data[len(got):]
			vsym.Assert(m == min(k, len(left)), "peek returns the bytes that are available")
			vsym.Assert((err != nil) == (len(left) < k), "peek fails exactly when the stream is too short")
			if m <= len(left) {
				vsym.Assert(bytes.Equal(buf[:m], left[:m]), "peek returns the next bytes")
			}
			if err != nil {
				vsym.Reach("short")
			}
			continue
		}
		m, err := conn.Read(buf)
		got = append(got, buf[:m]...)
		vsym.Assert(len(got) <= len(data), "no byte is duplicated")
		if len(got) > len(data) {
			return
		}
		if err != nil {
			ended = true
			vsym.Assert(len(got) == len(data), "no byte is lost")
		}
		vsym.Assert(conn.BytesReceived() == int64(len(got)), "bytes received equals bytes read")
	}
	if !ended {
		rest, _ := io.ReadAll(conn)
		got = append(got, rest...)
	}
	vsym.Assert(len(got) == len(data) && bytes.Equal(got, data), "reads deliver the whole stream in order")
	vsym.Reach("same")
}
