//verif:pkg proxy/internal/netw
//verif:unit name=conn entry=VerifP26Conn share=3 reach=peek,read,write,error q.OPS=3 t.OPS=4 q.LEN=2 t.LEN=3
//verif:unit name=quic entry=VerifP26QUIC share=2 reach=read,write,error q.OPS=2 t.OPS=3 q.LEN=2 t.LEN=2
//verif:unit name=conc entry=VerifP26Conc share=2 reach=done q.PRE=2 t.PRE=3
//verif:assume the underlying connection is any io.Reader and io.Writer: every call transfers any number of bytes up to the buffer's size and may return an error with it
package netw

import (
	"context"
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/quic-go/quic-go"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/counter"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

var errVFNet = errors.New("verif: injected failure")

// vfStream is both a net.Conn and a quic.Stream.
type vfStream struct {
	id     quic.StreamID
	ctx    context.Context
	in     []byte
	pos    int
	fetch  int64 // bytes handed out
	sent   int64 // bytes taken
	eof    bool
	symw   bool
	failed bool
	closed bool
}

func (s *vfStream) Read(b []byte) (int, error) {
	left := len(s.in) - s.pos
	n := vsym.Choose("read.n", min(len(b), left)+1)
	copy(b, s.in[s.pos:s.pos+n])
	s.pos += n
	s.fetch += int64(n)
	if vsym.Bool("read.err") {
		s.failed = true
		return n, errVFNet
	}
	if n == 0 && len(b) > 0 {
		s.failed = true
		return 0, io.EOF
	}
	return n, nil
}

func (s *vfStream) Write(b []byte) (int, error) {
	n := vsym.Int("write.n", 0, len(b))
	s.sent += int64(n)
	if vsym.Bool("write.err") {
		s.failed = true
		return n, errVFNet
	}
	return n, nil
}

func (s *vfStream) Close() error                     { s.closed = true; return nil }
func (s *vfStream) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (s *vfStream) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (s *vfStream) SetDeadline(time.Time) error      { return nil }
func (s *vfStream) SetReadDeadline(time.Time) error  { return nil }
func (s *vfStream) SetWriteDeadline(time.Time) error { return nil }
func (s *vfStream) StreamID() quic.StreamID          { return s.id }
func (s *vfStream) CancelRead(quic.StreamErrorCode)  {}
func (s *vfStream) CancelWrite(quic.StreamErrorCode) {}
func (s *vfStream) Context() context.Context         { return s.ctx }

func vfCounter() *counter.Counter { return counter.New(time.Minute, time.Second) }

func VerifP26Conn() {
	in := vsym.Bytes("in", 3, 3)
	s := &vfStream{in: append([]byte(nil), in...)}
	c := NewConn(s)
	var us, ur *counter.Counter
	if vsym.Bool("counters") {
		us, ur = vfCounter(), vfCounter()
		c.SetCounters(us, ur)
	}
	var got []byte
	var read, wrote int64
	maxLen := vsym.Param("LEN", 3)
	for i := 0; i < vsym.Param("OPS", 3); i++ {
		b := make([]byte, vsym.Choose("len", maxLen+1))
		before := s.sent
		switch vsym.Choose("op", 3) {
		case 0:
			vsym.Reach("peek")
			n, err := c.Peek(b)
			vsym.Assert(n >= 0 && n <= len(b) && (n == len(b)) == (err == nil), "peek: count and error")
			vsym.Assert(len(got)+n <= len(in) && string(b[:n]) == string(in[len(got):len(got)+n]), "peek returns other data than what comes next")
		case 1:
			vsym.Reach("read")
			n, err := c.Read(b)
			vsym.Assert(n >= 0 && n <= len(b), "read: count")
			if err != nil {
				vsym.Reach("error")
				vsym.Assert(s.failed, "read: error invented")
			}
			got = append(got, b[:n]...)
			read += int64(n)
		case 2:
			vsym.Reach("write")
			n, err := c.Write(b)
			vsym.Assert(int64(n) == s.sent-before, "write: count")
			if err != nil {
				vsym.Assert(s.failed, "write: error invented")
			}
			wrote += int64(n)
		}
		vsym.Assert(c.BytesReceived() == read, "bytes received are not the bytes read")
		vsym.Assert(c.BytesSent() == wrote, "bytes sent are not the bytes written")
		if us != nil {
			vsym.Assert(ur.Value() == read && us.Value() == wrote, "server totals are not the bytes transferred")
		}
	}
	vsym.Assert(len(got) <= len(in) && string(got) == string(in[:len(got)]), "the bytes read are not the bytes received")
	vsym.Assert(c.BytesReceived() <= s.fetch, "more bytes reported than arrived")
}

type vfQConn struct {
	quic.Connection
	ctx  context.Context
	next []*vfStream
}

func (q *vfQConn) Context() context.Context { return q.ctx }
func (q *vfQConn) AcceptStream(context.Context) (quic.Stream, error) {
	s := q.next[0]
	q.next = q.next[1:]
	return s, nil
}
func (q *vfQConn) OpenStreamSync(context.Context) (quic.Stream, error) { return q.AcceptStream(nil) }
func (q *vfQConn) OpenStream() (quic.Stream, error)                    { return q.AcceptStream(nil) }
func (q *vfQConn) AcceptUniStream(context.Context) (quic.ReceiveStream, error) {
	return q.AcceptStream(nil)
}
func (q *vfQConn) OpenUniStreamSync(context.Context) (quic.SendStream, error) {
	return q.AcceptStream(nil)
}
func (q *vfQConn) OpenUniStream() (quic.SendStream, error) { return q.AcceptStream(nil) }

// The counts of a QUIC connection are the sums over its streams, directly used
// or wrapped.
func VerifP26QUIC() {
	ctx := context.Background()
	in := vsym.Bytes("in", 3, 3)
	raw := []*vfStream{{id: 0, ctx: ctx, in: append([]byte(nil), in...)}, {id: 4, ctx: ctx, in: append([]byte(nil), in...)}}
	qc := newQUICConn(&vfQConn{ctx: ctx, next: raw})
	us, ur := vfCounter(), vfCounter()
	qc.SetCounters(us, ur)
	var rw [2]io.ReadWriter
	var canRead, canWrite [2]bool
	for i := range rw {
		var s any
		var err error
		// The peer's and our own bidirectional and unidirectional streams.
		kind := 0
		if i == 1 {
			kind = vsym.Choose("kind", 6)
		}
		canRead[i], canWrite[i] = true, true
		switch kind {
		case 0:
			s, err = qc.AcceptStream(ctx)
		case 1:
			s, err = qc.OpenStreamSync(ctx)
		case 2:
			s, err = qc.OpenStream()
		case 3:
			s, err = qc.AcceptUniStream(ctx)
			canWrite[i] = false
		case 4:
			s, err = qc.OpenUniStreamSync(ctx)
			canRead[i] = false
		case 5:
			s, err = qc.OpenUniStream()
			canRead[i] = false
		}
		vsym.Assert(err == nil, "stream not opened")
		if vsym.Bool("wrap") {
			s = qc.WrapConn(s)
		}
		rw[i] = s.(io.ReadWriter)
	}
	var read, wrote int64
	maxLen := vsym.Param("LEN", 2)
	for i := 0; i < vsym.Param("OPS", 4); i++ {
		k := vsym.Choose("stream", 2)
		b := make([]byte, vsym.Choose("len", maxLen)+1)
		before := raw[0].sent + raw[1].sent
		if vsym.Bool("write") {
			vsym.Reach("write")
			n, err := rw[k].Write(b)
			vsym.Assert(int64(n) == raw[0].sent+raw[1].sent-before, "write: count")
			if err != nil {
				vsym.Reach("error")
			}
			vsym.Assert(canWrite[k] || n == 0 && err != nil, "write on a receive-only stream")
			wrote += int64(n)
		} else {
			vsym.Reach("read")
			pos := raw[k].pos
			n, err := rw[k].Read(b)
			vsym.Assert(canRead[k] || n == 0 && err != nil, "read on a send-only stream")
			vsym.Assert(raw[k].pos == pos+n && string(b[:n]) == string(in[pos:pos+n]), "the bytes read are not the bytes received")
			read += int64(n)
		}
		vsym.Assert(qc.BytesReceived() == read, "bytes received are not the bytes read")
		vsym.Assert(qc.BytesSent() == wrote, "bytes sent are not the bytes written")
		vsym.Assert(ur.Value() == read && us.Value() == wrote, "server totals are not the bytes transferred")
	}
}

// A reader and a writer of two connections of one server, in every order.
func VerifP26Conc() {
	us, ur := vfCounter(), vfCounter()
	var c [2]*Conn
	var s [2]*vfSimple
	for i := range c {
		s[i] = &vfSimple{}
		c[i] = NewConn(s[i])
		c[i].SetCounters(us, ur)
	}
	r0, r1 := vsym.Int("r0", 1, 1<<30), vsym.Int("r1", 1, 1<<30)
	w0, w1 := vsym.Int("w0", 1, 1<<30), vsym.Int("w1", 1, 1<<30)
	s[0].rn, s[0].wn, s[1].rn, s[1].wn = r0, w0, r1, w1
	vsym.DetectRaces()
	vsym.Explore(vsym.Param("PRE", 2))
	var wg sync.WaitGroup
	wg.Add(4)
	for i := range c {
		go func() { defer wg.Done(); c[i].Read(nil) }()
		go func() { defer wg.Done(); c[i].Write(nil); c[i].ByteRateSent() }()
	}
	wg.Wait()
	vsym.Reach("done")
	vsym.Assert(ur.Value() == int64(r0)+int64(r1) && us.Value() == int64(w0)+int64(w1), "server totals lost a transfer")
	vsym.Assert(c[0].BytesReceived() == int64(r0) && c[0].BytesSent() == int64(w0), "first connection")
	vsym.Assert(c[1].BytesReceived() == int64(r1) && c[1].BytesSent() == int64(w1), "second connection")
}

type vfSimple struct {
	vfStream
	rn, wn int
}

func (s *vfSimple) Read([]byte) (int, error)  { return s.rn, nil }
func (s *vfSimple) Write([]byte) (int, error) { return s.wn, nil }
