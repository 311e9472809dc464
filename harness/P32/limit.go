//verif:pkg proxy/internal/netw
//verif:hook golang.org/x/time/rate (*Limiter).WaitN
//verif:unit name=limit entry=VerifP32Limit share=1 reach=refused,read,write q.OPS=3 t.OPS=5
//verif:assume rate.Limiter admits bytes at the configured rate: (*Limiter).WaitN is replaced by a recorder that refuses what exceeds the burst, or fails
package netw

import (
	"context"
	"errors"
	"io"
	"net"
	"time"

	"github.com/quic-go/quic-go"
	"golang.org/x/time/rate"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

var errVFLimit = errors.New("verif: limited")

type vfLimited struct {
	quic.Connection
	ctx     context.Context
	calls   int
	in, out int
}

func (s *vfLimited) Read(b []byte) (int, error) {
	s.calls++
	n := vsym.Int("n", 0, len(b))
	s.in += n
	return n, nil
}

func (s *vfLimited) Write(b []byte) (int, error) {
	s.calls++
	n := vsym.Int("n", 0, len(b))
	s.out += n
	return n, nil
}
func (s *vfLimited) Close() error                     { return nil }
func (s *vfLimited) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (s *vfLimited) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (s *vfLimited) SetDeadline(time.Time) error      { return nil }
func (s *vfLimited) SetReadDeadline(time.Time) error  { return nil }
func (s *vfLimited) SetWriteDeadline(time.Time) error { return nil }
func (s *vfLimited) StreamID() quic.StreamID          { return 0 }
func (s *vfLimited) CancelRead(quic.StreamErrorCode)  {}
func (s *vfLimited) CancelWrite(quic.StreamErrorCode) {}
func (s *vfLimited) Context() context.Context         { return s.ctx }

// Nothing goes through a limited connection before, or beyond what, its
// limiter of that direction allows.
func VerifP32Limit() {
	ingress, egress := rate.NewLimiter(1000, 1<<17), rate.NewLimiter(2000, 1<<17)
	var allowed [2]int
	refuse := false
	rate.VerifHook_Limiter_WaitN = func(l *rate.Limiter, ctx context.Context, n int) error {
		vsym.Assert(l == ingress || l == egress, "waits for another limiter")
		vsym.Assert(ctx != nil, "no context")
		if refuse {
			return errVFLimit
		}
		if l == ingress {
			allowed[0] += n
		} else {
			allowed[1] += n
		}
		return nil
	}
	raw := &vfLimited{ctx: context.Background()}
	var rw io.ReadWriter
	switch vsym.Choose("kind", 3) {
	case 0:
		c := NewConn(raw)
		c.SetLimiters(ingress, egress)
		rw = c
	case 1, 2:
		qc := newQUICConn(raw)
		qc.SetLimiters(ingress, egress)
		s := qc.WrapConn(raw)
		rw = s
		if vsym.Bool("inner") {
			rw = s.Conn
		}
	}
	for i := 0; i < vsym.Param("OPS", 3); i++ {
		refuse = vsym.Bool("refuse")
		b := make([]byte, vsym.Choose("len", 4)*100)
		calls := raw.calls
		if vsym.Bool("write") {
			vsym.Reach("write")
			n, err := rw.Write(b)
			if refuse && len(b) > 0 {
				vsym.Reach("refused")
				vsym.Assert(err != nil && n == 0 && raw.calls == calls, "writes what the limiter refuses")
			}
		} else {
			vsym.Reach("read")
			n, err := rw.Read(b)
			if refuse && len(b) > 0 {
				vsym.Assert(err != nil && n == 0, "returns what the limiter refuses")
			}
		}
		vsym.Assert(raw.in <= allowed[0] || refuse, "more is read than the ingress limiter allowed")
		vsym.Assert(raw.out <= allowed[1], "more is written than the egress limiter allowed")
	}
}
