package common

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

// vfConn is a net.Conn over an in-memory stream. Every Read delivers an
// arbitrary non-empty prefix of what is left (chunk > 0: at most chunk sizes
// are explored), then end-of-stream or an error.
type vfConn struct {
	name     string
	in       []byte
	endErr   error
	chunks   bool // arbitrary chunking of reads
	out      []byte
	closed   int
	closeW   int
	readEOF  bool
	local    net.Addr
	remote   net.Addr
	writeErr error
	reads    int
	onWrite  func([]byte)
	onClose  func()
	hold     chan struct{} // if set, reads wait here at the end of the input
}

func (c *vfConn) Read(b []byte) (int, error) {
	c.reads++
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 && c.hold != nil {
		<-c.hold
		if c.closed > 0 {
			return 0, net.ErrClosed
		}
		c.hold = nil
	}
	if len(c.in) == 0 {
		c.readEOF = true
		if c.endErr != nil {
			return 0, c.endErr
		}
		return 0, io.EOF
	}
	n := min(len(b), len(c.in))
	if c.chunks && n > 1 {
		n = 1 + vsym.Choose(c.name+".chunk", n)
	}
	copy(b, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *vfConn) Write(b []byte) (int, error) {
	if c.closed > 0 || c.closeW > 0 {
		return 0, net.ErrClosed
	}
	if c.writeErr != nil {
		return 0, c.writeErr
	}
	if c.onWrite != nil {
		c.onWrite(b)
	}
	c.out = append(c.out, b...)
	return len(b), nil
}

func (c *vfConn) Close() error {
	c.closed++
	if c.closed == 1 && c.hold != nil {
		close(c.hold)
	}
	if c.onClose != nil {
		c.onClose()
	}
	if c.closed > 1 {
		return net.ErrClosed
	}
	return nil
}

func (c *vfConn) CloseWrite() error {
	c.closeW++
	return nil
}

func (c *vfConn) LocalAddr() net.Addr {
	if c.local == nil {
		c.local = &net.TCPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 443}
	}
	return c.local
}

func (c *vfConn) RemoteAddr() net.Addr {
	if c.remote == nil {
		c.remote = &net.TCPAddr{IP: net.IPv4(198, 51, 100, 7), Port: 5555}
	}
	return c.remote
}

func (c *vfConn) SetDeadline(t time.Time) error      { return nil }
func (c *vfConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vfConn) SetWriteDeadline(t time.Time) error { return nil }

var errVF = errors.New("verif: injected failure")
