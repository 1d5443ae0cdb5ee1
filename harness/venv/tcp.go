package venv

import (
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"verif/harness/sched"
)

// TCPListener stands for net.TCPListener in instrumented code. It hands out
// the connections in Queue and then blocks until it is closed.
type TCPListener struct {
	Queue  []*TCPConn
	Err    error // what Accept fails with once the queue is empty, if not nil
	Closes int
}

type tcpAddr string

func (a tcpAddr) Network() string { return "tcp" }
func (a tcpAddr) String() string  { return string(a) }

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	sched.Await(func() bool { return len(l.Queue) > 0 || l.Closes > 0 || l.Err != nil })
	switch {
	case l.Closes > 0:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
	case len(l.Queue) > 0:
		c := l.Queue[0]
		l.Queue = l.Queue[1:]
		return c, nil
	}
	return nil, l.Err
}

func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) Close() error {
	sched.Point()
	l.Closes++
	return nil
}
func (l *TCPListener) Addr() net.Addr                        { return tcpAddr("listening") }
func (l *TCPListener) SetDeadline(time.Time) error           { return nil }
func (l *TCPListener) File() (*os.File, error)               { return nil, ErrEnv }
func (l *TCPListener) SyscallConn() (syscall.RawConn, error) { return nil, ErrEnv }

// TCPConn stands for net.TCPConn.
type TCPConn struct {
	KeepAlive bool
	Period    time.Duration
	OptErr    error // what setting an option fails with
	Closes    int
}

var errTCPClosed = errors.New("venv: closed")

func (c *TCPConn) SetKeepAlive(on bool) error {
	if c.OptErr == nil {
		c.KeepAlive = on
	}
	return c.OptErr
}

func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error {
	if c.OptErr == nil {
		c.Period = d
	}
	return c.OptErr
}

func (c *TCPConn) SetKeepAliveConfig(k net.KeepAliveConfig) error {
	if c.OptErr == nil {
		c.KeepAlive, c.Period = k.Enable, k.Idle
	}
	return c.OptErr
}

func (c *TCPConn) Read(b []byte) (int, error) {
	sched.Await(func() bool { return c.Closes > 0 })
	return 0, errTCPClosed
}
func (c *TCPConn) Write(b []byte) (int, error)           { return len(b), nil }
func (c *TCPConn) ReadFrom(r io.Reader) (int64, error)   { return io.Copy(io.Discard, r) }
func (c *TCPConn) Close() error                          { sched.Point(); c.Closes++; return nil }
func (c *TCPConn) CloseRead() error                      { return nil }
func (c *TCPConn) CloseWrite() error                     { return nil }
func (c *TCPConn) LocalAddr() net.Addr                   { return tcpAddr("here") }
func (c *TCPConn) RemoteAddr() net.Addr                  { return tcpAddr("there") }
func (c *TCPConn) SetDeadline(time.Time) error           { return nil }
func (c *TCPConn) SetReadDeadline(time.Time) error       { return nil }
func (c *TCPConn) SetWriteDeadline(time.Time) error      { return nil }
func (c *TCPConn) SetNoDelay(bool) error                 { return nil }
func (c *TCPConn) SetLinger(int) error                   { return nil }
func (c *TCPConn) SetReadBuffer(int) error               { return nil }
func (c *TCPConn) SetWriteBuffer(int) error              { return nil }
func (c *TCPConn) File() (*os.File, error)               { return nil, ErrEnv }
func (c *TCPConn) SyscallConn() (syscall.RawConn, error) { return nil, ErrEnv }
