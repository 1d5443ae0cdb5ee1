package main

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/zenazn/goji/graceful/listener"
	"verif/harness/sched"
	"verif/harness/sym"
	"verif/harness/vatomic"
)

var errClosed = errors.New("fake: closed")
var errFault = errors.New("fake: fault")

// fconn is an underlying connection. It records what it is told.
type fconn struct {
	id     int
	closes int
	dead   []time.Time
	// onClose is told of every Close.
	onClose func()
	// reads is what Read returns, in order; then it blocks until closed.
	reads    []rres
	closeErr error
	deadErr  error
	wrote    []byte
}

type rres struct {
	data string
	err  error
}

func (c *fconn) Read(b []byte) (int, error) {
	sched.Point()
	if c.closes > 0 {
		return 0, errClosed
	}
	if len(c.reads) == 0 {
		sched.Await(func() bool { return c.closes > 0 })
		return 0, errClosed
	}
	r := c.reads[0]
	c.reads = c.reads[1:]
	return copy(b, r.data), r.err
}

func (c *fconn) Write(b []byte) (int, error) {
	if c.closes > 0 {
		return 0, errClosed
	}
	c.wrote = append(c.wrote, b...)
	return len(b), nil
}

func (c *fconn) Close() error {
	sched.Point()
	c.closes++
	if c.onClose != nil {
		c.onClose()
	}
	return c.closeErr
}

func (c *fconn) LocalAddr() net.Addr                { return addr("local") }
func (c *fconn) RemoteAddr() net.Addr               { return addr("remote") }
func (c *fconn) SetDeadline(t time.Time) error      { return nil }
func (c *fconn) SetWriteDeadline(t time.Time) error { return nil }
func (c *fconn) SetReadDeadline(t time.Time) error {
	c.dead = append(c.dead, t)
	if c.closes > 0 {
		return errClosed
	}
	return c.deadErr
}

type addr string

func (a addr) Network() string { return "fake" }
func (a addr) String() string  { return string(a) }

// flis is an underlying listener with a queue of connections.
type flis struct {
	queue  []*fconn
	closed bool
	closes int
	faults int // number of Accepts that fail first
}

func (l *flis) Accept() (net.Conn, error) {
	sched.Await(func() bool { return len(l.queue) > 0 || l.closed || l.faults > 0 })
	if l.faults > 0 {
		l.faults--
		return nil, errFault
	}
	if l.closed {
		return nil, errClosed
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	return c, nil
}

func (l *flis) Close() error {
	sched.Point()
	l.closes++
	l.closed = true
	return nil
}

func (l *flis) Addr() net.Addr { return addr("listener") }

var _ net.Listener = &flis{}
var _ = io.EOF

const (
	manual = iota
	automatic
	deadline
)

// wrap wraps l in mode m.
func wrap(l net.Listener, m int) *listener.T {
	switch m {
	case manual:
		return listener.Wrap(l, listener.Manual)
	case automatic:
		return listener.Wrap(l, listener.Automatic)
	}
	return listener.Wrap(l, listener.Deadline)
}

// open makes a listener in mode m with n accepted connections.
func open(m, n int) (*listener.T, *flis, []net.Conn, []*fconn) {
	l := &flis{}
	t := wrap(l, m)
	if sym.Param("far", 0) != 0 {
		// any number of connections came and went before
		vatomic.Jump(sym.Uint64())
		skip(t, l)
		vatomic.Jump(0)
	}
	var cs []net.Conn
	var fs []*fconn
	for i := 0; i < n; i++ {
		f := &fconn{id: i}
		l.queue = append(l.queue, f)
		c, err := t.Accept()
		sym.Assert(err == nil && c != nil, "a connection is accepted")
		cs, fs = append(cs, c), append(fs, f)
	}
	return t, l, cs, fs
}

// skip accepts and closes a connection, so that the next one may be kept with
// the first.
func skip(t *listener.T, l *flis) {
	l.queue = append(l.queue, &fconn{id: 20})
	c, err := t.Accept()
	sym.Assert(err == nil && c.Close() == nil, "a connection is accepted and closed")
}
