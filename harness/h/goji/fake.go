package main

import (
	"errors"
	"net"
	"time"

	"verif/harness/sched"
)

var errClosed = errors.New("fake: closed")
var errFault = errors.New("fake: fault")

// fconn is an underlying connection. It records what it is told.
type fconn struct {
	id     int
	closes int
	dead   []time.Time
	// onClose is told of every Close.
	onClose func()
	// reads is what Read returns, in order; then it blocks until closed.
	reads    []rres
	closeErr error
	wrote    []byte
}

type rres struct {
	data string
	err  error
}

func (c *fconn) Read(b []byte) (int, error) {
	sched.Point()
	if c.closes > 0 {
		return 0, errClosed
	}
	if len(c.reads) == 0 {
		sched.Await(func() bool { return c.closes > 0 })
		return 0, errClosed
	}
	r := c.reads[0]
	c.reads = c.reads[1:]
	return copy(b, r.data), r.err
}

func (c *fconn) Write(b []byte) (int, error) {
	if c.closes > 0 {
		return 0, errClosed
	}
	c.wrote = append(c.wrote, b...)
	return len(b), nil
}

func (c *fconn) Close() error {
	sched.Point()
	c.closes++
	if c.onClose != nil {
		c.onClose()
	}
	return c.closeErr
}

func (c *fconn) LocalAddr() net.Addr                { return addr("local") }
func (c *fconn) RemoteAddr() net.Addr               { return addr("remote") }
func (c *fconn) SetDeadline(t time.Time) error      { return nil }
func (c *fconn) SetWriteDeadline(t time.Time) error { return nil }
func (c *fconn) SetReadDeadline(t time.Time) error {
	c.dead = append(c.dead, t)
	if c.closes > 0 {
		return errClosed
	}
	return nil
}

type addr string

func (a addr) Network() string { return "fake" }
func (a addr) String() string  { return string(a) }

// flis is an underlying listener with a queue of connections.
type flis struct {
	queue  []*fconn
	closed bool
	closes int
	faults int // number of Accepts that fail first
}

func (l *flis) Accept() (net.Conn, error) {
	sched.Await(func() bool { return len(l.queue) > 0 || l.closed || l.faults > 0 })
	if l.faults > 0 {
		l.faults--
		return nil, errFault
	}
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "fake", Addr: addr("listener"), Err: net.ErrClosed}
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	return c, nil
}

func (l *flis) Close() error {
	sched.Point()
	l.closes++
	l.closed = true
	return nil
}

func (l *flis) Addr() net.Addr { return addr("listener") }

var _ net.Listener = &flis{}
