package main

import (
	"io"
	"net"
	"time"

	"github.com/zenazn/goji/graceful/listener"
	"verif/harness/sched"
	"verif/harness/sym"
)

// pcall is a call that reached the underlying connection.
type pcall struct {
	op   string
	data string
	when time.Time
}

// pconn is an underlying connection with arbitrary results.
type pconn struct {
	calls []pcall
	n     int
	err   error
}

func (c *pconn) did(op, data string, when time.Time) {
	c.calls = append(c.calls, pcall{op, data, when})
}

func (c *pconn) Read(b []byte) (int, error) {
	c.did("read", "", time.Time{})
	return copy(b, "r"), c.err
}
func (c *pconn) Write(b []byte) (int, error) {
	c.did("write", string(b), time.Time{})
	return c.n, c.err
}
func (c *pconn) Close() error                       { c.did("close", "", time.Time{}); return c.err }
func (c *pconn) LocalAddr() net.Addr                { return addr("here") }
func (c *pconn) RemoteAddr() net.Addr               { return addr("there") }
func (c *pconn) SetDeadline(t time.Time) error      { c.did("deadline", "", t); return c.err }
func (c *pconn) SetReadDeadline(t time.Time) error  { c.did("read deadline", "", t); return c.err }
func (c *pconn) SetWriteDeadline(t time.Time) error { c.did("write deadline", "", t); return c.err }

// plis hands out one connection or an error.
type plis struct {
	c      net.Conn
	err    error
	once   bool // err is returned by one Accept only
	closes int
}

func (l *plis) Accept() (net.Conn, error) {
	if err := l.err; err != nil {
		if l.once {
			l.err = nil
		}
		return nil, err
	}
	return l.c, nil
}
func (l *plis) Close() error   { l.closes++; return l.err }
func (l *plis) Addr() net.Addr { return addr("listening") }

// source yields its data and then its error.
type source struct {
	data string
	err  error
}

func (s *source) Read(b []byte) (int, error) {
	if s.data == "" {
		return 0, s.err
	}
	n := copy(b, s.data)
	s.data = s.data[n:]
	return n, nil
}

// tempErr is an error net/http retries after.
type tempErr struct{ temporary, timeout bool }

func (e *tempErr) Error() string   { return "temporary" }
func (e *tempErr) Timeout() bool   { return e.timeout }
func (e *tempErr) Temporary() bool { return e.temporary }

// C37Pass: any calls on a connection in any state and mode.
func C37Pass() {
	m := sym.Choice(3)
	p := &pconn{}
	l := &plis{c: p}
	t := wrap(l, m)
	for k := sym.Choice(3); k > 0; k-- {
		l.err = []error{errFault, &tempErr{sym.Bool(), sym.Bool()}, &net.OpError{Op: "accept", Err: errClosed}}[sym.Choice(3)]
		want := l.err
		l.once = true
		c, err := t.Accept()
		sym.Assert(c == nil && err == want, "an error of Accept is returned unchanged")
		sym.Reach("accept error")
	}
	l.err = nil
	sym.Assert(t.Addr() == addr("listening"), "Addr is that of the underlying listener")
	c, err := t.Accept()
	sym.Assert(err == nil && c != nil, "the connection is accepted")
	sym.Assert(len(p.calls) == 0, "accepting does not touch the connection")
	state := sym.Choice(5)
	switch state {
	case 1:
		listener.MarkInUse(c)
	case 2:
		sym.Assert(listener.Disown(c) == nil, "the connection is disowned")
	case 3:
		listener.MarkInUse(c)
		sched.Go(func() { t.Drain() })
		sched.AwaitIdle()
	case 4:
		listener.MarkInUse(c)
		listener.MarkIdle(c)
		listener.MarkInUse(c)
		t.CloseIdle()
	}
	sym.Assert(len(p.calls) == 0, "marking does not touch the connection")
	closed := false
	for k := sym.Param("steps", 3); k > 0; k-- {
		op := sym.Choice(8)
		if op == 0 {
			break
		}
		p.err = nil
		if sym.Choice(2) == 1 {
			p.err = errFault
		}
		sym.Assert(c.LocalAddr() == addr("here") && c.RemoteAddr() == addr("there"), "the addresses are those of the underlying connection")
		before := len(p.calls)
		name, data := "", ""
		var when time.Time
		if op >= 3 && op <= 5 && sym.Choice(2) == 1 {
			when = time.Unix(int64(sym.Int(0, 1<<30)), 0)
		}
		var err error
		switch op {
		case 1:
			name, data = "write", sym.String(0, 2)
			p.n = sym.Int(0, 2)
			sym.Assume(p.n <= len(data))
			var n int
			n, err = c.Write([]byte(data))
			sym.Assert(n == p.n, "Write returns the number of bytes written")
		case 2:
			rf, ok := c.(io.ReaderFrom)
			if !ok {
				continue
			}
			name, data = "write", sym.String(1, 2)
			end := []error{io.EOF, errClosed}[sym.Choice(2)]
			p.n = sym.Int(0, 2)
			sym.Assume(p.n <= len(data))
			n, e := rf.ReadFrom(&source{data, end})
			sym.Assert(n == int64(p.n), "ReadFrom returns the number of bytes written")
			switch {
			case p.err != nil:
				sym.Assert(e == p.err, "ReadFrom returns the error")
			case sym.Decide(p.n < len(data)):
				sym.Assert(e == io.ErrShortWrite, "ReadFrom reports a short write")
			case end == io.EOF:
				sym.Assert(e == nil, "ReadFrom ends at the end of the source")
			default:
				sym.Assert(e == end, "ReadFrom returns the error of the source")
			}
			err = p.err
			sym.Reach("readfrom")
		case 3:
			name = "deadline"
			err = c.SetDeadline(when)
		case 4:
			name = "write deadline"
			err = c.SetWriteDeadline(when)
		case 5:
			// in Deadline mode this is the end of a request
			if m == deadline && state == 3 {
				continue
			}
			name = "read deadline"
			err = c.SetReadDeadline(when)
		case 6:
			name = "close"
			err = c.Close()
			closed = true
		case 7:
			var b [2]byte
			n, e := c.Read(b[:])
			sym.Assert(n == 1 && b[0] == 'r' && e == p.err, "Read returns the results of the underlying connection")
			name, err = "read", e
		}
		sym.Assert(err == p.err, "the error is that of the underlying connection")
		sym.Assert(len(p.calls) == before+1, "each call reaches the underlying connection once")
		got := p.calls[before]
		sym.Assert(got.op == name && got.data == data && got.when == when, "the call reaches the underlying connection unchanged")
		if closed {
			break
		}
	}
	if closed {
		sym.Reach("closed")
	}
	l.err = []error{nil, errFault}[sym.Choice(2)]
	sym.Assert(t.Close() == l.err && l.closes == 1, "Close is passed on to the underlying listener")
	sym.Reach("done")
}
