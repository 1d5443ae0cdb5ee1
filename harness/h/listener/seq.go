package main

import (
	"io"
	"net"
	"strings"
	"time"

	"github.com/zenazn/goji/graceful/listener"
	"verif/harness/sched"
	"verif/harness/sym"
)

// state is the reference model of one connection.
type state struct {
	busy, closed, disowned bool
}

// Seq applies an arbitrary sequence of calls, in one goroutine, to a few
// connections and compares each effect with the documented rules. With the
// parameter "end" it finishes with Drain (1) or DrainAll (2).
func Seq() {
	m := sym.Choice(3)
	n := sym.Param("conns", 2)
	t, l, cs, fs := open(m, n)
	st := make([]state, n)
	if sym.Param("faults", 1) != 0 && sym.Choice(2) == 1 {
		for _, f := range fs {
			f.closeErr, f.deadErr = errFault, errFault
		}
	}
	other := &fconn{id: 99}
	steps := sym.Param("steps", 4)
	check := func() {
		for i, f := range fs {
			want := 0
			if st[i].closed {
				want = 1
			}
			if !st[i].disowned {
				sym.Assert(f.closes == want, "a managed connection is closed exactly when documented, and once")
			}
		}
		sym.Assert(other.closes == 0, "foreign connections are left alone")
	}
	ops := 7
	if sym.Param("idle", 1) != 0 {
		ops = 8
	}
	if sym.Param("others", 0) != 0 {
		ops = 9
	}
	for s := 0; s < steps; s++ {
		op := sym.Choice(ops + 1)
		if op == 0 {
			break
		}
		if op == 8 {
			sym.Assert(t.CloseIdle() == nil, "CloseIdle succeeds")
			for i := range st {
				if !st[i].busy && !st[i].disowned {
					st[i].closed = true
				}
			}
			sym.Reach("closeidle")
			check()
			continue
		}
		i := sym.Choice(n)
		c, f, x := cs[i], fs[i], &st[i]
		switch op {
		case 1, 2: // a read that yields data or fails
			var buf [2]byte
			r := rres{data: sym.String(1, 2)}
			if op == 2 {
				r = rres{"", errFault}
				if sym.Choice(2) == 1 {
					r.data = "z" // the last bytes, together with the error
				}
			}
			f.reads = []rres{r}
			k, err := c.Read(buf[:])
			f.reads = nil
			if f.closes > 0 {
				sym.Assert(k == 0 && err != nil, "reading a closed connection fails")
				break
			}
			sym.Assert(string(buf[:k]) == r.data && err == r.err, "the read is passed through")
			if m != manual && !x.disowned {
				x.busy = true
			}
		case 3:
			sym.Assert(listener.MarkIdle(c) == nil, "MarkIdle knows the connection")
			x.busy = false
		case 4:
			sym.Assert(listener.MarkInUse(c) == nil, "MarkInUse knows the connection")
			x.busy = true
		case 5:
			when := time.Unix(int64(sym.Int(0, 1000)), 0)
			if sym.Choice(2) == 1 {
				when = time.Time{} // no deadline
			}
			nd := len(f.dead)
			err := c.SetReadDeadline(when)
			sym.Assert(f.closes > 0 || err == f.deadErr, "the deadline is passed through")
			sym.Assert(len(f.dead) == nd+1 && f.dead[nd] == when, "the deadline is passed through")
			if m == deadline && !x.disowned {
				x.busy = false
			}
		case 6:
			was := f.closes
			err := c.Close()
			if x.disowned {
				sym.Assert(f.closes == was+1 && err == f.closeErr, "closing a disowned connection passes through")
			} else if x.closed {
				sym.Assert(err != nil, "closing again is an error")
				sym.Reach("close again")
			} else {
				sym.Assert(err == f.closeErr, "closing succeeds")
				x.closed = true
			}
		case 7:
			err := listener.Disown(c)
			if x.disowned || x.closed {
				sym.Assert(err != nil, "disowning again is an error")
				sym.Reach("disown again")
			} else {
				sym.Assert(err == nil, "disowning succeeds")
				x.disowned = true
			}
		case 9: // calls that say nothing about idleness
			switch sym.Choice(5) {
			case 0:
				c.Write([]byte("w"))
			case 1:
				if rf, ok := c.(io.ReaderFrom); ok {
					rf.ReadFrom(strings.NewReader(sym.String(0, 1)))
				}
			case 2:
				c.SetWriteDeadline(time.Unix(1, 0))
			case 3:
				c.SetDeadline(time.Unix(1, 0))
			case 4:
				c.LocalAddr()
				c.RemoteAddr()
			}
			sym.Reach("other")
		}
		check()
	}
	sym.Assert(listener.MarkIdle(other) != nil && listener.MarkInUse(other) != nil && listener.Disown(other) != nil, "foreign connections are refused")
	sym.Assert(listener.Disown(nil) != nil && listener.MarkIdle((net.Conn)(nil)) != nil, "nil is refused")
	closes := make([]int, n)
	for i := range fs {
		closes[i] = fs[i].closes
	}
	open := 0
	end := sym.Param("end", 1)
	for i := range st {
		if !st[i].closed && !st[i].disowned && (st[i].busy && end == 1) {
			open++
		}
	}
	returned := false
	sched.Go(func() {
		if end == 1 {
			t.Drain()
		} else {
			t.DrainAll()
		}
		returned = true
	})
	sched.AwaitIdle()
	for i := range st {
		if !st[i].disowned && (!st[i].busy || end == 2) {
			st[i].closed = true
		}
	}
	check()
	sym.Assert(returned == (open == 0), "draining returns exactly when no connection is open")
	// the rest are finished in one of the documented ways
	for i := range st {
		if st[i].closed || st[i].disowned {
			continue
		}
		sym.Assert(!returned, "draining waits for every connection")
		switch k := sym.Choice(3); {
		case k == 0:
			listener.MarkIdle(cs[i])
			st[i].closed = true
		case k == 1:
			cs[i].Close()
			st[i].closed = true
		default:
			listener.Disown(cs[i])
			st[i].disowned = true
		}
		check()
		sched.AwaitIdle()
	}
	sym.Assert(returned, "draining returns once no connection is open")
	for i := range st {
		if st[i].disowned {
			sym.Assert(fs[i].closes == closes[i], "draining does not close disowned connections")
		}
	}
	// later connections are not handed out
	f := &fconn{id: 50}
	l.queue = append(l.queue, f)
	c, err := t.Accept()
	sym.Assert(c == nil && err != nil, "a drained listener hands out no connection")
	sym.Assert(f.closes == 1, "a connection accepted after draining is closed")
	sym.Assert(!l.closed, "draining does not close the listener")
	sym.Assert(t.Close() == nil && l.closed && t.Addr() == addr("listener"), "Close and Addr are passed on")
	sym.Reach("drained")
}
