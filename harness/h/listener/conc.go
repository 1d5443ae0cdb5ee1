package main

import (
	"net"
	"time"

	"github.com/zenazn/goji/graceful/listener"
	"verif/harness/sched"
	"verif/harness/sym"
)

// user is one goroutine's view of a connection it was handed.
type user struct {
	c        net.Conn
	f        *fconn
	m        int
	inUse    bool // known to be in use: the last call that changed it returned
	finished bool // closed or disowned by the user
	disowned bool
	data     int
	leaving  bool // a call of Disown was made; it may not have returned yet
}

// step performs one of the calls a user may make.
func (u *user) step(op int) {
	switch op {
	case 1:
		u.f.reads = append(u.f.reads, rres{data: "x"})
		var b [1]byte
		n, err := u.c.Read(b[:])
		if err == nil && n > 0 {
			u.data++
			if u.m != manual {
				u.inUse = true
			}
		}
		sym.Assert(err != nil || n == 1 && b[0] == 'x', "the data is passed through")
		sym.Assert(err == nil || n == 0, "a failed read has no data")
	case 2:
		u.inUse = false
		listener.MarkIdle(u.c)
	case 3:
		listener.MarkInUse(u.c)
		if u.f.closes == 0 {
			u.inUse = true
		}
	case 4:
		if u.m == deadline {
			u.inUse = false
		}
		u.c.SetReadDeadline(time.Unix(1, 0))
	case 5:
		u.inUse, u.finished = false, true
		u.c.Close()
	case 6:
		u.inUse, u.leaving = false, true
		if listener.Disown(u.c) == nil {
			u.disowned = true
			sym.Assert(u.f.closes == 0, "Disown succeeds on open connections only")
		}
		u.finished = true
	}
}

func newUser(m int, c net.Conn, f *fconn) *user { return &user{c: c, f: f, m: m} }

// C30Use: a user works with each connection while others call CloseIdle and
// Drain. A connection known to be in use must not be closed.
func C30Use() {
	m := sym.Choice(3)
	n := sym.Param("conns", 1)
	t, _, cs, fs := open(m, n)
	steps := sym.Param("steps", 3)
	done := 0
	for i := range cs {
		u := newUser(m, cs[i], fs[i])
		u.f.onClose = func() {
			sym.Assert(!u.inUse, "a connection in use is not closed")
			sym.Assert(!u.disowned, "a disowned connection is not closed")
			sym.Assert(u.f.closes <= 1, "a connection is closed once")
		}
		ops := make([]int, steps)
		for k := range ops {
			ops[k] = 1 + sym.Choice(4)
		}
		sched.Go(func() {
			for _, op := range ops {
				u.step(op)
			}
			if u.data > 0 && u.f.closes > 0 {
				sym.Reach("closed after use")
			}
			if u.inUse {
				sym.Reach("in use")
			}
			u.step(5)
			done++
		})
	}
	for k := 0; k < sym.Param("sweeps", 1); k++ {
		sched.Go(func() { t.CloseIdle(); done++ })
		n++
	}
	if sym.Param("drain", 1) != 0 {
		sched.Go(func() { t.Drain(); done++ })
		n++
	}
	sched.Await(func() bool { return done == n })
	for _, f := range fs {
		sym.Assert(f.closes == 1, "every connection is closed once")
	}
}

// C31Drain: connections are used, finished and accepted while Drain runs.
func C31Drain() {
	m := sym.Choice(3)
	n := sym.Param("conns", 1)
	late := sym.Param("late", 1)
	t, l, cs, fs := open(m, n)
	if sym.Choice(2) == 1 {
		skip(t, l)
	}
	steps := sym.Param("steps", 2)
	done, total := 0, n
	var out []*user // every connection handed out
	for i := range cs {
		u := newUser(m, cs[i], fs[i])
		out = append(out, u)
		ops := make([]int, 0, steps+1)
		for k := 0; k < steps; k++ {
			op := sym.Choice(7)
			if op == 0 {
				break
			}
			ops = append(ops, op)
		}
		last := []int{2, 5, 6}[sym.Choice(3)]
		sched.Go(func() {
			for _, op := range ops {
				u.step(op)
				if u.finished {
					done++
					return
				}
			}
			u.step(3)
			u.step(last)
			done++
		})
	}
	drained, started := false, false
	if late > 0 {
		total++
		sched.Go(func() {
			for i := 0; i < late; i++ {
				f := &fconn{id: 10 + i}
				began, was := started, drained
				l.queue = append(l.queue, f)
				c, err := t.Accept()
				if began {
					sym.Reach("late accept")
				}
				sym.Assert(!drained || err != nil || f.closes == 1, "no open connection is handed out after Drain has returned")
				sym.Assert(!was || err != nil, "no connection is handed out after Drain has returned")
				if err != nil {
					sym.Assert(c == nil && f.closes == 1, "a refused connection is closed")
					continue
				}
				// nobody uses it: it stays idle
				out = append(out, newUser(m, c, f))
			}
			done++
		})
	}
	total++
	sched.Go(func() {
		started = true
		t.Drain()
		drained = true
		for _, u := range out {
			sym.Assert(u.f.closes > 0 || u.leaving, "when Drain returns, every connection was closed or disowned")
		}
		done++
	})
	sched.Await(func() bool { return done == total })
	for _, u := range out {
		sym.Assert(u.f.closes == 1 || u.disowned, "every connection is closed once or disowned")
		sym.Assert(!u.disowned || u.f.closes == 0, "a disowned connection is not closed")
	}
	sym.Reach("drained")
}

// C32Calls: two goroutines make arbitrary calls on one connection while a
// third closes idle connections or drains.
func C32Calls() {
	m := sym.Choice(3)
	t, _, cs, fs := open(m, 1)
	steps := sym.Param("steps", 1)
	u := fs[0]
	done := 0
	oks := 0
	closes, disowns := 0, 0
	if sym.Param("busy", 0) != 0 {
		listener.MarkInUse(cs[0])
	}
	for g := 0; g < sym.Param("goroutines", 2); g++ {
		ops := make([]int, steps)
		for k := range ops {
			ops[k] = sym.Choice(6)
		}
		sched.Go(func() {
			for _, op := range ops {
				switch op {
				case 0:
					var b [1]byte
					u.reads = append(u.reads, rres{data: "x"})
					cs[0].Read(b[:])
				case 1:
					listener.MarkIdle(cs[0])
				case 2:
					listener.MarkInUse(cs[0])
				case 3:
					cs[0].SetReadDeadline(time.Unix(1, 0))
				case 4:
					if cs[0].Close() == nil {
						closes++
					}
				case 5:
					if listener.Disown(cs[0]) == nil {
						disowns++
						oks++
					}
				}
			}
			done++
		})
	}
	end := sym.Choice(3)
	sched.Go(func() {
		switch end {
		case 0:
			t.CloseIdle()
		case 1:
			t.Drain()
		case 2:
			t.DrainAll()
		}
		done++
	})
	n := sym.Param("goroutines", 2) + 1
	sched.Await(func() bool {
		// a drain may have to wait for a connection left in use
		return done == n || end == 1 && done == n-1
	})
	if done < n && u.closes == 0 && disowns == 0 {
		// Drain waits for this connection, or is about to close it. With
		// the connection gone already, nothing is left to wait for: if
		// Drain does not return by itself, that is a deadlock.
		sym.Reach("waiting")
		cs[0].Close()
	}
	sched.Await(func() bool { return done == n })
	sym.Assert(disowns <= 1, "Disown succeeds once")
	if disowns == 0 {
		sym.Assert(u.closes <= 1 && closes <= 1, "a managed connection is closed at most once")
	}
	// the listener can still be drained, whatever happened before
	if disowns == 0 && u.closes == 0 {
		listener.MarkIdle(cs[0])
	}
	t.Drain()
	t.DrainAll()
	if disowns == 0 {
		sym.Assert(u.closes == 1, "the connection is closed in the end")
	}
	sym.Reach("done")
}

// C33Disown: Disown races with CloseIdle, Drain and DrainAll; afterwards the
// connection belongs to whoever disowned it.
func C33Disown() {
	m := sym.Choice(3)
	t, _, cs, fs := open(m, 1)
	c, f := cs[0], fs[0]
	if sym.Choice(2) == 1 {
		listener.MarkInUse(c)
	}
	owned := false
	mine := false
	f.onClose = func() {
		sym.Assert(!owned || mine, "a disowned connection is closed only by its owner")
	}
	done, total := 0, 1
	sched.Go(func() {
		err := listener.Disown(c)
		if err != nil {
			sym.Assert(f.closes == 1, "Disown fails on closed connections only")
			sym.Reach("closed first")
			done++
			return
		}
		sym.Assert(f.closes == 0, "Disown succeeds on open connections only")
		owned = true
		f.reads = []rres{{sym.String(1, 2), nil}, {"", errFault}}
		want := f.reads[0].data
		var b [2]byte
		n, err := c.Read(b[:])
		sym.Assert(err == nil && string(b[:n]) == want, "reads pass through")
		listener.MarkIdle(c)
		_, err = c.Read(b[:])
		sym.Assert(err == errFault, "read errors pass through")
		sym.Assert(c.SetReadDeadline(time.Unix(2, 0)) == nil && len(f.dead) == 1, "deadlines pass through")
		sym.Assert(listener.Disown(c) != nil, "disowning again is an error")
		mine = true
		f.closeErr = errFault
		sym.Assert(c.Close() == errFault && f.closes == 1, "the owner's Close passes through")
		sym.Assert(c.Close() == errFault && f.closes == 2, "the owner's Close passes through")
		sym.Reach("owned")
		done++
	})
	for k := 0; k < sym.Param("sweeps", 1); k++ {
		op := sym.Choice(3)
		total++
		sched.Go(func() {
			switch op {
			case 0:
				t.CloseIdle()
			case 1:
				t.Drain()
			case 2:
				t.DrainAll()
			}
			done++
		})
	}
	sched.Await(func() bool { return done == total })
	t.DrainAll()
}

// C34All: DrainAll runs while connections are used, closed, disowned and
// accepted.
func C34All() {
	m := sym.Choice(3)
	n := sym.Param("conns", 1)
	late := sym.Param("late", 1)
	t, l, cs, fs := open(m, n)
	if sym.Choice(2) == 1 {
		skip(t, l)
	}
	done, total := 0, n
	var out []*user
	drained := false
	for i := range cs {
		u := newUser(m, cs[i], fs[i])
		if sym.Choice(2) == 1 {
			u.f.closeErr = errFault
		}
		out = append(out, u)
		var ops []int
		for k := 0; k < sym.Param("steps", 1); k++ {
			op := sym.Choice(7)
			if op == 0 {
				break
			}
			ops = append(ops, op)
		}
		sched.Go(func() {
			for _, op := range ops {
				u.step(op)
				if u.finished {
					break
				}
			}
			done++
		})
	}
	for i := 0; i < late; i++ {
		total++
		f := &fconn{id: 10 + i}
		l.queue = append(l.queue, f)
		sched.Go(func() {
			was := drained
			c, err := t.Accept()
			sym.Assert(!was || err != nil, "no connection is handed out after DrainAll")
			if err != nil {
				sym.Assert(c == nil && f.closes == 1, "a refused connection is closed")
				sym.Reach("refused")
			} else {
				out = append(out, newUser(m, c, f))
			}
			done++
		})
	}
	total++
	sched.Go(func() {
		t.DrainAll()
		drained = true
		for _, u := range out {
			sym.Assert(u.f.closes > 0 || u.leaving, "when DrainAll returns, every connection was closed or disowned")
		}
		done++
	})
	sched.Await(func() bool { return done == total })
	for _, u := range out {
		sym.Assert(u.disowned && u.f.closes == 0 || !u.disowned && u.f.closes == 1, "every connection is closed once or disowned")
	}
	sym.Reach("drained")
}

// C35Read: a read races with Close, CloseIdle, Drain, DrainAll or Disown.
func C35Read() {
	m := sym.Choice(3)
	t, _, cs, fs := open(m, 1)
	c, f := cs[0], fs[0]
	if sym.Choice(2) == 1 {
		listener.MarkInUse(c)
	}
	data := sym.String(1, 2)
	f.reads = []rres{{data: data}}
	op := sym.Choice(5)
	closedAt := false // the connection was closed when the read returned
	disowned := false
	done := 0
	use := false
	f.onClose = func() {
		if op == 1 || op == 2 {
			sym.Assert(!use, "a connection in use is not closed")
		}
	}
	sched.Go(func() {
		var b [4]byte
		n, err := c.Read(b[:])
		closedAt = f.closes > 0
		if closedAt && !disowned {
			sym.Assert(n == 0 && err != nil, "a read that completes after the close yields nothing")
			sym.Reach("closed")
		} else if err == nil {
			sym.Assert(string(b[:n]) == data, "the data is passed through")
			use = m != manual && !disowned
			sym.Reach("read")
		} else {
			sym.Assert(n == 0, "a failed read has no data")
		}
		if !closedAt && op != 0 && op != 3 {
			sym.Assert(err == nil || f.closes > 0 || disowned, "reads of open connections pass through")
		}
		done++
		// let a drain finish
		use = false
		if op == 1 || op == 2 {
			c.Close()
		}
	})
	sched.Go(func() {
		switch op {
		case 0:
			sym.Assert(c.Close() == nil, "closing succeeds")
		case 1:
			t.CloseIdle()
		case 2:
			t.Drain()
		case 3:
			t.DrainAll()
		case 4:
			sym.Assert(listener.Disown(c) == nil, "disowning succeeds")
			disowned = true
		}
		done++
	})
	sched.Await(func() bool { return done == 2 })
}

// C35Results: whatever the underlying read yields is passed through.
func C35Results() {
	m := sym.Choice(3)
	_, _, cs, fs := open(m, 1)
	c, f := cs[0], fs[0]
	size := sym.Int(0, 3)
	b := make([]byte, size)
	for k := 0; k < 2; k++ {
		r := rres{data: sym.String(0, 2)}
		if sym.Bool() {
			r.err = errFault
		}
		if len(r.data) > size {
			r.data = r.data[:size]
		}
		f.reads = append(f.reads, r)
		n, err := c.Read(b)
		sym.Assert(n == len(r.data) && string(b[:n]) == r.data, "the data is passed through")
		sym.Assert(err == r.err, "the error is passed through")
	}
	n, err := c.Write([]byte("out"))
	sym.Assert(n == 3 && err == nil && string(f.wrote) == "out", "writes are passed through")
	sym.Assert(c.LocalAddr() == addr("local") && c.RemoteAddr() == addr("remote"), "addresses are passed through")
	sym.Reach("done")
}
