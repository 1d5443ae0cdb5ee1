package main

import (
	"net"
	"net/http"
	"os"
	"time"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"
	"verif/harness/sched"
	"verif/harness/sym"
	"verif/harness/venv"
)

// C47All: any mixture of listeners, then a shutdown.
func C47All() {
	n := sym.Param("listeners", 2)
	ls := make([]*flis, n)
	fs := make([]*fconn, n)
	cs := make([]net.Conn, n)
	busy := make([]bool, n)
	served := make([]bool, n)
	ended := make([]bool, n)
	venv.ServeHook = func(s *http.Server, l net.Listener) error {
		i := s.MaxHeaderBytes
		for {
			c, err := l.Accept()
			if err != nil {
				return err
			}
			cs[i] = c
		}
	}
	for i := range ls {
		ls[i], fs[i] = &flis{}, &fconn{id: i}
		ls[i].queue = []*fconn{fs[i]}
		kind := sym.Choice(5)
		switch kind {
		case 4:
			served[i] = true
			srv := &graceful.Server{MaxHeaderBytes: i}
			sched.Go(func() {
				sym.Assert(srv.Serve(ls[i]) == nil, "the shutdown ends Serve")
				ended[i] = true
			})
			sched.AwaitIdle()
		case 3:
			cs[i], _ = graceful.WrapListener(ls[i]).Accept()
		default:
			t := [](*listener.T){listener.Wrap(ls[i], listener.Manual), listener.Wrap(ls[i], listener.Automatic), listener.Wrap(ls[i], listener.Deadline)}[kind]
			w := graceful.WrapListener(t)
			sym.Assert(w == net.Listener(t), "a wrapped listener is not wrapped again")
			cs[i], _ = w.Accept()
		}
		sym.Assert(cs[i] != nil, "the connection is accepted")
		// the mode the connection is tracked in
		switch sym.Choice(3) {
		case 1:
			var b [1]byte
			fs[i].reads = []rres{{data: "x"}}
			k, err := cs[i].Read(b[:])
			sym.Assert(k == 1 && err == nil, "the connection can be read")
			busy[i] = kind != 0
		case 2:
			listener.MarkInUse(cs[i])
			if sym.Decide(sym.Int(0, 255) > 9) {
				cs[i].SetReadDeadline(time.Unix(1, 0))
				busy[i] = kind == 0 || kind == 1 || kind == 4
			} else {
				busy[i] = true
			}
		}
	}
	for i := range ls {
		sym.Assert(!ls[i].closed && fs[i].closes == 0, "nothing is closed before the shutdown")
	}
	force := sym.Choice(2) == 1
	down := false
	sched.Go(func() {
		if force {
			graceful.ShutdownNow()
		} else {
			graceful.Shutdown()
		}
		down = true
	})
	sched.AwaitIdle()
	open := 0
	for i := range ls {
		sym.Assert(ls[i].closed, "every listener is closed")
		sym.Assert(ended[i] == served[i], "Serve returns")
		if busy[i] && !force {
			sym.Assert(fs[i].closes == 0, "connections in use are not closed")
			open++
		} else {
			sym.Assert(fs[i].closes == 1, "every other connection is closed")
		}
	}
	sym.Assert(down == (open == 0), "the shutdown waits for the connections in use of every listener")
	for i := range ls {
		if busy[i] && !force {
			sym.Assert(!down, "the shutdown waits for all of them")
			cs[i].Close()
			sched.AwaitIdle()
			sym.Reach("waited")
		}
	}
	sym.Assert(down, "the shutdown ends")
	graceful.Wait()
	sym.Reach("done")
}

// C47Race: listeners and hooks are registered by several goroutines.
func C47Race() {
	n := sym.Param("goroutines", 2)
	hooks := sym.Param("hooks", 1) != 0
	ls := make([]*flis, n)
	pre, post := make([]int, n), make([]int, n)
	what := make([]int, n)
	for i := range ls {
		ls[i] = &flis{}
		what[i] = sym.Choice(3)
		if !hooks {
			what[i] = 0
		}
	}
	done := make([]bool, n)
	sched.Begin()
	for i := range ls {
		sched.Go(func() {
			switch what[i] {
			case 0:
				graceful.WrapListener(ls[i])
			case 1:
				graceful.PreHookWithSignal(func(os.Signal) { pre[i]++ })
			case 2:
				graceful.PostHook(func() { post[i]++ })
			}
			done[i] = true
		})
	}
	for i := range done {
		sched.Await(func() bool { return done[i] })
	}
	graceful.Shutdown()
	for i := range ls {
		sym.Assert(ls[i].closed == (what[i] == 0), "no listener is lost")
		sym.Assert(pre[i] == 0 && what[i] != 1 || pre[i] == 1 && what[i] == 1, "no PreHook is lost")
		sym.Assert(post[i] == 0 && what[i] != 2 || post[i] == 1 && what[i] == 2, "no PostHook is lost")
	}
	sym.Reach("done")
}

// C47During: something is registered while a shutdown goes on.
func C47During() {
	l, late := &flis{}, &flis{}
	graceful.WrapListener(l)
	what := sym.Choice(3)
	begun, first, ran, returned := false, false, 0, false
	sched.Begin()
	sched.Go(func() {
		switch what {
		case 0:
			graceful.WrapListener(late)
		case 1:
			graceful.PreHook(func() { ran++ })
		case 2:
			graceful.PostHook(func() { ran++ })
		}
		first = !begun
		returned = true
	})
	sched.Point()
	begun = true
	graceful.Shutdown()
	sym.Assert(l.closed, "a listener registered before the shutdown is closed")
	sched.Await(func() bool { return returned })
	if first {
		sym.Assert(late.closed == (what == 0) && ran == min(what, 1), "what was registered before the shutdown is covered")
		sym.Reach("before")
	} else {
		sym.Assert(ran <= 1, "a hook runs at most once")
		sym.Reach("during")
	}
}
