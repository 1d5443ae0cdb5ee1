package main

import (
	"net"
	"os"
	"syscall"
	"time"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"
	"verif/harness/sched"
	"verif/harness/sym"
	"verif/harness/venv"
)

// C40Hooks: several shutdowns of any kind with hooks, listeners, connections
// in use and waiters.
func C40Hooks() {
	npre, npost, nl := sym.Param("pre", 2), sym.Param("post", 2), sym.Param("listeners", 1)
	var ls []*flis
	var fs []*fconn
	pre, post := 0, 0
	manual, signalled := false, false
	okSig := func(s os.Signal) bool {
		return s == nil && manual || s == os.Interrupt && signalled
	}
	var first os.Signal
	for i := 0; i < npre; i++ {
		hook := func(s os.Signal) {
			sched.Point()
			sym.Assert(pre == i, "every PreHook runs once, in order")
			pre++
			for _, l := range ls {
				sym.Assert(!l.closed, "PreHooks run before any listener is closed")
			}
			sym.Assert(post == 0, "PreHooks run before PostHooks")
			if i%2 == 0 {
				sym.Assert(okSig(s), "the hook receives the signal that caused the shutdown")
				sym.Assert(i == 0 || s == first, "all PreHooks receive the same signal")
				first = s
			}
		}
		if i%2 == 0 {
			graceful.PreHookWithSignal(hook)
		} else {
			graceful.PreHook(func() { hook(nil) })
		}
	}
	finished := func() bool {
		for _, l := range ls {
			if !l.closed {
				return false
			}
		}
		for _, f := range fs {
			if f.closes == 0 {
				return false
			}
		}
		return true
	}
	for i := 0; i < npost; i++ {
		hook := func(s os.Signal) {
			sched.Point()
			sym.Assert(pre == npre, "PostHooks run after the PreHooks")
			sym.Assert(post == i, "every PostHook runs once, in order")
			post++
			sym.Assert(finished(), "PostHooks run after every listener is closed and drained")
			if i%2 == 0 {
				sym.Assert(okSig(s), "the hook receives the signal that caused the shutdown")
			}
		}
		if i%2 == 0 {
			graceful.PostHookWithSignal(hook)
		} else {
			graceful.PostHook(func() { hook(nil) })
		}
	}
	kicks := make([]int, sym.Param("kicks", 2))
	for i := range kicks {
		kicks[i] = sym.Choice(3)
	}
	inUse := make([]bool, nl)
	for i := range inUse {
		inUse[i] = sym.Choice(2) == 1
	}
	done, total := 0, 0
	var cs []net.Conn
	for i := 0; i < nl; i++ {
		l := &flis{}
		ls = append(ls, l)
		var w net.Listener
		if i == 1 {
			w = graceful.WrapListener(listener.Wrap(l, listener.Automatic))
		} else {
			w = graceful.WrapListener(l)
		}
		f := &fconn{id: i}
		fs = append(fs, f)
		l.queue = append(l.queue, f)
		c, err := w.Accept()
		sym.Assert(err == nil, "a connection is accepted")
		cs = append(cs, c)
	}
	graceful.HandleSignals()
	sched.Begin()
	for i, c := range cs {
		if inUse[i] {
			fs[i].reads = []rres{{data: "x"}}
			var b [1]byte
			c.Read(b[:])
			total++
			sched.Go(func() {
				sched.Point()
				c.Close()
				done++
			})
		}
	}
	for _, k := range kicks {
		total++
		sched.Go(func() {
			switch k {
			case 0:
				manual = true
				graceful.Shutdown()
				sym.Assert(finished(), "Shutdown returns after everything is closed")
			case 1:
				manual = true
				graceful.ShutdownNow()
				sym.Assert(finished(), "ShutdownNow returns after everything is closed")
			case 2:
				signalled = true
				venv.Deliver(os.Interrupt)
			}
			done++
		})
	}
	graceful.Wait()
	sym.Assert(pre == npre && post == npost && finished(), "Wait returns after the shutdown is complete")
	sched.Await(func() bool { return done == total })
	graceful.Wait()
	if sym.Param("idle", 1) != 0 {
		sched.AwaitIdle()
	}
	sym.Assert(pre == npre && post == npost, "every hook runs once")
	for _, f := range fs {
		sym.Assert(f.closes == 1, "every connection is closed once")
	}
	if manual && signalled {
		sym.Reach("mixed")
	}
	sym.Reach("done")
}

// C41Signals: two or three signals arrive at arbitrary times.
func C41Signals() {
	maxNS := 1 << 20
	w := sym.Int(0, maxNS)
	windows := sym.Choice(3)
	if windows == 1 {
		graceful.DoubleKickWindow(time.Duration(maxNS)) // overridden
	}
	graceful.DoubleKickWindow(time.Duration(w))
	if windows == 2 {
		graceful.DoubleKickWindow(-time.Duration(sym.Int(1, maxNS)))
	}
	if sym.Choice(2) == 1 {
		// a timeout that does not expire here
		graceful.Timeout(time.Duration(sym.Int(4*maxNS, 8*maxNS)))
		sym.Reach("timeout")
	}
	sig := []os.Signal{os.Interrupt, syscall.SIGUSR2, syscall.SIGTERM}[sym.Choice(3)]
	switch sig {
	case os.Interrupt:
		graceful.HandleSignals()
	case syscall.SIGTERM:
		graceful.AddSignal(syscall.SIGHUP, syscall.SIGTERM)
	}
	if sym.Choice(4) == 3 {
		graceful.ResetSignals()
		venv.Deliver(sig)
		sched.AwaitIdle()
		graceful.PreHook(func() { sym.Assert(false, "no shutdown after ResetSignals") })
		sched.AwaitIdle()
		sym.Reach("reset")
		return
	}
	l := &flis{}
	f := &fconn{}
	l.queue = []*fconn{f, {id: 1}}
	idle := l.queue[1]
	t := graceful.WrapListener(l)
	c, _ := t.Accept()
	t.Accept()
	listener.MarkInUse(c)
	n := sym.Param("signals", 2)
	forced := false
	started := false
	last := 0
	for i := 0; i < n; i++ {
		at := sym.Int(0, maxNS)
		sym.Assume(at >= last)
		venv.Clock = time.Duration(at)
		got := venv.Deliver(sig)
		sym.Assert(got == (sig != syscall.SIGUSR2), "exactly the requested signals are handled")
		if got {
			if i > 0 && sym.Decide(sym.And(w != 0, at-last < w)) {
				forced = true
			}
			started = true
		}
		last = at
		sched.AwaitIdle()
		sym.Assert(l.closed == started, "a signal shuts the listener down")
		sym.Assert(idle.closes > 0 == started, "a signal closes idle connections")
		sym.Assert(f.closes > 0 == forced, "connections in use are closed exactly when a signal follows another within the window")
		if forced {
			sym.Reach("forced")
			return
		}
	}
	if started {
		sym.Reach("graceful")
	} else {
		sym.Reach("ignored")
	}
}

// C41Timeout: an arbitrary timeout after a signal.
func C41Timeout() {
	maxNS := 1 << 20
	d := sym.Int(0, maxNS)
	if sym.Choice(2) == 1 {
		graceful.Timeout(time.Duration(sym.Int(0, maxNS)))
	}
	graceful.Timeout(time.Duration(d))
	if sym.Choice(2) == 1 {
		graceful.Timeout(-time.Duration(sym.Int(1, maxNS)))
	}
	l := &flis{}
	f := &fconn{}
	l.queue = []*fconn{f}
	t := graceful.WrapListener(l)
	c, _ := t.Accept()
	listener.MarkInUse(c)
	graceful.HandleSignals()
	at := sym.Int(0, maxNS)
	venv.Clock = time.Duration(at)
	manual := sym.Choice(2) == 1
	if manual {
		sched.Go(graceful.Shutdown)
	} else {
		venv.Deliver(os.Interrupt)
	}
	sched.AwaitIdle()
	sym.Assert(l.closed && f.closes == 0, "the shutdown starts gracefully")
	if manual {
		sym.Assert(venv.Pending() == 0, "the timeout applies to signals")
		sym.Reach("manual")
		return
	}
	if sym.Decide(d == 0) {
		sym.Assert(venv.Pending() == 0, "no timeout is set")
		sym.Reach("none")
	} else {
		fired := false
		switch sym.Choice(2) {
		case 0:
			for venv.Advance() {
				sched.AwaitIdle()
				fired = true
			}
			sym.Assert(fired && f.closes == 1, "connections are closed by force after the timeout")
			sym.Assert(venv.Clock == time.Duration(at+d), "they are closed when the timeout expires")
			sym.Reach("expired")
			return
		default:
			c.Close()
			graceful.Wait()
			for venv.Advance() {
				sched.AwaitIdle()
			}
			sym.Reach("in time")
			return
		}
	}
	c.Close()
	graceful.Wait()
}
