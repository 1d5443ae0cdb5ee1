package main

import (
	"os"
	"syscall"

	"github.com/zenazn/goji/graceful"
	"verif/harness/sched"
	"verif/harness/sym"
	"verif/harness/venv"
)

// C45Signals: any sequence of calls that configure the signals, then any signal.
func C45Signals() {
	venv.Started = true
	sched.AwaitIdle()
	master, ok := venv.Atoi(venv.Env("EINHORN_MASTER_PID"))
	underEinhorn := ok && master == venv.PPid
	if sym.Param("env", 0) != 0 {
		sym.Assert(venv.EnvRead("EINHORN_MASTER_PID"), "Einhorn is looked for")
	}
	sig := syscall.Signal(sym.Int(1, 64))
	// the application has a use of its own for a signal
	own := syscall.Signal(sym.Int(1, 64))
	app := make(chan os.Signal, 1)
	venv.Notify(app, own)
	// handled is whether sig is in the set
	handled := false
	for k := sym.Param("steps", 3); k > 0; k-- {
		op := sym.Choice(6)
		if op == 0 {
			break
		}
		switch op {
		case 1:
			graceful.HandleSignals()
			handled = sym.Or(handled, sig == os.Interrupt)
			if underEinhorn {
				handled = sym.Or(handled, sig == syscall.SIGUSR2)
				sym.Reach("einhorn")
			}
		case 2:
			s := syscall.Signal(sym.Int(1, 64))
			graceful.AddSignal(s)
			handled = sym.Or(handled, sig == s)
		case 3:
			s, t := syscall.Signal(sym.Int(1, 64)), syscall.Signal(sym.Int(1, 64))
			graceful.AddSignal(s, t)
			handled = sym.Or(handled, sym.Or(sig == s, sig == t))
		case 4:
			graceful.ResetSignals()
			handled = false
			sym.Reach("reset")
		case 5:
			graceful.AddSignal()
			sym.Reach("none")
		}
	}
	l := &flis{}
	graceful.WrapListener(l)
	var got os.Signal
	pre := 0
	graceful.PreHookWithSignal(func(s os.Signal) { got = s; pre++ })
	returned := false
	sched.Go(func() { graceful.Wait(); returned = true })
	venv.Deliver(sig)
	sym.Assert((len(app) == 1) == sym.Decide(own == sig), "the application still gets the signals it asked for")
	sched.AwaitIdle()
	if sym.Decide(handled) {
		sym.Assert(pre == 1 && l.closed && returned, "a configured signal shuts down")
		sym.Assert(got == os.Signal(sig), "the hooks receive the signal")
		sym.Reach("shutdown")
	} else {
		sym.Assert(pre == 0 && !l.closed && !returned, "no other signal does")
		sym.Reach("ignored")
	}
}
