// Package main holds the harnesses of goji/bind.
package main

import (
	"errors"
	"net"
	"time"

	"github.com/zenazn/goji/bind"
	"verif/harness/hu"
	"verif/harness/sched"
	"verif/harness/sym"
	"verif/harness/venv"
)

func main() {
	sym.Main(map[string]func(){
		"C50Dispatch": C50Dispatch,
		"C51Default":  C51Default,
		"C52Sockets":  C52Sockets,
		"C53Ready":    C53Ready,
	})
}

type lis struct{ net.Listener }

var errRefused = errors.New("refused")

// socket calls f, which ends in a listener or a fatal error.
func socket(f func() net.Listener) (l net.Listener, fatal bool) {
	defer func() {
		if r := recover(); r != nil {
			_, ok := r.(venv.Exit)
			sym.Assert(ok, "errors are reported, not panicked")
			l, fatal = nil, true
		}
	}()
	return f(), false
}

// hooks installs operating system calls that succeed or fail.
func hooks(ok bool) net.Listener {
	l := &lis{}
	venv.ListenHook = func(string, string) (net.Listener, error) {
		if !ok {
			return nil, errRefused
		}
		return l, nil
	}
	venv.FileHook = func(int) (net.Listener, error) {
		if !ok {
			return nil, errRefused
		}
		return l, nil
	}
	venv.CatchFatal, venv.Started = true, true
	return l
}

// calls returns the calls made since the start, without flag registration and
// close-on-exec.
func calls() []venv.Call {
	var r []venv.Call
	for _, c := range venv.Calls {
		if c.Op != "flag" && c.Op != "cloexec" {
			r = append(r, c)
		}
	}
	return r
}

// expect states what binding s does outside Einhorn: the calls it makes.
func expect(s string) []venv.Call {
	for i := 0; i < len(s); i++ {
		if sym.Decide(s[i] == ':') {
			return []venv.Call{{Op: "listen", Net: "tcp", Addr: s}}
		}
	}
	if len(s) > 0 && sym.Decide(sym.Or(s[0] == '/', s[0] == '.')) {
		return []venv.Call{{Op: "listen", Net: "unix", Addr: s}}
	}
	if sym.Decide(hu.HasPrefix(s, "fd@")) {
		if n, ok := venv.Atoi(s[3:]); ok && n >= 0 {
			return []venv.Call{{Op: "newfile", Fd: n}, {Op: "filelistener", Fd: n}}
		}
		return nil
	}
	if sym.Decide(hu.HasPrefix(s, "einhorn@")) {
		if n, ok := venv.Atoi(s[8:]); ok {
			return einhorn(n)
		}
	}
	return nil
}

// count is the number of sockets the environment announces.
func count(pidVar, numVar string, pid int) int {
	if n, ok := venv.Atoi(venv.ForceEnv(pidVar)); !ok || n != pid {
		return 0
	}
	n, ok := venv.Atoi(venv.ForceEnv(numVar))
	if !ok || n < 0 {
		return 0
	}
	return n
}

func einhornCount() int { return count("EINHORN_MASTER_PID", "EINHORN_FD_COUNT", venv.PPid) }
func systemdCount() int { return count("LISTEN_PID", "LISTEN_FDS", venv.Pid) }

// einhorn states what binding einhorn@n does.
func einhorn(n int) []venv.Call {
	c := einhornCount()
	for i := 0; i < c; i++ {
		if sym.Decide(n == i) {
			fd, ok := venv.Atoi(venv.ForceEnv("EINHORN_FD_" + hu.Itoa(i)))
			if !ok || fd < 0 {
				return nil
			}
			return []venv.Call{{Op: "newfile", Fd: fd}, {Op: "filelistener", Fd: fd}}
		}
	}
	return nil
}

// verdict compares what happened with what should have.
func verdict(want []venv.Call, ok bool, l, got net.Listener, fatal bool) {
	c := calls()
	sym.Assert(len(c) == len(want), "exactly the documented calls are made")
	for i := range want {
		sym.Assert(c[i].Op == want[i].Op && c[i].Net == want[i].Net && c[i].Addr == want[i].Addr && c[i].Fd == want[i].Fd, "the address or descriptor is the documented one")
	}
	if len(want) == 0 {
		sym.Assert(fatal, "it is an error")
		sym.Reach("error")
		return
	}
	if !ok {
		sym.Assert(fatal, "a failure is an error")
		sym.Reach("failure")
		return
	}
	sym.Assert(!fatal && got == l, "the listener is returned")
	sym.Reach(want[0].Op + want[0].Net)
}

// C50Dispatch: any bind string.
func C50Dispatch() {
	n := sym.Param("len", 4)
	s := ""
	switch sym.Choice(4) {
	case 0:
		s = sym.String(0, n)
	case 1:
		s = "fd@" + sym.String(0, n)
	case 2:
		s = "einhorn@" + sym.String(0, n-1)
	case 3:
		s = sym.String(1, 1) + "d@" + sym.String(0, 1)
	}
	sym.Observe("bind", s)
	ok := sym.Choice(2) == 0
	l := hooks(ok)
	got, fatal := socket(func() net.Listener { return bind.Socket(s) })
	verdict(expect(s), ok, l, got, fatal)
}

// C51Default: any environment, with and without a flag.
func C51Default() {
	l := hooks(true)
	def := ":8000"
	if sym.Choice(2) == 1 {
		def = sym.String(0, 2)
		bind.DefaultBind = def
	}
	want := ""
	switch {
	case sym.Decide(venv.ForceEnv("GOJI_BIND") != ""):
		want = venv.Env("GOJI_BIND")
		sym.Reach("GOJI_BIND")
	case einhornCount() > 0:
		want = "einhorn@0"
		sym.Reach("einhorn")
	case systemdCount() > 0:
		want = "fd@3"
		sym.Reach("systemd")
	case sym.Decide(venv.ForceEnv("PORT") != ""):
		want = ":" + venv.Env("PORT")
		sym.Reach("PORT")
	}
	sym.Assert(bind.Sniff() == want, "Sniff returns the documented address")
	if want == "" {
		want = def
		sym.Reach("default")
	}
	bind.WithFlag()
	sym.Assert(venv.FlagVar != nil && venv.FlagDef == want, "the flag's default is the documented address")
	nflags := 0
	for _, c := range venv.Calls {
		if c.Op == "flag" {
			sym.Assert(c.Addr == "bind", "the flag is named bind")
			nflags++
		}
	}
	sym.Assert(nflags == 1, "one flag is added")
	if sym.Choice(2) == 1 {
		venv.FlagSet, venv.Flag = true, ":1"
		want = ":1"
	}
	venv.Parse()
	got, fatal := socket(bind.Default)
	verdict(expect(want), true, l, got, fatal)
}

// C52Sockets: any announcement of inherited sockets.
func C52Sockets() {
	l := hooks(true)
	want := map[int]int{}
	e, s := einhornCount(), systemdCount()
	for i := 0; i < e; i++ {
		fd, ok := venv.Atoi(venv.ForceEnv("EINHORN_FD_" + hu.Itoa(i)))
		sym.Assert(ok, "a badly named socket is a fatal error")
		want[fd]++
	}
	for i := 0; i < s; i++ {
		want[3+i]++
	}
	for _, c := range venv.Calls {
		if c.Op == "cloexec" {
			sym.Assert(want[c.Fd] > 0, "only announced descriptors are made close-on-exec")
		}
	}
	for fd := range want {
		ok := false
		for _, c := range venv.Calls {
			ok = ok || c.Op == "cloexec" && c.Fd == fd
		}
		sym.Assert(ok, "every announced descriptor is made close-on-exec")
	}
	n := []string{"0", "1", "2", "3", "9", "-1", "07", "x", "10", "12", "a"}[sym.Choice(11)]
	b := "einhorn@" + n
	got, fatal := socket(func() net.Listener { return bind.Socket(b) })
	verdict(expect(b), true, l, got, fatal)
	if e > 0 {
		sym.Reach("einhorn")
	}
	if s > 0 {
		sym.Reach("systemd")
	}
}

type ctl struct {
	got    string
	closed bool
}

func (c *ctl) Write(b []byte) (int, error) {
	sched.Point()
	sym.Assert(!c.closed, "nothing is written after the close")
	c.got += string(b)
	return len(b), nil
}
func (c *ctl) Close() error                       { sched.Point(); c.closed = true; return nil }
func (c *ctl) Read(b []byte) (int, error)         { return 0, errRefused }
func (c *ctl) LocalAddr() net.Addr                { return nil }
func (c *ctl) RemoteAddr() net.Addr               { return nil }
func (c *ctl) SetDeadline(t time.Time) error      { return nil }
func (c *ctl) SetReadDeadline(t time.Time) error  { return nil }
func (c *ctl) SetWriteDeadline(t time.Time) error { return nil }

// C53Ready: several goroutines announce readiness.
func C53Ready() {
	hooks(true)
	c := &ctl{}
	var addr string
	dials := 0
	venv.DialHook = func(network, a string) (net.Conn, error) {
		dials++
		sym.Assert(network == "unix", "the control socket is a UNIX socket")
		addr = a
		return c, nil
	}
	under := einhornCount() > 0
	n := sym.Param("goroutines", 2)
	done := 0
	for i := 0; i < n; i++ {
		sched.Go(func() {
			for k := 0; k < sym.Param("each", 1); k++ {
				bind.Ready()
				if under {
					sym.Assert(compact(c.got) == `{"command":"worker:ack","pid":4242}`, "when Ready returns, one acknowledgement has been sent")
				}
			}
			done++
		})
	}
	sched.Await(func() bool { return done == n })
	if !under {
		sym.Assert(dials == 0, "nothing is sent outside Einhorn")
		sym.Reach("outside")
		return
	}
	sym.Assert(dials == 1 && addr == venv.ForceEnv("EINHORN_SOCK_PATH"), "one acknowledgement is sent to the socket Einhorn named")
	sym.Assert(c.closed && c.got[len(c.got)-1] == '\n', "the acknowledgement is completed")
	sym.Reach("acknowledged")
}

// compact removes white space.
func compact(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\n' {
			r += s[i : i+1]
		}
	}
	return r
}
