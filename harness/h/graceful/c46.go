package main

import (
	"errors"
	"net"
	"net/http"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"
	"verif/harness/sched"
	"verif/harness/sym"
	"verif/harness/venv"
)

// C46Listen: each way to start serving TCP, any address.
func C46Listen() {
	addr := sym.String(0, 2)
	kind := sym.Choice(6)
	l := &venv.TCPListener{}
	n := sym.Param("conns", 2)
	for i := 0; i < n; i++ {
		c := &venv.TCPConn{}
		if sym.Choice(2) == 1 {
			c.OptErr = errFault
		}
		l.Queue = append(l.Queue, c)
	}
	all := append([]*venv.TCPConn(nil), l.Queue...)
	fails := sym.Choice(4) // nothing, binding, accepting, the certificate
	if fails == 2 {
		l.Err = errors.New("accept fails")
	}
	venv.ListenHook = func(network, a string) (net.Listener, error) {
		if fails == 1 {
			return nil, errFault
		}
		return l, nil
	}
	if fails == 3 {
		venv.KeyPairErr = errFault
	}
	h := http.NewServeMux()
	calls := 0
	var cs []net.Conn
	venv.ServeHook = func(s *http.Server, x net.Listener) error {
		calls++
		sym.Assert(s.Handler == http.Handler(h), "the handler is served")
		for {
			c, err := x.Accept()
			if err != nil {
				sym.Assert(c == nil, "an error comes without a connection")
				return err
			}
			cs = append(cs, c)
		}
	}
	srv := &graceful.Server{Addr: addr, Handler: h}
	var err error
	returned := false
	sched.Go(func() {
		switch kind {
		case 0:
			err = graceful.ListenAndServe(addr, h)
		case 1:
			err = srv.ListenAndServe()
		case 2:
			err = graceful.ListenAndServeTLS(addr, "cert", "key", h)
		case 3:
			err = srv.ListenAndServeTLS("cert", "key")
		case 4:
			err = graceful.Serve(l, h)
		case 5:
			err = srv.Serve(l)
		}
		returned = true
	})
	sched.AwaitIdle()
	sym.Assert(srv.Addr == addr && srv.TLSConfig == nil && srv.ConnState == nil, "the caller's server is not modified")
	tls := kind == 2 || kind == 3
	if fails == 3 && tls {
		sym.Assert(returned && err == errFault && calls == 0, "an error of the certificate is returned")
		sym.Assert(len(venv.Calls) == 0 || fails == 1 || l.Closes > 0, "no address stays bound")
		sym.Reach("certificate")
		return
	}
	if kind < 4 {
		want := addr
		if sym.Decide(addr == "") {
			want = map[bool]string{false: ":http", true: ":https"}[tls]
		}
		sym.Assert(len(venv.Calls) == 1 && venv.Calls[0].Op == "listen" && venv.Calls[0].Net == "tcp", "one TCP address is bound")
		sym.Assert(venv.Calls[0].Addr == want, "the address is the given one or the default")
		if fails == 1 {
			sym.Assert(returned && err == errFault && calls == 0, "an error of binding is returned")
			sym.Reach("bind error")
			return
		}
	} else {
		sym.Assert(len(venv.Calls) == 0, "nothing is bound")
	}
	sym.Assert((venv.TLSConfig != nil) == tls, "TLS is used exactly when asked for")
	sym.Assert(calls == 1 && len(cs) == n, "connections are accepted")
	for i, c := range cs {
		sym.Assert(all[i].Closes == 0, "the connection is open")
		if all[i].OptErr == nil && kind != 5 {
			sym.Assert(all[i].KeepAlive, "keep-alives are enabled")
			sym.Reach("keep-alive")
		}
		sym.Assert(listener.MarkInUse(c) == nil, "the connection is managed")
	}
	if fails == 2 {
		sym.Assert(returned && err == l.Err, "an error of Accept is returned")
		sym.Reach("accept error")
		return
	}
	sym.Assert(!returned, "it serves until the shutdown")
	busy := make([]bool, n)
	open := 0
	for i, c := range cs {
		busy[i] = sym.Decide(sym.Int(0, 255) < 7)
		if busy[i] {
			open++
		} else {
			listener.MarkIdle(c)
		}
	}
	down := false
	sched.Go(func() { graceful.Shutdown(); down = true })
	sched.AwaitIdle()
	sym.Assert(l.Closes == 1 && returned && err == nil, "the shutdown ends it, peacefully")
	for i := range cs {
		sym.Assert((all[i].Closes == 0) == busy[i], "idle connections are closed, those in use are not")
	}
	sym.Assert(down == (open == 0), "the shutdown waits for those in use")
	for i, c := range cs {
		if busy[i] {
			c.Close()
		}
	}
	sched.AwaitIdle()
	sym.Assert(down, "the shutdown ends")
	sym.Reach("done")
}
