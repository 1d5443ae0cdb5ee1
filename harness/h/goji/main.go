// Package main holds the harnesses of package goji.
package main

import (
	"crypto/tls"
	"fmt"
	"net"
	"net/http"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/zenazn/goji"
	"github.com/zenazn/goji/bind"
	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif/harness/hu"
	"verif/harness/sched"
	"verif/harness/sym"
	"verif/harness/venv"
)

func main() {
	sym.Main(map[string]func(){
		"C13Package": C13Package,
		"C13Stack":   C13Stack,
		"C60Default": C60Default,
		"C61Serve":   C61Serve,
		"C61Einhorn": C61Einhorn,
	})
}

var regNames = []string{"Handle", "Get", "Post", "Head", "Options", "Delete", "Patch", "Put", "Trace", "Connect"}
var regMethods = [][]string{nil, {"GET", "HEAD"}, {"POST"}, {"HEAD"}, {"OPTIONS"}, {"DELETE"}, {"PATCH"}, {"PUT"}, {"TRACE"}, {"CONNECT"}}

func register(k int, p web.PatternType, h web.HandlerType) {
	[]func(web.PatternType, web.HandlerType){goji.Handle, goji.Get, goji.Post, goji.Head, goji.Options, goji.Delete, goji.Patch, goji.Put, goji.Trace, goji.Connect}[k](p, h)
}

var methods = []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}

func accepts(k int, method string) bool {
	if k == 0 {
		return true
	}
	for _, m := range regMethods[k] {
		if m == method {
			return true
		}
	}
	return false
}

func anyMethod() string {
	if k := sym.Choice(len(methods) + 1); k < len(methods) {
		return methods[k]
	}
	return sym.String(0, sym.Param("len", 7))
}

// C13Package: the package-level registration functions, an arbitrary method.
func C13Package() {
	k := sym.Choice(len(regNames))
	hit, nf := 0, 0
	register(k, "/x", func(c web.C, w http.ResponseWriter, r *http.Request) { hit++ })
	goji.NotFound(func(w http.ResponseWriter, r *http.Request) { nf++ })
	method := anyMethod()
	sym.Observe("method", method)
	goji.DefaultMux.ServeHTTP(hu.NewRec(), hu.Req(method, "/x"))
	if accepts(k, method) {
		sym.Assert(hit == 1 && nf == 0, regNames[k]+" serves its methods")
		sym.Reach("hit " + regNames[k])
	} else {
		sym.Assert(hit == 0 && nf == 1, regNames[k]+" serves only its methods")
		sym.Reach("miss")
	}
}

// C13Stack: the package-level middleware functions edit DefaultMux's stack.
func C13Stack() {
	var log []string
	mw := func(name string) func(http.Handler) http.Handler {
		return func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				log = append(log, name)
				h.ServeHTTP(w, r)
			})
		}
	}
	a, b := mw("a"), mw("b")
	want := ""
	goji.Use(a)
	switch sym.Choice(4) {
	case 0:
		sym.Assert(goji.Insert(b, a) == nil, "Insert finds the middleware")
		want = "ba"
	case 1:
		sym.Assert(goji.Insert(b, middleware.Recoverer) == nil, "Insert finds the default middleware")
		want = "ba"
	case 2:
		sym.Assert(goji.Abandon(a) == nil, "Abandon finds the middleware")
		sym.Assert(goji.Abandon(a) != nil, "abandoned middleware is gone")
	case 3:
		sym.Assert(goji.Abandon(b) != nil && goji.Insert(a, b) != nil, "unknown middleware is refused")
		want = "a"
	}
	goji.DefaultMux.ServeHTTP(hu.NewRec(), hu.Req("GET", "/"))
	sym.Assert(strings.Join(log, "") == want, "the stack is as edited")
	sym.Reach("done")
}

// C60Default: any handler, method and path on the default stack.
func C60Default() {
	venv.KeepLog = true
	l := script(sym.Param("steps", 2), 5)
	ids := map[string]bool{}
	ran := 0
	h := func(c web.C, w http.ResponseWriter, r *http.Request) {
		ran++
		id := middleware.GetReqID(c)
		sym.Assert(id != "" && !ids[id], "every request carries its own request ID")
		ids[id] = true
		play(l, w)
	}
	kind := sym.Choice(3)
	ka, kb := 1+sym.Choice(len(regNames)-1), 5
	register(ka, "/a", h)
	register(kb, "/b", h)
	if kind == 1 {
		register(2, "/a", h)
	}
	if kind == 2 {
		goji.NotFound(h)
	}
	method := anyMethod()
	path := "/" + sym.String(0, 1)
	sym.Observe("request", method+" "+path)
	n := sym.Param("requests", 1)
	for q := 0; q < n; q++ {
		before, lines := ran, venv.LogLines
		w := hu.NewRec()
		goji.DefaultMux.ServeHTTP(w, hu.Req(method, path))
		ref := hu.NewRec()
		panicked := false
		func() {
			defer func() { panicked = recover() != nil }()
			play(l, ref)
		}()
		more := 0
		if panicked && ran > before {
			more = 1
		}
		sym.Assert(venv.LogLines == lines+2+more, "the start and the end of the request, and a panic, are logged")
		served := func(k int) bool { return accepts(k, method) }
		valid := map[string]bool{}
		match := false
		if sym.Decide(path == "/a") {
			match = served(ka) || kind == 1 && served(2)
			for _, m := range regMethods[ka] {
				valid[m] = true
			}
			if kind == 1 {
				valid["POST"] = true
			}
		} else if sym.Decide(path == "/b") {
			match = served(kb)
			valid["DELETE"] = true
		}
		sym.Assert(w.Code != 0, "a status is sent")
		sym.Assert(hu.InOrder(venv.Log[len(venv.Log)-1], fmt.Sprintf("%03d", w.Code)), "the status that was sent is logged at the end")
		if !match && kind != 2 {
			sym.Assert(ran == before, "no handler runs")
			if method == "OPTIONS" && len(valid) > 0 {
				valid["OPTIONS"] = true
				sym.Assert(w.Code == 200, "OPTIONS is answered")
				allow := strings.Split(w.Snap.Get("Allow"), ", ")
				sort.Strings(allow)
				var names []string
				for m := range valid {
					names = append(names, m)
				}
				sort.Strings(names)
				sym.Assert(strings.Join(allow, " ") == strings.Join(names, " "), "the Allow list is exact")
				sym.Assert(len(w.Body) == 0, "the answer has no body")
				sym.Reach("options")
				continue
			}
			sym.Assert(w.Code == 404, "nothing matches: 404")
			sym.Reach("404")
			continue
		}
		sym.Assert(ran == before+1, "one handler runs")
		switch {
		case !match && method == "OPTIONS" && len(valid) > 0 && ref.Code == 404 && ref.Headers > 0:
			sym.Assert(w.Code == 200, "OPTIONS is answered")
		case ref.Code != 0:
			sym.Assert(w.Code == ref.Code, "the handler's status is sent")
			sym.Assert(strings.HasPrefix(string(w.Body), string(ref.Body)), "the handler's body is sent")
			sym.Assert(panicked || len(w.Body) == len(ref.Body), "nothing is added to the body")
			sym.Reach("handler")
		case panicked:
			sym.Assert(w.Code == 500, "the client gets a 500")
			sym.Reach("500")
		default:
			sym.Assert(w.Code == 200 && len(w.Body) == 0, "an empty 200 is sent")
			sym.Reach("200")
		}
	}
}

type ctl struct {
	fconn
	got string
}

func (c *ctl) Write(b []byte) (int, error) { c.got += string(b); return len(b), nil }

// C61Serve: goji.Serve from the flag to the end of the shutdown.
func C61Serve() {
	venv.CatchFatal, venv.Started = true, true
	addr := ":" + sym.String(0, 2)
	venv.FlagSet, venv.Flag = sym.Choice(2) == 1, addr
	if !venv.FlagSet {
		addr = ":8000"
	}
	if sym.Choice(2) == 1 {
		venv.Parse() // the application has parsed its flags
	}
	l := &flis{}
	listens := 0
	bound := sym.Choice(3)
	venv.ListenHook = func(network, a string) (net.Listener, error) {
		listens++
		sym.Assert(network == "tcp" && a == addr, "the configured address is bound")
		if bound == 0 {
			return nil, errFault
		}
		return l, nil
	}
	fails := bound == 1
	conns := sym.Param("conns", 1)
	for i := 0; i < conns; i++ {
		l.queue = append(l.queue, &fconn{id: i})
	}
	all := append([]*fconn(nil), l.queue...)
	var cs []net.Conn
	serving := false
	venv.ServeHook = func(s *http.Server, l net.Listener) error {
		sym.Assert(s.Handler == http.Handler(http.DefaultServeMux), "the standard mux is served")
		serving = true
		if fails {
			return errFault
		}
		for {
			c, err := l.Accept()
			if err != nil {
				return err
			}
			var b [1]byte
			c.(interface{ Read([]byte) (int, error) }).Read(b[:])
			cs = append(cs, c)
		}
	}
	for _, f := range all {
		f.reads = []rres{{data: "x"}}
	}
	post := 0
	graceful.PostHook(func() { post++ })
	returned, fatal := false, false
	kick := sym.Choice(4)
	cfg := &tls.Config{}
	sched.Go(func() {
		defer func() {
			if r := recover(); r != nil {
				_, ok := r.(venv.Exit)
				sym.Assert(ok, "errors are reported, not panicked")
				fatal = true
			}
		}()
		switch kick {
		case 2:
			goji.ServeListener(bind.Socket(addr))
		case 3:
			goji.ServeTLS(cfg)
		default:
			goji.Serve()
		}
		returned = true
	})
	sched.AwaitIdle()
	sym.Assert(listens == 1, "the address is bound once")
	sym.Assert(kick == 2 || venv.Parses == 1, "the flags are parsed unless they have been")
	if bound != 0 {
		sym.Assert((venv.TLSConfig != nil) == (kick == 3) && (kick != 3 || venv.TLSConfig == cfg), "TLS is used exactly when asked for, as configured")
	}
	if bound == 0 {
		sym.Assert(fatal && !serving, "a failure to bind is fatal")
		sym.Reach("bind error")
		return
	}
	sym.Assert(len(venv.Handled) == 1 && venv.Handled[0] == http.Handler(goji.DefaultMux), "DefaultMux is installed at the root")
	for _, c := range venv.Calls {
		sym.Assert(c.Op != "handle" || c.Addr == "/", "DefaultMux is installed at the root")
	}
	if fails {
		sym.Assert(fatal && !returned, "a failure to serve is fatal")
		sym.Reach("serve error")
		return
	}
	sym.Assert(!returned && !fatal && serving && len(cs) == conns, "it serves until it is told to stop")
	if kick == 0 {
		sched.Go(graceful.Shutdown)
	} else {
		sym.Assert(venv.Deliver(os.Interrupt), "the interrupt signal is handled")
		sym.Reach("signal")
	}
	sched.AwaitIdle()
	sym.Assert(l.closed && !fatal, "the listener is closed, peacefully")
	if conns > 0 {
		sym.Assert(!returned && post == 0, "Serve waits for connections in use")
	}
	double := kick == 1 && sym.Choice(2) == 1
	if double {
		gap := sym.Int(0, 4_000_000_000)
		forced := sym.Decide(gap < 2_000_000_000)
		venv.Clock += time.Duration(gap)
		venv.Deliver(os.Interrupt)
		sched.AwaitIdle()
		for _, f := range all {
			sym.Assert((f.closes > 0) == forced, "a second interrupt within two seconds forces the shutdown")
		}
		if forced {
			sym.Assert(returned, "a forced shutdown ends Serve")
			sym.Reach("forced")
			return
		}
	}
	for venv.Advance() {
		sched.AwaitIdle()
	}
	for i, c := range cs {
		sym.Assert(all[i].closes == 0, "a connection in use is left open")
		c.Close()
	}
	sched.AwaitIdle()
	sym.Assert(returned && post == 1 && !fatal, "Serve returns after the shutdown is complete")
	sym.Reach("done")
}

// C61Einhorn: Serve as a worker of Einhorn.
func C61Einhorn() {
	venv.CatchFatal, venv.Started = true, true
	if venv.ForceEnv("EINHORN_MASTER_PID") != hu.Itoa(venv.PPid) || venv.ForceEnv("GOJI_BIND") != "" {
		sym.Skip()
	}
	l := &flis{}
	c := &ctl{}
	bound, dials, serving := false, 0, false
	fail := sym.Choice(3)
	kick := sym.Choice(3)
	fd := -1
	venv.FileHook = func(n int) (net.Listener, error) {
		fd = n
		if fail == 1 {
			return nil, errFault
		}
		bound = true
		return l, nil
	}
	venv.DialHook = func(network, a string) (net.Conn, error) {
		sym.Assert(bound, "readiness is announced once the socket is bound")
		dials++
		return c, nil
	}
	venv.ServeHook = func(s *http.Server, l net.Listener) error {
		serving = true
		if fail == 2 {
			return errFault
		}
		for {
			if _, err := l.Accept(); err != nil {
				return err
			}
		}
	}
	returned, fatal := false, false
	sched.Go(func() {
		defer func() {
			if r := recover(); r != nil {
				_, ok := r.(venv.Exit)
				sym.Assert(ok, "errors are reported, not panicked")
				fatal = true
			}
		}()
		switch kick {
		case 0:
			goji.Serve()
		case 1:
			goji.ServeTLS(&tls.Config{})
		case 2:
			goji.ServeListener(bind.Default())
		}
		returned = true
	})
	sched.AwaitIdle()
	sym.Assert(fd == 40, "Einhorn's first socket is bound")
	if fail == 1 {
		sym.Assert(fatal && dials == 0 && !serving, "a worker that cannot bind is not ready")
		sym.Reach("bind error")
		return
	}
	sym.Assert(dials == 1 && len(c.got) > 0, "readiness is announced to Einhorn")
	if fail == 2 {
		sym.Assert(fatal, "a failure to serve is fatal")
		return
	}
	sym.Assert(serving && !returned && !fatal, "it serves until it is told to stop")
	sig := []os.Signal{os.Interrupt, syscall.SIGUSR2}[sym.Choice(2)]
	sym.Assert(venv.Deliver(sig), "the signal is handled")
	sched.AwaitIdle()
	for venv.Advance() {
		sched.AwaitIdle()
	}
	sym.Assert(returned && !fatal && dials == 1, "Serve returns after the shutdown is complete")
	sym.Reach("done")
}
