package main

import (
	"errors"
	"net/http"
	"regexp"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sym"
	"verif/harness/venv"
)

// C26Muxes: a history of edits and requests on two muxes. Each behaves as the
// calls made on it say, whatever is done to the other.
func C26Muxes() {
	ops := sym.Param("ops", 4)
	var trace []string
	type model struct {
		mws    []int
		routes []int
		nf     bool
	}
	paths := []string{"/x", "/:v", "/xy"}
	ms := []*web.Mux{web.New(), web.New()}
	models := make([]model, 2)
	var mws []web.MiddlewareType
	for i := 0; i < 2; i++ {
		n := hu.Itoa(i)
		mws = append(mws, func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				trace = append(trace, "mw"+n)
				h.ServeHTTP(w, r)
			})
		})
	}
	serve := func(k int) {
		m := &models[k]
		path := "/" + sym.String(0, 1)
		sym.Observe("path", path)
		trace = nil
		w := hu.NewRec()
		ms[k].ServeHTTP(w, hu.Req("GET", path))
		var want []string
		for _, i := range m.mws {
			want = append(want, "mw"+hu.Itoa(i))
		}
		end := "nf" + hu.Itoa(k)
		if !m.nf {
			end = ""
		}
		for i := len(m.routes) - 1; i >= 0; i-- {
			if sym.Decide(matches(paths[m.routes[i]], "GET", path)) {
				end = "route" + hu.Itoa(k) + hu.Itoa(m.routes[i])
			}
		}
		if end != "" {
			want = append(want, end)
		} else {
			sym.Assert(w.Code == 404, "the standard NotFound handler runs")
		}
		sym.Assert(len(trace) == len(want), "a request runs what was added to its mux, and nothing else")
		for i := range want {
			sym.Assert(trace[i] == want[i], "a request runs what was added to its mux, and nothing else")
		}
		sym.Reach("served")
	}
	for i := 0; i < ops; i++ {
		k := sym.Choice(2)
		m := &models[k]
		op := sym.Choice(6)
		if op == 0 {
			break
		}
		switch op {
		case 1:
			x := sym.Choice(2)
			ms[k].Use(mws[x])
			m.mws = append(append([]int(nil), m.mws...), x)
		case 2:
			x := sym.Choice(2)
			at := -1
			for i := len(m.mws) - 1; i >= 0; i-- {
				if m.mws[i] == x {
					at = i
				}
			}
			err := ms[k].Abandon(mws[x])
			sym.Assert((err == nil) == (at >= 0), "Abandon knows the middleware of its mux only")
			if at >= 0 {
				n := append([]int(nil), m.mws[:at]...)
				m.mws = append(n, m.mws[at+1:]...)
			}
		case 3:
			x := sym.Choice(2)
			name := "route" + hu.Itoa(k) + hu.Itoa(x)
			ms[k].Handle(paths[x], func(w http.ResponseWriter, r *http.Request) { trace = append(trace, name) })
			m.routes = append(append([]int(nil), m.routes...), x)
		case 4:
			name := "nf" + hu.Itoa(k)
			ms[k].NotFound(func(w http.ResponseWriter, r *http.Request) { trace = append(trace, name) })
			m.nf = true
		case 5:
			serve(k)
		}
	}
	serve(0)
	serve(1)
}

// boom is a pattern that panics where it is told to.
type boom struct {
	at  *int
	val *interface{}
}

func (p *boom) on(k int) {
	if *p.at == k {
		panic(*p.val)
	}
}

func (p *boom) Prefix() string                       { p.on(8); return "/" }
func (p *boom) Match(r *http.Request, c *web.C) bool { p.on(0); return true }
func (p *boom) Run(r *http.Request, c *web.C)        { p.on(1) }

var errBoom = errors.New("boom")

// C27Panic: user code panics at an arbitrary place of a request or of a
// registration. The panic arrives at the caller, and afterwards the mux works
// as if nothing had happened.
func C27Panic() {
	at := 1000
	var val interface{}
	switch sym.Choice(4) {
	case 0:
		val = sym.String(0, 2)
	case 1:
		val = sym.Int(0, 100)
	case 2:
		val = errBoom
	case 3:
		val = http.ErrAbortHandler
	}
	router := sym.Choice(3) // none, on the outside, on the inside
	m := web.New()
	p := &boom{&at, &val}
	var trace []string
	mw := func(c *web.C, h http.Handler) http.Handler {
		p.on(6)
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			trace = append(trace, "in")
			if c.Env == nil {
				c.Env = map[interface{}]interface{}{}
			}
			_, stale := c.Env["mw"]
			sym.Assert(!stale, "the environment is fresh")
			c.Env["mw"] = 1
			p.on(2)
			h.ServeHTTP(w, r)
			p.on(3)
			trace = append(trace, "out")
		})
	}
	if router == 1 {
		m.Use(m.Router)
	}
	m.Use(mw)
	if router == 2 {
		m.Use(m.Router)
	}
	inner := web.New()
	inner.Use(inner.Router)
	inner.Handle(regexp.MustCompile(`^`), func(c web.C, w http.ResponseWriter, r *http.Request) {
		p.on(7)
		trace = append(trace, "inner")
	})
	m.Handle("/in", inner)
	m.Get(p, func(c web.C, w http.ResponseWriter, r *http.Request) {
		p.on(4)
		trace = append(trace, "handler")
	})
	m.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) {
		p.on(5)
		trace = append(trace, "nf")
	})
	path, method := "/h", "GET"
	serve := func() (v interface{}, panicked bool) {
		panicked = true
		defer func() { v = recover() }()
		trace = nil
		m.ServeHTTP(hu.NewRec(), hu.Req(method, path))
		return nil, false
	}
	cached := sym.Choice(2) == 1
	if cached {
		_, pk := serve()
		sym.Assert(!pk && len(trace) == 3, "requests are served")
	}
	// where it panics, what is asked for and whether it gets there are
	// symbolic
	where := sym.Int(0, 9)
	method = []string{"GET", "POST"}[sym.Choice(2)]
	path = "/" + sym.String(0, 2)
	sym.Observe("path", path)
	if sym.Decide(where == 8) {
		// while a route is being registered
		func() {
			defer func() {
				v := recover()
				sym.Assert(v == val, "the panic arrives unchanged")
			}()
			at = where
			m.Handle(p, func(w http.ResponseWriter, r *http.Request) { trace = append(trace, "never") })
			sym.Assert(false, "the panic arrives")
		}()
		sym.Reach("place8")
	} else {
		if sym.Choice(2) == 1 {
			m.Use(func(h http.Handler) http.Handler { return h })
			cached = false
		}
		at = where
		v, pk := serve()
		in := sym.Decide(path == "/in")
		get := method == "GET"
		places := []int{2, 3} // those the request comes by
		if !cached {
			places = append(places, 6)
		}
		switch {
		case in:
			places = append(places, 7)
		case get:
			places = append(places, 0, 1, 4)
		default:
			places = append(places, 0, 5)
		}
		comes := false
		for _, k := range places {
			if sym.Decide(where == k) {
				comes = true
				sym.Reach("place" + hu.Itoa(k))
			}
		}
		sym.Assert(pk == comes, "the panic arrives")
		if comes {
			sym.Assert(v == val, "the panic arrives unchanged")
		} else {
			sym.Assert(len(trace) == 3, "a request that does not come by is served")
		}
	}
	at = 1000
	for i := 0; i < 2; i++ {
		for k, want := range []string{"handler", "nf", "inner"} {
			path = []string{"/h", "/h", "/in"}[k]
			method = []string{"GET", "POST", "GET"}[k]
			_, pk := serve()
			sym.Assert(!pk, "the next request is served")
			sym.Assert(len(trace) == 3 && trace[0] == "in" && trace[1] == want && trace[2] == "out", "the next request is served as usual")
		}
		// the mux can still be edited
		if i == 0 {
			extra := 0
			m.Handle("/extra", func(w http.ResponseWriter, r *http.Request) { extra++ })
			m.Insert(func(h http.Handler) http.Handler { return h }, mw)
			path, method = "/extra", "POST"
			_, pk := serve()
			sym.Assert(!pk && extra == 1, "routes added later are served")
			sym.Assert(m.Abandon(mw) == nil, "Abandon finds the middleware")
			m.Use(mw)
		}
	}
}

type namedFunc func(http.ResponseWriter, *http.Request)
type namedCtx func(web.C, http.ResponseWriter, *http.Request)
type namedMW func(http.Handler) http.Handler
type bytesPat []byte

// C28Types: values of other than the documented types are refused, with a
// fatal error that names the type, and nothing is registered.
func C28Types() {
	venv.CatchFatal = true
	s := sym.String(0, 2)
	handlers := []interface{}{nil, s, 7, namedFunc(func(http.ResponseWriter, *http.Request) {}), namedCtx(func(web.C, http.ResponseWriter, *http.Request) {}),
		func() {}, func(http.ResponseWriter) {}, func(*web.C, http.ResponseWriter, *http.Request) {}, func(http.ResponseWriter, *http.Request) error { return nil },
		func(http.ResponseWriter, http.Request) {}, web.C{}, []byte(s), &s}
	patterns := []interface{}{nil, 7, bytesPat(s), []byte(s), &s, *regexp.MustCompile("^/"), func(r *http.Request) bool { return true }, namedStr(s), 'x', []string{s}, boom{}}
	middleware := []interface{}{nil, s, 7, namedMW(func(h http.Handler) http.Handler { return h }), func(http.Handler) {}, func(web.C, http.Handler) http.Handler { return nil },
		func(c *web.C, h http.Handler) web.Handler { return nil }, http.NotFoundHandler(), func(h http.HandlerFunc) http.Handler { return h }, http.NotFound, func(h web.Handler) web.Handler { return h }}
	refused := func(f func()) bool {
		ok := false
		func() {
			defer func() {
				_, ok = recover().(venv.Exit)
			}()
			f()
		}()
		return ok
	}
	m := web.New()
	ran := 0
	good := func(w http.ResponseWriter, r *http.Request) { ran++ }
	mw := func(h http.Handler) http.Handler { return h }
	m.Use(mw)
	m.Get("/ok", good)
	reg := pick(len(regNames))
	switch kind := pick(6); kind {
	case 0:
		h := handlers[pick(len(handlers))]
		sym.Assert(refused(func() { register(m, reg, "/*", h) }), "a handler of another type is refused")
		sym.Reach("handler")
	case 1:
		p := patterns[pick(len(patterns))]
		sym.Assert(refused(func() { register(m, reg, p, good) }), "a pattern of another type is refused")
		sym.Reach("pattern")
	case 2:
		p := patterns[pick(len(patterns))]
		sym.Assert(refused(func() { web.ParsePattern(p) }), "a pattern of another type is refused")
	case 3:
		f := middleware[pick(len(middleware))]
		sym.Assert(refused(func() { m.Use(f) }), "middleware of another type is refused")
		sym.Reach("middleware")
	case 4:
		f := middleware[pick(len(middleware))]
		sym.Assert(refused(func() { m.Insert(f, mw) }), "middleware of another type is refused")
	case 5:
		h := handlers[pick(len(handlers))]
		sym.Assert(refused(func() { m.NotFound(h) }), "a handler of another type is refused")
	}
}

type namedStr string

// pick is a number below n that the solver chooses.
func pick(n int) int {
	x := sym.Int(0, n-1)
	for i := 0; i < n-1; i++ {
		if sym.Decide(x == i) {
			return i
		}
	}
	return n - 1
}
