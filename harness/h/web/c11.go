package main

import (
	"net/http"
	"regexp"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sym"
)

type outcome struct {
	got    int
	calls  int
	params map[string]string
	valid  []string
	hasV   bool
}

// C11Router: the same table with and without the Router middleware.
func C11Router() {
	n := sym.Param("routes", 2)
	layers := sym.Param("layers", 2)
	raws := make([]web.PatternType, n)
	regs := make([]int, n)
	for i := range raws {
		if sym.Choice(2) == 0 {
			raws[i] = rawPattern()
		} else {
			raws[i] = &pat{id: i, prefix: "", ok: sym.Bool()}
		}
		regs[i] = sym.Choice(3)
	}
	path := sym.String(0, sym.Param("path", 3))
	method := []string{"GET", "POST", "WEIRD"}[sym.Choice(3)]
	incoming := sym.Choice(2) == 1
	sym.Observe("path", path)
	pos := sym.Choice(layers + 1)
	mangle := sym.Choice(2) == 1
	withRouter := false
	var seen []web.Match
	var o outcome
	build := func() *web.Mux {
		m := web.New()
		for i := 0; i <= layers; i++ {
			i := i
			if withRouter && i == pos {
				m.Use(m.Router)
			}
			if i == layers {
				break
			}
			m.Use(func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					if withRouter && i >= pos {
						seen = append(seen, web.GetMatch(*c))
						if mangle && i == layers-1 {
							r.URL.Path = "/zzz"
							r.Method = "DELETE"
						}
					} else {
						sym.Assert(web.GetMatch(*c).Handler == nil, "layers outside the Router see no match")
					}
					h.ServeHTTP(w, r)
				})
			})
		}
		m.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) {
			o.got, o.params = -2, copyParams(c.URLParams)
			o.calls++
			if v, ok := c.Env[web.ValidMethodsKey]; ok {
				o.hasV = true
				o.valid = v.([]string)
			}
		})
		for i := range raws {
			i := i
			register(m, regs[i], raws[i], func(c web.C, w http.ResponseWriter, r *http.Request) {
				o.got, o.params = i, copyParams(c.URLParams)
				o.calls++
				_, o.hasV = c.Env[web.ValidMethodsKey]
			})
		}
		return m
	}
	ctx := func() web.C {
		if incoming {
			return web.C{URLParams: map[string]string{"in": "1"}, Env: map[interface{}]interface{}{"e": 1}}
		}
		return web.C{}
	}
	serve := func() {
		r := hu.Req(method, path)
		same := hu.Same(r)
		build().ServeHTTPC(ctx(), hu.NewRec(), r)
		if !withRouter || !mangle {
			sym.Assert(same(), "the request is not changed")
		}
	}
	serve()
	plain := o
	o = outcome{}
	withRouter = true
	serve()
	sym.Assert(plain.calls == 1 && o.calls == 1, "one handler runs")
	sym.Assert(o.got == plain.got, "the Router selects the same handler")
	sym.Assert(sameParams(o.params, plain.params), "the same parameters are bound")
	sym.Assert(o.hasV == plain.hasV && len(o.valid) == len(plain.valid), "the same valid methods are reported")
	for i := range o.valid {
		sym.Assert(o.valid[i] == plain.valid[i], "the same valid methods are reported")
	}
	sym.Assert(len(seen) == layers-pos, "every layer runs")
	for _, mt := range seen {
		sym.Assert(mt.Handler != nil, "a match is visible inside the Router")
		if o.got < 0 {
			sym.Assert(mt.Pattern == nil, "without a route the match has no pattern")
		} else if p, ok := raws[o.got].(*pat); ok {
			sym.Assert(mt.Pattern == web.Pattern(p), "the match names the selected pattern")
		} else if s, ok := raws[o.got].(string); ok {
			sym.Assert(mt.RawPattern() == web.PatternType(s), "the match names the selected pattern")
		} else {
			sym.Assert(mt.Pattern != nil, "the match names the selected pattern")
		}
		before := o
		mt.Handler.ServeHTTPC(web.C{}, hu.NewRec(), hu.Req("GET", "/"))
		sym.Assert(o.calls == before.calls+1 && o.got == before.got, "the match names the selected handler")
	}
	if o.got < 0 {
		sym.Reach("notfound")
	} else {
		sym.Reach("found")
	}
}

// C11Nested: a mux nested in a mux, each with or without the Router. The inner
// Router routes anew; without one the outer mux's match would be used again,
// as documented, so then the inner mux has a layer that unsets it.
func C11Nested() {
	routers := sym.Choice(4)
	stale := sym.Choice(2) == 1 // a match from elsewhere comes in with the context
	raw := rawPattern()
	path := sym.String(0, sym.Param("path", 2))
	want := matches(raw, "GET", path)
	got := 0
	var innerMatch web.Match
	inner, outer := web.New(), web.New()
	unset := func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			delete(c.Env, web.MatchKey)
			h.ServeHTTP(w, r)
		})
	}
	if routers&1 != 0 {
		inner.Use(inner.Router)
	} else {
		inner.Use(unset)
	}
	inner.Use(func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			innerMatch = web.GetMatch(*c)
			h.ServeHTTP(w, r)
		})
	})
	inner.Get(raw, func(w http.ResponseWriter, r *http.Request) { got += 1 })
	inner.NotFound(func(w http.ResponseWriter, r *http.Request) { got += 10 })
	if routers&2 != 0 {
		outer.Use(outer.Router)
	} else {
		outer.Use(unset)
	}
	outer.Handle(regexp.MustCompile(`^`), inner)
	outer.NotFound(func(w http.ResponseWriter, r *http.Request) { got += 100 })
	c := web.C{}
	if stale {
		c.Env = map[interface{}]interface{}{web.MatchKey: web.Match{Handler: web.HandlerFunc(func(web.C, http.ResponseWriter, *http.Request) { got += 1000 })}}
	}
	outer.ServeHTTPC(c, hu.NewRec(), hu.Req("GET", path))
	if want {
		sym.Assert(got == 1, "the inner route is selected")
	} else {
		sym.Assert(got == 10, "the inner NotFound handler is selected")
	}
	if routers&1 != 0 {
		sym.Assert(innerMatch.Handler != nil && (innerMatch.Pattern != nil) == want, "the match is the inner mux's")
	} else {
		sym.Assert(innerMatch.Handler == nil, "there is no match")
	}
	if routers == 3 {
		sym.Reach("both")
	}
}

// C11Preset: a match that is in the environment already decides.
func C11Preset() {
	m := web.New()
	ran, other := 0, 0
	m.Handle("/*", func(w http.ResponseWriter, r *http.Request) { other++ })
	m.NotFound(func(w http.ResponseWriter, r *http.Request) { other++ })
	match := web.Match{}
	kind := sym.Choice(3)
	if kind > 0 {
		match.Handler = web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { ran++ })
	}
	if kind > 1 {
		match.Pattern = web.ParsePattern("/other")
	}
	inside := sym.Choice(2) == 1
	if inside {
		m.Use(func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				c.Env = map[interface{}]interface{}{web.MatchKey: match}
				h.ServeHTTP(w, r)
			})
		})
	}
	c := web.C{}
	if !inside {
		c.Env = map[interface{}]interface{}{web.MatchKey: match}
	}
	m.ServeHTTPC(c, hu.NewRec(), hu.Req("GET", sym.String(0, 2)))
	sym.Assert(ran+other == 1, "one handler runs")
	sym.Assert((ran == 1) == (kind > 0), "a match with a handler decides which")
	sym.Reach("kind" + hu.Itoa(kind))
}
