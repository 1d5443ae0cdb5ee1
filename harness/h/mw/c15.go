package main

import (
	"net/http"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif/harness/hu"
	"verif/harness/sym"
)

// C15SubRouter: arbitrary parameters and environments, an inner handler that
// changes path, parameters and environment and may panic.
func C15SubRouter() {
	path := sym.String(0, 2)
	star, under := sym.String(0, 2), sym.String(0, 2)
	c := web.C{}
	pk := sym.Choice(5)
	want, has := path, false
	switch pk {
	case 1:
		c.URLParams = map[string]string{"x": star}
	case 2:
		c.URLParams = map[string]string{"*": star, "x": "1"}
		want, has = star, true
	case 3:
		c.URLParams = map[string]string{"_": under}
		want, has = under, true
	case 4:
		c.URLParams = map[string]string{"_": under, "*": star}
		want, has = star, true
	}
	match := web.Match{Handler: web.HandlerFunc(func(web.C, http.ResponseWriter, *http.Request) {}), Pattern: web.ParsePattern("/m")}
	if sym.Choice(2) == 1 {
		match.Pattern = nil // NotFound was selected
	}
	ek := sym.Choice(4)
	hadMatch := ek == 3
	switch ek {
	case 1:
		c.Env = map[interface{}]interface{}{}
	case 2:
		c.Env = map[interface{}]interface{}{"k": 1}
	case 3:
		c.Env = map[interface{}]interface{}{"k": 1, web.MatchKey: match}
	}
	inner := sym.Choice(7)
	boom := sym.Choice(2) == 1
	r := hu.Req("GET", path)
	r.URL.RawQuery = "q"
	w := hu.NewRec()
	calls := 0
	expect := 0 // entries other than the match afterwards
	if ek >= 2 {
		expect = 1
	}
	h := middleware.SubRouter(&c, http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
		calls++
		sym.Assert(w2 == http.ResponseWriter(w) && r2 == r, "the inner handler is served the same request and writer")
		sym.Assert(r2.URL.Path == want, "the inner handler sees the rewritten path")
		_, ok := c.Env[web.MatchKey]
		if has {
			sym.Assert(!ok, "the inner handler sees no match")
		} else {
			sym.Assert(ok == hadMatch, "the request passes through unchanged")
		}
		sym.Assert(r2.Method == "GET" && r2.URL.RawQuery == "q", "nothing else changes")
		if ek >= 2 {
			sym.Assert(c.Env["k"] == 1, "the inner handler sees the other entries")
		}
		switch inner {
		case 1:
			r2.URL.Path = "/changed"
		case 2:
			if c.Env != nil {
				c.Env["new"] = 2
				expect++
			}
		case 3:
			c.Env = map[interface{}]interface{}{web.MatchKey: web.Match{Handler: web.HandlerFunc(nil)}, "only": 3}
			expect = 1
		case 4:
			c.URLParams = map[string]string{"*": "zz"}
		case 5:
			if c.Env != nil {
				delete(c.Env, "k")
				expect = 0
			} else {
				c.Env = map[interface{}]interface{}{"k": 5}
				expect = 1
			}
		}
		if inner == 6 {
			c.Env = nil
			expect = 0
		}
		if boom {
			panic("boom")
		}
	}))
	func() {
		defer func() {
			e := recover()
			sym.Assert((e != nil) == boom, "panics propagate")
			if boom {
				sym.Assert(e == "boom", "the panic is the inner handler's")
			}
		}()
		h.ServeHTTP(w, r)
	}()
	sym.Assert(calls == 1, "the inner handler runs once")
	m, ok := c.Env[web.MatchKey]
	if has {
		sym.Assert(r.URL.Path == path, "the path is restored")
		sym.Assert(ok == hadMatch, "the match, or its absence, is restored")
	} else {
		if inner == 1 {
			path = "/changed"
		}
		sym.Assert(r.URL.Path == path, "the request passes through unchanged")
		sym.Assert(ok == (hadMatch && inner != 6 || inner == 3), "the environment is the inner handler's")
	}
	if ok {
		expect++
		mm, isM := m.(web.Match)
		sym.Assert(isM, "the match is a match")
		if has || inner != 3 {
			sym.Assert((mm.Pattern == nil) == (match.Pattern == nil) && (mm.Pattern == nil || mm.RawPattern() == web.PatternType("/m")) && mm.Handler != nil, "the match is restored unchanged")
		}
	}
	sym.Assert(len(c.Env) == expect, "the other entries are what the inner handler left")
	switch inner {
	case 3:
		sym.Assert(c.Env["only"] == 3, "the other entries are what the inner handler left")
	}
	if has {
		sym.Reach("rewritten")
	} else {
		sym.Reach("through")
	}
}

// C15Nested: sub-routers within sub-routers under explicit or implicit
// routing, for every path.
func C15Nested() {
	explicit := sym.Choice(2)
	path := sym.String(sym.Param("min", 4), sym.Param("max", 6))
	got, orig, mid := "", "", ""
	calls, missed, restored := 0, 0, 0
	inner := web.New()
	inner.Use(middleware.SubRouter)
	inner.Use(func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			mid = r.URL.Path
			h.ServeHTTP(w, r)
			sym.Assert(r.URL.Path == mid, "each sub-router restores the path")
			restored++
		})
	})
	in2 := web.New()
	in2.Use(middleware.SubRouter)
	in2.Handle("/*", func(c web.C, w http.ResponseWriter, r *http.Request) {
		got = r.URL.Path
		calls++
	})
	inner.Handle("/b/*", in2)
	inner.NotFound(func(w http.ResponseWriter, r *http.Request) {
		missed++
		got = r.URL.Path
	})
	outer := web.New()
	outer.Use(func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			h.ServeHTTP(w, r)
			orig = r.URL.Path
		})
	})
	if explicit != 0 {
		outer.Use(outer.Router)
	}
	outer.Handle("/a/*", inner)
	outer.NotFound(func(w http.ResponseWriter, r *http.Request) { missed += 10 })
	outer.ServeHTTP(hu.NewRec(), hu.Req("GET", path))
	sym.Assert(orig == path, "the path is restored on the way out")
	switch {
	case !sym.Decide(hu.HasPrefix(path, "/a/")):
		sym.Assert(missed == 10 && calls == 0 && restored == 0, "the sub-router is not entered")
		sym.Reach("outside")
	case !sym.Decide(hu.HasPrefix(path[2:], "/b/")):
		sym.Assert(missed == 1 && calls == 0 && restored == 1, "the sub-router looks at the rest of the path")
		sym.Assert(got == path[2:], "the sub-router's handler sees the rest of the path")
		sym.Reach("first")
	default:
		sym.Assert(missed == 0 && calls == 1 && restored == 1, "the innermost handler runs")
		sym.Assert(mid == path[2:] && got == path[4:], "the innermost handler sees the remaining path")
		sym.Reach("done")
	}
}
