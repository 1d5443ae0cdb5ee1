package main

import (
	"net/http"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sym"
)

func copyParams(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// sameParams compares bindings; an empty map is like none.
func sameParams(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

// C07Pure: Match changes neither request nor context.
func C07Pure() {
	raw := rawPattern()
	path := sym.String(0, sym.Param("path", 4))
	sym.Observe("path", path)
	r := hu.Req("GET", path)
	r.Header["X"] = []string{"y"}
	c := web.C{}
	switch sym.Choice(3) {
	case 1:
		c.URLParams = map[string]string{"x": "old", "z": "1"}
	case 2:
		c.URLParams = map[string]string{}
		c.Env = map[interface{}]interface{}{"k": 1}
	}
	before := copyParams(c.URLParams)
	ne := len(c.Env)
	u := r.URL
	pat := web.ParsePattern(raw)
	if pat.Match(r, &c) {
		sym.Reach("match")
	} else {
		sym.Reach("nomatch")
	}
	sym.Assert((c.URLParams == nil) == (before == nil), "Match does not allocate parameters")
	sym.Assert(sameParams(c.URLParams, before), "Match binds nothing")
	sym.Assert(len(c.Env) == ne && (ne == 0 || c.Env["k"] == 1), "Match leaves the environment alone")
	sym.Assert(r.URL == u && r.URL.Path == path && r.Method == "GET" && len(r.Header) == 1 && r.Header["X"][0] == "y", "Match leaves the request alone")
}

// C07Table: the parameters the selected handler sees.
func C07Table() {
	n := sym.Param("routes", 2)
	m := web.New()
	var seen web.C
	calls := 0
	got := -1
	m.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) { got = -2; seen = c; calls++ })
	raws := make([]web.PatternType, n)
	regs := make([]int, n)
	for i := 0; i < n; i++ {
		i := i
		raws[i] = rawPattern()
		regs[i] = sym.Choice(2) * 2 // Handle or Post
		register(m, regs[i], raws[i], func(c web.C, w http.ResponseWriter, r *http.Request) { got = i; seen = c; calls++ })
	}
	path := sym.String(0, sym.Param("path", 3))
	sym.Observe("path", path)
	c := web.C{}
	if sym.Choice(2) == 1 {
		c.URLParams = map[string]string{"x": "old", "q": "1"}
	}
	exp := web.C{URLParams: copyParams(c.URLParams)}
	m.ServeHTTPC(c, hu.NewRec(), hu.Req("GET", path))
	sym.Assert(calls == 1, "one handler runs")
	if got >= 0 {
		web.ParsePattern(raws[got]).Run(hu.Req("GET", path), &exp)
		sym.Reach("found")
	} else {
		sym.Reach("notfound")
	}
	sym.Assert(sameParams(seen.URLParams, exp.URLParams), "the handler sees the incoming parameters and the selected route's bindings")
}
