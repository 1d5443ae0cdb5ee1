package main

import (
	"net/http"
	"regexp"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sym"
)

// hforms are the accepted handler forms.
type stdH struct {
	f func(web.C, bool, http.ResponseWriter, *http.Request)
}

func (h *stdH) ServeHTTP(w http.ResponseWriter, r *http.Request) { h.f(web.C{}, false, w, r) }

type ctxH struct {
	f func(web.C, bool, http.ResponseWriter, *http.Request)
}

func (h *ctxH) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) { h.f(c, true, w, r) }

type bothH struct {
	f func(web.C, bool, http.ResponseWriter, *http.Request)
}

func (h *bothH) ServeHTTP(w http.ResponseWriter, r *http.Request) { h.f(web.C{}, false, w, r) }
func (h *bothH) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {
	h.f(c, true, w, r)
}

const nForms = 8

// form makes the k-th form of a handler; ctx says whether it takes a context.
func form(k int, f func(c web.C, ctx bool, w http.ResponseWriter, r *http.Request)) (h web.HandlerType, ctx bool) {
	switch k {
	case 0:
		return func(c web.C, w http.ResponseWriter, r *http.Request) { f(c, true, w, r) }, true
	case 1:
		return func(w http.ResponseWriter, r *http.Request) { f(web.C{}, false, w, r) }, false
	case 2:
		return &stdH{f}, false
	case 3:
		return &ctxH{f}, true
	case 4:
		return &bothH{f}, true
	case 5:
		return web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { f(c, true, w, r) }), true
	case 6:
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { f(web.C{}, false, w, r) }), false
	}
	m := web.New()
	m.Use(m.Router) // otherwise an outer Router's match would select m itself, as documented
	m.Handle(regexp.MustCompile(`^`), func(c web.C, w http.ResponseWriter, r *http.Request) { f(c, true, w, r) })
	return m, true
}

// C10Flow: a caller's context, arbitrary middleware, nested muxes and every
// handler form.
func C10Flow() {
	k := sym.Choice(min(nForms, sym.Param("forms", nForms)))
	depth := sym.Param("depth", 2)
	nested := sym.Choice(depth)
	asNotFound := sym.Choice(2) == 1
	name := sym.String(0, 1)
	val := sym.String(0, 1)
	sym.Assume(name != "p")
	given := sym.Choice(4) // which parts of the context the caller passes
	hasP, hasE := given&1 == 0, given&2 == 0
	w0 := hu.NewRec()
	bound := sym.String(1, sym.Param("path", 2))
	for i := 0; i < len(bound); i++ {
		sym.Assume(bound[i] != '/')
	}
	r0 := hu.Req("GET", "/a/"+bound)
	if asNotFound {
		r0.URL.Path = "/" + bound
	}
	calls := 0
	var stored []int
	var same func(...string) bool
	h, ctx := form(k, func(c web.C, ctx bool, w http.ResponseWriter, r *http.Request) {
		calls++
		sym.Assert(w == http.ResponseWriter(w0) && r == r0 && same(), "the handler is served the same request and writer")
		if !ctx {
			return
		}
		if hasP {
			sym.Assert(c.URLParams[name] == val, "the handler sees the caller's parameters")
		}
		if hasE {
			sym.Assert(c.Env["caller"] == val, "the handler sees the caller's environment")
		}
		for _, i := range stored {
			sym.Assert(c.Env[i] == val, "the handler sees what each layer stored")
		}
		np := 0
		if hasP {
			np++
		}
		if !asNotFound {
			np++
			sym.Assert(c.URLParams["p"] == bound, "the handler sees its parameters")
		}
		sym.Assert(len(c.URLParams) == np, "no other parameters")
	})
	_ = ctx
	cur := h
	nmw := sym.Param("mws", 2)
	same = hu.Same(r0)
	total := 0
	for d := 0; d <= nested; d++ {
		m := web.New()
		n := sym.Choice(nmw + 1)
		for i := 0; i < n; i++ {
			id := total
			total++
			replace := sym.Choice(2) == 1
			m.Use(func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					sym.Assert(w == http.ResponseWriter(w0) && r == r0 && same(), "each layer is served the same request and writer")
					if hasP {
						sym.Assert(c.URLParams[name] == val, "each layer sees the caller's parameters")
					}
					if hasE {
						sym.Assert(c.Env["caller"] == val, "each layer sees the caller's environment")
					}
					for _, o := range stored {
						sym.Assert(c.Env[o] == val, "each layer sees what outer layers stored")
					}
					if replace || c.Env == nil {
						n := map[interface{}]interface{}{}
						for k, v := range c.Env {
							n[k] = v
						}
						c.Env = n
					}
					c.Env[id] = val
					stored = append(stored, id)
					h.ServeHTTP(w, r)
				})
			})
		}
		switch {
		case d > 0:
			m.Handle(regexp.MustCompile(`^/`), cur)
		case asNotFound:
			m.Get("/never", func(w http.ResponseWriter, r *http.Request) {})
			m.NotFound(cur)
		default:
			m.Handle("/a/:p", cur)
		}
		cur = m
	}
	m := cur.(*web.Mux)
	c := web.C{}
	if hasP {
		c.URLParams = map[string]string{name: val}
	}
	if hasE {
		c.Env = map[interface{}]interface{}{"caller": val}
	}
	if given == 3 && sym.Choice(2) == 1 {
		m.ServeHTTP(w0, r0)
	} else {
		m.ServeHTTPC(c, w0, r0)
	}
	sym.Assert(calls == 1, "the handler runs once")
	sym.Assert(len(stored) == total, "every layer runs once")
	if ctx {
		sym.Reach("context")
	} else {
		sym.Reach("plain")
	}
	if nested > 0 {
		sym.Reach("nested")
	}
}

// C12Raw: what Match reports about every pattern and handler type.
func C12Raw() {
	var raw web.PatternType
	var re *regexp.Regexp
	custom := &pat{prefix: "/", ok: true}
	str := ""
	pk := sym.Choice(3)
	switch pk {
	case 0:
		str = "/" + sym.String(0, 2)
		raw = str
	case 1:
		var err error
		re, err = regexp.Compile(genRegexp())
		sym.Assume(err == nil)
		raw = re
		sym.Observe("regexp", re.String())
	case 2:
		raw = custom
	}
	hk := sym.Choice(nForms)
	ran := 0
	h, _ := form(hk, func(c web.C, ctx bool, w http.ResponseWriter, r *http.Request) { ran++ })
	m := web.New()
	var match web.Match
	got := 0
	m.Use(m.Router)
	m.Use(func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			match = web.GetMatch(*c)
			got++
			h.ServeHTTP(w, r)
		})
	})
	decoy := sym.Choice(3) // other routes, before and after
	if decoy == 1 {
		m.Handle("/zz", func(w http.ResponseWriter, r *http.Request) {})
	}
	if decoy == 2 {
		m.Handle(&pat{prefix: "/", ok: false}, func(w http.ResponseWriter, r *http.Request) {})
	}
	m.Handle(raw, h)
	if decoy == 1 {
		m.Handle("/*", func(w http.ResponseWriter, r *http.Request) {})
	}
	path := sym.String(0, sym.Param("path", 3))
	m.NotFound(func(w http.ResponseWriter, r *http.Request) {})
	m.ServeHTTP(hu.NewRec(), hu.Req("GET", path))
	sym.Assert(got == 1, "the layer runs")
	if ran == 0 && match.Pattern != nil {
		sym.Assert(decoy == 1, "a match is of the route that is selected")
		s, ok := match.RawPattern().(string)
		sym.Assert(ok && (s == "/zz" || s == "/*"), "RawPattern is the string that was registered")
		return
	}
	if ran == 0 {
		sym.Assert(match.Pattern == nil && match.Handler != nil, "an unmatched request has the NotFound handler and no pattern")
		sym.Reach("notfound")
		return
	}
	rp := match.RawPattern()
	switch pk {
	case 0:
		s, ok := rp.(string)
		sym.Assert(ok && s == str, "RawPattern is the string that was registered")
	case 1:
		x, ok := rp.(*regexp.Regexp)
		sym.Assert(ok && x == re, "RawPattern is the regexp that was registered")
	case 2:
		x, ok := rp.(*pat)
		sym.Assert(ok && x == custom, "RawPattern is the pattern that was registered")
	}
	rh := match.RawHandler()
	w, r := hu.NewRec(), hu.Req("GET", path)
	n := ran
	switch f := rh.(type) {
	case func(web.C, http.ResponseWriter, *http.Request):
		sym.Assert(hk == 0, "RawHandler has the registered type")
		f(web.C{}, w, r)
	case func(http.ResponseWriter, *http.Request):
		sym.Assert(hk == 1, "RawHandler has the registered type")
		f(w, r)
	case web.HandlerFunc:
		sym.Assert(hk == 5, "RawHandler has the registered type")
		f(web.C{}, w, r)
	case http.HandlerFunc:
		sym.Assert(hk == 6, "RawHandler has the registered type")
		f(w, r)
	default:
		sym.Assert(hk != 0 && hk != 1 && hk != 5 && hk != 6 && rh == h, "RawHandler is the handler that was registered")
		ran++
	}
	sym.Assert(ran == n+1, "RawHandler is the function that was registered")
	sym.Reach("matched")
}

// C12Get: GetMatch on environments without a match.
func C12Get() {
	c := web.C{}
	var other interface{}
	switch sym.Choice(5) {
	case 1:
		c.Env = map[interface{}]interface{}{}
	case 2:
		c.Env = map[interface{}]interface{}{web.MatchKey: nil}
	case 3:
		other = sym.String(0, 2)
		c.Env = map[interface{}]interface{}{web.MatchKey: other}
	case 4:
		c.Env = map[interface{}]interface{}{web.MatchKey: &web.Match{Pattern: &pat{}}, "x": web.Match{Pattern: &pat{}}}
	}
	m := web.GetMatch(c)
	sym.Assert(m.Pattern == nil && m.Handler == nil, "there is no match")
	sym.Assert(m.RawPattern() == nil && m.RawHandler() == nil, "an empty match has neither pattern nor handler")
	sym.Reach("done")
}
