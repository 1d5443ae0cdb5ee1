package main

import (
	"net/http"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sym"
)

// pat is a user-defined pattern: it matches the paths that begin with its
// prefix if ok is set.
type pat struct {
	id     int
	prefix string
	ok     bool
	runs   int
}

func (p *pat) Prefix() string { return p.prefix }
func (p *pat) Match(r *http.Request, c *web.C) bool {
	return sym.And(hu.HasPrefix(r.URL.Path, p.prefix), p.ok)
}
func (p *pat) Run(r *http.Request, c *web.C) { p.runs++ }

var regNames = []string{"handle", "get", "post", "head", "options", "delete", "patch", "put", "trace", "connect"}

// register adds a route with the k-th registration function.
func register(m *web.Mux, k int, p web.PatternType, h web.HandlerType) {
	switch k {
	case 0:
		m.Handle(p, h)
	case 1:
		m.Get(p, h)
	case 2:
		m.Post(p, h)
	case 3:
		m.Head(p, h)
	case 4:
		m.Options(p, h)
	case 5:
		m.Delete(p, h)
	case 6:
		m.Patch(p, h)
	case 7:
		m.Put(p, h)
	case 8:
		m.Trace(p, h)
	case 9:
		m.Connect(p, h)
	}
}

var regMethods = [][]string{nil, {"GET", "HEAD"}, {"POST"}, {"HEAD"}, {"OPTIONS"}, {"DELETE"}, {"PATCH"}, {"PUT"}, {"TRACE"}, {"CONNECT"}}

// accepts says whether the k-th registration function serves the method.
func accepts(k int, method string) bool {
	if k == 0 {
		return true
	}
	for _, m := range regMethods[k] {
		if m == method {
			return true
		}
	}
	return false
}

func str(max int) string {
	switch sym.Param("alphabet", 0) {
	case 2:
		return sym.StringOf(0, max, "ab")
	case 3:
		return sym.StringOf(0, max, "abc")
	}
	return sym.String(0, max)
}

// C01Custom: n routes with arbitrary prefixes, arbitrary further conditions
// and methods; an arbitrary path. The handler that runs is the one a linear
// scan finds.
func C01Custom() {
	n := sym.Param("routes", 3)
	plen := sym.Param("prefix", 2)
	m := web.New()
	got := -1
	calls := 0
	m.NotFound(func(w http.ResponseWriter, r *http.Request) { got = -2; calls++ })
	pats := make([]*pat, n)
	regs := make([]int, n)
	for i := 0; i < n; i++ {
		i := i
		if sym.Param("hist", 0) != 0 {
			// the table may be in use before it is complete
			switch sym.Choice(3) {
			case 1:
				m.Compile()
			case 2:
				m.ServeHTTP(hu.NewRec(), hu.Req("GET", "/a"))
				got, calls = -1, 0
				for _, p := range pats[:i] {
					p.runs = 0
				}
			}
		}
		pats[i] = &pat{id: i, prefix: str(plen), ok: sym.Bool()}
		if sym.Param("methods", 0) > 1 {
			regs[i] = sym.Choice(sym.Param("methods", 0))
		}
		register(m, regs[i], pats[i], func(c web.C, w http.ResponseWriter, r *http.Request) { got = i; calls++ })
	}
	path := str(sym.Param("path", 3))
	method := []string{"GET", "POST"}[sym.Choice(min(2, max(1, sym.Param("methods", 0))))]
	m.ServeHTTP(hu.NewRec(), hu.Req(method, path))

	want := -2
	for i := n - 1; i >= 0; i-- {
		if sym.Decide(sym.And(sym.And(hu.HasPrefix(path, pats[i].prefix), pats[i].ok), accepts(regs[i], method))) {
			want = i
		}
	}
	sym.Assert(calls == 1, "exactly one handler runs")
	sym.Assert(got == want, "the handler that runs is that of the first matching route")
	for i := range pats {
		exp := 0
		if i == want {
			exp = 1
		}
		sym.Assert(pats[i].runs == exp, "exactly the selected route's pattern is run")
	}
	sym.Observe("path", path)
	sym.Observe("got", hu.Itoa(got))
	if want == -2 {
		sym.Reach("notfound")
	} else {
		sym.Reach("found")
	}
}

// C02Long: literal prefixes longer than the state machine's states, paths
// that end anywhere within them.
func C02Long() {
	n := sym.Param("routes", 2)
	m := web.New()
	got := -1
	calls := 0
	m.NotFound(func(w http.ResponseWriter, r *http.Request) { got = -2; calls++ })
	shared := sym.Choice(sym.Param("shared", 8) + 1)
	lits := make([]string, n)
	raws := make([]web.PatternType, n)
	for i := range lits {
		i := i
		tail := sym.Choice(sym.Param("tail", 7) + 1)
		s := "/abcdefghijklmnopqrstuvwxyz"[:shared]
		for k := 0; k < tail; k++ {
			s += string(rune('A' + i))
		}
		lits[i] = s
		raws[i] = s
		if sym.Choice(2) == 1 {
			raws[i] = s + "/:x"
		}
		m.Get(raws[i], func(w http.ResponseWriter, r *http.Request) { got = i; calls++ })
	}
	path := sym.String(0, sym.Param("path", 4))
	if k := sym.Choice(shared + sym.Param("tail", 7) + 1); k > 0 {
		base := lits[sym.Choice(n)]
		path = base[:min(k, len(base))] + path
	}
	m.ServeHTTP(hu.NewRec(), hu.Req("GET", path))
	want := -2
	for i := n - 1; i >= 0; i-- {
		if matches(raws[i], "GET", path) {
			want = i
		}
	}
	sym.Observe("path", path)
	sym.Assert(calls == 1, "exactly one handler runs")
	sym.Assert(got == want, "the handler that runs is that of the first matching route")
	if want == -2 {
		sym.Reach("notfound")
	} else {
		sym.Reach("found")
	}
}

// C01Big: tables with many routes, prefixes that are long; the path continues
// one of them arbitrarily.
func C01Big() {
	n := sym.Param("routes", 260)
	m := web.New()
	got := -1
	calls := 0
	m.NotFound(func(w http.ResponseWriter, r *http.Request) { got = -2; calls++ })
	lits := make([]string, n)
	shared := ""
	if k := sym.Param("long", 0); k > 0 {
		n := []int{k - 1, k, k + 1}[sym.Choice(3)]
		for i := 0; i < n; i++ {
			shared += "/abcdefghijklm"[i%14 : i%14+1]
		}
	}
	const letters = "abcdefghijklmnop"
	for i := range lits {
		i := i
		lits[i] = shared + "/" + letters[i/16%16:i/16%16+1] + letters[i%16:i%16+1]
		if i >= 256 {
			lits[i] += letters[i/256 : i/256+1]
		}
		m.Get(&pat{prefix: lits[i], ok: true}, func(w http.ResponseWriter, r *http.Request) { got = i; calls++ })
	}
	var path string
	probe := []int{0, 1, 17, 126, 127, 128, 255, 256, n - 1}
	base := lits[min(probe[sym.Choice(len(probe))], n-1)]
	path = base[:len(base)-sym.Choice(2)] + sym.String(0, sym.Param("path", 1))
	m.ServeHTTP(hu.NewRec(), hu.Req("GET", path))
	want := -2
	for i := n - 1; i >= 0; i-- {
		if hu.HasPrefix(path, lits[i]) {
			want = i
		}
	}
	sym.Observe("path", path)
	sym.Observe("got", hu.Itoa(got))
	sym.Assert(calls == 1, "exactly one handler runs")
	sym.Assert(got == want, "the handler that runs is that of the first matching route")
	if want == -2 {
		sym.Reach("notfound")
	} else {
		sym.Reach("found")
	}
}
