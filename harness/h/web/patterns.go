package main

import (
	"net/http"
	"regexp"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sym"
)

// rawPatterns are built-in patterns with related prefixes.
var rawPatterns = []func() web.PatternType{
	func() web.PatternType { return "/" },
	func() web.PatternType { return "/:x" },
	func() web.PatternType { return "/a/*" },
	func() web.PatternType { return regexp.MustCompile(`^/(a|b)`) },
	func() web.PatternType { return "/a" },
	func() web.PatternType { return "/a:x.y" },
	func() web.PatternType { return regexp.MustCompile(`/ab?`) },
	func() web.PatternType { return "/:x/:y" },
	func() web.PatternType { return "/*" },
	func() web.PatternType { return "" },
	func() web.PatternType { return "/ab" },
	func() web.PatternType { return regexp.MustCompile(`^/a(?P<n>.)$`) },
	func() web.PatternType { return "/abcd/:z" },
	func() web.PatternType { return "/abce" },
	func() web.PatternType { return regexp.MustCompile(`/a|/b`) },
	func() web.PatternType { return regexp.MustCompile(`(?i)/A`) },
	func() web.PatternType { return regexp.MustCompile(`/a|b`) },
	func() web.PatternType { return "/\u00e9:x" },
	func() web.PatternType { return "/\u00e8/" },
	func() web.PatternType { return regexp.MustCompile("^/\u00ea(.)") },
}

func rawPattern() web.PatternType {
	n := sym.Param("patterns", len(rawPatterns))
	return rawPatterns[sym.Choice(min(n, len(rawPatterns)))]()
}

// matches says whether the pattern, taken alone, matches the path.
func matches(raw web.PatternType, method, path string) bool {
	c := web.C{}
	return web.ParsePattern(raw).Match(hu.Req(method, path), &c)
}

var stdMethods = []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}

// anyMethod returns a standard or an unusual method string.
func anyMethod() string {
	i := sym.Choice(len(stdMethods) + 4)
	switch {
	case i < len(stdMethods):
		return stdMethods[i]
	case i == len(stdMethods):
		return ""
	case i == len(stdMethods)+1:
		return "get"
	case i == len(stdMethods)+2:
		return "PROPFIND"
	}
	return "GETX"
}

// selections builds a table of built-in patterns and compares the handler
// that runs with that of a linear scan.
func selections(methods bool) {
	n := sym.Param("routes", 2)
	m := web.New()
	got := -1
	calls := 0
	m.NotFound(func(w http.ResponseWriter, r *http.Request) { got = -2; calls++ })
	raws := make([]web.PatternType, n)
	regs := make([]int, n)
	for i := 0; i < n; i++ {
		i := i
		raws[i] = rawPattern()
		if methods {
			regs[i] = sym.Choice(3)
		}
		register(m, regs[i], raws[i], func(c web.C, w http.ResponseWriter, r *http.Request) { got = i; calls++ })
	}
	method := "GET"
	if methods {
		method = sym.String(0, 4)
	}
	path := sym.String(0, sym.Param("path", 3))
	m.ServeHTTP(hu.NewRec(), hu.Req(method, path))
	want := -2
	for i := n - 1; i >= 0; i-- {
		if accepts(regs[i], method) && matches(raws[i], method, path) {
			want = i
		}
	}
	sym.Observe("path", path)
	sym.Observe("got", hu.Itoa(got))
	sym.Assert(calls == 1, "exactly one handler runs")
	sym.Assert(got == want, "the handler that runs is that of the first matching route")
	if want == -2 {
		sym.Reach("notfound")
	} else {
		sym.Reach("found")
	}
}

func C01Builtin() { selections(false) }
func C02Any()     { selections(true) }
