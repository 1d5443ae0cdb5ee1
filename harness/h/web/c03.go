package main

import (
	"net/http"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sym"
)

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// C03Valid: routes with arbitrary match results, methods of registration and
// request; the list of valid methods given to NotFound.
func C03Valid() {
	n := sym.Param("routes", 2)
	kinds := sym.Param("kinds", 10)
	m := web.New()
	calls, nf := 0, 0
	var seen web.C
	type key struct{}
	m.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) { calls++; nf++; seen = c })
	regs := make([]int, n)
	oks := make([]bool, n)
	prefixes := []string{"", "/a", "/ab", "/b"}
	np := sym.Param("prefixes", 2)
	each := sym.Param("each", 0) // one route for each method
	if each > 0 {
		n = 9
		regs, oks = make([]int, n), make([]bool, n)
	}
	for i := 0; i < n; i++ {
		if each > 0 {
			regs[i] = (i*each)%9 + 1
		} else {
			regs[i] = sym.Choice(kinds)
		}
		p := &pat{id: i, prefix: prefixes[sym.Choice(np)], ok: sym.Bool()}
		oks[i] = sym.And(hu.HasPrefix("/ab", p.prefix), p.ok)
		register(m, regs[i], p, func(c web.C, w http.ResponseWriter, r *http.Request) { calls++; seen = c })
	}
	method := "PROPFIND"
	if each == 0 {
		method = anyMethod()
	}
	var env map[interface{}]interface{}
	envKind := 0
	if each == 0 {
		envKind = sym.Choice(4)
	}
	old := []string{"OLD"}
	if envKind > 0 {
		env = map[interface{}]interface{}{}
	}
	if envKind > 1 {
		env[key{}] = 7
	}
	if envKind == 3 {
		env[web.ValidMethodsKey] = old
	}
	sym.MapNondet(true)
	m.ServeHTTPC(web.C{Env: env}, hu.NewRec(), hu.Req(method, "/ab"))
	sym.MapNondet(false)

	var valid []string
	found, any := false, false
	for i := range oks {
		if sym.Decide(oks[i]) {
			any = true
			found = found || accepts(regs[i], method)
		}
	}
	for _, s := range stdMethods { // sorted
		for i := range oks {
			if sym.Decide(oks[i]) && accepts(regs[i], s) {
				valid = append(valid, s)
				break
			}
		}
	}
	sym.Assert(calls == 1, "exactly one handler runs")
	sym.Assert((nf == 1) == !found, "NotFound runs exactly when no route handles the request")
	got, set := seen.Env[web.ValidMethodsKey]
	if !found && any {
		l, ok := got.([]string)
		sym.Assert(set && ok, "the valid methods are set")
		sym.Assert(len(l) == len(valid), "the valid methods are exactly those that would match")
		for i := range valid {
			sym.Assert(l[i] == valid[i], "the valid methods are sorted and exactly those that would match")
		}
		sym.Reach("set")
	} else if envKind == 3 {
		l, ok := got.([]string)
		sym.Assert(ok && len(l) == 1 && l[0] == "OLD", "routing leaves the entry alone")
		sym.Reach("old")
	} else {
		sym.Assert(!set, "routing does not set the valid methods")
		if found {
			sym.Reach("found")
		} else {
			sym.Reach("none")
		}
	}
	want := 0
	if !found && any || envKind == 3 {
		want++
	}
	if envKind > 1 {
		want++
		sym.Assert(seen.Env[key{}] == 7, "other entries are kept")
	}
	sym.Assert(len(seen.Env) == want, "no other entries appear")
	sym.Assert(len(seen.URLParams) == 0, "no parameters appear")
}

// C13Methods: one registration function, an arbitrary method string.
func C13Methods() {
	k := sym.Choice(len(regNames))
	m := web.New()
	hit, nf := 0, 0
	m.NotFound(func(w http.ResponseWriter, r *http.Request) { nf++ })
	register(m, k, "/x", func(c web.C, w http.ResponseWriter, r *http.Request) { hit++ })
	var method string
	if sym.Choice(2) == 0 {
		method = anyMethod()
	} else {
		method = sym.String(0, sym.Param("len", 7))
	}
	m.ServeHTTP(hu.NewRec(), hu.Req(method, "/x"))
	sym.Observe("method", method)
	if accepts(k, method) {
		sym.Assert(hit == 1 && nf == 0, regNames[k]+" serves its methods")
		sym.Reach("hit " + regNames[k])
	} else {
		sym.Assert(hit == 0 && nf == 1, regNames[k]+" serves only its methods")
		sym.Reach("miss")
	}
}
