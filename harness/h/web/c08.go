package main

import (
	"net/http"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sym"
)

// C08Stack: a sequence of edits and requests against a list model.
func C08Stack() {
	nm := sym.Param("mws", 2)
	ops := sym.Param("ops", 3)
	m := web.New()
	var trace []int
	var edit func() // made by the handler of the request in progress
	// pass reports whether middleware i passes the request on: it does not
	// if the request asks it to stop there
	pass := func(i int, r *http.Request) bool {
		return !sym.Decide(r.Header["Stop"][0] == hu.Itoa(i))
	}
	mws := make([]web.MiddlewareType, nm+1)
	for i := range mws {
		i := i
		if i%2 == 0 {
			mws[i] = func(h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					trace = append(trace, i)
					if pass(i, r) {
						h.ServeHTTP(w, r)
					}
					trace = append(trace, ^i)
				})
			}
		} else {
			mws[i] = func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					trace = append(trace, i)
					if pass(i, r) {
						h.ServeHTTP(w, r)
					}
					trace = append(trace, ^i)
				})
			}
		}
	}
	m.Handle("/", func(w http.ResponseWriter, r *http.Request) {
		trace = append(trace, 99)
		if edit != nil {
			edit()
			edit = nil
		}
	})
	var model []int
	find := func(x int) int {
		for i, y := range model {
			if x == y {
				return i
			}
		}
		return -1
	}
	doEdit := func() {
		x := sym.Choice(nm)
		switch sym.Choice(3) {
		case 0:
			m.Use(mws[x])
			model = append(append([]int(nil), model...), x)
		case 1:
			y := sym.Choice(nm + 1)
			err := m.Insert(mws[x], mws[y])
			i := find(y)
			sym.Assert((err == nil) == (i >= 0), "Insert fails exactly for an unknown reference")
			if i >= 0 {
				n := append([]int(nil), model[:i]...)
				n = append(n, x)
				model = append(n, model[i:]...)
				sym.Reach("insert")
			} else {
				sym.Reach("insert fails")
			}
		case 2:
			err := m.Abandon(mws[x])
			i := find(x)
			sym.Assert((err == nil) == (i >= 0), "Abandon fails exactly for an unknown middleware")
			if i >= 0 {
				n := append([]int(nil), model[:i]...)
				model = append(n, model[i+1:]...)
				sym.Reach("abandon")
			} else {
				sym.Reach("abandon fails")
			}
		}
	}
	serve := func() {
		want := append([]int(nil), model...)
		trace = nil
		r := hu.Req("GET", "/")
		r.Header["Stop"] = []string{sym.String(1, 1)}
		same := hu.Same(r)
		m.ServeHTTP(hu.NewRec(), r)
		sym.Assert(same(), "the request is not changed")
		for i, x := range want {
			if !pass(x, r) {
				want = want[:i+1]
				sym.Assert(len(trace) == 2*len(want), "nothing runs below a middleware that does not pass the request on")
				for i, x := range want {
					sym.Assert(trace[i] == x, "the middleware run in stack order")
					sym.Assert(trace[len(trace)-1-i] == ^x, "the middleware nest")
				}
				sym.Reach("stopped")
				return
			}
		}
		sym.Assert(len(trace) == 2*len(want)+1, "every middleware runs once")
		for i, x := range want {
			sym.Assert(trace[i] == x, "the middleware run in stack order")
			sym.Assert(trace[len(trace)-1-i] == ^x, "the middleware nest")
		}
		sym.Assert(trace[len(want)] == 99, "routing comes last")
	}
	for k := 0; k < ops; k++ {
		switch sym.Choice(3) {
		case 0:
			doEdit()
		case 1:
			serve()
		case 2:
			edit = doEdit
			serve()
			sym.Reach("edit during a request")
		}
	}
	edit = nil
	serve()
	sym.Reach("served")
}
