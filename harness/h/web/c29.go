package main

import (
	"net/http"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sched"
	"verif/harness/sym"
)

// edit is one change to a middleware stack.
type edit struct {
	op   int // 0 Use, 1 Insert, 2 Abandon, 3 a route
	x, y int
}

// C29Edits: two goroutines edit the stack of one mux. What comes out is what
// one of the orders of their edits gives.
func C29Edits() {
	per := sym.Param("each", 1)
	m := web.New()
	var trace []int
	// 0 and 1 are there from the start, 2 and up are added
	mws := make([]web.MiddlewareType, 2+2*per)
	for i := range mws {
		i := i
		mws[i] = func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				trace = append(trace, i)
				h.ServeHTTP(w, r)
			})
		}
	}
	m.Get("/", func(w http.ResponseWriter, r *http.Request) { trace = append(trace, 99) })
	var base []int
	for i := 0; i < 2; i++ {
		m.Use(mws[i])
		base = append(base, i)
	}
	if sym.Choice(2) == 1 {
		// so that there is a stack to be reused
		m.ServeHTTP(hu.NewRec(), hu.Req("GET", "/"))
	}
	ops := make([][]edit, 2)
	errs := make([][]bool, 2)
	routes := 0
	for g := range ops {
		for k := 0; k < per; k++ {
			e := edit{op: sym.Choice(4), x: 2 + g*per + k, y: sym.Choice(sym.Param("refs", 2))}
			if e.op == 3 {
				routes++
			}
			ops[g] = append(ops[g], e)
		}
		errs[g] = make([]bool, per)
	}
	sched.Begin()
	done := 0
	for g := 0; g < 2; g++ {
		g := g
		sched.Go(func() {
			for k, e := range ops[g] {
				switch e.op {
				case 0:
					m.Use(mws[e.x])
				case 1:
					errs[g][k] = m.Insert(mws[e.x], mws[e.y]) != nil
				case 2:
					errs[g][k] = m.Abandon(mws[e.y]) != nil
				case 3:
					m.Get("/"+string(rune('a'+e.x)), func(w http.ResponseWriter, r *http.Request) { trace = append(trace, 100+e.x) })
				}
			}
			done++
		})
	}
	sched.Await(func() bool { return done == 2 })
	trace = nil
	m.ServeHTTP(hu.NewRec(), hu.Req("GET", "/"))
	got := trace
	// fits reports whether some order of the remaining edits explains it all
	var fits func(l []int, i, j int) bool
	fits = func(l []int, i, j int) bool {
		if i == per && j == per {
			if len(got) != len(l)+1 {
				return false
			}
			for k, x := range l {
				if got[k] != x {
					return false
				}
			}
			return got[len(l)] == 99
		}
		try := func(g, k, ni, nj int) bool {
			e := ops[g][k]
			at := -1
			for p, x := range l {
				if x == e.y {
					at = p
					break
				}
			}
			n := append([]int(nil), l...)
			bad := false
			switch e.op {
			case 0:
				n = append(n, e.x)
			case 1:
				if bad = at < 0; !bad {
					n = append(append([]int(nil), l[:at]...), e.x)
					n = append(n, l[at:]...)
				}
			case 2:
				if bad = at < 0; !bad {
					n = append(append([]int(nil), l[:at]...), l[at+1:]...)
				}
			}
			return bad == errs[g][k] && fits(n, ni, nj)
		}
		return i < per && try(0, i, i+1, j) || j < per && try(1, j, i, j+1)
	}
	sym.Assert(fits(base, 0, 0), "the stack is what some order of the edits gives")
	for g := range ops {
		for _, e := range ops[g] {
			if e.op == 3 {
				trace = nil
				m.ServeHTTP(hu.NewRec(), hu.Req("GET", "/"+string(rune('a'+e.x))))
				sym.Assert(len(trace) == len(got) && trace[len(trace)-1] == 100+e.x, "a route added meanwhile is there")
				sym.Reach("route")
			}
		}
	}
	sym.Reach("done")
}
