package main

import (
	"net/http"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sched"
	"verif/harness/sym"
)

// spy is a pattern that records that it was tried and never matches.
type spy struct {
	id     int
	prefix string
	log    *[]int
	block  bool
}

func (p *spy) Prefix() string { return p.prefix }
func (p *spy) Match(r *http.Request, c *web.C) bool {
	if hu.HasPrefix(r.URL.Path, p.prefix) {
		r.Header["Log"] = append(r.Header["Log"], hu.Itoa(p.id))
	}
	sched.Point()
	return false
}
func (p *spy) Run(r *http.Request, c *web.C) {}

// C14Concurrent: two goroutines add routes while others route requests. The
// patterns record being tried, so each request reveals the table it saw.
func C14Concurrent() {
	m := web.New()
	per := sym.Param("each", 2)
	adders := sym.Param("adders", 2)
	reqs := sym.Param("requests", 2)
	prefixes := []string{"", "/a"}
	base := sym.Param("base", 1)
	path := "/ab"
	first := &spy{id: 0, prefix: prefixes[sym.Choice(2)]}
	m.Handle(first, func(w http.ResponseWriter, r *http.Request) {})
	if base > 1 {
		// routes before which others are inserted
		path = []string{"/ab", "/b"}[sym.Choice(2)]
	}
	for id := 1; id < base; id++ {
		m.Handle(&spy{id: id, prefix: "/b"}, func(w http.ResponseWriter, r *http.Request) {})
	}
	if sym.Choice(2) == 1 {
		m.Compile()
	}
	pk := make([]int, adders*per)
	for i := range pk {
		pk[i] = sym.Choice(2)
	}
	flags := func() []bool {
		f := make([]bool, base+adders*per)
		for i := 0; i < base; i++ {
			f[i] = true
		}
		return f
	}
	started := flags()
	finished := flags()
	done := 0
	prefix := func(id int) string {
		if id == 0 {
			return first.prefix
		}
		if id < base {
			return "/b"
		}
		return prefixes[pk[id-base]]
	}
	check := func(before, after []bool, l []string) {
		pos := map[string]int{}
		for i, s := range l {
			_, dup := pos[s]
			sym.Assert(!dup, "no route is tried twice")
			pos[s] = i + 1
		}
		prev := 0
		for id := 0; id < base+adders*per; id++ {
			p := pos[hu.Itoa(id)]
			if !hu.HasPrefix(path, prefix(id)) {
				sym.Assert(p == 0, "a route that cannot match is not tried")
				continue
			}
			if before[id] {
				sym.Assert(p > 0, "a route whose addition had completed is taken into account")
			}
			if !after[id] {
				sym.Assert(p == 0, "a route that was not being added is not")
			}
			if id < base {
				sym.Assert(prev < p, "earlier routes come first")
				prev = p
				continue
			}
			k := id - base
			if q := id - 1; k%per > 0 && p > 0 && hu.HasPrefix(path, prefix(q)) {
				q = pos[hu.Itoa(q)]
				sym.Assert(q > 0 && q < p, "routes added by one goroutine keep their order")
			}
			if p > 0 {
				sym.Assert(prev < p, "earlier routes come first")
			}
		}
	}
	request := func() []string {
		before := append([]bool(nil), finished...)
		r := hu.Req("GET", path)
		m.ServeHTTP(hu.NewRec(), r)
		check(before, append([]bool(nil), started...), r.Header["Log"])
		return r.Header["Log"]
	}
	for a := 0; a < adders; a++ {
		a := a
		sched.Go(func() {
			for i := 0; i < per; i++ {
				id := base + a*per + i
				started[id] = true
				m.Handle(&spy{id: id, prefix: prefix(id)}, func(w http.ResponseWriter, r *http.Request) {})
				finished[id] = true
			}
			done++
		})
	}
	sched.Go(func() {
		for i := 0; i < reqs; i++ {
			request()
		}
		done++
	})
	sched.Await(func() bool { return done == adders+1 })
	l := request()
	n := 0
	for id := 0; id < base+adders*per; id++ {
		if hu.HasPrefix(path, prefix(id)) {
			n++
		}
	}
	sym.Assert(len(l) == n, "no route is lost")
	sym.Reach("done")
}
