package main

import (
	"net/http"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sched"
	"verif/harness/sym"
)

type reqKey struct{}

// ctxMux is a mux whose middleware checks the context of each request. The
// request's number is in its header.
type ctxMux struct {
	m    *web.Mux
	reqs [16]req
	busy map[*web.C]string // contexts in use, unless nil
}

type req struct {
	want web.C
	body func(c *web.C)
}

func num(id string) int {
	n := 0
	for i := 0; i < len(id); i++ {
		n = n*10 + int(id[i]-'0')
	}
	return n
}

func newCtxMux() *ctxMux {
	x := &ctxMux{m: web.New()}
	if sym.Param("busy", 1) == 1 {
		x.busy = map[*web.C]string{}
	}
	x.m.Use(func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			id := r.Header.Get("Id")
			if x.busy != nil {
				_, used := x.busy[c]
				sym.Assert(!used, "two requests in progress never share a context")
				x.busy[c] = id
				defer delete(x.busy, c)
			}
			want := x.reqs[num(id)].want
			sym.Assert(sameParams(c.URLParams, want.URLParams) && (c.URLParams == nil) == (want.URLParams == nil), "the parameters are exactly those passed in")
			sym.Assert(len(c.Env) == len(want.Env) && (c.Env == nil) == (want.Env == nil), "the environment is exactly that passed in")
			for k, v := range want.Env {
				sym.Assert(c.Env[k] == v, "the environment is exactly that passed in")
			}
			if c.Env == nil {
				c.Env = map[interface{}]interface{}{}
			}
			c.Env[reqKey{}] = id
			c.Env["tag"+id] = id
			h.ServeHTTP(w, r)
			sym.Assert(c.Env[reqKey{}] == id, "the context is the request's own until its end")
		})
	})
	x.m.Handle("/:p", func(c web.C, w http.ResponseWriter, r *http.Request) {
		id := r.Header.Get("Id")
		sym.Assert(c.Env[reqKey{}] == id, "the handler sees its own environment")
		sym.Assert(c.URLParams["p"] == id, "the handler sees its own parameters")
		if f := x.reqs[num(id)].body; f != nil {
			f(&c)
		}
		sym.Assert(c.Env[reqKey{}] == id && c.URLParams["p"] == id, "the context is the request's own until its end")
	})
	return x
}

// serve sends request id through the mux; kind: 0 ServeHTTP, 1 ServeHTTPC with
// an empty context, 2 with a context of its own.
func (x *ctxMux) serve(id string, kind int, body func(c *web.C)) {
	q := &x.reqs[num(id)]
	q.body = body
	r := hu.Req("GET", "/"+id)
	r.Header["Id"] = []string{id}
	switch kind {
	case 0:
		x.m.ServeHTTP(hu.NewRec(), r)
	case 1:
		x.m.ServeHTTPC(web.C{}, hu.NewRec(), r)
	case 2:
		c := web.C{URLParams: map[string]string{"mine": id}, Env: map[interface{}]interface{}{"mine" + id: id}}
		q.want = web.C{URLParams: map[string]string{"mine": id}, Env: map[interface{}]interface{}{"mine" + id: id}}
		x.m.ServeHTTPC(c, hu.NewRec(), r)
	}
}

func noop(h http.Handler) http.Handler { return h }

// C09Seq: sequences of requests that store, panic, nest and edit the stack.
func C09Seq() {
	x := newCtxMux()
	n := sym.Param("requests", 3)
	id := 0
	kinds := sym.Param("kinds", 3)
	var one func(depth int)
	one = func(depth int) {
		id++
		me := hu.Itoa(id)
		kind := sym.Choice(kinds)
		act := sym.Choice(4)
		if depth > 0 && act == 2 {
			return
		}
		defer func() {
			if e := recover(); e != nil {
				sym.Assert(e == "boom", "only the handler's panic")
				sym.Reach("panic")
			}
		}()
		x.serve(me, kind, func(c *web.C) {
			c.URLParams["junk"] = me
			c.Env["junk"] = me
			switch act {
			case 1:
				panic("boom")
			case 2:
				sym.Reach("nested")
				one(depth + 1)
			case 3:
				x.m.Use(noop)
				sym.Reach("edit")
			}
		})
	}
	for i := 0; i < n; i++ {
		one(0)
	}
	sym.Reach("done")
}

// C09Concurrent: requests in several goroutines under all schedules.
func C09Concurrent() {
	x := newCtxMux()
	x.m.Handle("/warm", func(w http.ResponseWriter, r *http.Request) {})
	if sym.Choice(2) == 1 {
		x.serve("0", 0, nil)
	}
	n := sym.Param("goroutines", 2)
	done := 0
	kind := sym.Choice(3)
	boom := sym.Choice(2) == 1
	for i := 0; i < n; i++ {
		i := i
		sched.Go(func() {
			defer func() { done++ }()
			defer func() { recover() }()
			for k := 0; k < sym.Param("each", 1); k++ {
				x.serve(hu.Itoa(1+i+k*n), (kind+i)%3, func(c *web.C) {
					sched.Point()
					if boom && i == 0 {
						panic("boom")
					}
				})
			}
		})
	}
	sched.Await(func() bool { return done == n })
	x.serve("9", 0, nil)
	sym.Reach("done")
}
