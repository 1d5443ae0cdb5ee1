package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif/harness/hu"
	"verif/harness/sched"
	"verif/harness/sym"
	"verif/harness/vatomic"
)

// C16Options: any method, any handler script, any valid methods.
func C16Options() {
	l := script(sym.Param("steps", 3), 4)
	method := sym.String(0, 7)
	c := web.C{}
	var valid []string
	vk := sym.Choice(7)
	switch vk {
	case 6:
		valid = append(make([]string, 0, 8), "GET", "HEAD", "PATCH", "POST")
	case 1:
		c.Env = map[interface{}]interface{}{}
	case 2:
		valid = []string{"GET", "HEAD"}
	case 3:
		valid = []string{"DELETE", "OPTIONS", "PUT"}
	case 4:
		valid = append(make([]string, 0, 4), "POST")
	case 5:
		c.Env = map[interface{}]interface{}{web.ValidMethodsKey: "GET"}
	}
	if valid != nil {
		c.Env = map[interface{}]interface{}{web.ValidMethodsKey: valid}
	}
	nv := len(valid)
	late := sym.Choice(2) == 1 && valid != nil // the methods become known during the request
	if late {
		c.Env = nil
	}
	w, ref := hu.NewRec(), hu.NewRec()
	if (vk == 0 || vk == 3) && sym.Choice(2) == 1 {
		// someone has set the header already
		w.H["Allow"], ref.H["Allow"] = []string{"TRACE"}, []string{"TRACE"}
	}
	known := append([]string(nil), valid...)
	r := hu.Req(method, "/")
	same := hu.Same(r)
	h := middleware.AutomaticOptions(&c, http.HandlerFunc(func(w http.ResponseWriter, r2 *http.Request) {
		sym.Assert(r2 == r && same(), "the handler is served the request")
		if late {
			c.Env = map[interface{}]interface{}{web.ValidMethodsKey: valid}
		}
		play(l, w)
	}))
	h.ServeHTTP(w, r)
	play(l, ref)
	if sym.Decide(sym.And(sym.And(ref.Code == 404, ref.Headers > 0), sym.And(valid != nil, method == "OPTIONS"))) {
		sym.Assert(w.Code == 200, "the status becomes 200")
		sym.Assert(len(w.Body) == 0, "the body is empty")
		allow := w.Snap["Allow"]
		sym.Assert(len(allow) == 1, "one Allow header is sent")
		n := 0
		for _, m := range strings.Split(allow[0], ", ") {
			n++
			ok := m == "OPTIONS"
			for _, v := range known {
				ok = ok || v == m
			}
			sym.Assert(ok, "Allow lists only valid methods and OPTIONS")
		}
		want := nv
		if vk != 3 {
			want++
		}
		sym.Assert(n == want, "Allow lists every valid method and OPTIONS once")
		for _, v := range append([]string{"OPTIONS"}, known...) {
			sym.Assert(strings.Contains(", "+allow[0]+", ", ", "+v+", "), "Allow lists every valid method and OPTIONS")
		}
		sym.Assert(sameInts(w.Infos, ref.Infos), "informational statuses pass through")
		sym.Reach("answered")
		return
	}
	sym.Assert(w.Code == ref.Code, "the status passes through")
	sym.Assert(string(w.Body) == string(ref.Body), "the body passes through")
	sym.Assert(sameInts(w.Infos, ref.Infos), "the informational statuses pass through")
	sym.Assert(sameHeader(w.Snap, ref.Snap) && sameHeader(w.H, ref.H), "the headers pass through")
	if method == "OPTIONS" {
		sym.Reach("options passes")
	} else {
		sym.Reach("other")
	}
}

type oddPanic struct{ a, b int }

type errPanic struct{ s string }

func (e *errPanic) Error() string { return e.s }

// C17Recoverer: any script, then possibly a panic with any kind of value.
func C17Recoverer() {
	l := script(sym.Param("steps", 2), 4)
	pk := sym.Choice(8)
	c := web.C{}
	if sym.Choice(2) == 1 {
		c.Env = map[interface{}]interface{}{middleware.RequestIDKey: sym.String(0, 1)}
	}
	boom := func() {
		switch pk {
		case 1:
			panic("boom")
		case 2:
			panic(errors.New("boom"))
		case 3:
			panic(7)
		case 4:
			panic(oddPanic{1, 2})
		case 5:
			var m map[string]int
			m["x"] = 1
		case 6:
			panic(http.ErrAbortHandler)
		case 7:
			panic(&errPanic{"%d"})
		}
	}
	w, ref := hu.NewRec(), hu.NewRec()
	r := hu.Req("GET", "/")
	same := hu.Same(r)
	calls := 0
	h := middleware.Recoverer(&c, http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
		calls++
		sym.Assert(r2 == r && same(), "the handler is served the request")
		play(l, w2)
		boom()
	}))
	func() {
		defer func() { sym.Assert(recover() == nil, "the panic does not propagate") }()
		h.ServeHTTP(w, r)
	}()
	play(l, ref)
	sym.Assert(calls == 1, "the handler runs once")
	sym.Assert(sameInts(w.Infos, ref.Infos), "informational statuses are the handler's")
	if pk == 0 {
		sym.Assert(w.Code == ref.Code && string(w.Body) == string(ref.Body), "without a panic the response is the handler's")
		sym.Assert(sameHeader(w.H, ref.H) && sameHeader(w.Snap, ref.Snap), "without a panic the headers are the handler's")
		sym.Reach("no panic")
		return
	}
	if ref.Code == 0 {
		sym.Assert(w.Code == 500, "the client gets a 500")
		sym.Reach("500")
		return
	}
	sym.Assert(w.Code == ref.Code, "a response that was started keeps its status")
	sym.Assert(sameHeader(w.Snap, ref.Snap), "a response that was started keeps its headers")
	sym.Assert(len(w.Body) >= len(ref.Body) && string(w.Body[:len(ref.Body)]) == string(ref.Body), "a response that was started keeps its body")
	sym.Reach("started")
}

// C18RealIP: arbitrary forwarding headers.
func C18RealIP() {
	n := sym.Param("len", 4)
	addr := sym.String(0, 2)
	hdr := http.Header{"Other": {"x"}}
	xff, xri := "", ""
	switch sym.Choice(4) {
	case 1:
		xff = sym.String(0, n)
		hdr["X-Forwarded-For"] = []string{xff}
	case 2:
		xff = sym.String(0, n)
		hdr["X-Forwarded-For"] = []string{xff, "9.9.9.9"}
	case 3:
		hdr["X-Forwarded-For"] = nil
	}
	switch sym.Choice(3) {
	case 1:
		xri = sym.String(0, 2)
		hdr["X-Real-Ip"] = []string{xri}
	case 2:
		xri = sym.String(0, 2)
		hdr["X-Real-Ip"] = []string{xri, "8.8.8.8"}
	}
	sym.Observe("xff", xff)
	want := addr
	if xff != "" {
		i := 0
		for i < len(xff) && !sym.Decide(sym.And(xff[i] == ',', i+1 < len(xff) && xff[i+1] == ' ')) {
			i++
		}
		if i > 0 {
			want = xff[:i]
			sym.Reach("forwarded")
		} else {
			sym.Reach("empty element")
		}
	} else if xri != "" {
		want = xri
		sym.Reach("real")
	} else {
		sym.Reach("none")
	}
	r := hu.Req("GET", "/p")
	r.Header = hdr
	r.RemoteAddr = addr
	ref := hu.CopyHeader(hdr)
	old := *r
	old.RemoteAddr = want
	w := hu.NewRec()
	calls := 0
	middleware.RealIP(http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
		calls++
		sym.Assert(r2 == r && w2 == http.ResponseWriter(w), "the handler is served the request")
		sym.Assert(r2.RemoteAddr == want, "RemoteAddr is the documented address")
		sym.Assert(sameHeader(r2.Header, ref) && r2.URL.Path == "/p" && r2.Method == "GET", "nothing else changes")
		r3 := *r2
		r3.RemoteAddr = old.RemoteAddr
		sym.Assert(r3.Host == old.Host && r3.URL == old.URL && r3.RequestURI == old.RequestURI && r3.Form == nil && r3.Proto == old.Proto, "nothing else changes")
	})).ServeHTTP(w, r)
	sym.Assert(calls == 1, "the handler runs once")
}

// C19IDs: requests in several goroutines, from an arbitrary earlier count.
func C19IDs() {
	jumps := []uint64{0, 4, 94, 999_990, 1<<16 - 6, 1<<31 - 6, 1<<32 - 6, 9_999_990, 1<<53 - 6, 1<<63 - 6, 1<<64 - 20}
	g := sym.Param("goroutines", 2)
	each := sym.Param("each", 2)
	seen := map[string]int{}
	done := 0
	serve := func(kind int) {
		c := web.C{}
		n := 1
		if kind == 1 {
			c.Env = map[interface{}]interface{}{"k": "v"}
			n = 2
		} else if kind == 2 {
			c.Env = map[interface{}]interface{}{middleware.RequestIDKey: "old"}
		}
		calls := 0
		r := hu.Req("GET", "/")
		same := hu.Same(r)
		middleware.RequestID(&c, http.HandlerFunc(func(w http.ResponseWriter, r2 *http.Request) {
			calls++
			sym.Assert(r == r2 && same(), "the handler is served the request")
			id := middleware.GetReqID(c)
			sym.Assert(id != "" && c.Env[middleware.RequestIDKey] == id, "the ID is found under its key")
			seen[id]++
			sym.Assert(seen[id] == 1, "no two requests carry the same ID")
			sym.Assert(len(c.Env) == n, "nothing else is stored")
			if kind == 1 {
				sym.Assert(c.Env["k"] == "v", "other entries are kept")
			}
		})).ServeHTTP(hu.NewRec(), r)
		sym.Assert(calls == 1, "the handler runs once")
	}
	kind := sym.Choice(3)
	for i := 0; i < 3; i++ {
		serve(0)
	}
	vatomic.Jump(jumps[sym.Choice(len(jumps))])
	for i := 0; i < g; i++ {
		sched.Go(func() {
			for k := 0; k < each; k++ {
				serve(kind)
			}
			done++
		})
	}
	sched.Await(func() bool { return done == g })
	sym.Assert(len(seen) == 3+g*each, "every request has an ID")
	sym.Reach("done")
}

// C19Far: requests at the start and after an arbitrary number of others.
func C19Far() {
	var ids []string
	serve := func() {
		c := web.C{}
		middleware.RequestID(&c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			id := middleware.GetReqID(c)
			sym.Assert(id != "", "the ID is found under its key")
			ids = append(ids, id)
		})).ServeHTTP(hu.NewRec(), hu.Req("GET", "/"))
	}
	n := sym.Param("each", 2)
	for i := 0; i < n; i++ {
		serve()
	}
	others := sym.Uint64()
	sym.Assume(others < 1<<64-16)
	vatomic.Jump(others)
	for i := 0; i < n; i++ {
		serve()
	}
	sym.Assert(len(ids) == 2*n, "every request has an ID")
	for i := range ids {
		for j := range ids[:i] {
			sym.Assert(ids[i] != ids[j], "no two requests carry the same ID")
		}
	}
	sym.Reach("done")
}

// C19Get: GetReqID on other environments.
func C19Get() {
	c := web.C{}
	want := ""
	switch sym.Choice(5) {
	case 1:
		c.Env = map[interface{}]interface{}{}
	case 2:
		want = sym.String(0, 2)
		c.Env = map[interface{}]interface{}{middleware.RequestIDKey: want}
	case 3:
		c.Env = map[interface{}]interface{}{middleware.RequestIDKey: 3, "x": "y"}
	case 4:
		c.Env = map[interface{}]interface{}{middleware.RequestIDKey: nil}
	}
	sym.Assert(middleware.GetReqID(c) == want, "GetReqID returns the ID or the empty string")
	sym.Reach("done")
}

var condHeaders = []string{"Etag", "If-Modified-Since", "If-Match", "If-None-Match", "If-Range", "If-Unmodified-Since"}

// C20NoCache: arbitrary conditional headers; a handler that may override.
func C20NoCache() {
	hdr := http.Header{"Accept": {"a", "b"}, "If-Other": {"z"}, "Cache-Control": {"req"}}
	for _, k := range []string{"Range", "Pragma", "If", "Authorization", "Cookie", "Content-Type", "Last-Modified", "Vary", "Expires", "X-Accel-Expires", "If-Schedule-Tag-Match"} {
		hdr[k] = []string{"v"}
	}
	only := -1
	if sym.Param("all", 1) == 0 {
		only = sym.Choice(len(condHeaders))
	}
	for i, k := range condHeaders {
		if only >= 0 && only != i {
			continue
		}
		switch sym.Choice(4) {
		case 1:
			hdr[k] = []string{sym.String(0, 1)}
		case 2:
			hdr[k] = []string{sym.String(0, 1), sym.String(0, 1)}
		case 3:
			hdr[k] = []string{}
		}
	}
	// one more header of any name in canonical form
	extra := sym.String(1, sym.Param("name", 4))
	sym.Assume(extra[0] >= 'A' && extra[0] <= 'Z')
	for i := 1; i < len(extra); i++ {
		sym.Assume(extra[i] >= 'a' && extra[i] <= 'z')
	}
	mine := sym.Decide(extra != "Etag")
	for k := range hdr {
		mine = mine && sym.Decide(extra != k)
	}
	if mine {
		hdr[extra] = []string{"e"}
	}
	r := hu.Req("GET", "/")
	r.Header = hdr
	ref := hu.CopyHeader(hdr)
	w := hu.NewRec()
	w.H["Keep"] = []string{"k"}
	same := hu.Same(r)
	if sym.Choice(2) == 1 {
		w.H["Cache-Control"] = []string{"public", "max-age=3600"}
		w.H["Expires"] = []string{"tomorrow"}
	}
	override := sym.Choice(3)
	calls := 0
	middleware.NoCache(http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
		calls++
		sym.Assert(r2 == r, "the handler is served the request")
		for _, k := range condHeaders {
			for _, v := range r2.Header[k] {
				sym.Assert(v == "", "the handler sees no value for "+k)
			}
		}
		sym.Assert(same(condHeaders...), "the rest of the request is untouched")
		for _, k := range []string{"Accept", "If-Other", "Cache-Control"} {
			sym.Assert(len(r2.Header[k]) == len(ref[k]) && r2.Header[k][0] == ref[k][0], "other request headers are untouched")
		}
		if mine {
			v := r2.Header[extra]
			sym.Assert(len(v) == 1 && v[0] == "e", "other request headers are untouched")
		}
		if override == 1 {
			w2.Header().Set("Cache-Control", "public")
			w2.Header().Del("Pragma")
		}
		if override == 2 {
			w2.WriteHeader(204)
		}
		w2.Write([]byte("x"))
	})).ServeHTTP(w, r)
	sym.Assert(calls == 1, "the handler runs once")
	want := map[string]string{"Expires": "Thu, 01 Jan 1970 00:00:00 UTC", "Cache-Control": "no-cache, private, max-age=0", "Pragma": "no-cache", "X-Accel-Expires": "0"}
	n := 5
	if override == 1 {
		want["Cache-Control"] = "public"
		delete(want, "Pragma")
		n = 4
		sym.Reach("overridden")
	}
	for k, v := range want {
		sym.Assert(len(w.Snap[k]) == 1 && w.Snap[k][0] == v, "the response carries "+k)
	}
	sym.Assert(len(w.Snap) == n && w.Snap["Keep"][0] == "k", "no other response header changes")
	sym.Reach("done")
}

// C21Env: the three middleware that allocate the environment.
func C21Env() {
	k := sym.Choice(3)
	c := web.C{}
	ek := sym.Choice(4)
	n := 0
	key := interface{}(sym.Choice(2))
	orig := map[interface{}]interface{}{}
	switch ek {
	case 1:
		c.Env = orig
	case 2:
		orig[key] = "v"
		c.Env = orig
		n = 1
	case 3:
		orig[key] = "v"
		orig["urlquery2"] = 2
		c.Env = orig
		n = 2
	}
	if k == 1 && ek > 0 && sym.Choice(2) == 1 {
		orig[middleware.URLQueryKey] = "stale"
	}
	q := sym.String(0, sym.Param("query", 3))
	sym.Observe("query", q)
	r := hu.Req("GET", "/")
	r.URL.RawQuery = q
	switch sym.Choice(3) {
	case 1:
		r.Form = url.Values{"f": {"1"}}
	case 2:
		r.Method = "POST"
		r.Header["Content-Type"] = []string{"application/x-www-form-urlencoded"}
		r.Body = io.NopCloser(strings.NewReader("f=2"))
	}
	same := hu.Same(r)
	calls := 0
	h := http.Handler(http.HandlerFunc(func(w http.ResponseWriter, r2 *http.Request) {
		calls++
		sym.Assert(r2 == r && r2.URL.RawQuery == q && same(), "the handler is served the request")
		sym.Assert(c.Env != nil, "the environment is allocated")
		if n > 0 {
			sym.Assert(c.Env[key] == "v", "existing entries are kept")
		}
		if n > 1 {
			sym.Assert(c.Env["urlquery2"] == 2, "existing entries are kept")
		}
		own := 1
		switch k {
		case 0:
			own = 0
		case 1:
			got, ok := c.Env[middleware.URLQueryKey].(url.Values)
			sym.Assert(ok, "the query is stored under its key")
			want, _ := url.ParseQuery(q)
			sym.Assert(len(got) == len(want), "the query is the request's")
			for k, v := range want {
				sym.Assert(len(v) == len(got[k]), "the query is the request's")
				for i := range v {
					sym.Assert(v[i] == got[k][i], "the query is the request's")
				}
			}
		case 2:
			sym.Assert(middleware.GetReqID(c) != "", "the ID is stored")
		}
		sym.Assert(len(c.Env) == n+own, "nothing else is added")
	}))
	switch k {
	case 0:
		h = middleware.EnvInit(&c, h)
	case 1:
		h = middleware.URLQuery(&c, h)
	case 2:
		h = middleware.RequestID(&c, h)
	}
	h.ServeHTTP(hu.NewRec(), r)
	sym.Assert(calls == 1, "the handler runs once")
	sym.Reach(fmt.Sprint("kind", k))
}
