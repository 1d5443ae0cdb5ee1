package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif/harness/hu"
	"verif/harness/sym"
	"verif/harness/venv"
)

// gone is the context of a request whose client has left.
type gone struct{ context.Context }

func (gone) Err() error { return context.Canceled }

// C25Log: any request with any ID through Logger, Recoverer or both.
func C25Log() {
	venv.KeepLog = true
	c := web.C{}
	var id string
	switch sym.Choice(4) {
	case 0:
	case 1:
		c.Env = map[interface{}]interface{}{"x": 1}
	case 2:
		id = sym.String(1, sym.Param("len", 3))
		c.Env = map[interface{}]interface{}{middleware.RequestIDKey: id}
	case 3:
		c.Env = map[interface{}]interface{}{middleware.RequestIDKey: 7} // not an ID
	}
	const letters = "abcdefghijklmnopqrstuvwxyz0123456789"
	// either the request or what becomes of it is arbitrary
	r := hu.Req("GET", "/x")
	method, shown := "GET", "/x"
	status, send, boom := 200, 1, 0
	if sym.Choice(2) == 0 {
		method = sym.StringOf(1, sym.Param("len", 3), letters+"ABCDEFGHIJKLMNOPQRSTUVWXYZ")
		r = hu.Req(method, "/"+sym.StringOf(0, sym.Param("len", 3), letters))
		shown = r.URL.Path
		switch sym.Choice(4) {
		case 3:
			r.URL.Path = "/" + strings.Repeat("0123456789", 120)
			shown = r.URL.Path
		case 1:
			r.URL.RawQuery = "q=" + sym.StringOf(0, 2, letters)
			shown += "?" + r.URL.RawQuery
		case 2:
			r.URL = &url.URL{Path: "/a b\"", RawPath: "/a%20b%22"}
			shown = "/a%20b%22"
		}
		r.RemoteAddr = sym.String(0, sym.Param("len", 3))
		if len(shown) < 3 {
			r = r.WithContext(gone{context.Background()})
		}
	} else {
		status = sym.Int(200, 999)
		send, boom = sym.Choice(3), sym.Choice(5)
	}
	var val interface{}
	text := ""
	switch boom {
	case 1:
		text = "boom" + sym.String(0, 2)
		val = text
	case 2:
		text = "bad"
		val = errors.New(text)
	case 3:
		text = "42"
		val = 42
	case 4:
		text = "out of range"
	}
	later := sym.Choice(2) == 1 && id != "" // the handler changes its environment
	rec, log := true, true
	switch sym.Choice(3) {
	case 1:
		rec = false
	case 2:
		log = false
	}
	started := 0
	var h http.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		started = len(venv.Log)
		if later {
			c.Env = map[interface{}]interface{}{middleware.RequestIDKey: ""}
		}
		switch send {
		case 1:
			w.WriteHeader(status)
		case 2:
			w.Write(nil)
		}
		venv.Clock += []time.Duration{0, time.Second, 10 * time.Second}[sym.Choice(3)]
		if boom == 4 {
			var none []int
			_ = none[boom]
		}
		if boom != 0 {
			panic(val)
		}
	})
	if rec {
		h = middleware.Recoverer(&c, h)
	}
	if log {
		h = middleware.Logger(&c, h)
	}
	w := hu.NewRec()
	func() {
		defer func() { recover() }()
		h.ServeHTTP(w, r)
	}()
	lines := venv.Log
	if log {
		sym.Assert(started == 1, "one line is logged before the handler runs")
		if len(shown) > 100 {
			sym.Assert(strings.Contains(lines[0], shown), "a long URL is logged completely")
			lines[0] = strings.Replace(lines[0], shown, "/", 1)
			shown = "/"
		}
		if id != "" {
			sym.Assert(hu.InOrder(lines[0], id, method, shown, r.RemoteAddr), "the start of the request is logged with its ID, method, URL and address")
			sym.Reach("id")
		} else {
			sym.Assert(hu.InOrder(lines[0], method, shown, r.RemoteAddr), "the start of the request is logged with its method, URL and address")
		}
		lines = lines[1:]
	} else {
		sym.Assert(started == 0, "nothing is logged before the handler runs")
	}
	if rec && boom != 0 {
		sym.Assert(len(lines) > 0, "a panic is logged")
		if id != "" {
			sym.Assert(hu.InOrder(lines[0], id), "a panic is logged with the ID of the request")
		}
		sym.Assert(hu.InOrder(lines[0], text), "a panic is logged with its value")
		lines = lines[1:]
		sym.Reach("panic")
	}
	if log && (rec || boom == 0) {
		sym.Assert(len(lines) == 1, "one line is logged after the handler has returned")
		code := hu.Itoa(200)
		switch {
		case send == 1:
			code = fmt.Sprintf("%d", status)
		case send == 0 && boom != 0:
			code = "500"
		}
		if id != "" {
			sym.Assert(hu.InOrder(lines[0], id, code), "the end of the request is logged with its ID and status")
		} else {
			sym.Assert(hu.InOrder(lines[0], code), "the end of the request is logged with its status")
		}
		sym.Reach("end")
		return
	}
	sym.Assert(len(lines) == 0, "nothing else is logged")
}
