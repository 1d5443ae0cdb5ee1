package main

import (
	"errors"
	"io"
	"net/http"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"github.com/zenazn/goji/web/mutil"
	"verif/harness/hu"
	"verif/harness/sym"
)

var errWrite = errors.New("write failed")
var errTee = errors.New("tee failed")
var errRead = errors.New("read failed")

// src is a reader without WriteTo.
type src struct {
	data  []byte
	chunk int
	err   error
}

func (s *src) Read(b []byte) (int, error) {
	if len(s.data) == 0 {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := s.chunk
	if n > len(s.data) {
		n = len(s.data)
	}
	n = copy(b, s.data[:n])
	s.data = s.data[n:]
	return n, nil
}

// teeBuf is a tee that may fail.
type teeBuf struct {
	got   []byte
	fail  bool
	short bool // reports fewer bytes when it fails
}

func (t *teeBuf) Write(b []byte) (int, error) {
	t.got = append(t.got, b...)
	if t.fail {
		if len(b) > 0 && t.short {
			return len(b) - 1, errTee
		}
		return len(b), errTee
	}
	return len(b), nil
}

func newTee() *teeBuf {
	switch sym.Choice(3) {
	case 1:
		return &teeBuf{fail: true}
	case 2:
		return &teeBuf{fail: true, short: true}
	}
	return &teeBuf{}
}

// nWriters is how many kinds of writers there are: the first four, those with
// other sets of optional methods, and proxies.
const nWriters = 11

// writer makes an underlying writer of the k-th kind.
func writer(k int, rec *hu.Rec, hij *int, push *[]string) http.ResponseWriter {
	switch k {
	case 0:
		return rec
	case 1:
		return hu.FlushRec{Rec: rec}
	case 2:
		return hu.FullRec{FlushRec: hu.FlushRec{Rec: rec}, Hijacks: hij}
	case 4:
		return hu.HijackRec{Rec: rec, Hijacks: hij}
	case 5:
		return hu.FlushHijackRec{FlushRec: hu.FlushRec{Rec: rec}, Hijacks: hij}
	case 6:
		return hu.FromRec{Rec: rec}
	case 7:
		return hu.FlushFromRec{FlushRec: hu.FlushRec{Rec: rec}}
	case 8:
		return hu.HijackFromRec{HijackRec: hu.HijackRec{Rec: rec, Hijacks: hij}}
	case 9, 10: // a proxy
		return mutil.WrapWriter(writer((k-9)*3, rec, hij, push))
	}
	return hu.PushRec{FullRec: hu.FullRec{FlushRec: hu.FlushRec{Rec: rec}, Hijacks: hij}, Pushes: push}
}

// flaky makes the underlying writer accept part of a write and fail.
func flaky(rec *hu.Rec) {
	rec.Accept = func(n int) (int, error) {
		switch sym.Choice(3) {
		case 1:
			return n, errWrite
		case 2:
			if n > 0 {
				return sym.Concrete(sym.Int(0, n-1), 0, n-1), errWrite
			}
		}
		return n, nil
	}
}

// proxyRun drives a proxy with n operations and compares after each.
func proxyRun(kinds int, tees bool) {
	rec := hu.NewRec()
	hij := 0
	var push []string
	under := writer(sym.Choice(sym.Param("writers", nWriters)), rec, &hij, &push)
	if sym.Param("flaky", 1) != 0 {
		flaky(rec)
	}
	p := mutil.WrapWriter(under)
	sym.Assert(p.Unwrap() == under, "Unwrap returns the original")
	sym.Assert(tees || p.Status() == 0 && p.BytesWritten() == 0, "a fresh proxy has sent nothing")
	var t *teeBuf
	from := 0
	n := sym.Param("ops", 3)
	blen := sym.Param("body", 2)
	if tees && sym.Choice(2) == 1 {
		t = newTee()
		p.Tee(t)
	}
	for i := 0; i < n; i++ {
		before := len(rec.Body)
		switch sym.Choice(kinds) {
		case 0:
			p.WriteHeader(sym.Int(100, 999))
		case 1:
			b := sym.String(0, blen)
			m, err := p.Write([]byte(b))
			sym.Assert(m == len(rec.Body)-before, "Write reports the bytes accepted")
			sym.Assert(string(rec.Body[before:]) == b[:m], "the bytes are written unchanged")
			if m < len(b) {
				sym.Assert(err == errWrite, "the underlying writer's error is returned")
			}
			if err == errTee {
				sym.Assert(t != nil && t.fail, "the error is the tee's")
				sym.Reach("tee error")
			} else if err != nil {
				sym.Reach("write error")
			}
			if t != nil && t.fail {
				sym.Assert(err != nil, "the tee's error is reported")
			}
		case 2:
			if f, ok := p.(http.Flusher); ok {
				f.Flush()
				sym.Reach("flush")
			}
		case 3:
			if rf, ok := p.(io.ReaderFrom); ok {
				b := sym.String(0, sym.Param("read", 2))
				s := &src{data: []byte(b), chunk: 1 + sym.Choice(2)}
				if sym.Choice(2) == 1 {
					s.err = errRead
				}
				m, err := rf.ReadFrom(s)
				sym.Assert(int(m) == len(rec.Body)-before, "ReadFrom reports the bytes accepted")
				sym.Assert(string(rec.Body[before:]) == b[:m], "the bytes are written unchanged")
				if int(m) < len(b) {
					sym.Assert(err != nil, "ReadFrom reports a failure")
				}
				sym.Reach("readfrom")
			}
		case 4:
			if t == nil || sym.Choice(2) == 1 {
				t = newTee()
				p.Tee(t)
				from = len(rec.Body)
				sym.Reach("tee")
			} else {
				p.Tee(nil)
				t = nil
			}
		}
		if !tees {
			sym.Assert(p.Status() == rec.Code, "Status is what the underlying writer committed to")
			sym.Assert(p.BytesWritten() == len(rec.Body), "BytesWritten is what the underlying writer accepted")
			sym.Assert(rec.Headers <= 1, "the underlying writer sees one header")
			sym.Assert(!rec.Late, "no informational status follows the header")
		}
		if t != nil {
			sym.Assert(string(t.got) == string(rec.Body[from:]), "the tee receives exactly what the client received")
		}
	}
	sym.Assert(p.Unwrap() == under, "Unwrap returns the original")
	sym.Reach("done")
}

func C22Proxy() { proxyRun(4, false) }
func C23Tee()   { proxyRun(5, true) }

// C23Optional: the optional methods a proxy offers.
func C23Optional() {
	rec := hu.NewRec()
	hij := 0
	var push []string
	k := sym.Choice(nWriters)
	under := writer(k, rec, &hij, &push)
	full := k == 2 || k == 3 || k == 10 // has every optional method but Push
	p := mutil.WrapWriter(under)
	if sym.Choice(2) == 1 {
		p.Tee(&teeBuf{})
	}
	if full {
		_, f := p.(http.Flusher)
		_, h := p.(http.Hijacker)
		_, rf := p.(io.ReaderFrom)
		sym.Assert(f && h && rf, "the proxy offers what the original offers")
	}
	if f, ok := p.(http.Flusher); ok {
		f.Flush()
		_, can := under.(http.Flusher)
		sym.Assert(!can && rec.Flushes == 0 || rec.Flushes == 1, "Flush reaches the original")
		sym.Reach("flush")
	}
	if h, ok := p.(http.Hijacker); ok {
		_, _, err := h.Hijack()
		if _, can := under.(http.Hijacker); can {
			sym.Assert(hij == 1 && err == hu.ErrHijack, "Hijack reaches the original")
		} else {
			sym.Assert(err != nil, "Hijack fails")
		}
		sym.Reach("hijack")
	}
	if u, ok := p.(http.Pusher); ok {
		target := sym.String(0, 2)
		err := u.Push(target, nil)
		if k == 3 || k == 10 {
			sym.Assert(len(push) == 1 && push[0] == target && err == hu.ErrPush, "Push reaches the original")
			sym.Reach("push")
		} else {
			sym.Assert(err == http.ErrNotSupported, "Push is reported as not supported")
		}
	}
	sym.Reach("done")
}

// C24Logger: any script, any kind of writer; possibly a panic.
func C24Logger() {
	kinds := sym.Param("kinds", 5)
	l := script(sym.Param("steps", 3), kinds)
	flush := sym.Choice(2) == 1
	k := sym.Choice(4)
	var hij int
	var push []string
	w, ref := hu.NewRec(), hu.NewRec()
	under := writer(k, w, &hij, &push)
	c := web.C{}
	if sym.Choice(2) == 1 {
		c.Env = map[interface{}]interface{}{middleware.RequestIDKey: "id"}
	}
	r := hu.Req("GET", "/x")
	r.Header["A"] = []string{"b"}
	same := hu.Same(r)
	calls := 0
	flushed := false
	h := middleware.Logger(&c, http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
		calls++
		sym.Assert(r2 == r && r2.URL.Path == "/x" && r2.Method == "GET" && same(), "the handler is served the same request")
		if f, ok := w2.(http.Flusher); ok && flush {
			f.Flush()
			flushed = true
			sym.Reach("flush")
		}
		play(l, w2)
	}))
	var e interface{}
	func() {
		defer func() { e = recover() }()
		h.ServeHTTP(under, r)
	}()
	if flushed {
		hu.FlushRec{Rec: ref}.Flush()
	}
	boom := false
	func() {
		defer func() { boom = recover() != nil }()
		play(l, ref)
	}()
	sym.Assert(calls == 1, "the handler runs once")
	sym.Assert((e != nil) == boom && (!boom || e == "boom"), "panics propagate")
	hdrs := 0
	if ref.Headers > 0 && (len(ref.Snap) >= 0) {
		hdrs = 1
	}
	if ref.Code == 0 && !boom {
		sym.Assert(w.Code == 200 && w.Headers == 1, "one 200 is sent if the handler sent no status")
		sym.Assert(sameHeader(w.Snap, ref.H), "the headers are the handler's")
		sym.Reach("implied")
	} else {
		sym.Assert(w.Code == ref.Code, "the status is the handler's")
		sym.Assert(sameHeader(w.Snap, ref.Snap), "the headers are the handler's")
		sym.Reach("sent")
	}
	_ = hdrs
	sym.Assert(w.Headers <= 1, "no second status is sent")
	sym.Assert(string(w.Body) == string(ref.Body), "the body is the handler's")
	// informational statuses after the header have no effect
	if !ref.Late {
		sym.Assert(sameInts(w.Infos, ref.Infos), "informational statuses are the handler's")
	}
}
