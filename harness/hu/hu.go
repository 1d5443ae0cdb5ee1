// Package hu has helpers shared by the harnesses.
package hu

import (
	"bufio"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"

	"verif/harness/sym"
)

// Req builds a request.
func Req(method, path string) *http.Request {
	return &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}, RemoteAddr: "1.2.3.4:5", Host: "h"}
}

// Rec is a response writer that records what it is told, with the semantics
// of net/http's: informational statuses are passed through, the first other
// WriteHeader commits the header and Write implies 200.
type Rec struct {
	H       http.Header
	Snap    http.Header // header at the time it was committed
	Code    int         // 0 until committed
	Headers int         // number of final WriteHeader calls
	Infos   []int       // informational statuses
	Late    bool        // an informational status after the commit
	Body    []byte
	Writes  int
	Flushes int
	// Accept, if set, decides how many of n bytes are accepted.
	Accept func(n int) (int, error)
}

func NewRec() *Rec { return &Rec{H: http.Header{}} }

func (r *Rec) Header() http.Header { return r.H }

func (r *Rec) WriteHeader(code int) {
	if code < 200 && code != 101 {
		if r.Code != 0 {
			r.Late = true // ignored, as a superfluous call
			return
		}
		r.Infos = append(r.Infos, code)
		return
	}
	r.Headers++
	r.commit(code)
}

func (r *Rec) commit(code int) {
	if r.Code != 0 {
		return
	}
	r.Code = code
	r.Snap = CopyHeader(r.H)
}

func (r *Rec) Write(b []byte) (int, error) {
	r.Writes++
	r.commit(200)
	n, err := len(b), error(nil)
	if r.Accept != nil {
		n, err = r.Accept(n)
	}
	r.Body = append(r.Body, b[:n]...)
	return n, err
}

// FlushRec also flushes.
type FlushRec struct{ *Rec }

func (r FlushRec) Flush() {
	r.Flushes++
	r.commit(200)
}

// FullRec has the optional methods of an HTTP/1 connection's writer.
type FullRec struct {
	FlushRec
	Hijacks *int
}

var ErrHijack = errors.New("hijacked")

func (r FullRec) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	*r.Hijacks++
	return nil, nil, ErrHijack
}

func (r FullRec) ReadFrom(src io.Reader) (int64, error) {
	r.commit(200)
	var t int64
	buf := make([]byte, 4)
	for {
		n, err := src.Read(buf)
		if n > 0 {
			m, werr := r.Write(buf[:n])
			t += int64(m)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

// Writers with some of the optional methods only.
type HijackRec struct {
	*Rec
	Hijacks *int
}

func (r HijackRec) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	*r.Hijacks++
	return nil, nil, ErrHijack
}

type FlushHijackRec struct {
	FlushRec
	Hijacks *int
}

func (r FlushHijackRec) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	*r.Hijacks++
	return nil, nil, ErrHijack
}

type FromRec struct{ *Rec }

func (r FromRec) ReadFrom(src io.Reader) (int64, error) {
	return FullRec{FlushRec: FlushRec{r.Rec}}.ReadFrom(src)
}

type FlushFromRec struct{ FlushRec }

func (r FlushFromRec) ReadFrom(src io.Reader) (int64, error) {
	return FullRec{FlushRec: r.FlushRec}.ReadFrom(src)
}

type HijackFromRec struct{ HijackRec }

func (r HijackFromRec) ReadFrom(src io.Reader) (int64, error) {
	return FullRec{FlushRec: FlushRec{r.Rec}}.ReadFrom(src)
}

// PushRec also pushes.
type PushRec struct {
	FullRec
	Pushes *[]string
}

var ErrPush = errors.New("pushed")

func (r PushRec) Push(target string, opts *http.PushOptions) error {
	*r.Pushes = append(*r.Pushes, target)
	return ErrPush
}

func CopyHeader(h http.Header) http.Header {
	n := http.Header{}
	for k, v := range h {
		n[k] = append([]string(nil), v...)
	}
	return n
}

// Same tells later whether anything a handler can see in the request changed,
// other than the headers of the given names.
func Same(r *http.Request) func(ignore ...string) bool {
	c, u, n := *r, *r.URL, CopyHeader(r.Header)
	return func(ignore ...string) bool {
		if r.Method != c.Method || r.URL != c.URL || r.Proto != c.Proto || r.Host != c.Host ||
			r.RemoteAddr != c.RemoteAddr || r.RequestURI != c.RequestURI || r.Close != c.Close ||
			r.ContentLength != c.ContentLength || r.Body != c.Body ||
			(r.Form == nil) != (c.Form == nil) || len(r.Form) != len(c.Form) || len(r.PostForm) != len(c.PostForm) {
			return false
		}
		if r.URL.Scheme != u.Scheme || r.URL.Host != u.Host || r.URL.Path != u.Path || r.URL.RawPath != u.RawPath ||
			r.URL.RawQuery != u.RawQuery || r.URL.Fragment != u.Fragment || r.URL.User != u.User || r.URL.Opaque != u.Opaque {
			return false
		}
		gone := 0
		for _, k := range ignore {
			if _, ok := n[k]; ok {
				gone++
			}
			if _, ok := r.Header[k]; ok {
				gone--
			}
		}
		if len(r.Header)+gone != len(n) {
			return false
		}
	next:
		for k, v := range n {
			for _, i := range ignore {
				if i == k {
					continue next
				}
			}
			w, ok := r.Header[k]
			if !ok || len(v) != len(w) {
				return false
			}
			for i := range v {
				if v[i] != w[i] {
					return false
				}
			}
		}
		return true
	}
}

// HasPrefix is strings.HasPrefix as one condition.
func HasPrefix(s, p string) bool {
	return len(s) >= len(p) && s[:len(p)] == p
}

// Itoa formats a small number.
func Itoa(n int) string {
	if n < 0 {
		return "-" + Itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return Itoa(n/10) + string(rune('0'+n%10))
}

// InOrder reports whether line contains the pieces one after another. It is
// one formula, without a decision on symbolic bytes.
func InOrder(line string, pieces ...string) bool {
	n := len(line)
	// at[i]: the pieces so far are found in line[:i]
	at := make([]bool, n+1)
	for i := range at {
		at[i] = true
	}
	for _, p := range pieces {
		next := make([]bool, n+1)
		for i := len(p); i <= n; i++ {
			here := at[i-len(p)]
			for k := 0; k < len(p); k++ {
				here = sym.And(here, line[i-len(p)+k] == p[k])
			}
			if i > 0 {
				here = sym.Or(here, next[i-1])
			}
			next[i] = here
		}
		at = next
	}
	return at[n]
}
