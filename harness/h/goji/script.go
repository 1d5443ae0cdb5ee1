package main

import (
	"net/http"

	"verif/harness/sym"
)

// step is one thing a handler does to its response.
type step struct {
	op   int
	code int
	s    string
}

const (
	opEnd = iota
	opHeader
	opWrite
	opSet
	opPanic
)

// script draws what a handler does. kinds limits the operations.
func script(n int, kinds int) []step {
	var l []step
	for i := 0; i < n; i++ {
		st := step{op: sym.Choice(kinds)}
		switch st.op {
		case opHeader:
			st.code = sym.Int(100, 999)
		case opWrite:
			st.s = sym.String(0, sym.Param("body", 2))
		case opSet:
			st.s = sym.String(0, 1)
		}
		if st.op == opEnd {
			break
		}
		l = append(l, st)
		if st.op == opPanic {
			break
		}
	}
	return l
}

// play does it.
func play(l []step, w http.ResponseWriter) {
	for _, st := range l {
		switch st.op {
		case opHeader:
			w.WriteHeader(st.code)
		case opWrite:
			n, err := w.Write([]byte(st.s))
			sym.Assert(n == len(st.s) && err == nil, "the write succeeds")
		case opSet:
			w.Header().Set("X", st.s)
		case opPanic:
			panic("boom")
		}
	}
}

func sameHeader(a, b http.Header) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if v[i] != w[i] {
				return false
			}
		}
	}
	return true
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
