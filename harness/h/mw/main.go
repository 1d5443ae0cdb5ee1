// Package main holds the harnesses of goji/web/middleware and goji/web/mutil.
package main

import "verif/harness/sym"

func main() {
	sym.Main(map[string]func(){
		"C15SubRouter": C15SubRouter,
		"C15Nested":    C15Nested,
		"C16Options":   C16Options,
		"C17Recoverer": C17Recoverer,
		"C18RealIP":    C18RealIP,
		"C19IDs":       C19IDs,
		"C19Far":       C19Far,
		"C19Get":       C19Get,
		"C20NoCache":   C20NoCache,
		"C21Env":       C21Env,
		"C22Proxy":     C22Proxy,
		"C23Tee":       C23Tee,
		"C23Optional":  C23Optional,
		"C24Logger":    C24Logger,
		"C25Log":       C25Log,
	})
}
