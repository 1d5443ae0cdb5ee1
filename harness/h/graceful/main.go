// Package main holds the harnesses of goji/graceful.
package main

import "verif/harness/sym"

func main() {
	sym.Main(map[string]func(){
		"C40Hooks":   C40Hooks,
		"C41Signals": C41Signals,
		"C41Timeout": C41Timeout,
		"C42Errors":  C42Errors,
		"C42Race":    C42Race,
		"C43States":  C43States,
		"C43Default": C43Default,
		"C44TLS":     C44TLS,
		"C45Signals": C45Signals,
		"C46Listen":  C46Listen,
		"C47All":     C47All,
		"C47Race":    C47Race,
		"C47During":  C47During,
	})
}
