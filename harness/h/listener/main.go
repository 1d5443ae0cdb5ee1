// Package main holds the harnesses of goji/graceful/listener.
package main

import "verif/harness/sym"

func main() {
	sym.Main(map[string]func(){
		"Seq":        Seq,
		"C37Pass":    C37Pass,
		"C30Use":     C30Use,
		"C31Drain":   C31Drain,
		"C32Calls":   C32Calls,
		"C33Disown":  C33Disown,
		"C34All":     C34All,
		"C35Read":    C35Read,
		"C35Results": C35Results,
	})
}
