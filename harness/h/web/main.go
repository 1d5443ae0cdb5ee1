// Package main holds the harnesses of goji/web.
package main

import "verif/harness/sym"

func main() {
	sym.Main(map[string]func(){
		"C01Custom":  C01Custom,
		"C01Builtin": C01Builtin, "C01Big": C01Big, "C26Muxes": C26Muxes, "C27Panic": C27Panic, "C28Types": C28Types,
		"C29Edits": C29Edits, "C06Many": C06Many,
		"C02Any": C02Any, "C02Long": C02Long, "C11Nested": C11Nested,
		"C03Valid": C03Valid, "C13Methods": C13Methods, "C04Tokens": C04Tokens, "C04Bytes": C04Bytes, "C04Any": C04Any, "C05Regexp": C05Regexp, "C05String": C05String, "C06Regexp": C06Regexp, "C07Pure": C07Pure, "C07Table": C07Table, "C08Stack": C08Stack, "C09Seq": C09Seq, "C09Concurrent": C09Concurrent, "C10Flow": C10Flow, "C11Router": C11Router, "C11Preset": C11Preset, "C12Raw": C12Raw, "C12Get": C12Get, "C14Concurrent": C14Concurrent,
	})
}
