// Package sym is the interface between harnesses and the symbolic engine.
//
// In the engine every function here is replaced by an intrinsic. Compiled
// natively, the package replays a recorded assignment of the nondeterministic
// values, so that a counterexample can be run against the real code.
package sym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

type val struct {
	K string `json:"k"`
	V uint64 `json:"v"`
}

// Replay is the file format of a recorded assignment.
type Replay struct {
	Harness string         `json:"harness"`
	Pkg     string         `json:"pkg"`
	Params  map[string]int `json:"params"`
	Preempt int            `json:"preempt"`
	Stmt    bool           `json:"stmt"`
	Vals    []val          `json:"vals"`
}

var (
	rp     Replay
	pos    int
	loaded bool
)

func load() {
	if loaded {
		return
	}
	loaded = true
	name := os.Getenv("VERIF_REPLAY")
	if name == "" {
		return
	}
	b, err := os.ReadFile(name)
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		finish(4, "error", err.Error())
	}
}

// Next returns the next recorded value of the given kind.
func Next(kind string) uint64 {
	load()
	for pos < len(rp.Vals) && (rp.Vals[pos].K == "map-order" || rp.Vals[pos].K == "select") {
		pos++
	}
	if pos >= len(rp.Vals) {
		finish(3, "diverged", "ran out of values at "+kind)
	}
	v := rp.Vals[pos]
	if v.K != kind {
		finish(3, "diverged", "expected "+kind+", have "+v.K+" at "+strconv.Itoa(pos))
	}
	pos++
	return v.V
}

func finish(code int, kind, msg string) {
	fmt.Printf("REPLAY-RESULT %s %s\n", kind, msg)
	if code == 1 && os.Getenv("VERIF_STACK") != "" {
		debug.PrintStack()
	}
	os.Stdout.Sync()
	os.Exit(code)
}

// Preempt and StmtMode are scheduler settings of the recorded run.
func Preempt() int   { load(); return rp.Preempt }
func StmtMode() bool { load(); return rp.Stmt }

func Bool() bool { return Next("bool") != 0 }

// Int returns an arbitrary value in [lo, hi].
func Int(lo, hi int) int { return int(Next("int")) }

func Uint64() uint64 { return Next("uint64") }

func Byte() byte { return byte(Next("byte")) }

// Choice returns an arbitrary value in [0, n), exploring each separately.
func Choice(n int) int {
	if n <= 1 {
		return 0
	}
	return int(Next("choice"))
}

func bytes(min, max int) []byte {
	n := min
	if max > min {
		n += int(Next("len"))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(Next("byte"))
	}
	return b
}

// String returns an arbitrary string of min to max bytes.
func String(min, max int) string { return string(bytes(min, max)) }

// ASCII is String restricted to bytes below 0x80.
func ASCII(min, max int) string { return string(bytes(min, max)) }

// StringOf is String restricted to the bytes of alphabet.
func StringOf(min, max int, alphabet string) string { return string(bytes(min, max)) }

func Bytes(min, max int) []byte { return bytes(min, max) }

// Assume restricts the exploration to runs in which c holds.
func Assume(c bool) {
	if !c {
		finish(0, "assume", "")
	}
}

// Assert states that c holds in every run.
func Assert(c bool, msg string) {
	if !c {
		finish(1, "assert", msg)
	}
}

func Fail(msg string) { finish(1, "assert", msg) }

// Fatal reports a fatal error of the code under test.
func Fatal(msg string) { finish(1, "fatal", msg) }

// Deadlock reports that no goroutine can run.
func Deadlock(msg string) { finish(1, "deadlock", msg) }

func Skip() { finish(0, "assume", "skip") }

// Reach records that the run got here; a check that never does is vacuous.
func Reach(label string) { fmt.Println("REACH " + label) }

// Observe records an observation that the engine and the native run must
// agree on.
func Observe(name, value string) {
	fmt.Println("OBS " + hex.EncodeToString([]byte(name+"="+value)))
}

// Engine reports whether the engine is executing.
func Engine() bool { return false }

// Param returns a bound of the check.
func Param(name string, def int) int {
	load()
	if v, ok := rp.Params[name]; ok {
		return v
	}
	return def
}

// And, Or, Implies and Iff do not branch in the engine.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// Decide makes the engine branch on c.
func Decide(c bool) bool { return c }

// Concrete makes the engine branch on the value of x, which is in [lo, hi].
func Concrete(x, lo, hi int) int { return x }

// MapNondet makes the iteration order of maps nondeterministic in the engine.
func MapNondet(on bool) {}

// Main runs the harness named by the replay file.
func Main(hs map[string]func()) {
	load()
	if rp.Harness == "" {
		var names []string
		for n := range hs {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println(names)
		os.Exit(4)
	}
	h := hs[rp.Harness]
	if h == nil {
		finish(4, "error", "no harness "+rp.Harness)
	}
	go func() {
		time.Sleep(20 * time.Second)
		finish(1, "timeout", "the run does not end")
	}()
	h()
	finish(0, "ok", "")
}
