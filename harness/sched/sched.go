// Package sched is a deterministic scheduler. In the engine its functions are
// intrinsics; natively it passes a token between goroutines and replays the
// recorded scheduling choices.
package sched

import (
	"sync"

	"verif/harness/sym"
)

type g struct {
	id   int
	done bool
	cond func() bool
	idle bool
	wake chan bool
}

var (
	gs       = []*g{{wake: make(chan bool, 1)}}
	cur      int
	preempt  int
	bound    = -1
	idleHook func() bool
	mu       sync.Mutex // documents that one goroutine runs at a time
)

func maxPreempt() int {
	if bound < 0 {
		bound = sym.Preempt()
	}
	return bound
}

// Go starts f as a new goroutine; it does not run before the next scheduling
// point.
func Go(f func()) {
	if f == nil {
		panic("go of nil func value")
	}
	n := &g{id: len(gs), wake: make(chan bool, 1)}
	gs = append(gs, n)
	go func() {
		<-n.wake
		f()
		n.done = true
		k := pick(false)
		cur = k
		gs[k].cond, gs[k].idle = nil, false
		gs[k].wake <- true
	}()
}

func (x *g) enabled() bool {
	if x.done || x.idle {
		return false
	}
	return x.cond == nil || x.cond()
}

func pick(curOK bool) int {
	for {
		var opts []int
		if curOK {
			opts = append(opts, cur)
			if preempt >= maxPreempt() {
				return cur
			}
		}
		for i, x := range gs {
			if i == cur && (curOK || x.done) {
				continue
			}
			if x.enabled() {
				opts = append(opts, i)
			}
		}
		if len(opts) == 0 {
			if idleHook != nil && idleHook() {
				continue
			}
			for i, x := range gs {
				if !x.done && x.idle {
					opts = append(opts, i)
				}
			}
			if len(opts) == 0 {
				sym.Deadlock("all goroutines are blocked")
			}
			opts = opts[:1]
		}
		k := 0
		if len(opts) > 1 {
			k = int(sym.Next("sched"))
		}
		if curOK && k != 0 {
			preempt++
		}
		return opts[k]
	}
}

func point(cond func() bool, idle bool) {
	if len(gs) == 1 && cond == nil && !idle {
		return
	}
	me := gs[cur]
	ok := cond == nil && !idle
	if cond != nil {
		ok = cond()
	}
	var k int
	if ok {
		k = pick(true)
	} else {
		me.cond, me.idle = cond, idle
		k = pick(false)
	}
	if k == cur {
		me.cond, me.idle = nil, false
		return
	}
	// the condition has to hold again when the goroutine is resumed
	me.cond, me.idle = cond, idle
	cur = k
	gs[k].cond, gs[k].idle = nil, false
	gs[k].wake <- true
	<-me.wake
}

// Point is a scheduling point.
func Point() { point(nil, false) }

// Stmt is a scheduling point before a statement; it is active in
// statement-level mode only.
func Stmt(id int) {
	if len(gs) == 1 || !sym.StmtMode() {
		return
	}
	point(nil, false)
}

// Await blocks until cond is true. cond must not have side effects.
func Await(cond func() bool) { point(cond, false) }

// Begin marks the end of the set-up. With the parameter "begin", all
// interleavings of what follows are covered, and one of what precedes it.
func Begin() {}

// AwaitIdle blocks until no other goroutine can run.
func AwaitIdle() { point(nil, true) }

// OnIdle installs a function that is called when all goroutines are blocked;
// it reports whether it has unblocked something.
func OnIdle(hook func() bool) { idleHook = hook }

// Self identifies the current goroutine.
func Self() int { return cur }

// Bound sets the maximum number of preemptions.
func Bound(n int) { bound = n }
