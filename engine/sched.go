package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) spawn(c *Closure, args []Value) *G {
	if in.nestLevel > 0 {
		unsupp("go statement inside a nested call")
	}
	fi := in.funcInfo(c.fn)
	if c.native != nil || fi.native != nil {
		unsupp("go of native function")
	}
	if in.w.sh.cfg.Closure && !in.w.sh.cfg.ClosureBegin && in.clo == nil && len(in.gs) == 1 {
		in.startClosure()
	}
	if in.clo != nil {
		in.clo.spawn()
	}
	g := &G{id: len(in.gs)}
	in.gs = append(in.gs, g)
	in.gs2push(g, fi, c.env, args)
	return g
}

func (in *Interp) gs2push(g *G, fi *FuncInfo, env, args []Value) {
	in.pushFrame(g, fi, env, args, noReg)
}

// enabled reports whether g can be scheduled. Conditions are evaluated in the
// context of the current goroutine.
func (in *Interp) enabled(g *G) bool {
	if g.done {
		return false
	}
	w := g.wait
	if w == nil {
		return true
	}
	switch {
	case w.idle:
		return false
	case w.cond != nil:
		return in.decideV(in.callSync(w.cond))
	case w.send != nil:
		return w.send.done || w.ch.closed
	case w.ch != nil:
		return in.chanReady(w.ch)
	case w.sel != nil:
		for _, c := range w.sel {
			if c != nil && in.chanReady(c) {
				return true
			}
		}
	}
	return false
}

func (in *Interp) chanReady(c *Chan) bool {
	if in.clo != nil {
		in.clo.read(c)
	}
	return c.closed || len(c.buf) > 0 || len(c.sendq) > 0
}

// reschedule picks the goroutine to run next when the current one cannot
// continue.
func (in *Interp) reschedule() {
	k := 0
	if in.clo != nil {
		k = in.clo.pick(nil, true)
	} else {
		k = in.pick(false)
	}
	in.cur = k
	in.gs[k].wait = nil
}

// pick chooses among enabled goroutines. If curOK, the current one is enabled
// and switching away from it is a preemption.
func (in *Interp) pick(curOK bool) int {
	for {
		var opts []int
		if curOK {
			opts = append(opts, in.cur)
			if in.preempt >= in.maxPreempt {
				return in.cur
			}
		}
		for i, g := range in.gs {
			if i == in.cur && (curOK || g.done) {
				continue
			}
			if in.enabled(g) {
				opts = append(opts, i)
			}
		}
		if len(opts) == 0 {
			// virtual time, then goroutines that wait for quiescence
			if in.idleHook != nil && in.decideV(in.callSync(in.idleHook)) {
				continue
			}
			for i, g := range in.gs {
				if !g.done && g.wait != nil && g.wait.idle {
					opts = append(opts, i)
				}
			}
			if len(opts) == 0 {
				in.violation("deadlock", "all goroutines are blocked: "+in.blockedDesc())
			}
			opts = opts[:1]
		}
		k := 0
		if len(opts) > 1 && in.w.sh.cfg.Closure {
			// before the closure begins, one schedule
			in.nondet = append(in.nondet, Nondet{Kind: "sched", val: 0})
		} else if len(opts) > 1 {
			k = in.choose(len(opts), "sched")
		}
		if curOK && k != 0 {
			in.preempt++
			in.undo(func() { in.preempt-- })
		}
		return opts[k]
	}
}

func (in *Interp) blockedDesc() string {
	s := ""
	for _, g := range in.gs {
		if g.done {
			continue
		}
		at := "?"
		for i := len(g.frames) - 1; i >= 0; i-- {
			f := g.frames[i]
			if f.fi.isGoji {
				pc := int(f.pc)
				if pc > 0 {
					pc--
				}
				if pc < len(f.fi.blocks[f.blk].ins) {
					at = f.fi.name + " " + in.posStr(f.fi.blocks[f.blk].ins[pc].pos)
				}
				break
			}
		}
		s += fmt.Sprintf("[g%d %s] ", g.id, at)
	}
	return s
}

// point is a scheduling point of the current goroutine; w is nil if it stays
// runnable. It advances the frame itself.
func (in *Interp) point(w *waitRec) Value {
	if in.nestLevel > 0 {
		if w == nil {
			return nil
		}
		if w.cond != nil {
			if in.decideV(in.callSync(w.cond)) {
				return nil
			}
		}
		unsupp("blocking inside a nested call")
	}
	g := in.gs[in.cur]
	if len(in.gs) == 1 && w == nil {
		return nil
	}
	if in.clo != nil {
		k := in.clo.pick(w, false)
		in.advance(g)
		if k != in.cur {
			g.wait = w
			in.cur = k
			in.transitions++
		}
		in.gs[k].wait = nil
		return switched{}
	}
	ok := w == nil
	if w != nil && w.cond != nil {
		ok = in.decideV(in.callSync(w.cond))
	}
	k := 0
	if ok {
		k = in.pick(true)
	} else {
		// the goroutine is blocked: others only (it is not enabled itself)
		g.wait = w
		k = in.pick(false)
	}
	in.advance(g)
	if k == in.cur {
		g.wait = nil
		return switched{}
	}
	// the condition has to hold again when the goroutine is resumed
	g.wait = w
	in.cur = k
	in.gs[k].wait = nil
	in.transitions++
	return switched{}
}

func (in *Interp) chanRecv(g *G, I *Instr, f *Frame) {
	c, _ := f.get(I.a).(*Chan)
	n := len(g.frames) - 1
	if c != nil && in.chanReady(c) {
		v, ok := in.takeChan(c, I)
		if I.commaOk {
			v = Tuple{v, ok}
		}
		in.fin(g, n, I, v)
		return
	}
	in.blockOn(g, &waitRec{ch: c, idle: c == nil && false})
}

func (in *Interp) blockOn(g *G, w *waitRec) {
	if in.nestLevel > 0 {
		unsupp("channel operation blocks inside a nested call")
	}
	g.wait = w
	k := 0
	if in.clo != nil {
		k = in.clo.pick(w, false)
	} else {
		k = in.pick(false)
	}
	in.cur = k
	in.gs[k].wait = nil
	in.transitions++
}

func (in *Interp) takeChan(c *Chan, I *Instr) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		old := c.buf
		oldq := c.sendq
		c.buf = append([]Value(nil), c.buf[1:]...)
		var s *sender
		if len(c.sendq) > 0 {
			s = c.sendq[0]
			c.buf = append(c.buf, s.v)
			s.done = true
			c.sendq = append([]*sender(nil), c.sendq[1:]...)
		}
		in.undoObj(c, func() {
			c.buf, c.sendq = old, oldq
			if s != nil {
				s.done = false
			}
		})
		return v, true
	}
	if len(c.sendq) > 0 {
		s := c.sendq[0]
		oldq := c.sendq
		c.sendq = append([]*sender(nil), c.sendq[1:]...)
		s.done = true
		in.undoObj(c, func() { c.sendq = oldq; s.done = false })
		return s.v, true
	}
	return zero(I.typ), false
}

func (in *Interp) chanSend(g *G, I *Instr, f *Frame) {
	c, _ := f.get(I.a).(*Chan)
	if c == nil {
		in.blockOn(g, &waitRec{sel: []*Chan{nil}})
		return
	}
	// a send that was queued earlier and has been received
	if s := in.pendingSend(c, g); s != nil {
		if s.done {
			in.dropPending(s)
			f.pc++
			return
		}
		if c.closed {
			in.goPanic("send on closed channel")
		}
	}
	if c.closed {
		in.goPanic("send on closed channel")
	}
	if len(c.buf) < c.cap {
		old := c.buf
		c.buf = append(append([]Value(nil), c.buf...), f.get(I.b))
		in.undoObj(c, func() { c.buf = old })
		f.pc++
		return
	}
	s := &sender{g: g.id, v: f.get(I.b)}
	oldq := c.sendq
	c.sendq = append(append([]*sender(nil), c.sendq...), s)
	oldp := in.pending
	in.pending = append(append([]*sender(nil), in.pending...), s)
	in.undoObj(c, func() { c.sendq = oldq; in.pending = oldp })
	s.ch = c
	in.blockOn(g, &waitRec{ch: c, send: s})
}

func (in *Interp) pendingSend(c *Chan, g *G) *sender {
	for _, s := range in.pending {
		if s.g == g.id && s.ch == c {
			return s
		}
	}
	return nil
}

func (in *Interp) dropPending(s *sender) {
	old := in.pending
	var n []*sender
	for _, x := range old {
		if x != s {
			n = append(n, x)
		}
	}
	in.pending = n
	in.undo(func() { in.pending = old })
}

func (in *Interp) chanSelect(g *G, I *Instr, f *Frame) {
	// states are (chan, send) pairs; send is noReg for receives
	sel := I.si
	_ = sel
	n := len(g.frames) - 1
	var ready []int
	var chans []*Chan
	for i := 0; i*2 < len(I.args); i++ {
		c, _ := f.get(I.args[2*i]).(*Chan)
		chans = append(chans, c)
		if c == nil {
			continue
		}
		if I.args[2*i+1] == noReg {
			if in.chanReady(c) {
				ready = append(ready, i)
			}
		} else if c.closed || len(c.buf) < c.cap {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 && I.commaOk {
		in.blockOn(g, &waitRec{sel: chans})
		return
	}
	res := in.selectZero(I)
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = in.choose(len(ready), "select")
		}
		i := ready[k]
		c := chans[i]
		res[0] = uint64(i)
		f = g.frames[n]
		if I.args[2*i+1] == noReg {
			e := &Instr{typ: in.selectElem(I, i)}
			v, ok := in.takeChan(c, e)
			res[1] = ok
			slot := 2
			for j := 0; j < i; j++ {
				if I.args[2*j+1] == noReg {
					slot++
				}
			}
			res[slot] = v
		} else {
			if c.closed {
				in.goPanic("send on closed channel")
			}
			old := c.buf
			c.buf = append(append([]Value(nil), c.buf...), f.get(I.args[2*i+1]))
			in.undoObj(c, func() { c.buf = old })
		}
	} else {
		res[0] = mask(64)
	}
	in.fin(g, n, I, res)
}

func (in *Interp) selectZero(I *Instr) Tuple {
	s := I.si.(*ssa.Select)
	return zero(s.Type()).(Tuple)
}

func (in *Interp) selectElem(I *Instr, i int) types.Type {
	return I.si.(*ssa.Select).States[i].Chan.Type().Underlying().(*types.Chan).Elem()
}
