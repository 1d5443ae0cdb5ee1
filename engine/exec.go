package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation. Frames are copied on write when their generation
// is older than the interpreter's (a choice point may hold the old copy).
type Frame struct {
	gen     int
	fi      *FuncInfo
	regs    []Value
	blk, pc int32
	dst     int32
	defers  *deferRec
	panic   *PanicRec // panic passing through this frame
	unwind  bool      // running deferred calls because of panic
	isDefer bool      // called by RunDefers/unwinding of the frame below
	recov   bool      // panic was recovered; finishing deferred calls
}

type deferRec struct {
	clo  *Closure
	bi   string // builtin name
	I    *Instr
	args []Value
	next *deferRec
}

type PanicRec struct {
	val  Value // Iface
	pos  string
	goex bool
}

// G is a goroutine.
type G struct {
	id     int
	frames []*Frame
	done   bool
	wait   *waitRec // nil when runnable
	name   string
}

type waitRec struct {
	cond *Closure // blocked until true
	idle bool     // blocked until nothing else can run
	ch   *Chan    // blocked on a raw channel
	send *sender
	sel  []*Chan
}

type trailEnt struct {
	p   *Value
	old Value
	fn  func()
	obj any // map or channel changed
}

type goPanicExc struct{ val Value }

type endKind int

const (
	endDone endKind = iota
	endKilled
	endViolation
	endInconclusive
)

type pathEnd struct {
	kind endKind
	msg  string
}

func (in *Interp) infeasible() { panic(pathEnd{endKilled, "infeasible"}) }

// goPanic raises a Go run-time error in the interpreted program.
func (in *Interp) goPanic(msg string) {
	panic(goPanicExc{in.runtimeError(msg)})
}

func (in *Interp) runtimeError(msg string) Value {
	return Iface{in.rtErrT, strings.TrimPrefix(msg, "runtime error: ")}
}

func (in *Interp) undo(f func()) {
	if in.noTrail == 0 {
		in.trail = append(in.trail, trailEnt{fn: f})
	}
}

// undoObj is undo for a change of a map or channel.
func (in *Interp) undoObj(obj any, f func()) {
	if in.noTrail == 0 {
		in.trail = append(in.trail, trailEnt{fn: f, obj: obj})
	}
}

func (in *Interp) setCell(p *Value, v Value) {
	if in.noTrail == 0 {
		in.trail = append(in.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

func (in *Interp) undoTo(mark int) {
	for i := len(in.trail) - 1; i >= mark; i-- {
		e := &in.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			*e.p = e.old
		}
		*e = trailEnt{}
	}
	in.trail = in.trail[:mark]
}

// assign stores v in the variable at p, copying aggregates element-wise so
// that interior pointers stay valid.
func (in *Interp) assign(p *Value, v Value) {
	switch n := v.(type) {
	case Struct:
		if o, ok := (*p).(Struct); ok && len(o) == len(n) {
			for i := range o {
				in.assign(&o[i], n[i])
			}
			return
		}
		in.setCell(p, copyVal(v))
	case Array:
		if o, ok := (*p).(Array); ok && len(o) == len(n) {
			for i := range o {
				in.assign(&o[i], n[i])
			}
			return
		}
		in.setCell(p, copyVal(v))
	default:
		in.setCell(p, v)
	}
}

func (in *Interp) nilDeref() {
	in.goPanic("runtime error: invalid memory address or nil pointer dereference")
}

// loadPtr reads *p.
func (in *Interp) loadPtr(p Value, I *Instr) Value {
	switch x := p.(type) {
	case Ptr:
		if x == nil {
			in.nilDeref()
		}
		if in.clo != nil {
			in.clo.readCell(x)
		}
		v := *x
		switch v.(type) {
		case Struct, Array:
			return copyVal(v)
		}
		return v
	case *SymPtr:
		if in.clo != nil {
			in.clo.readSlice(x.arr)
		}
		return in.loadSym(x.arr, x.idx)
	case DataPtr:
		if in.clo != nil {
			in.clo.readSlice(x.s)
		}
		return copyVal(*in.ptrConc(x))
	case nil:
		in.nilDeref()
	case ifaceWords:
		if in.clo != nil {
			in.clo.readCell(x.p)
		}
		return in.ifaceData((*x.p).(Iface))
	}
	unsupp("load through %T", p)
	return nil
}

func (in *Interp) loadSym(arr []Value, idx *Term) Value {
	simple := true
	for _, e := range arr {
		switch e.(type) {
		case uint64, bool, *Term:
		default:
			simple = false
		}
	}
	if !simple || len(arr) > 300 {
		return copyVal(arr[in.concretize(idx, 0, uint64(len(arr)-1))])
	}
	// width from any term, else look at values
	w := in.elemWidth(arr)
	r := in.term(arr[len(arr)-1], w)
	for i := len(arr) - 2; i >= 0; i-- {
		r = in.st.Ite(in.st.Eq(idx, in.st.Const(idx.w, uint64(i))), in.term(arr[i], w), r)
	}
	return fromTerm(r)
}

// elemWidth guesses the width of scalar cells: booleans 0, otherwise the
// width recorded by the caller.
func (in *Interp) elemWidth(arr []Value) uint8 {
	for _, e := range arr {
		switch x := e.(type) {
		case bool:
			return 0
		case *Term:
			return x.w
		}
	}
	if in.loadW == 0 {
		unsupp("symbolic index into array of unknown element width")
	}
	return in.loadW
}

func (in *Interp) storePtr(p Value, v Value) {
	switch x := p.(type) {
	case Ptr:
		if x == nil {
			in.nilDeref()
		}
		in.assign(x, v)
		return
	case *SymPtr:
		in.assign(in.ptrConc(x), v)
		return
	case DataPtr:
		in.assign(in.ptrConc(x), v)
		return
	case nil:
		in.nilDeref()
	}
	unsupp("store through %T", p)
}

func (f *Frame) get(x int32) Value {
	if x >= 0 {
		return f.regs[x]
	}
	return f.fi.consts[^x]
}

func (in *Interp) top() *Frame {
	g := in.gs[in.cur]
	return g.frames[len(g.frames)-1]
}

// own returns a frame that may be modified.
func (in *Interp) own(g *G, i int) *Frame {
	f := g.frames[i]
	if f.gen != in.gen {
		nf := *f
		nf.regs = append([]Value(nil), f.regs...)
		nf.gen = in.gen
		g.frames[i] = &nf
		return &nf
	}
	return f
}

func (in *Interp) pushFrame(g *G, fi *FuncInfo, env, args []Value, dst int32) *Frame {
	if len(g.frames) > 2000 {
		unsupp("stack overflow in %s", fi.name)
	}
	f := &Frame{gen: in.gen, fi: fi, dst: dst}
	f.regs = make([]Value, fi.nregs)
	n := copy(f.regs, args)
	copy(f.regs[n:], env)
	g.frames = append(g.frames, f)
	if fi.isGoji && !in.seenFn[fi] {
		in.seenFn[fi] = true
	}
	return f
}

// call invokes a function value from the top frame; the result goes to dst.
// It returns false when a new frame was pushed.
func (in *Interp) callClosure(g *G, c *Closure, args []Value, dst int32) {
	for {
		if c == nil {
			in.nilDeref()
		}
		if c.native != nil {
			if in.clo != nil {
				in.clo.readArgs(args)
			}
			r := c.native(in, args)
			if tc, ok := r.(tailCall); ok {
				c, args = tc.c, tc.args
				continue
			}
			in.ret(g, dst, r)
			return
		}
		fi := in.funcInfo(c.fn)
		if fi.native != nil {
			a := args
			if len(c.env) > 0 {
				a = append(append([]Value(nil), args...), c.env...)
			}
			if in.clo != nil {
				in.clo.readArgs(a)
			}
			r := fi.native(in, fi, a)
			if tc, ok := r.(tailCall); ok {
				c, args = tc.c, tc.args
				continue
			}
			in.ret(g, dst, r)
			return
		}
		if fi.pkgInit && g.frames[len(g.frames)-1].fi.name != "driver" {
			in.ret(g, dst, nil)
			return
		}
		in.advance(g)
		in.pushFrame(g, fi, c.env, args, dst)
		return
	}
}

type tailCall struct {
	c    *Closure
	args []Value
}

// switched tells ret that the native already advanced the frame.
type switched struct{}

func (in *Interp) ret(g *G, dst int32, r Value) {
	if _, ok := r.(switched); ok {
		return
	}
	f := in.advance(g)
	if dst != noReg && f != nil {
		f.regs[dst] = r
	}
}

// advance moves the top frame past its current instruction, unless it is
// running deferred calls.
func (in *Interp) advance(g *G) *Frame {
	if len(g.frames) == 0 || len(g.frames) == in.nestBase {
		return nil
	}
	f := in.own(g, len(g.frames)-1)
	if !f.unwind && !in.inDefers {
		f.pc++
	}
	return f
}

// popFrame returns from the top frame with result r.
func (in *Interp) popFrame(g *G, r Value) {
	n := len(g.frames) - 1
	f := g.frames[n]
	g.frames[n] = nil
	g.frames = g.frames[:n]
	if n == 0 || n == in.nestBase {
		in.nestRes = r
		return
	}
	if f.isDefer {
		return
	}
	if f.dst != noReg {
		in.own(g, n-1).regs[f.dst] = r
	}
}

// startPanic begins a panic in the top frame.
func (in *Interp) startPanic(g *G, val Value) {
	n := len(g.frames)
	if n == 0 || n == in.nestBase {
		panic(goPanicExc{val})
	}
	f := in.own(g, n-1)
	pos := ""
	if int(f.pc) < len(f.fi.blocks[f.blk].ins) {
		pos = in.posStr(f.fi.blocks[f.blk].ins[f.pc].pos) + " in " + f.fi.name
	}
	f.panic = &PanicRec{val: val, pos: pos}
	f.unwind = true
	f.recov = false
}

// unwindStep performs one step of unwinding the top frame: a deferred call,
// the recovery, or handing the panic to the caller.
func (in *Interp) unwindStep(g *G) {
	n := len(g.frames)
	f := g.frames[n-1]
	if f.defers != nil {
		in.runDefer(g, n-1)
		return
	}
	if f.panic == nil || f.recov {
		f = in.own(g, n-1)
		f.unwind = false
		f.panic = nil
		f.recov = false
		if f.fi.recover >= 0 {
			f.blk, f.pc = f.fi.recover, 0
			return
		}
		in.popFrame(g, f.fi.zeroResult())
		return
	}
	p := f.panic
	g.frames[n-1] = nil
	g.frames = g.frames[:n-1]
	if n-1 == 0 || n-1 == in.nestBase {
		if in.nestLevel > 0 {
			panic(goPanicExc{p.val})
		}
		in.uncaught(g, p)
		return
	}
	pf := in.own(g, n-2)
	pf.panic = p
	pf.unwind = true
	pf.recov = false
}

// runDefer makes the next deferred call of frame i (the top frame). The call
// is taken off the list only after it has been made, so that a native callee
// may fork.
func (in *Interp) runDefer(g *G, i int) {
	d := g.frames[i].defers
	popped := false
	defer func() {
		if !popped {
			if r := recover(); r != nil {
				if _, ok := r.(goPanicExc); ok {
					in.own(g, i).defers = d.next
				}
				panic(r)
			}
		}
	}()
	in.inDefers = true
	if d.bi != "" {
		in.builtin(g, d.I, d.bi, d.args)
	} else {
		in.callClosure(g, d.clo, d.args, noReg)
	}
	in.inDefers = false
	popped = true
	in.own(g, i).defers = d.next
	if len(g.frames) > i+1 {
		g.frames[len(g.frames)-1].isDefer = true
	}
}

func (fi *FuncInfo) zeroResult() Value {
	res := fi.fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

// doRecover implements recover().
func (in *Interp) doRecover(g *G) Value {
	n := len(g.frames)
	if n < 2 || !g.frames[n-1].isDefer {
		return Iface{}
	}
	p := g.frames[n-2]
	if p.panic == nil || p.recov || !p.unwind {
		return Iface{}
	}
	q := in.own(g, n-2)
	v := q.panic.val
	q.recov = true
	in.lastPanic = q.panic.pos
	return v
}

func (in *Interp) uncaught(g *G, p *PanicRec) {
	in.violation("panic", fmt.Sprintf("uncaught panic: %s (%s)", in.describe(p.val), p.pos))
}

// callSync runs a function to completion inside the current instruction.
func (in *Interp) callSync(c *Closure, args ...Value) Value {
	g := in.gs[in.cur]
	saveBase, saveDef := in.nestBase, in.inDefers
	base := len(g.frames)
	if in.nestLevel == 0 {
		in.outerDepth = base
	}
	orig := base
	if base == 0 {
		// a goroutine that has ended lends its stack: a dummy frame keeps
		// the nested-call bookkeeping simple
		g.frames = append(g.frames, &Frame{gen: in.gen, fi: in.driverInfo()})
		base = 1
	}
	in.nestLevel++
	in.nestBase = base
	in.inDefers = false
	defer func() {
		in.nestLevel--
		in.nestBase, in.inDefers = saveBase, saveDef
		for len(g.frames) > orig {
			g.frames[len(g.frames)-1] = nil
			g.frames = g.frames[:len(g.frames)-1]
		}
	}()
	in.nestRes = nil
	if c == nil {
		in.nilDeref()
	}
	for c.native != nil || in.funcInfo(c.fn).native != nil {
		var r Value
		if in.clo != nil {
			in.clo.readArgs(args)
		}
		if c.native != nil {
			r = c.native(in, args)
		} else {
			fi := in.funcInfo(c.fn)
			r = fi.native(in, fi, args)
		}
		if tc, ok := r.(tailCall); ok {
			c, args = tc.c, tc.args
			continue
		}
		return r
	}
	in.pushFrame(g, in.funcInfo(c.fn), c.env, args, noReg)
	in.loop(base)
	return in.nestRes
}

func (in *Interp) driverInfo() *FuncInfo {
	return &FuncInfo{name: "driver", recover: -1, blocks: []BlockInfo{{}}}
}

// loop executes the current goroutine until its stack is back at base.
func (in *Interp) loop(base int) {
	for {
		if in.loop1(base) {
			return
		}
	}
}

// loop1 runs until done (true) or until a Go panic of the interpreted program
// has been turned into unwinding (false).
func (in *Interp) loop1(base int) (done bool) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanicExc); ok {
				g := in.gs[in.cur]
				if len(g.frames) <= base || base > 0 && len(g.frames) == base {
					panic(r)
				}
				in.inDefers = false
				// the panic may itself leave the nested call
				in.startPanic(g, gp.val)
				done = false
				return
			}
			panic(r)
		}
	}()
	for {
		g := in.gs[in.cur]
		if base > 0 {
			if len(g.frames) <= base {
				return true
			}
		} else {
			if in.ended {
				return true
			}
			if len(g.frames) == 0 || g.done {
				if g.id == 0 {
					return true
				}
				if !g.done {
					g.done = true
				}
				in.im.trail, in.im.nondet, in.im.ctr = len(in.trail), len(in.nondet), in.varCtr
				in.reschedule()
				continue
			}
		}
		in.step(g)
	}
}

func (in *Interp) step(g *G) {
	n := len(g.frames) - 1
	f := g.frames[n]
	if f.gen != in.gen {
		f = in.own(g, n)
	}
	if in.nestLevel == 0 {
		in.im.trail, in.im.nondet, in.im.ctr = len(in.trail), len(in.nondet), in.varCtr
	}
	if f.unwind {
		in.unwindStep(g)
		return
	}
	I := &f.fi.blocks[f.blk].ins[f.pc]
	in.steps++
	if in.steps > in.maxSteps {
		panic(pathEnd{endInconclusive, "step limit"})
	}
	switch I.op {
	case xAlloc:
		c := new(Value)
		if I.commaOk {
			*c = I.zv
		} else {
			*c = copyVal(I.zv)
		}
		if in.clo != nil {
			in.clo.alloc(c)
		}
		f.regs[I.dst] = c
		f.pc++
	case xBin:
		in.fin(g, n, I, in.binop(I, f.get(I.a), f.get(I.b)))
	case xNot:
		f.regs[I.dst] = in.not(f.get(I.a))
		f.pc++
	case xNeg:
		f.regs[I.dst] = in.neg(I, f.get(I.a))
		f.pc++
	case xCompl:
		switch x := f.get(I.a).(type) {
		case uint64:
			f.regs[I.dst] = ^x & mask(I.w)
		case *Term:
			f.regs[I.dst] = fromTerm(in.st.BNot(x))
		}
		f.pc++
	case xLoad:
		if p, ok := f.get(I.a).(Ptr); ok && p != nil {
			if in.clo != nil {
				in.clo.readCell(p)
			}
			v := *p
			switch v.(type) {
			case Struct, Array:
				v = copyVal(v)
			case Undef:
				unsupp("%s", v.(Undef).why)
			}
			f.regs[I.dst] = v
			f.pc++
		} else {
			if pt, ok := I.typ.Underlying().(*types.Pointer); ok {
				in.loadW, _, _ = intWidth(pt.Elem())
			}
			in.fin(g, n, I, in.loadPtr(f.get(I.a), I))
		}
	case xStore:
		if p, ok := f.get(I.a).(Ptr); ok && p != nil {
			v := f.get(I.b)
			switch v.(type) {
			case Struct, Array:
				in.assign(p, v)
			default:
				if in.noTrail == 0 {
					in.trail = append(in.trail, trailEnt{p: p, old: *p})
				}
				*p = v
			}
		} else {
			in.storePtr(f.get(I.a), f.get(I.b))
		}
		in.own(g, n).pc++
	case xMove:
		f.regs[I.dst] = f.get(I.a)
		f.pc++
	case xConvert:
		in.fin(g, n, I, in.convert(I, f.get(I.a)))
	case xExtract:
		f.regs[I.dst] = f.get(I.a).(Tuple)[I.idx]
		f.pc++
	case xField:
		f.regs[I.dst] = f.get(I.a).(Struct)[I.idx]
		f.pc++
	case xFieldAddr:
		p := f.get(I.a)
		if c, ok := p.(Ptr); ok && c != nil {
			if s, ok := (*c).(Struct); ok {
				f.regs[I.dst] = &s[I.idx]
				f.pc++
				return
			}
		}
		c := in.ptrConc(p)
		if c == nil {
			in.nilDeref()
		}
		s, ok := (*c).(Struct)
		if !ok {
			unsupp("field address in %T", *c)
		}
		in.fin(g, n, I, &s[I.idx])
	case xIndex:
		in.fin(g, n, I, in.index(I, f.get(I.a), f.get(I.b)))
	case xIndexAddr:
		in.fin(g, n, I, in.indexAddr(I, f.get(I.a), f.get(I.b)))
	case xLookup:
		m, _ := f.get(I.a).(*Map)
		e := in.mapFind(m, I.typ, f.get(I.b))
		v := I.zv
		if e != nil {
			v = e.v
		}
		if I.commaOk {
			v = Tuple{v, e != nil}
		}
		in.fin(g, n, I, v)
	case xMapUpdate:
		m, _ := f.get(I.a).(*Map)
		if m == nil {
			in.goPanic("assignment to entry in nil map")
		}
		in.mapSet(m, I.typ, f.get(I.b), f.get(I.c))
		in.own(g, n).pc++
	case xMakeMap:
		m := newMap()
		if in.clo != nil {
			in.clo.alloc(m)
		}
		f.regs[I.dst] = m
		f.pc++
	case xMakeChan:
		c := &Chan{cap: in.asInt(f.get(I.a), "channel size")}
		if in.clo != nil {
			in.clo.alloc(c)
		}
		in.fin(g, n, I, c)
	case xMakeSlice:
		fn := n
		n, c := in.asInt(f.get(I.a), "slice length"), in.asInt(f.get(I.b), "slice cap")
		if n < 0 || c < n {
			in.goPanic("runtime error: makeslice: len out of range")
		}
		if c > 1<<24 {
			unsupp("huge slice %d", c)
		}
		s := make(Slice, c)
		if c > 0 {
			z := zero(I.typ)
			s[0] = z
			switch z.(type) {
			case Struct, Array:
				for i := 1; i < c; i++ {
					s[i] = copyVal(z)
				}
			default:
				for i := 1; i < c; i++ {
					s[i] = z
				}
			}
		}
		if in.clo != nil {
			in.clo.alloc(s)
		}
		in.fin(g, fn, I, s[:n])
	case xMakeClosure:
		env := make([]Value, len(I.args))
		for i, a := range I.args {
			env[i] = f.get(a)
		}
		f.regs[I.dst] = &Closure{fn: I.sfn, env: env}
		f.pc++
	case xMakeIface:
		f.regs[I.dst] = Iface{I.rt, f.get(I.a)}
		f.pc++
	case xAssert:
		f.regs[I.dst] = in.typeAssert(I, f.get(I.a).(Iface))
		f.pc++
	case xSlice:
		in.fin(g, n, I, in.slice(I, f))
	case xSlice2Arr:
		s := f.get(I.a).(Slice)
		n := int(I.typ.Underlying().(*types.Array).Len())
		if len(s) < n {
			in.goPanic("runtime error: cannot convert slice to array pointer")
		}
		// the array shares the slice's cells
		if in.clo != nil {
			in.clo.fail("slice to array pointer")
		}
		c := new(Value)
		*c = Array(s[:n:n])
		f.regs[I.dst] = c
		f.pc++
	case xRange:
		in.fin(g, n, I, in.rangeIter(I, f.get(I.a)))
	case xNext:
		in.fin(g, n, I, in.next(I, f))
	case xJump:
		in.jump(f, f.fi.blocks[f.blk].succ[0])
	case xIf:
		c := f.get(I.a)
		b, ok := c.(bool)
		if !ok {
			b = in.decide(c.(*Term))
			// the frame may have been snapshotted
			f = in.own(g, n)
		}
		if b {
			in.jump(f, f.fi.blocks[f.blk].succ[0])
		} else {
			in.jump(f, f.fi.blocks[f.blk].succ[1])
		}
	case xCall:
		args := make([]Value, len(I.args))
		for i, a := range I.args {
			args[i] = f.get(a)
		}
		if I.sfn != nil {
			fi := I.fn
			if fi == nil {
				fi = in.funcInfo(I.sfn)
				I.fn = fi
			}
			if fi.native == nil && !fi.pkgInit {
				f.pc++
				in.pushFrame(g, fi, nil, args, I.dst)
				return
			}
			in.callClosure(g, in.fnClosure(I.sfn), args, I.dst)
			return
		}
		c, _ := f.get(I.a).(*Closure)
		in.callClosure(g, c, args, I.dst)
	case xInvoke:
		c, args := in.invokeTarget(I, f)
		in.callClosure(g, c, args, I.dst)
	case xBuiltin:
		args := make([]Value, len(I.args))
		for i, a := range I.args {
			args[i] = f.get(a)
		}
		r := in.builtin(g, I, I.bname, args)
		f = in.own(g, n)
		if I.dst != noReg {
			f.regs[I.dst] = r
		}
		f.pc++
	case xReturn:
		var r Value
		switch len(I.args) {
		case 0:
		case 1:
			r = f.get(I.args[0])
		default:
			t := make(Tuple, len(I.args))
			for i, a := range I.args {
				t[i] = f.get(a)
			}
			r = t
		}
		in.popFrame(g, r)
	case xRunDefers:
		if f.defers != nil {
			in.runDefer(g, n)
			return
		}
		f.pc++
	case xPanic:
		v := f.get(I.a).(Iface)
		if v.t == nil {
			in.goPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		in.startPanic(g, v)
	case xDefer:
		d := in.mkDefer(I, f)
		d.next = f.defers
		f.defers = d
		f.pc++
	case xGo:
		d := in.mkDefer(I, f)
		if d.bi != "" {
			unsupp("go builtin")
		}
		in.spawn(d.clo, d.args)
		in.own(g, n).pc++
	case xRecv:
		in.chanRecv(g, I, f)
	case xSend:
		in.chanSend(g, I, f)
	case xSelect:
		in.chanSelect(g, I, f)
	case xUnsup:
		unsupp("%s", I.bname)
	default:
		unsupp("opcode %d", I.op)
	}
}

// fin completes an instruction whose evaluation may have forked.
func (in *Interp) fin(g *G, n int, I *Instr, v Value) {
	f := in.own(g, n)
	f.regs[I.dst] = v
	f.pc++
}

func (in *Interp) jump(f *Frame, to int32) {
	b := &f.fi.blocks[to]
	if b.edges != nil {
		e := b.edges[f.blk]
		if len(e.dst) == 1 {
			f.regs[e.dst[0]] = f.get(e.src[0])
		} else {
			var buf [8]Value
			tmp := buf[:0]
			for _, s := range e.src {
				tmp = append(tmp, f.get(s))
			}
			for i, d := range e.dst {
				f.regs[d] = tmp[i]
			}
		}
	}
	f.blk, f.pc = to, 0
}

func (in *Interp) invokeTarget(I *Instr, f *Frame) (*Closure, []Value) {
	ifc := f.get(I.a).(Iface)
	if ifc.t == nil {
		in.nilDeref()
	}
	args := make([]Value, 0, len(I.args)+1)
	if ifc.t == in.rtErrT {
		name := I.meth.Name()
		return &Closure{native: func(in *Interp, args []Value) Value {
			switch name {
			case "Error":
				return concatStr("runtime error: ", ifc.v)
			case "RuntimeError":
				return nil
			}
			unsupp("runtime error method %s", name)
			return nil
		}}, nil
	}
	args = append(args, ifc.v)
	for _, a := range I.args {
		args = append(args, f.get(a))
	}
	m := in.method(ifc.t, I.meth)
	if m == nil {
		unsupp("no method %s on %s", I.meth.Name(), ifc.t)
	}
	return in.fnClosure(m), args
}

func (in *Interp) mkDefer(I *Instr, f *Frame) *deferRec {
	d := &deferRec{I: I}
	switch opcode(I.idx) {
	case xInvoke:
		d.clo, d.args = in.invokeTarget(I, f)
		return d
	case xBuiltin:
		d.bi = I.bname
	default:
		if I.sfn != nil {
			d.clo = in.fnClosure(I.sfn)
		} else {
			d.clo, _ = f.get(I.a).(*Closure)
		}
	}
	for _, a := range I.args {
		d.args = append(d.args, f.get(a))
	}
	return d
}

func (in *Interp) fnClosure(fn *ssa.Function) *Closure {
	if c, ok := in.closures[fn]; ok {
		return c
	}
	c := &Closure{fn: fn}
	in.closures[fn] = c
	return c
}

// ---- operators

func (in *Interp) neg(I *Instr, v Value) Value {
	switch x := v.(type) {
	case uint64:
		return -x & mask(I.w)
	case *Term:
		return fromTerm(in.st.Neg(x))
	case float64:
		return -x
	case complex128:
		return -x
	}
	unsupp("negation of %T", v)
	return nil
}

var arithOp = map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OBAnd, token.OR: OBOr, token.XOR: OBXor}

func (in *Interp) binop(I *Instr, a, b Value) Value {
	if x, ok := a.(uint64); ok {
		if y, ok := b.(uint64); ok {
			return in.binopInt(I, x, y)
		}
	}
	switch I.tok {
	case token.EQL:
		return in.eq(I.typ, a, b)
	case token.NEQ:
		return in.not(in.eq(I.typ, a, b))
	}
	switch x := a.(type) {
	case string, *SymStr:
		switch I.tok {
		case token.ADD:
			return concatStr(a, b)
		case token.LSS:
			return in.ltStr(a, b)
		case token.GTR:
			return in.ltStr(b, a)
		case token.LEQ:
			return in.not(in.ltStr(b, a))
		case token.GEQ:
			return in.not(in.ltStr(a, b))
		}
	case float64:
		y := b.(float64)
		var r float64
		switch I.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
		if bt, ok := I.typ.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	case bool:
		// & and | on booleans do not exist in Go
	case complex128:
		y := b.(complex128)
		switch I.tok {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	}
	if I.w == 0 {
		unsupp("binop %s on %T", I.tok, a)
	}
	ta := in.term(a, I.w)
	switch I.tok {
	case token.SHL, token.SHR:
		sw := uint8(I.idx)
		tb := in.term(b, sw)
		if I.commaOk { // signed count
			if in.decide(in.st.Bin(OSlt, tb, in.st.Const(sw, 0))) {
				in.goPanic("runtime error: negative shift amount")
			}
		}
		var sh *Term
		if sw > I.w {
			// saturate counts that do not fit
			big := in.st.Not(in.st.Bin(OUlt, tb, in.st.Const(sw, uint64(I.w))))
			sh = in.st.Ite(big, in.st.Const(I.w, mask(I.w)), in.st.Resize(tb, I.w, false))
		} else {
			sh = in.st.Resize(tb, I.w, false)
		}
		op := OShl
		if I.tok == token.SHR {
			op = OLshr
			if I.signed {
				op = OAshr
			}
		}
		return fromTerm(in.st.Bin(op, ta, sh))
	}
	tb := in.term(b, I.w)
	switch I.tok {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
		return fromTerm(in.st.Bin(arithOp[I.tok], ta, tb))
	case token.AND_NOT:
		return fromTerm(in.st.Bin(OBAnd, ta, in.st.BNot(tb)))
	case token.QUO, token.REM:
		if in.decide(in.st.Eq(tb, in.st.Const(I.w, 0))) {
			in.goPanic("runtime error: integer divide by zero")
		}
		op := OUDiv
		switch {
		case I.tok == token.QUO && I.signed:
			op = OSDiv
		case I.tok == token.REM && I.signed:
			op = OSRem
		case I.tok == token.REM:
			op = OURem
		}
		return fromTerm(in.st.Bin(op, ta, tb))
	case token.LSS:
		if I.signed {
			return fromTerm(in.st.Bin(OSlt, ta, tb))
		}
		return fromTerm(in.st.Bin(OUlt, ta, tb))
	case token.LEQ:
		if I.signed {
			return fromTerm(in.st.Bin(OSle, ta, tb))
		}
		return fromTerm(in.st.Bin(OUle, ta, tb))
	case token.GTR:
		if I.signed {
			return fromTerm(in.st.Bin(OSlt, tb, ta))
		}
		return fromTerm(in.st.Bin(OUlt, tb, ta))
	case token.GEQ:
		if I.signed {
			return fromTerm(in.st.Bin(OSle, tb, ta))
		}
		return fromTerm(in.st.Bin(OUle, tb, ta))
	}
	unsupp("binop %s", I.tok)
	return nil
}

func (in *Interp) binopInt(I *Instr, x, y uint64) Value {
	w := I.w
	switch I.tok {
	case token.ADD:
		return (x + y) & mask(w)
	case token.SUB:
		return (x - y) & mask(w)
	case token.MUL:
		return (x * y) & mask(w)
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return x ^ y
	case token.AND_NOT:
		return x &^ y
	case token.EQL:
		return x == y
	case token.NEQ:
		return x != y
	case token.QUO, token.REM:
		if y == 0 {
			in.goPanic("runtime error: integer divide by zero")
		}
		op := OUDiv
		switch {
		case I.tok == token.QUO && I.signed:
			op = OSDiv
		case I.tok == token.REM && I.signed:
			op = OSRem
		case I.tok == token.REM:
			op = OURem
		}
		r, _ := foldBin(op, w, x, y)
		return r
	case token.SHL, token.SHR:
		if I.commaOk && sext64(y, uint8(I.idx)) < 0 {
			in.goPanic("runtime error: negative shift amount")
		}
		if I.tok == token.SHL {
			if y >= uint64(w) {
				return uint64(0)
			}
			return (x << y) & mask(w)
		}
		if I.signed {
			if y > 63 {
				y = 63
			}
			return uint64(sext64(x, w)>>y) & mask(w)
		}
		if y >= uint64(w) {
			return uint64(0)
		}
		return x >> y
	}
	if I.signed {
		p, q := sext64(x, w), sext64(y, w)
		switch I.tok {
		case token.LSS:
			return p < q
		case token.LEQ:
			return p <= q
		case token.GTR:
			return p > q
		case token.GEQ:
			return p >= q
		}
	}
	switch I.tok {
	case token.LSS:
		return x < y
	case token.LEQ:
		return x <= y
	case token.GTR:
		return x > y
	case token.GEQ:
		return x >= y
	}
	unsupp("int binop %s", I.tok)
	return nil
}

func (in *Interp) convert(I *Instr, v Value) Value {
	src, dst := I.rt.t.Underlying(), I.typ.Underlying()
	if dw, _, ok := intWidth(dst); ok {
		if sw, ssigned, ok := intWidth(src); ok {
			switch x := v.(type) {
			case uint64:
				if ssigned {
					return uint64(sext64(x, sw)) & mask(dw)
				}
				return x & mask(dw)
			case *Term:
				return fromTerm(in.st.Resize(x, dw, ssigned))
			case Ptr, DataPtr: // uintptr holding a pointer
				return v
			}
		}
		switch x := v.(type) {
		case float64:
			if _, sg, _ := intWidth(dst); !sg {
				return uint64(x) & mask(dw)
			}
			return uint64(int64(x)) & mask(dw)
		case Ptr, DataPtr, *SymPtr:
			return v // unsafe.Pointer -> uintptr
		}
	}
	if b, ok := dst.(*types.Basic); ok {
		switch {
		case b.Kind() == types.UnsafePointer:
			return v
		case b.Info()&types.IsFloat != 0:
			var f float64
			switch x := v.(type) {
			case float64:
				f = x
			case uint64:
				w, sg, _ := intWidth(src)
				if sg {
					f = float64(sext64(x, w))
				} else {
					f = float64(x)
				}
			default:
				unsupp("float conversion of symbolic value")
			}
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return v
		case b.Info()&types.IsString != 0:
			switch s := src.(type) {
			case *types.Slice:
				sl := v.(Slice)
				if in.clo != nil {
					in.clo.readSlice(sl)
				}
				if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
					var out []Value
					for _, r := range sl {
						out = append(out, in.encodeRune(r)...)
					}
					return mkStr(out)
				}
				return mkStr(append([]Value(nil), sl...))
			case *types.Basic:
				if s.Info()&types.IsString != 0 {
					return v
				}
				if s.Info()&types.IsInteger != 0 {
					switch x := v.(type) {
					case uint64:
						w, sg, _ := intWidth(src)
						if sg {
							i := sext64(x, w)
							if i < 0 || i > math.MaxInt32 {
								return string(utf8.RuneError)
							}
							return string(rune(i))
						}
						if x > math.MaxInt32 {
							return string(utf8.RuneError)
						}
						return string(rune(x))
					case *Term:
						return mkStr(in.encodeRune(fromTerm(in.st.Resize(x, 32, true))))
					}
				}
			}
		}
	}
	if s, ok := dst.(*types.Slice); ok {
		if _, ok := src.(*types.Slice); ok {
			return v
		}
		eb, _ := s.Elem().Underlying().(*types.Basic)
		if eb != nil && eb.Kind() == types.Int32 {
			var out Slice = Slice{}
			pos := 0
			for pos < strLen(v) {
				r, n := in.decodeRune(v, pos)
				out = append(out, r)
				pos += n
			}
			if in.clo != nil {
				in.clo.alloc(out)
			}
			return out
		}
		switch x := v.(type) {
		case string:
			r := make(Slice, len(x))
			for i := 0; i < len(x); i++ {
				r[i] = uint64(x[i])
			}
			if in.clo != nil {
				in.clo.alloc(r)
			}
			return r
		case *SymStr:
			r := append(Slice(nil), x.b...)
			if in.clo != nil {
				in.clo.alloc(r)
			}
			return r
		}
	}
	if _, ok := dst.(*types.Pointer); ok {
		if p, ok := v.(Ptr); ok && p != nil {
			if _, isI := (*p).(Iface); isI {
				et := I.typ.Underlying().(*types.Pointer).Elem().Underlying()
				if at, ok := et.(*types.Array); ok && at.Len() == 2 {
					return ifaceWords{p}
				}
			}
		}
		return v // unsafe.Pointer -> *T
	}
	if types.Identical(src, dst) {
		return v
	}
	unsupp("conversion %s -> %s", I.rt.t, I.typ)
	return nil
}

// ifaceWords is a reinterpretation of an interface cell as words.
type ifaceWords struct{ p Ptr }

func (in *Interp) index(I *Instr, x, i Value) Value {
	switch s := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		switch k := i.(type) {
		case uint64:
			ik := k
			if I.signed {
				ik = uint64(sext64(k, I.w))
			}
			if ik >= uint64(n) {
				in.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(ik), n))
			}
			return strAt(x, int(ik))
		case *Term:
			t := in.st.Resize(k, 64, I.signed)
			if !in.decide(in.st.Bin(OUlt, t, in.st.Const(64, uint64(n)))) {
				in.goPanic("runtime error: index out of range")
			}
			in.loadW = 8
			return in.loadSym(strBytes(x), t)
		}
	case Array:
		switch k := i.(type) {
		case uint64:
			ik := k
			if I.signed {
				ik = uint64(sext64(k, I.w))
			}
			if ik >= uint64(len(s)) {
				in.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(ik), len(s)))
			}
			return s[ik]
		case *Term:
			t := in.st.Resize(k, 64, I.signed)
			if !in.decide(in.st.Bin(OUlt, t, in.st.Const(64, uint64(len(s))))) {
				in.goPanic("runtime error: index out of range")
			}
			if a, ok := I.typ.(*types.Array); ok {
				in.loadW, _, _ = intWidth(a.Elem())
			}
			return in.loadSym(s, t)
		}
	}
	unsupp("index %T", x)
	return nil
}

func (in *Interp) indexAddr(I *Instr, x, i Value) Value {
	var arr []Value
	var ew types.Type
	switch s := x.(type) {
	case Slice:
		arr = s
		if t, ok := I.typ.(*types.Slice); ok {
			ew = t.Elem()
		}
	default:
		p := in.ptrConc(x)
		if p == nil {
			in.nilDeref()
		}
		a, ok := (*p).(Array)
		if !ok {
			unsupp("index address in %T", *p)
		}
		arr = a
		ew = I.typ.(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
	}
	switch k := i.(type) {
	case uint64:
		ik := k
		if I.signed {
			ik = uint64(sext64(k, I.w))
		}
		if ik >= uint64(len(arr)) {
			in.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(ik), len(arr)))
		}
		return &arr[ik]
	case *Term:
		t := in.st.Resize(k, 64, I.signed)
		if !in.decide(in.st.Bin(OUlt, t, in.st.Const(64, uint64(len(arr))))) {
			in.goPanic(fmt.Sprintf("runtime error: index out of range with length %d", len(arr)))
		}
		if _, _, ok := intWidth(ew); ok && len(arr) <= 300 {
			return &SymPtr{arr, t}
		}
		return &arr[in.concretize(t, 0, uint64(len(arr)-1))]
	}
	unsupp("index %T", i)
	return nil
}

func (in *Interp) typeAssert(I *Instr, x Iface) Value {
	ok := false
	var v Value = x
	if I.rt != nil {
		ok = x.t == I.rt
		if ok {
			v = x.v
		}
	} else if x.t != nil {
		it := I.typ.Underlying().(*types.Interface)
		if x.t == in.rtErrT {
			ok = in.rtErrImplements(it)
		} else {
			ok = in.types.implements(x.t, it)
		}
	}
	if I.commaOk {
		if !ok {
			v = I.zv
		}
		return Tuple{v, ok}
	}
	if !ok {
		what := "nil"
		if x.t != nil {
			what = x.t.String()
		}
		in.goPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", what, I.typ))
	}
	return v
}

func (in *Interp) slice(I *Instr, f *Frame) Value {
	x := f.get(I.a)
	bound := func(r int32, def int, what string) int {
		if r == noReg {
			return def
		}
		v := f.get(r)
		if t, ok := v.(*Term); ok {
			return in.sliceIdx(t, x)
		}
		return int(int64(v.(uint64)))
	}
	switch s := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		lo, hi := bound(I.b, 0, "low"), bound(I.c, n, "high")
		if lo < 0 || hi < lo || hi > n {
			in.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return subStr(x, lo, hi)
	case Slice:
		lo, hi := bound(I.b, 0, "low"), bound(I.c, len(s), "high")
		max := bound(I.d, cap(s), "max")
		if lo < 0 || hi < lo || max < hi || max > cap(s) {
			in.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, max, cap(s)))
		}
		if s == nil {
			return s
		}
		return s[lo:hi:max]
	default:
		p := in.ptrConc(x)
		if p == nil {
			in.nilDeref()
		}
		a := (*p).(Array)
		lo, hi := bound(I.b, 0, "low"), bound(I.c, len(a), "high")
		max := bound(I.d, len(a), "max")
		if lo < 0 || hi < lo || max < hi || max > len(a) {
			in.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, max, len(a)))
		}
		return Slice(a[lo:hi:max])
	}
}

// sliceIdx enumerates a symbolic slice bound.
func (in *Interp) sliceIdx(t *Term, x Value) int {
	n := 0
	switch s := x.(type) {
	case string, *SymStr:
		n = strLen(x)
	case Slice:
		n = cap(s)
	case Ptr:
		n = len((*s).(Array))
	}
	for i := 0; i <= n; i++ {
		if in.decide(in.st.Eq(t, in.st.Const(t.w, uint64(i)))) {
			return i
		}
	}
	return -1
}

func (in *Interp) rangeIter(I *Instr, x Value) Value {
	switch s := x.(type) {
	case string, *SymStr:
		return &strIter{s: x}
	case *Map:
		it := &mapIter{m: s}
		if s == nil {
			return it
		}
		if in.clo != nil {
			in.clo.read(s)
		}
		order := s.entries
		if len(order) > 1 && in.mapNondet {
			order = in.permute(order)
		}
		it.order = order
		return it
	}
	unsupp("range over %T", x)
	return nil
}

// permute picks an iteration order: every rotation-free order for up to 3
// entries, insertion order or its reverse beyond.
func (in *Interp) permute(e []*mapEntry) []*mapEntry {
	n := len(e)
	out := append([]*mapEntry(nil), e...)
	if n <= 3 {
		for i := 0; i < n-1; i++ {
			k := in.choose(n-i, "map-order")
			out[i], out[i+k] = out[i+k], out[i]
		}
		return out
	}
	if in.choose(2, "map-order") == 1 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func (in *Interp) next(I *Instr, f *Frame) Value {
	switch it := f.get(I.a).(type) {
	case *strIter:
		if it.pos >= strLen(it.s) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		p := it.pos
		r, n := in.decodeRune(it.s, p)
		old := it.pos
		it.pos += n
		in.undo(func() { it.pos = old })
		return Tuple{true, uint64(p), r}
	case *mapIter:
		old := it.pos
		if in.clo != nil && it.m != nil {
			in.clo.read(it.m)
		}
		in.undo(func() { it.pos = old })
		for it.pos < len(it.order) {
			e := it.order[it.pos]
			it.pos++
			if e.dead {
				continue
			}
			return Tuple{true, e.k, e.v}
		}
		return I.zv
	}
	unsupp("next")
	return nil
}

// decodeRune decodes the rune at byte i, forking on symbolic bytes.
func (in *Interp) decodeRune(s Value, i int) (Value, int) {
	if str, ok := s.(string); ok {
		r, n := utf8.DecodeRuneInString(str[i:])
		return uint64(uint32(r)), n
	}
	b := s.(*SymStr).b
	b0 := b[i]
	if x, ok := b0.(uint64); ok && x < 0x80 {
		return x, 1
	}
	lt := func(v Value, k uint64) bool {
		if x, ok := v.(uint64); ok {
			return x < k
		}
		return in.decide(in.st.Bin(OUlt, v.(*Term), in.st.Const(8, k)))
	}
	ext := func(v Value, and uint64, sh uint) *Term {
		t := in.st.Resize(in.term(v, 8), 32, false)
		t = in.st.Bin(OBAnd, t, in.st.Const(32, and))
		return in.st.Bin(OShl, t, in.st.Const(32, uint64(sh)))
	}
	if lt(b0, 0x80) {
		return fromTerm(in.st.Resize(in.term(b0, 8), 32, false)), 1
	}
	bad := uint64(utf8.RuneError)
	cont := func(j int, lo, hi uint64) bool {
		if i+j >= len(b) {
			return false
		}
		return !lt(b[i+j], lo) && lt(b[i+j], hi+1)
	}
	or := func(a, c *Term) *Term { return in.st.Bin(OBOr, a, c) }
	switch {
	case lt(b0, 0xC2):
		return bad, 1
	case lt(b0, 0xE0):
		if !cont(1, 0x80, 0xBF) {
			return bad, 1
		}
		return fromTerm(or(ext(b0, 0x1F, 6), ext(b[i+1], 0x3F, 0))), 2
	case lt(b0, 0xF0):
		lo, hi := uint64(0x80), uint64(0xBF)
		if lt(b0, 0xE1) {
			lo = 0xA0
		} else if !lt(b0, 0xED) && lt(b0, 0xEE) {
			hi = 0x9F
		}
		if !cont(1, lo, hi) || !cont(2, 0x80, 0xBF) {
			return bad, 1
		}
		return fromTerm(or(or(ext(b0, 0x0F, 12), ext(b[i+1], 0x3F, 6)), ext(b[i+2], 0x3F, 0))), 3
	case lt(b0, 0xF5):
		lo, hi := uint64(0x80), uint64(0xBF)
		if lt(b0, 0xF1) {
			lo = 0x90
		} else if !lt(b0, 0xF4) {
			hi = 0x8F
		}
		if !cont(1, lo, hi) || !cont(2, 0x80, 0xBF) || !cont(3, 0x80, 0xBF) {
			return bad, 1
		}
		return fromTerm(or(or(or(ext(b0, 0x07, 18), ext(b[i+1], 0x3F, 12)), ext(b[i+2], 0x3F, 6)), ext(b[i+3], 0x3F, 0))), 4
	}
	return bad, 1
}

func (in *Interp) encodeRune(r Value) []Value {
	if x, ok := r.(uint64); ok {
		s := string(rune(int32(uint32(x))))
		out := make([]Value, len(s))
		for i := range out {
			out[i] = uint64(s[i])
		}
		return out
	}
	t := r.(*Term)
	if in.decide(in.st.Bin(OUlt, t, in.st.Const(32, 0x80))) {
		return []Value{fromTerm(in.st.Resize(t, 8, false))}
	}
	byteOf := func(or, and uint64, sh uint64) Value {
		x := in.st.Bin(OLshr, t, in.st.Const(32, sh))
		x = in.st.Bin(OBAnd, x, in.st.Const(32, and))
		x = in.st.Bin(OBOr, x, in.st.Const(32, or))
		return fromTerm(in.st.Resize(x, 8, false))
	}
	if in.decide(in.st.Bin(OUlt, t, in.st.Const(32, 0x800))) {
		return []Value{byteOf(0xC0, 0x1F, 6), byteOf(0x80, 0x3F, 0)}
	}
	sur := in.st.And(in.st.Not(in.st.Bin(OUlt, t, in.st.Const(32, 0xD800))), in.st.Bin(OUlt, t, in.st.Const(32, 0xE000)))
	if in.decide(sur) || in.decide(in.st.Bin(OUlt, in.st.Const(32, 0x10FFFF), t)) {
		return []Value{uint64(0xEF), uint64(0xBF), uint64(0xBD)}
	}
	if in.decide(in.st.Bin(OUlt, t, in.st.Const(32, 0x10000))) {
		return []Value{byteOf(0xE0, 0x0F, 12), byteOf(0x80, 0x3F, 6), byteOf(0x80, 0x3F, 0)}
	}
	return []Value{byteOf(0xF0, 0x07, 18), byteOf(0x80, 0x3F, 12), byteOf(0x80, 0x3F, 6), byteOf(0x80, 0x3F, 0)}
}

func (in *Interp) builtin(g *G, I *Instr, name string, args []Value) Value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case string:
			return uint64(len(x))
		case *SymStr:
			return uint64(len(x.b))
		case Slice:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			if in.clo != nil {
				in.clo.read(x)
			}
			return uint64(x.live)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			if in.clo != nil {
				in.clo.read(x)
			}
			return uint64(len(x.buf))
		case Array:
			return uint64(len(x))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case *Chan:
			return uint64(x.cap)
		case Array:
			return uint64(len(x))
		}
	case "append":
		dst := args[0].(Slice)
		var src []Value
		switch x := args[1].(type) {
		case Slice:
			src = x
		case string, *SymStr:
			src = strBytes(x)
		}
		if x, ok := args[1].(Slice); ok && in.clo != nil {
			in.clo.readSlice(x)
		}
		return in.appendSlice(dst, src, I.zv)
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch x := args[1].(type) {
		case Slice:
			src = x
		case string, *SymStr:
			src = strBytes(x)
		}
		n := min(len(dst), len(src))
		if x, ok := args[1].(Slice); ok && in.clo != nil {
			in.clo.readSlice(x[:n])
		}
		if n > 0 && I.commaOk {
			// scalars: handle overlap by snapshot
			tmp := append([]Value(nil), src[:n]...)
			for i := 0; i < n; i++ {
				in.setCell(&dst[i], tmp[i])
			}
		} else if n > 0 {
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				in.assign(&dst[i], tmp[i])
			}
		}
		return uint64(n)
	case "delete":
		m, _ := args[0].(*Map)
		if I != nil && I.typ != nil {
			in.mapDelete(m, I.typ.Underlying().(*types.Map).Key(), args[1])
			return nil
		}
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x == nil {
				return nil
			}
			for len(x.entries) > 0 {
				in.mapDelete(x, I.typ.Underlying().(*types.Map).Key(), x.entries[0].k)
			}
			return nil
		case Slice:
			z := zero(I.typ.Underlying().(*types.Slice).Elem())
			for i := range x {
				in.assign(&x[i], z)
			}
			return nil
		}
	case "close":
		c, _ := args[0].(*Chan)
		if c == nil {
			in.goPanic("close of nil channel")
		}
		if c.closed {
			in.goPanic("close of closed channel")
		}
		c.closed = true
		in.undoObj(c, func() { c.closed = false })
		return nil
	case "panic":
		in.startPanicBuiltin(args[0])
		return nil
	case "recover":
		return in.doRecover(g)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := a.(type) {
			case float64:
				if name == "min" {
					r = math.Min(r.(float64), x)
				} else {
					r = math.Max(r.(float64), x)
				}
			case string, *SymStr:
				c := in.decideV(in.ltStr(a, r))
				if c == (name == "min") {
					r = a
				}
			default:
				op := OUlt
				if I.signed {
					op = OSlt
				}
				x1, y1 := in.term(a, I.w), in.term(r, I.w)
				c := in.st.Bin(op, x1, y1)
				if name == "max" {
					c = in.st.Bin(op, y1, x1)
				}
				r = fromTerm(in.st.Ite(c, x1, y1))
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "String": // unsafe.String
		n := in.asInt(args[1], "unsafe.String length")
		if n == 0 {
			return ""
		}
		switch p := args[0].(type) {
		case DataPtr:
			if in.clo != nil {
				in.clo.readSlice(p.s[:n])
			}
			return mkStr(append([]Value(nil), p.s[:n]...))
		}
		unsupp("unsafe.String of %T", args[0])
	case "StringData":
		return DataPtr{strBytes(args[0])}
	case "SliceData":
		s := args[0].(Slice)
		if s == nil {
			return nilPtr
		}
		return DataPtr{s[:cap(s)]}
	case "Slice":
		n := in.asInt(args[1], "unsafe.Slice length")
		switch p := args[0].(type) {
		case DataPtr:
			return Slice(p.s[:n])
		case Ptr:
			if p == nil {
				return Slice(nil)
			}
			if n == 1 {
				unsupp("unsafe.Slice of variable")
			}
		}
		unsupp("unsafe.Slice of %T", args[0])
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			in.goPanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "Add":
		unsupp("unsafe.Add")
	}
	unsupp("builtin %s(%T)", name, args[0])
	return nil
}

func (in *Interp) startPanicBuiltin(v Value) { panic(goPanicExc{v}) }

func (in *Interp) appendSlice(dst Slice, src []Value, z Value) Slice {
	if len(src) == 0 {
		return dst
	}
	n := len(dst) + len(src)
	if n <= cap(dst) {
		r := dst[:n]
		tmp := src
		for i := range tmp {
			v := tmp[i]
			switch v.(type) {
			case Struct, Array:
				in.assign(&r[len(dst)+i], v)
			default:
				in.setCell(&r[len(dst)+i], v)
			}
		}
		return r
	}
	c := cap(dst) * 2
	if c < n {
		c = n
	}
	if c < 4 {
		c = goCap(n)
	}
	r := make(Slice, c)
	if in.clo != nil {
		in.clo.readSlice(dst)
		defer in.clo.alloc(r)
	}
	for i, v := range dst {
		r[i] = copyVal(v)
	}
	for i, v := range src {
		r[len(dst)+i] = copyVal(v)
	}
	for i := n; i < c; i++ {
		r[i] = copyVal(z)
	}
	return r[:n]
}

func goCap(n int) int { return n }

func (in *Interp) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := in.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}
