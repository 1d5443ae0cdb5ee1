package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	xAlloc opcode = iota
	xBin
	xNot
	xNeg
	xCompl
	xLoad
	xRecv
	xCall
	xInvoke
	xBuiltin
	xMove // ChangeType, ChangeInterface
	xConvert
	xExtract
	xField
	xFieldAddr
	xIndex
	xIndexAddr
	xLookup
	xMakeChan
	xMakeClosure
	xMakeIface
	xMakeMap
	xMakeSlice
	xMapUpdate
	xNext
	xRange
	xSelect
	xSend
	xSlice
	xSlice2Arr
	xSlice2ArrVal
	xStore
	xAssert
	xJump
	xIf
	xReturn
	xRunDefers
	xPanic
	xGo
	xDefer
	xNop
	xUnsup
)

// Instr is one decoded SSA instruction.
type Instr struct {
	op      opcode
	commaOk bool
	signed  bool
	w       uint8
	tok     token.Token
	dst     int32
	a, b, c int32
	d       int32
	idx     int
	args    []int32
	typ     types.Type // operand or result type, op-dependent
	rt      *RType
	zv      Value
	fn      *FuncInfo // static callee, resolved lazily
	sfn     *ssa.Function
	meth    *types.Func
	bname   string
	pos     token.Pos
	si      ssa.Instruction
	clo     *Closure
}

type phiEdge struct {
	dst []int32
	src []int32
}

type BlockInfo struct {
	ins   []Instr
	edges map[int32]*phiEdge // by predecessor index
	succ  [2]int32
}

// FuncInfo is a compiled function of one interpreter.
type FuncInfo struct {
	fn      *ssa.Function
	name    string
	nregs   int
	blocks  []BlockInfo
	consts  []Value
	recover int32
	native  nativeFn
	pkgInit bool
	nres    int
	isGoji  bool
	isHarn  bool
	zeroRes Value
}

type nativeFn func(in *Interp, fi *FuncInfo, args []Value) Value

const noReg = int32(1) << 30

func (in *Interp) funcInfo(fn *ssa.Function) *FuncInfo {
	if fi, ok := in.funcs[fn]; ok {
		return fi
	}
	fi := &FuncInfo{fn: fn, name: fn.String(), recover: -1}
	in.funcs[fn] = fi
	if pkg := fnPkg(fn); pkg != nil {
		p := pkg.Pkg.Path()
		fi.isGoji = strings.HasPrefix(p, "github.com/zenazn/goji")
		fi.isHarn = strings.HasPrefix(p, "verif/")
		in.ensureInit(pkg, fn)
	}
	fi.nres = fn.Signature.Results().Len()
	if nf := lookupNative(fi.name, fn); nf != nil {
		fi.native = nf
		return fi
	}
	if fn.Synthetic == "package initializer" {
		fi.pkgInit = true
	}
	if len(fn.Blocks) == 0 {
		name := fi.name
		fi.native = func(in *Interp, fi *FuncInfo, args []Value) Value {
			unsupp("function without body: %s", name)
			return nil
		}
		return fi
	}
	in.compileBody(fi)
	return fi
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func (in *Interp) compileBody(fi *FuncInfo) {
	fn := fi.fn
	slots := map[ssa.Value]int32{}
	n := int32(0)
	slot := func(v ssa.Value) int32 {
		s := n
		slots[v] = s
		n++
		return s
	}
	for _, p := range fn.Params {
		slot(p)
	}
	for _, p := range fn.FreeVars {
		slot(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				slot(v)
			}
		}
	}
	fi.nregs = int(n)
	cidx := map[ssa.Value]int32{}
	opnd := func(v ssa.Value) int32 {
		if v == nil {
			return noReg
		}
		if s, ok := slots[v]; ok {
			return s
		}
		if s, ok := cidx[v]; ok {
			return s
		}
		var cv Value
		switch x := v.(type) {
		case *ssa.Const:
			cv = constValue(x)
		case *ssa.Global:
			cv = in.global(x)
		case *ssa.Function:
			cv = in.fnClosure(x)
		case *ssa.Builtin:
			return noReg
		default:
			panic(fmt.Sprintf("operand %T", v))
		}
		s := ^int32(len(fi.consts))
		fi.consts = append(fi.consts, cv)
		cidx[v] = s
		return s
	}
	fi.blocks = make([]BlockInfo, len(fn.Blocks))
	if fn.Recover != nil {
		fi.recover = int32(fn.Recover.Index)
	}
	for bi, b := range fn.Blocks {
		B := &fi.blocks[bi]
		for i, s := range b.Succs {
			if i < 2 {
				B.succ[i] = int32(s.Index)
			}
		}
		// phis
		nphi := 0
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				nphi++
			} else if _, ok := ins.(*ssa.DebugRef); !ok {
				break
			}
		}
		if nphi > 0 {
			B.edges = map[int32]*phiEdge{}
			for pi, p := range b.Preds {
				e := &phiEdge{}
				for _, ins := range b.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						continue
					}
					e.dst = append(e.dst, slots[ph])
					e.src = append(e.src, opnd(ph.Edges[pi]))
				}
				B.edges[int32(p.Index)] = e
			}
		}
		for _, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			I := Instr{dst: noReg, a: noReg, b: noReg, c: noReg, d: noReg, pos: ins.Pos(), si: ins}
			if v, ok := ins.(ssa.Value); ok {
				I.dst = slots[v]
			}
			in.compileInstr(fi, &I, ins, opnd)
			B.ins = append(B.ins, I)
		}
	}
}

func (in *Interp) compileInstr(fi *FuncInfo, I *Instr, ins ssa.Instruction, opnd func(ssa.Value) int32) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				I.op = xUnsup
				I.bname = u.msg
				return
			}
			panic(r)
		}
	}()
	switch x := ins.(type) {
	case *ssa.Alloc:
		I.op = xAlloc
		I.typ = x.Type().Underlying().(*types.Pointer).Elem()
		I.zv = zero(I.typ)
		switch I.zv.(type) {
		case Struct, Array:
		default:
			I.commaOk = true // simple zero
		}
	case *ssa.BinOp:
		I.op = xBin
		I.tok = x.Op
		I.a, I.b = opnd(x.X), opnd(x.Y)
		I.typ = x.X.Type()
		if isNilConst(x.X) {
			I.typ = x.Y.Type()
		}
		I.w, I.signed, _ = intWidth(I.typ)
		if x.Op == token.SHL || x.Op == token.SHR {
			// record the shift count's signedness
			_, I.commaOk, _ = intWidth(x.Y.Type())
			w, _, _ := intWidth(x.Y.Type())
			I.idx = int(w)
		}
	case *ssa.UnOp:
		I.a = opnd(x.X)
		I.typ = x.X.Type()
		I.commaOk = x.CommaOk
		I.w, I.signed, _ = intWidth(x.X.Type())
		switch x.Op {
		case token.NOT:
			I.op = xNot
		case token.SUB:
			I.op = xNeg
		case token.XOR:
			I.op = xCompl
		case token.MUL:
			I.op = xLoad
		case token.ARROW:
			I.op = xRecv
			I.typ = x.X.Type().Underlying().(*types.Chan).Elem()
		}
	case *ssa.Call:
		in.compileCall(I, &x.Call, opnd)
	case *ssa.Go:
		in.compileCall(I, &x.Call, opnd)
		I.idx = int(I.op)
		I.op = xGo
	case *ssa.Defer:
		in.compileCall(I, &x.Call, opnd)
		I.idx = int(I.op)
		I.op = xDefer
		if x.DeferStack != nil {
			unsupp("defer stack")
		}
	case *ssa.ChangeInterface:
		I.op = xMove
		I.a = opnd(x.X)
	case *ssa.ChangeType:
		I.op = xMove
		I.a = opnd(x.X)
	case *ssa.Convert:
		I.op = xConvert
		I.a = opnd(x.X)
		I.typ = x.Type()
		I.rt = in.types.of(x.X.Type())
		I.w, I.signed, _ = intWidth(x.Type())
	case *ssa.MultiConvert:
		I.op = xConvert
		I.a = opnd(x.X)
		I.typ = x.Type()
		I.rt = in.types.of(x.X.Type())
		I.w, I.signed, _ = intWidth(x.Type())
	case *ssa.Extract:
		I.op = xExtract
		I.a = opnd(x.Tuple)
		I.idx = x.Index
	case *ssa.Field:
		I.op = xField
		I.a = opnd(x.X)
		I.idx = x.Field
	case *ssa.FieldAddr:
		I.op = xFieldAddr
		I.a = opnd(x.X)
		I.idx = x.Field
	case *ssa.Index:
		I.op = xIndex
		I.a, I.b = opnd(x.X), opnd(x.Index)
		I.typ = x.X.Type().Underlying()
		I.w, I.signed, _ = intWidth(x.Index.Type())
		I.zv = zero(x.Type())
	case *ssa.IndexAddr:
		I.op = xIndexAddr
		I.a, I.b = opnd(x.X), opnd(x.Index)
		I.typ = x.X.Type().Underlying()
		I.w, I.signed, _ = intWidth(x.Index.Type())
	case *ssa.Lookup:
		I.op = xLookup
		I.a, I.b = opnd(x.X), opnd(x.Index)
		m := x.X.Type().Underlying().(*types.Map)
		I.typ = m.Key()
		I.zv = zero(m.Elem())
		I.commaOk = x.CommaOk
	case *ssa.MakeChan:
		I.op = xMakeChan
		I.a = opnd(x.Size)
	case *ssa.MakeClosure:
		I.op = xMakeClosure
		I.sfn = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			I.args = append(I.args, opnd(b))
		}
	case *ssa.MakeInterface:
		I.op = xMakeIface
		I.a = opnd(x.X)
		I.rt = in.types.of(x.X.Type())
	case *ssa.MakeMap:
		I.op = xMakeMap
	case *ssa.MakeSlice:
		I.op = xMakeSlice
		I.a, I.b = opnd(x.Len), opnd(x.Cap)
		I.typ = x.Type().Underlying().(*types.Slice).Elem()
	case *ssa.MapUpdate:
		I.op = xMapUpdate
		I.a, I.b, I.c = opnd(x.Map), opnd(x.Key), opnd(x.Value)
		I.typ = x.Map.Type().Underlying().(*types.Map).Key()
	case *ssa.Next:
		I.op = xNext
		I.a = opnd(x.Iter)
		I.commaOk = x.IsString
		if !x.IsString {
			tup := x.Type().(*types.Tuple)
			I.zv = Tuple{false, zeroOr(tup.At(1).Type()), zeroOr(tup.At(2).Type())}
		}
	case *ssa.Range:
		I.op = xRange
		I.a = opnd(x.X)
		I.typ = x.X.Type().Underlying()
	case *ssa.Select:
		I.op = xSelect
		I.commaOk = x.Blocking
		for _, s := range x.States {
			I.args = append(I.args, opnd(s.Chan), opnd(s.Send))
		}
	case *ssa.Send:
		I.op = xSend
		I.a, I.b = opnd(x.Chan), opnd(x.X)
	case *ssa.Slice:
		I.op = xSlice
		I.a, I.b, I.c, I.d = opnd(x.X), opnd(x.Low), opnd(x.High), opnd(x.Max)
		I.typ = x.X.Type().Underlying()
	case *ssa.SliceToArrayPointer:
		I.op = xSlice2Arr
		I.a = opnd(x.X)
		I.typ = x.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.Store:
		I.op = xStore
		I.a, I.b = opnd(x.Addr), opnd(x.Val)
	case *ssa.TypeAssert:
		I.op = xAssert
		I.a = opnd(x.X)
		I.typ = x.AssertedType
		I.commaOk = x.CommaOk
		if !types.IsInterface(x.AssertedType) {
			I.rt = in.types.of(x.AssertedType)
			if x.CommaOk {
				I.zv = zero(x.AssertedType)
			}
		} else {
			I.zv = Iface{}
		}
	case *ssa.Jump:
		I.op = xJump
	case *ssa.If:
		I.op = xIf
		I.a = opnd(x.Cond)
	case *ssa.Return:
		I.op = xReturn
		for _, r := range x.Results {
			I.args = append(I.args, opnd(r))
		}
	case *ssa.RunDefers:
		I.op = xRunDefers
	case *ssa.Panic:
		I.op = xPanic
		I.a = opnd(x.X)
	default:
		unsupp("instruction %T", ins)
	}
}

func zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (in *Interp) compileCall(I *Instr, c *ssa.CallCommon, opnd func(ssa.Value) int32) {
	for _, a := range c.Args {
		I.args = append(I.args, opnd(a))
	}
	if c.IsInvoke() {
		I.op = xInvoke
		I.a = opnd(c.Value)
		I.meth = c.Method
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		I.op = xBuiltin
		I.bname = f.Name()
		if len(c.Args) > 0 {
			I.typ = c.Args[0].Type()
			if w, _, ok := intWidth(c.Args[0].Type()); ok {
				I.w = w
			}
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				switch s.Elem().Underlying().(type) {
				case *types.Struct, *types.Array:
				default:
					I.commaOk = true
				}
			}
		}
		switch f.Name() {
		case "max", "min":
			I.w, I.signed, _ = intWidth(c.Signature().Results().At(0).Type())
		case "append":
			I.zv = zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
		case "String", "Slice", "StringData", "SliceData", "Add":
		}
	case *ssa.Function:
		I.op = xCall
		I.sfn = f
	default:
		I.op = xCall
		I.a = opnd(c.Value)
	}
}
