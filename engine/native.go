package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Packages whose variable initialisers are not executed: nothing the checks
// run depends on them, or natives replace everything that does.
var skipInit = map[string]bool{
	"runtime": true, "reflect": true, "internal/reflectlite": true, "internal/cpu": true, "internal/godebug": true,
	"syscall": true, "internal/syscall/unix": true, "os/signal": true, "log": true,
	"crypto/tls": true, "crypto/x509": true, "internal/bytealg": true, "sync": true, "internal/sync": true, "fmt": true,
	"math/rand": true, "math/rand/v2": true, "internal/runtime/atomic": true, "sync/atomic": true, "log/internal": true,
	"runtime/debug": true, "internal/testlog": true, "internal/runtime/maps": true, "encoding/json": true, "encoding/json/v2": true, "net/netip": true, "unique": true,
}

var natives map[string]nativeFn

func lookupNative(name string, fn *ssa.Function) nativeFn {
	if nf, ok := natives[name]; ok {
		return nf
	}
	// generic instances: match by origin
	if o := fn.Origin(); o != nil {
		if nf, ok := natives[o.String()]; ok {
			return nf
		}
	}
	if strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).") {
		return natLog
	}
	return nil
}

func natLog(in *Interp, fi *FuncInfo, args []Value) Value {
	n := fi.fn.Name()
	switch {
	case strings.HasPrefix(n, "Fatal"):
		in.violation("fatal", "log."+n+" called")
	case strings.HasPrefix(n, "Panic"):
		unsupp("%s", "log."+n)
	}
	return fi.zeroResult()
}

func (in *Interp) rtErrImplements(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Error", "RuntimeError":
		default:
			return false
		}
	}
	return true
}

func u64(b uint64) Value { return b }

func reg(name string, f nativeFn) { natives[name] = f }

func argStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	unsupp("symbolic string where a concrete one is needed")
	return ""
}

func (in *Interp) ptrID(k any) uint64 {
	m, _ := in.scratch["ptrid"].(map[any]uint64)
	if m == nil {
		m = map[any]uint64{}
		in.scratch["ptrid"] = m
	}
	if id, ok := m[k]; ok {
		return id
	}
	id := uint64(0xc000000000) + uint64(len(m)+1)*64
	m[k] = id
	return id
}

// ifaceData gives the two words of an interface.
func (in *Interp) ifaceData(i Iface) Value {
	if i.t == nil {
		return Array{uint64(0), uint64(0)}
	}
	return Array{uint64(0x10000 + i.t.id*64), in.dataWord(i)}
}

func (in *Interp) dataWord(i Iface) Value {
	switch x := i.v.(type) {
	case Ptr:
		if x == nil {
			return uint64(0)
		}
		return in.ptrID(x)
	case *Closure:
		if x == nil {
			return uint64(0)
		}
		return in.ptrID(x)
	case *Map:
		if x == nil {
			return uint64(0)
		}
		return in.ptrID(x)
	case *Chan:
		return in.ptrID(x)
	}
	if h, ok := in.hashKey(i.t.t, i.v); ok {
		return in.ptrID([2]any{i.t.id, h})
	}
	unsupp("data word of a symbolic value")
	return nil
}

// reflVal is the payload of a modelled reflect.Value.
type reflVal struct {
	t    *RType
	v    Value
	addr Ptr
}

func mkReflect(r reflVal) Value {
	return Struct{nilPtr, r, uint64(1)}
}

func getReflect(v Value) reflVal {
	if r, ok := v.(Struct)[1].(reflVal); ok {
		return r
	}
	unsupp("foreign reflect.Value")
	return reflVal{}
}

func (in *Interp) cellLoad(p Value, w uint8) Value {
	in.loadW = w
	return in.loadPtr(p, nil)
}

func init() {
	natives = map[string]nativeFn{}
	id := func(in *Interp, fi *FuncInfo, a []Value) Value { return a[0] }
	nop := func(in *Interp, fi *FuncInfo, a []Value) Value { return fi.zeroResult() }

	// ---- internal/abi, runtime
	reg("internal/abi.NoEscape", id)
	reg("internal/abi.Escape", id)
	reg("internal/abi.NoEscape[T any]", id)
	reg("runtime.KeepAlive", nop)
	reg("runtime.SetFinalizer", nop)
	reg("runtime.GC", nop)
	reg("runtime.Gosched", nop)
	reg("runtime.NumCPU", func(in *Interp, fi *FuncInfo, a []Value) Value { return u64(1) })
	reg("runtime.GOMAXPROCS", func(in *Interp, fi *FuncInfo, a []Value) Value { return u64(1) })
	reg("runtime/debug.PrintStack", nop)
	reg("runtime/debug.Stack", nop)
	reg("runtime.Callers", nop)
	reg("runtime.Caller", nop)
	reg("internal/race.Acquire", nop)
	reg("internal/godebug.New", func(in *Interp, fi *FuncInfo, a []Value) Value { c := new(Value); *c = Struct{}; return c })
	reg("(*internal/godebug.Setting).Value", func(in *Interp, fi *FuncInfo, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/godebug.registerMetric", nop)
	reg("os.runtime_args", nop)
	reg("time.initLocal", nop)
	reg("time.runtimeNano", func(in *Interp, fi *FuncInfo, a []Value) Value { return u64(1) })
	reg("time.now", func(in *Interp, fi *FuncInfo, a []Value) Value { return Tuple{u64(1000), u64(0), u64(1)} })
	reg("time.runtimeNow", func(in *Interp, fi *FuncInfo, a []Value) Value { return Tuple{u64(1000), u64(0), u64(1)} })
	reg("os.Hostname", func(in *Interp, fi *FuncInfo, a []Value) Value { return Tuple{"localhost", Iface{}} })
	reg("os.Getenv", func(in *Interp, fi *FuncInfo, a []Value) Value { return "" })
	reg("os.LookupEnv", func(in *Interp, fi *FuncInfo, a []Value) Value { return Tuple{"", false} })
	reg("syscall.Getenv", func(in *Interp, fi *FuncInfo, a []Value) Value { return Tuple{"", false} })
	reg("os.Getpid", func(in *Interp, fi *FuncInfo, a []Value) Value { return u64(4242) })
	reg("os.Getppid", func(in *Interp, fi *FuncInfo, a []Value) Value { return u64(1) })
	reg("internal/stringslite.Clone", id)
	reg("strings.Clone", id)

	// ---- sync (library code runs single-threaded in the engine)
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "(*sync.Pool).Put"} {
		reg(n, nop)
	}
	reg("(*sync.Mutex).TryLock", func(in *Interp, fi *FuncInfo, a []Value) Value { return true })
	reg("(*sync.Pool).Get", func(in *Interp, fi *FuncInfo, a []Value) Value {
		s := (*in.ptrConc(a[0])).(Struct)
		nw, _ := s[len(s)-1].(*Closure)
		if nw == nil {
			return Iface{}
		}
		return tailCall{nw, nil}
	})
	reg("(*sync.WaitGroup).Go", func(in *Interp, fi *FuncInfo, a []Value) Value { unsupp("WaitGroup.Go in library"); return nil })

	// ---- atomics
	type at struct {
		suf string
		w   uint8
	}
	for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, t := range []at{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}, {"", 32}, {"64", 64}, {"p", 0}, {"uintptr", 64}, {"Int", 64}, {"uint", 64}, {"32", 32}, {"int32", 32}, {"int64", 64}} {
			w := t.w
			load := func(in *Interp, fi *FuncInfo, a []Value) Value { return in.cellLoad(a[0], w) }
			store := func(in *Interp, fi *FuncInfo, a []Value) Value { in.storePtr(a[0], a[1]); return nil }
			add := func(in *Interp, fi *FuncInfo, a []Value) Value {
				o := in.cellLoad(a[0], w)
				r := fromTerm(in.st.Bin(OAdd, in.term(o, w), in.term(a[1], w)))
				in.storePtr(a[0], r)
				return r
			}
			swap := func(in *Interp, fi *FuncInfo, a []Value) Value {
				o := in.cellLoad(a[0], w)
				in.storePtr(a[0], a[1])
				return o
			}
			cas := func(in *Interp, fi *FuncInfo, a []Value) Value {
				o := in.cellLoad(a[0], w)
				var eq Value
				if w == 0 {
					eq = in.eqPtr(o, a[1])
				} else {
					eq = in.eqInt(o, a[1], w)
				}
				if in.decideV(eq) {
					in.storePtr(a[0], a[2])
					return true
				}
				return false
			}
			and := func(op Op) nativeFn {
				return func(in *Interp, fi *FuncInfo, a []Value) Value {
					o := in.cellLoad(a[0], w)
					in.storePtr(a[0], fromTerm(in.st.Bin(op, in.term(o, w), in.term(a[1], w))))
					return o
				}
			}
			reg(p+"Load"+t.suf, load)
			reg(p+"Store"+t.suf, store)
			reg(p+"Swap"+t.suf, swap)
			reg(p+"CompareAndSwap"+t.suf, cas)
			reg(p+"Cas"+t.suf, cas)
			reg(p+"Xchg"+t.suf, swap)
			if w != 0 {
				reg(p+"Add"+t.suf, add)
				reg(p+"Xadd"+t.suf, add)
				reg(p+"And"+t.suf, and(OBAnd))
				reg(p+"Or"+t.suf, and(OBOr))
			}
		}
	}
	reg("(*sync/atomic.Value).Load", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return (*in.ptrConc(a[0])).(Struct)[0]
	})
	reg("(*sync/atomic.Value).Store", func(in *Interp, fi *FuncInfo, a []Value) Value {
		s := (*in.ptrConc(a[0])).(Struct)
		if a[1].(Iface).t == nil {
			in.goPanic("sync/atomic: store of nil value into Value")
		}
		in.setCell(&s[0], a[1])
		return nil
	})

	// ---- bytes and strings
	idxB := func(in *Interp, fi *FuncInfo, a []Value) Value { return in.indexByte(bytesOf(a[0]), a[1], false) }
	lastB := func(in *Interp, fi *FuncInfo, a []Value) Value { return in.indexByte(bytesOf(a[0]), a[1], true) }
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, idxB)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		reg(n, lastB)
	}
	idx := func(in *Interp, fi *FuncInfo, a []Value) Value { return in.indexOf(bytesOf(a[0]), bytesOf(a[1])) }
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		reg(n, idx)
	}
	cnt := func(in *Interp, fi *FuncInfo, a []Value) Value {
		n := uint64(0)
		for _, c := range bytesOf(a[0]) {
			if in.decideV(in.eqInt(c, a[1], 8)) {
				n++
			}
		}
		return n
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fi *FuncInfo, a []Value) Value {
		n := in.asInt(a[0], "MakeNoZero")
		s := make(Slice, n)
		for i := range s {
			s[i] = uint64(0)
		}
		if in.clo != nil {
			in.clo.alloc(s)
		}
		return s
	})
	eqB := func(in *Interp, fi *FuncInfo, a []Value) Value {
		return in.eqStr(mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1])))
	}
	reg("bytes.Equal", eqB)
	reg("internal/bytealg.Equal", eqB)
	cmp := func(in *Interp, fi *FuncInfo, a []Value) Value {
		x, y := mkStr(append([]Value(nil), bytesOf(a[0])...)), mkStr(append([]Value(nil), bytesOf(a[1])...))
		if in.decideV(in.eqStr(x, y)) {
			return u64(0)
		}
		if in.decideV(in.ltStr(x, y)) {
			return mask(64)
		}
		return u64(1)
	}
	for _, n := range []string{"bytes.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "cmp.Compare[string]"} {
		reg(n, cmp)
	}
	dec := func(in *Interp, fi *FuncInfo, a []Value) Value {
		s := a[0]
		if sl, ok := s.(Slice); ok {
			s = mkStr(append([]Value(nil), sl...))
		}
		if strLen(s) == 0 {
			return Tuple{u64(0xFFFD), u64(0)}
		}
		r, n := in.decodeRune(s, 0)
		return Tuple{r, uint64(n)}
	}
	reg("unicode/utf8.DecodeRuneInString", dec)
	reg("unicode/utf8.DecodeRune", dec)

	// ---- math
	reg("math.Float64bits", func(in *Interp, fi *FuncInfo, a []Value) Value { return math.Float64bits(a[0].(float64)) })
	reg("math.Float64frombits", func(in *Interp, fi *FuncInfo, a []Value) Value { return math.Float64frombits(a[0].(uint64)) })
	reg("math.Float32bits", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return uint64(math.Float32bits(float32(a[0].(float64))))
	})
	reg("math.Float32frombits", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return float64(math.Float32frombits(uint32(a[0].(uint64))))
	})
	reg("math/bits.Len64", func(in *Interp, fi *FuncInfo, a []Value) Value {
		if x, ok := a[0].(uint64); ok {
			return uint64(bits.Len64(x))
		}
		unsupp("bits.Len64 of symbolic value")
		return nil
	})

	// ---- hashing helpers used by library maps
	reg("hash/maphash.MakeSeed", nop)

	// ---- reflect
	for _, p := range []string{"reflect.", "internal/reflectlite."} {
		reg(p+"ValueOf", func(in *Interp, fi *FuncInfo, a []Value) Value {
			i := a[0].(Iface)
			if i.t == nil {
				return fi.zeroResult()
			}
			return mkReflect(reflVal{t: i.t, v: i.v})
		})
		reg(p+"Indirect", func(in *Interp, fi *FuncInfo, a []Value) Value { return in.reflElem(getReflect(a[0])) })
		reg("("+p+"Value).Elem", func(in *Interp, fi *FuncInfo, a []Value) Value { return in.reflElem(getReflect(a[0])) })
		reg("("+p+"Value).InterfaceData", func(in *Interp, fi *FuncInfo, a []Value) Value {
			r := getReflect(a[0])
			if i, ok := r.v.(Iface); ok {
				return in.ifaceData(i)
			}
			unsupp("InterfaceData of non-interface")
			return nil
		})
		ptr := func(in *Interp, fi *FuncInfo, a []Value) Value {
			r := getReflect(a[0])
			switch x := r.v.(type) {
			case *Closure:
				if x == nil {
					return u64(0)
				}
				if x.fn != nil {
					return in.ptrID(x.fn)
				}
				return in.ptrID(x)
			case Slice:
				if cap(x) == 0 {
					return u64(0)
				}
				return in.ptrID(&x[:1][0])
			}
			return in.dataWord(Iface{r.t, r.v})
		}
		reg("("+p+"Value).Pointer", ptr)
		reg("("+p+"Value).UnsafePointer", ptr)
		reg("("+p+"Value).IsValid", func(in *Interp, fi *FuncInfo, a []Value) Value {
			_, ok := a[0].(Struct)[1].(reflVal)
			return ok
		})
		reg("("+p+"Value).IsNil", func(in *Interp, fi *FuncInfo, a []Value) Value {
			r := getReflect(a[0])
			switch x := r.v.(type) {
			case *Closure:
				return x == nil
			case Ptr:
				return x == nil
			case *Map:
				return x == nil
			case Slice:
				return x == nil
			case *Chan:
				return x == nil
			case Iface:
				return x.t == nil
			}
			unsupp("IsNil")
			return nil
		})
		reg("("+p+"Value).Kind", func(in *Interp, fi *FuncInfo, a []Value) Value {
			return kindOf(getReflect(a[0]).t.t)
		})
		reg("("+p+"Value).Interface", func(in *Interp, fi *FuncInfo, a []Value) Value {
			r := getReflect(a[0])
			if i, ok := r.v.(Iface); ok {
				return i
			}
			return Iface{r.t, copyVal(r.v)}
		})
		reg("("+p+"Value).Len", func(in *Interp, fi *FuncInfo, a []Value) Value {
			r := getReflect(a[0])
			switch x := r.v.(type) {
			case Slice:
				return uint64(len(x))
			case Array:
				return uint64(len(x))
			case *Map:
				return uint64(x.live)
			}
			return uint64(strLen(r.v))
		})
		reg(p+"Swapper", func(in *Interp, fi *FuncInfo, a []Value) Value {
			s := a[0].(Iface).v.(Slice)
			return &Closure{native: func(in *Interp, args []Value) Value {
				i, j := args[0].(uint64), args[1].(uint64)
				x, y := copyVal(s[i]), copyVal(s[j])
				in.assign(&s[i], y)
				in.assign(&s[j], x)
				return nil
			}}
		})
		reg(p+"DeepEqual", func(in *Interp, fi *FuncInfo, a []Value) Value {
			return in.deepEqual(a[0], a[1], types.NewInterfaceType(nil, nil))
		})
	}
	for _, p := range []string{"reflect", "internal/reflectlite"} {
		p := p
		reg(p+".TypeOf", func(in *Interp, fi *FuncInfo, a []Value) Value {
			i := a[0].(Iface)
			if i.t == nil {
				return Iface{}
			}
			return in.mkRType(p, i.t)
		})
		for _, rt := range []string{"(*reflect.rtype).", "(internal/reflectlite.rtype).", "(*internal/reflectlite.rtype)."} {
			reg(rt+"Elem", func(in *Interp, fi *FuncInfo, a []Value) Value {
				switch u := getRType(a[0]).t.Underlying().(type) {
				case interface{ Elem() types.Type }:
					return in.mkRType(p, in.types.of(u.Elem()))
				}
				unsupp("reflect Type.Elem")
				return nil
			})
			reg(rt+"Kind", func(in *Interp, fi *FuncInfo, a []Value) Value { return kindOf(getRType(a[0]).t) })
			reg(rt+"String", func(in *Interp, fi *FuncInfo, a []Value) Value { return getRType(a[0]).t.String() })
			reg(rt+"Comparable", func(in *Interp, fi *FuncInfo, a []Value) Value { return getRType(a[0]).comparable })
		}
	}
	reg("errors.Is", func(in *Interp, fi *FuncInfo, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		for {
			if in.decideV(in.eq(types.Universe.Lookup("error").Type(), x, y)) {
				return true
			}
			if x.t == nil || x.t == in.rtErrT {
				return false
			}
			m := in.methodByName(x.t, "Unwrap")
			if m == nil {
				return false
			}
			r, ok := in.callSync(in.fnClosure(m), x.v).(Iface)
			if !ok || r.t == nil {
				return false
			}
			x = r
		}
	})
	reg("sort.Slice", nil)
	delete(natives, "sort.Slice")

	initFmt()
	initSym()
}

func (in *Interp) reflElem(r reflVal) Value {
	switch x := r.v.(type) {
	case Ptr:
		if x == nil {
			unsupp("reflect Elem of nil")
		}
		et := r.t.t.Underlying().(*types.Pointer).Elem()
		return mkReflect(reflVal{t: in.types.of(et), v: *x, addr: x})
	case Iface:
		return mkReflect(reflVal{t: x.t, v: x.v})
	}
	unsupp("reflect Elem of %T", r.v)
	return nil
}

func kindOf(t types.Type) Value {
	k := 0
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			k = 1
		case types.Int:
			k = 2
		case types.Int8:
			k = 3
		case types.Int16:
			k = 4
		case types.Int32:
			k = 5
		case types.Int64:
			k = 6
		case types.Uint:
			k = 7
		case types.Uint8:
			k = 8
		case types.Uint16:
			k = 9
		case types.Uint32:
			k = 10
		case types.Uint64:
			k = 11
		case types.Uintptr:
			k = 12
		case types.Float32:
			k = 13
		case types.Float64:
			k = 14
		case types.Complex64:
			k = 15
		case types.Complex128:
			k = 16
		case types.String:
			k = 24
		case types.UnsafePointer:
			k = 26
		}
	case *types.Array:
		k = 17
	case *types.Chan:
		k = 18
	case *types.Signature:
		k = 19
	case *types.Interface:
		k = 20
	case *types.Map:
		k = 21
	case *types.Pointer:
		k = 22
	case *types.Slice:
		k = 23
	case *types.Struct:
		k = 25
	}
	return uint64(k)
}

// deepEqual compares like reflect.DeepEqual, as one condition.
func (in *Interp) deepEqual(a, b Value, t types.Type) Value {
	switch x := a.(type) {
	case Iface:
		y := b.(Iface)
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		return in.deepEqual(x.v, y.v, x.t.t)
	case Slice:
		y := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		et := t.Underlying().(*types.Slice).Elem()
		var r Value = true
		for i := range x {
			r = in.and(r, in.deepEqual(x[i], y[i], et))
		}
		return r
	case Array:
		y := b.(Array)
		et := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for i := range x {
			r = in.and(r, in.deepEqual(x[i], y[i], et))
		}
		return r
	case Struct:
		y := b.(Struct)
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range x {
			r = in.and(r, in.deepEqual(x[i], y[i], st.Field(i).Type()))
		}
		return r
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.live != y.live {
			return false
		}
		mt := t.Underlying().(*types.Map)
		var r Value = true
		for _, e := range x.entries {
			f := in.mapFind(y, mt.Key(), e.k)
			if f == nil {
				return false
			}
			r = in.and(r, in.deepEqual(e.v, f.v, mt.Elem()))
		}
		return r
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return in.eqPtr(a, b)
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return in.deepEqual(*x, *y, t.Underlying().(*types.Pointer).Elem())
	case *Closure:
		y := b.(*Closure)
		return x == nil && y == nil
	}
	return in.eq(t, a, b)
}

// reflType is the payload of a modelled reflect.Type.
type reflType struct{ t *RType }

func (in *Interp) mkRType(pkg string, t *RType) Value {
	p := in.prog.ImportedPackage(pkg)
	if p == nil || p.Type("rtype") == nil {
		unsupp("reflect.Type")
	}
	var ty types.Type = p.Type("rtype").Type()
	if pkg == "reflect" {
		ty = types.NewPointer(ty)
	}
	return Iface{in.types.of(ty), reflType{t}}
}

func getRType(v Value) *RType {
	if r, ok := v.(reflType); ok {
		return r.t
	}
	unsupp("foreign reflect.Type")
	return nil
}

func bytesOf(v Value) []Value {
	if s, ok := v.(Slice); ok {
		return s
	}
	return strBytes(v)
}

func (in *Interp) indexByte(s []Value, c Value, last bool) Value {
	n := len(s)
	for k := 0; k < n; k++ {
		i := k
		if last {
			i = n - 1 - k
		}
		if in.decideV(in.eqInt(s[i], c, 8)) {
			return uint64(i)
		}
	}
	return mask(64)
}

func (in *Interp) indexOf(s, sub []Value) Value {
	for i := 0; i+len(sub) <= len(s); i++ {
		var r Value = true
		for j := range sub {
			r = in.and(r, in.eqInt(s[i+j], sub[j], 8))
			if r == false {
				break
			}
		}
		if in.decideV(r) {
			return uint64(i)
		}
	}
	return mask(64)
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

var _ = fmt.Sprint
