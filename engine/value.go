package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value:
//
//	bool | *Term(w=0)                  bool
//	uint64 | *Term                     integers, zero-extended to their width
//	float64, complex128                floats
//	string | *SymStr                   strings
//	Ptr (*Value) | *SymPtr | DataPtr   pointers and unsafe.Pointer
//	*Closure                           funcs
//	Slice, *Map, *Chan, Iface, Struct, Array, Tuple
type Value = any
type Ptr = *Value
type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

// SymStr is an immutable string with at least one symbolic byte.
type SymStr struct{ b []Value } // uint64 or *Term(8)

// SymPtr points at element idx of arr.
type SymPtr struct {
	arr []Value
	idx *Term // 64-bit, known in range
}

// DataPtr is the result of unsafe.SliceData / StringData.
type DataPtr struct {
	s []Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(in *Interp, args []Value) Value
	name   string
}

type RType struct {
	t          types.Type
	id         int
	comparable bool
	// method cache
	meth map[string]*ssa.Function
}

func (r *RType) String() string { return r.t.String() }

type Iface struct {
	t *RType
	v Value
}

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	entries []*mapEntry
	idx     map[any]*mapEntry // concrete keys
	nsym    int               // live entries with symbolic keys
	live    int
}

type Chan struct {
	cap    int
	buf    []Value
	closed bool
	// values offered by blocked senders of an unbuffered/full channel
	sendq []*sender
}

type sender struct {
	ch   *Chan
	g    int
	v    Value
	done bool
}

type mapIter struct {
	m     *Map
	order []*mapEntry
	pos   int
	keyT  types.Type
}

type strIter struct {
	s   Value
	pos int
}

var nilPtr Ptr
var nilClosure *Closure
var nilMap *Map
var nilChan *Chan

type unsupported struct{ msg string }

func unsupp(f string, args ...any) { panic(unsupported{fmt.Sprintf(f, args...)}) }

func intWidth(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.UntypedRune, types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intWidth(u); ok {
			return uint64(0)
		}
		switch {
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return nilPtr
	case *types.Signature:
		return nilClosure
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return nilMap
	case *types.Chan:
		return nilChan
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if u.Len() > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		unsupp("zero of type parameter %s", t)
	}
	unsupp("zero of %s", t)
	return nil
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if w, _, ok := intWidth(t); ok {
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return uint64(i) & mask(w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(w)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		}
	}
	unsupp("constant %s of type %s", c, t)
	return nil
}

// copyVal deep-copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, f := range x {
			switch f.(type) {
			case Struct, Array:
				n[i] = copyVal(f)
			default:
				n[i] = f
			}
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, f := range x {
			switch f.(type) {
			case Struct, Array:
				n[i] = copyVal(f)
			default:
				n[i] = f
			}
		}
		return n
	}
	return v
}

// ---- strings

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := range r {
			r[i] = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

// mkStr makes a string of bytes, concrete if possible. b is not retained if
// concrete; otherwise it must not be modified later.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{b}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(byte(x.(uint64)))
	}
	return sb.String()
}

func subStr(v Value, i, j int) Value {
	switch s := v.(type) {
	case string:
		return s[i:j]
	case *SymStr:
		return mkStr(s.b[i:j:j])
	}
	panic("subStr")
}

func concatStr(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	ab, bb := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(ab)+len(bb))
	r = append(append(r, ab...), bb...)
	return mkStr(r)
}

// ---- symbolic helpers on Interp

func (in *Interp) term(v Value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		if x.w != w {
			panic(fmt.Sprintf("term width %d, want %d: %s", x.w, w, x))
		}
		return x
	case uint64:
		return in.st.Const(w, x)
	case bool:
		return in.st.Bool(x)
	}
	panic(fmt.Sprintf("term of %T", v))
}

func (in *Interp) boolTerm(v Value) *Term { return in.term(v, 0) }

// fromTerm turns a constant term back into a concrete value.
func fromTerm(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.val == 1
		}
		return t.val
	}
	return t
}

func (in *Interp) not(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return fromTerm(in.st.Not(v.(*Term)))
}

func (in *Interp) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return fromTerm(in.st.And(a.(*Term), b.(*Term)))
}

func (in *Interp) or(a, b Value) Value { return in.not(in.and(in.not(a), in.not(b))) }

func (in *Interp) eqInt(a, b Value, w uint8) Value {
	if x, ok := a.(uint64); ok {
		if y, ok := b.(uint64); ok {
			return x == y
		}
	}
	return fromTerm(in.st.Eq(in.term(a, w), in.term(b, w)))
}

func (in *Interp) eqStr(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	if strLen(a) != strLen(b) {
		return false
	}
	n := strLen(a)
	var r Value = true
	for i := 0; i < n; i++ {
		r = in.and(r, in.eqInt(strAt(a, i), strAt(b, i), 8))
		if r == false {
			return false
		}
	}
	return r
}

// ltStr is a < b.
func (in *Interp) ltStr(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	n := min(strLen(a), strLen(b))
	r := in.st.Bool(strLen(a) < strLen(b))
	for i := n - 1; i >= 0; i-- {
		p, q := in.term(strAt(a, i), 8), in.term(strAt(b, i), 8)
		r = in.st.Ite(in.st.Eq(p, q), r, in.st.Bin(OUlt, p, q))
	}
	return fromTerm(r)
}

// eq compares two values of static type t.
func (in *Interp) eq(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return in.eqInt(a, b, w)
		}
		switch x := a.(type) {
		case bool, *Term:
			return fromTerm(in.st.Eq(in.boolTerm(a), in.boolTerm(b)))
		case string, *SymStr:
			return in.eqStr(a, b)
		case float64:
			return x == b.(float64)
		case complex128:
			return x == b.(complex128)
		}
		return in.eqPtr(a, b)
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		if !x.t.comparable {
			in.goPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return in.eq(x.t.t, x.v, y.v)
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		var r Value = true
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = in.and(r, in.eq(u.Field(i).Type(), x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		var r Value = true
		for i := range x {
			r = in.and(r, in.eq(u.Elem(), x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Slice:
		// only against nil
		x, _ := a.(Slice)
		y, _ := b.(Slice)
		return x == nil && y == nil
	case *types.Map:
		x, _ := a.(*Map)
		y, _ := b.(*Map)
		return x == y
	case *types.Signature:
		x, _ := a.(*Closure)
		y, _ := b.(*Closure)
		return x == y
	case *types.Chan:
		x, _ := a.(*Chan)
		y, _ := b.(*Chan)
		return x == y
	}
	return in.eqPtr(a, b)
}

func (in *Interp) eqPtr(a, b Value) Value {
	if x, ok := a.(Ptr); ok {
		if y, ok := b.(Ptr); ok {
			return x == y
		}
	}
	px, py := in.ptrConc(a), in.ptrConc(b)
	return px == py
}

// ptrConc turns any pointer into a concrete cell pointer, forking on symbolic
// indices.
func (in *Interp) ptrConc(p Value) Ptr {
	switch x := p.(type) {
	case nil:
		return nil
	case Ptr:
		return x
	case *SymPtr:
		i := in.concretize(x.idx, 0, uint64(len(x.arr)-1))
		return &x.arr[i]
	case DataPtr:
		if len(x.s) == 0 {
			if x.s == nil {
				return nil
			}
			return &zeroBase
		}
		return &x.s[0]
	case uint64:
		if x == 0 {
			return nil
		}
	}
	unsupp("pointer %T", p)
	return nil
}

var zeroBase Value = Struct{}

// concretize forks until t has a single value in [lo,hi].
func (in *Interp) concretize(t *Term, lo, hi uint64) uint64 {
	if t.isConst() {
		return t.val
	}
	// try the model's value first, then scan
	mv := t.eval(in.model)
	if mv >= lo && mv <= hi {
		_ = mv
	}
	for v := lo; ; v++ {
		if v == hi {
			// last: must still be decided unless range is known
			if !in.decide(in.st.Eq(t, in.st.Const(t.w, v))) {
				in.infeasible()
			}
			return v
		}
		if in.decide(in.st.Eq(t, in.st.Const(t.w, v))) {
			return v
		}
	}
}

func (in *Interp) asInt(v Value, what string) int {
	switch x := v.(type) {
	case uint64:
		return int(int64(x))
	case *Term:
		// a length or index: enumerate small values
		if in.maxConc > 0 {
			for i := uint64(0); i <= in.maxConc; i++ {
				if in.decide(in.st.Eq(x, in.st.Const(x.w, i))) {
					return int(i)
				}
			}
		}
		unsupp("symbolic %s", what)
	}
	panic(fmt.Sprintf("asInt %T (%s)", v, what))
}

// hashKey canonicalises a concrete map key; ok is false if it has symbolic parts.
func (in *Interp) hashKey(t types.Type, k Value) (any, bool) {
	switch x := k.(type) {
	case *Term, *SymStr:
		return nil, false
	case bool, uint64, string, float64, complex128, Ptr, *Chan:
		if f, ok := k.(float64); ok && math.IsNaN(f) {
			return nil, false
		}
		return x, true
	case Iface:
		if x.t == nil {
			return "nil-iface", true
		}
		if !x.t.comparable {
			in.goPanic("runtime error: hash of unhashable type " + x.t.String())
		}
		h, ok := in.hashKey(x.t.t, x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t.id, h}, true
	case Struct:
		u := t.Underlying().(*types.Struct)
		var acc any = "struct"
		for i, f := range x {
			h, ok := in.hashKey(u.Field(i).Type(), f)
			if !ok {
				return nil, false
			}
			acc = [2]any{acc, h}
		}
		return acc, true
	case Array:
		u := t.Underlying().(*types.Array)
		var acc any = "array"
		for _, f := range x {
			h, ok := in.hashKey(u.Elem(), f)
			if !ok {
				return nil, false
			}
			acc = [2]any{acc, h}
		}
		return acc, true
	case *SymPtr:
		return in.ptrConc(x), true
	}
	unsupp("map key %T", k)
	return nil, false
}

func newMap() *Map { return &Map{idx: map[any]*mapEntry{}} }

// mapFind returns the entry for k, forking on symbolic equality.
func (in *Interp) mapFind(m *Map, kt types.Type, k Value) *mapEntry {
	if m == nil {
		// still panics on unhashable
		in.hashKey(kt, k)
		return nil
	}
	if in.clo != nil {
		in.clo.read(m)
	}
	h, ok := in.hashKey(kt, k)
	if ok {
		if e := m.idx[h]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.entries {
			if e.dead {
				continue
			}
			if _, c := in.hashKey(kt, e.k); c {
				continue
			}
			if in.decideV(in.eq(kt, e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if in.decideV(in.eq(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, kt types.Type, k, v Value) {
	e := in.mapFind(m, kt, k)
	if e != nil {
		old := e.v
		e.v = v
		in.undoObj(m, func() { e.v = old })
		return
	}
	e = &mapEntry{k: k, v: v}
	h, ok := in.hashKey(kt, k)
	oldEntries := m.entries
	// compact dead entries occasionally is skipped: maps here are small
	m.entries = append(m.entries[:len(m.entries):len(m.entries)], e)
	m.live++
	if ok {
		m.idx[h] = e
	} else {
		m.nsym++
	}
	in.undoObj(m, func() {
		m.entries = oldEntries
		m.live--
		if ok {
			delete(m.idx, h)
		} else {
			m.nsym--
		}
	})
}

func (in *Interp) mapDelete(m *Map, kt types.Type, k Value) {
	if m == nil {
		return
	}
	e := in.mapFind(m, kt, k)
	if e == nil {
		return
	}
	h, ok := in.hashKey(kt, e.k)
	oldEntries := m.entries
	ne := make([]*mapEntry, 0, len(oldEntries)-1)
	for _, x := range oldEntries {
		if x != e {
			ne = append(ne, x)
		}
	}
	m.entries = ne
	m.live--
	e.dead = true
	if ok {
		delete(m.idx, h)
	} else {
		m.nsym--
	}
	in.undoObj(m, func() {
		m.entries = oldEntries
		m.live++
		e.dead = false
		if ok {
			m.idx[h] = e
		} else {
			m.nsym++
		}
	})
}
