package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strconv"
	"strings"
)

// A small model of package fmt: enough for the messages the code under test
// and its libraries build. Symbolic strings pass through %s and %v.

func initFmt() {
	reg("fmt.Sprintf", func(in *Interp, fi *FuncInfo, a []Value) Value { return in.sprintf(a[0], a[1].(Slice)) })
	reg("fmt.Sprint", func(in *Interp, fi *FuncInfo, a []Value) Value { return in.sprint(a[0].(Slice), false) })
	reg("fmt.Sprintln", func(in *Interp, fi *FuncInfo, a []Value) Value { return in.sprint(a[0].(Slice), true) })
	reg("fmt.Errorf", func(in *Interp, fi *FuncInfo, a []Value) Value {
		s := in.sprintf(a[0], a[1].(Slice))
		return in.newError(s)
	})
	fw := func(in *Interp, w Value, s Value) Value {
		i := w.(Iface)
		if i.t == nil {
			in.nilDeref()
		}
		m := in.methodByName(i.t, "Write")
		if m == nil {
			unsupp("fmt.Fprint to %s", i.t)
		}
		buf := Slice(append([]Value(nil), strBytes(s)...))
		if in.clo != nil {
			in.clo.alloc(buf)
		}
		return tailCall{in.fnClosure(m), []Value{i.v, buf}}
	}
	reg("fmt.Fprintf", func(in *Interp, fi *FuncInfo, a []Value) Value { return fw(in, a[0], in.sprintf(a[1], a[2].(Slice))) })
	reg("fmt.Fprint", func(in *Interp, fi *FuncInfo, a []Value) Value { return fw(in, a[0], in.sprint(a[1].(Slice), false)) })
	reg("fmt.Fprintln", func(in *Interp, fi *FuncInfo, a []Value) Value { return fw(in, a[0], in.sprint(a[1].(Slice), true)) })
	zr := func(in *Interp, fi *FuncInfo, a []Value) Value { return fi.zeroResult() }
	reg("fmt.Printf", zr)
	reg("fmt.Println", zr)
	reg("fmt.Print", zr)
}

// newError makes an *errors.errorString.
func (in *Interp) newError(s Value) Value {
	for _, p := range in.prog.AllPackages() {
		if p.Pkg.Path() == "errors" {
			t := p.Type("errorString").Type()
			c := new(Value)
			*c = Struct{s}
			if in.clo != nil {
				in.clo.alloc(c)
			}
			return Iface{in.types.of(types.NewPointer(t)), c}
		}
	}
	unsupp("package errors not loaded")
	return nil
}

func (in *Interp) sprint(args Slice, ln bool) Value {
	var out Value = ""
	for i, a := range args {
		if i > 0 {
			_, s1 := a.(Iface).v.(string)
			_, s0 := args[i-1].(Iface).v.(string)
			if ln || !s1 && !s0 {
				out = concatStr(out, " ")
			}
		}
		out = concatStr(out, in.fmtVal(a.(Iface), 'v', ""))
	}
	if ln {
		out = concatStr(out, "\n")
	}
	return out
}

func (in *Interp) sprintf(f Value, args Slice) Value {
	format, ok := f.(string)
	if !ok {
		return in.sprintfSym(strBytes(f), args)
	}
	var out Value = ""
	n := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = concatStr(out, format[i:])
			break
		}
		out = concatStr(out, format[i:i+j])
		i += j + 1
		k := i
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			out = concatStr(out, "%!(NOVERB)")
			break
		}
		flags, verb := format[i:k], format[k]
		i = k + 1
		if verb == '%' {
			out = concatStr(out, "%")
			continue
		}
		if n >= len(args) {
			out = concatStr(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		out = concatStr(out, in.fmtVal(args[n].(Iface), verb, flags))
		n++
	}
	if n < len(args) {
		out = concatStr(out, "%!(EXTRA)")
	}
	return out
}

// isByte decides whether a byte is one of set.
func (in *Interp) isByte(v Value, set string) bool {
	x, ok := v.(*Term)
	if !ok {
		return strings.IndexByte(set, byte(v.(uint64))) >= 0
	}
	for i := 0; i < len(set); i++ {
		if in.decide(in.st.Eq(x, in.st.Const(8, uint64(set[i])))) {
			return true
		}
	}
	return false
}

// sprintfSym formats with a format that has symbolic bytes. Verbs must be
// concrete as long as arguments are left.
func (in *Interp) sprintfSym(f []Value, args Slice) Value {
	var out Value = ""
	n := 0
	for i := 0; i < len(f); {
		if !in.isByte(f[i], "%") {
			out = concatStr(out, mkStr(f[i:i+1]))
			i++
			continue
		}
		i++
		k := i
		for k < len(f) && in.isByte(f[k], "+-# 0123456789.") {
			k++
		}
		if k >= len(f) {
			out = concatStr(out, "%!(NOVERB)")
			break
		}
		verb := f[k]
		if in.isByte(verb, "%") {
			out = concatStr(out, "%")
			i = k + 1
			continue
		}
		if n < len(args) {
			c, ok := mkStr(f[i : k+1]).(string)
			if !ok {
				unsupp("symbolic verb in a format")
			}
			out = concatStr(out, in.fmtVal(args[n].(Iface), c[len(c)-1], c[:len(c)-1]))
			n++
		} else {
			out = concatStr(concatStr(concatStr(out, "%!"), mkStr(f[k:k+1])), "(MISSING)")
		}
		i = k + 1
	}
	if n < len(args) {
		out = concatStr(out, "%!(EXTRA)")
	}
	return out
}

func (in *Interp) fmtVal(a Iface, verb byte, flags string) Value {
	if a.t == nil {
		if verb == 'v' || verb == 'T' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return a.t.String()
	}
	if verb == 'p' {
		return "0xc000012345"
	}
	if a.t == in.rtErrT {
		return concatStr("runtime error: ", a.v)
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		for _, mn := range []string{"Error", "String"} {
			if m := in.methodByName(a.t, mn); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
				if p, ok := a.v.(Ptr); ok && p == nil {
					return "<nil>"
				}
				r := in.callSync(in.fnClosure(m), a.v)
				switch r.(type) {
				case string, *SymStr:
					return in.fmtStr(r, verb, flags)
				}
			}
		}
	}
	return in.fmtRaw(a.t.t, a.v, verb, flags)
}

func (in *Interp) fmtStr(s Value, verb byte, flags string) Value {
	switch verb {
	case 'q':
		if c, ok := s.(string); ok {
			return strconv.Quote(c)
		}
		// quoting leaves plain characters alone; others are not modelled
		for _, b := range strBytes(s) {
			if x, ok := b.(*Term); ok {
				plain := in.st.And(in.st.Not(in.st.Bin(OUlt, x, in.st.Const(8, ' '))), in.st.Bin(OUlt, x, in.st.Const(8, 0x7f)))
				if !in.decide(plain) || in.isByte(b, "\"\\") {
					unsupp("quoting a symbolic byte")
				}
			} else if c := b.(uint64); c < ' ' || c >= 0x7f || c == '"' || c == '\\' {
				unsupp("quoting a special byte in a symbolic string")
			}
		}
		return concatStr(concatStr("\"", s), "\"")
	case 'x', 'X':
		if c, ok := s.(string); ok {
			return fmt.Sprintf("%"+flags+string(verb), c)
		}
		unsupp("%%x of symbolic string")
	}
	if flags != "" && flags != "+" && flags != "#" {
		if c, ok := s.(string); ok {
			return fmt.Sprintf("%"+flags+string(verb), c)
		}
	}
	return s
}

func (in *Interp) fmtRaw(t types.Type, v Value, verb byte, flags string) Value {
	f := "%" + flags + string(verb)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case string, *SymStr:
			return in.fmtStr(v, verb, flags)
		case bool:
			return fmt.Sprintf(f, x)
		case float64:
			return fmt.Sprintf(f, x)
		case uint64:
			w, sg, _ := intWidth(u)
			if sg {
				return fmt.Sprintf(f, sext64(x, w))
			}
			return fmt.Sprintf(f, x)
		case *Term:
			if x.w == 0 {
				if in.decide(x) {
					return "true"
				}
				return "false"
			}
			w, sg, _ := intWidth(u)
			return in.fmtSymInt(x, w, sg, verb, flags)
		}
	case *types.Slice:
		s := v.(Slice)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'x' || verb == 'q') {
			return in.fmtStr(mkStr(append([]Value(nil), s...)), verb, flags)
		}
		var out Value = "["
		for i, e := range s {
			if i > 0 {
				out = concatStr(out, " ")
			}
			out = concatStr(out, in.fmtAny(u.Elem(), e, verb, flags))
		}
		return concatStr(out, "]")
	case *types.Array:
		var out Value = "["
		for i, e := range v.(Array) {
			if i > 0 {
				out = concatStr(out, " ")
			}
			out = concatStr(out, in.fmtAny(u.Elem(), e, verb, flags))
		}
		return concatStr(out, "]")
	case *types.Struct:
		var out Value = "{"
		for i, e := range v.(Struct) {
			if i > 0 {
				out = concatStr(out, " ")
			}
			out = concatStr(out, in.fmtAny(u.Field(i).Type(), e, verb, flags))
		}
		return concatStr(out, "}")
	case *types.Map:
		return "map[]"
	case *types.Pointer, *types.Signature, *types.Chan:
		switch x := v.(type) {
		case Ptr:
			if x == nil {
				return "<nil>"
			}
		case *Closure:
			if x == nil {
				return "<nil>"
			}
		}
		return "0xc000012345"
	case *types.Interface:
		return in.fmtVal(v.(Iface), verb, flags)
	}
	return "?"
}

func (in *Interp) fmtAny(t types.Type, v Value, verb byte, flags string) Value {
	if i, ok := v.(Iface); ok {
		return in.fmtVal(i, verb, flags)
	}
	return in.fmtVal(Iface{in.types.of(t), v}, verb, flags)
}

// fmtSymInt prints a symbolic integer in decimal: the number of digits is
// decided by forking, the digits are terms.
func (in *Interp) fmtSymInt(x *Term, w uint8, signed bool, verb byte, flags string) Value {
	if verb != 'd' && verb != 'v' {
		unsupp("%%%c of a symbolic integer", verb)
	}
	neg := false
	if signed && in.decide(in.st.Bin(OSlt, x, in.st.Const(w, 0))) {
		neg = true
		x = in.st.Neg(x)
	}
	t := in.st.Resize(x, 64, false)
	width := 0
	pad := byte(' ')
	if flags != "" {
		if strings.HasPrefix(flags, "0") {
			pad = '0'
			flags = flags[1:]
		}
		width, _ = strconv.Atoi(flags)
	}
	digits := 1
	lim := uint64(10)
	for digits < 20 {
		if in.decide(in.st.Bin(OUlt, t, in.st.Const(64, lim))) {
			break
		}
		digits++
		lim *= 10
	}
	// The digits are fresh variables defined by t = sum d[i]*10^i.
	out := make([]Value, digits)
	names := map[string]uint64{}
	val := t.eval(in.model)
	// All arithmetic is done in as few bits as the value can have.
	sw := uint8(64)
	if digits < 19 {
		sw = uint8(bits.Len64(lim))
	}
	ts := in.st.Resize(t, sw, false)
	sum := in.st.Const(sw, 0)
	cond := in.st.Bool(true)
	div := uint64(1)
	for i := digits - 1; i >= 0; i-- {
		d := in.freshVar("digit", 4)
		names[d.name] = val / div % 10
		lim := uint64(10)
		if digits == 20 && i == 0 {
			lim = 2
		}
		cond = in.st.And(cond, in.st.Bin(OUlt, d, in.st.Const(4, lim)))
		if digits == 20 && i == 0 {
			// no wrap-around: what is left fits above 10^19
			cond = in.st.And(cond, in.st.Bin(OUlt, sum, in.st.Const(64, 1<<64-1-div+1)))
		}
		sum = in.st.Bin(OAdd, sum, in.st.Bin(OMul, in.st.Resize(d, sw, false), in.st.Const(sw, div)))
		out[i] = fromTerm(in.st.Bin(OAdd, in.st.Resize(d, 8, false), in.st.Const(8, '0')))
		div *= 10
	}
	cond = in.st.And(cond, in.st.Eq(ts, sum))
	if len(in.prefix) == 0 {
		in.model = in.newModel(in.model.with(0, names).v)
	}
	in.assertPC(cond)
	if neg {
		out = append([]Value{uint64('-')}, out...)
	}
	for len(out) < width {
		out = append([]Value{uint64(pad)}, out...)
	}
	return mkStr(out)
}
