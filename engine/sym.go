package main

// Natives of the harness packages verif/harness/sym and verif/harness/sched.

const symPkg = "verif/harness/sym."
const schedPkg = "verif/harness/sched."

func (in *Interp) ranged(label string, w uint8, lo, hi uint64, signed bool) Value {
	v := in.freshVar(label, w)
	in.nondet = append(in.nondet, Nondet{Kind: label, term: v})
	full := lo == 0 && hi == mask(w) && !signed
	if lo == hi {
		full = false
	}
	if !full {
		lt, le := OUlt, OUle
		if signed {
			lt, le = OSlt, OSle
		}
		_ = lt
		a := in.st.Bin(le, in.st.Const(w, lo), v)
		b := in.st.Bin(le, v, in.st.Const(w, hi))
		in.fresh(in.st.And(a, b), v, lo)
	}
	return v
}

// fresh asserts a range constraint on a new variable; lo satisfies it.
func (in *Interp) fresh(c *Term, v *Term, lo uint64) {
	if in.factSet[c] {
		return
	}
	if len(in.prefix) == 0 && c.eval(in.model) != 1 {
		in.model = in.newModel(in.model.with(0, map[string]uint64{v.name: lo & mask(v.w)}).v)
	}
	in.assertPC(c)
}

func initSym() {
	s := func(n string, f nativeFn) { reg(symPkg+n, f) }
	s("Bool", func(in *Interp, fi *FuncInfo, a []Value) Value {
		v := in.freshVar("bool", 0)
		in.nondet = append(in.nondet, Nondet{Kind: "bool", term: v})
		return v
	})
	s("Int", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return in.ranged("int", 64, a[0].(uint64), a[1].(uint64), true)
	})
	s("Uint64", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return in.ranged("uint64", 64, 0, mask(64), false)
	})
	s("Byte", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return in.ranged("byte", 8, 0, 255, false)
	})
	s("Choice", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return uint64(in.choose(in.asInt(a[0], "Choice"), "choice"))
	})
	str := func(in *Interp, min, max int, lo, hi uint64, alpha string) []Value {
		n := min
		if max > min {
			n = min + in.choose(max-min+1, "len")
		}
		b := make([]Value, n)
		for i := range b {
			if alpha != "" {
				b[i] = in.ranged("byte", 8, 0, 255, false)
				t := b[i].(*Term)
				c := in.st.ff
				for j := 0; j < len(alpha); j++ {
					c = in.st.Or(c, in.st.Eq(t, in.st.Const(8, uint64(alpha[j]))))
				}
				in.fresh(c, t, uint64(alpha[0]))
			} else {
				b[i] = in.ranged("byte", 8, lo, hi, false)
			}
		}
		return b
	}
	s("String", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return mkStr(str(in, in.asInt(a[0], "min"), in.asInt(a[1], "max"), 0, 255, ""))
	})
	s("ASCII", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return mkStr(str(in, in.asInt(a[0], "min"), in.asInt(a[1], "max"), 0, 127, ""))
	})
	s("StringOf", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return mkStr(str(in, in.asInt(a[0], "min"), in.asInt(a[1], "max"), 0, 255, argStr(a[2])))
	})
	s("Bytes", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return Slice(str(in, in.asInt(a[0], "min"), in.asInt(a[1], "max"), 0, 255, ""))
	})
	s("Assume", func(in *Interp, fi *FuncInfo, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if !c {
				panic(pathEnd{endKilled, "assume"})
			}
		case *Term:
			in.assume(c)
		}
		return nil
	})
	s("Assert", func(in *Interp, fi *FuncInfo, a []Value) Value {
		in.assertTrue(a[0], in.showStr(a[1]))
		return nil
	})
	s("Fail", func(in *Interp, fi *FuncInfo, a []Value) Value {
		in.violation("assert", in.showStr(a[0]))
		return nil
	})
	s("Skip", func(in *Interp, fi *FuncInfo, a []Value) Value { panic(pathEnd{endKilled, "skip"}) })
	s("Reach", func(in *Interp, fi *FuncInfo, a []Value) Value {
		in.reach = append(in.reach, argStr(a[0]))
		return nil
	})
	s("Observe", func(in *Interp, fi *FuncInfo, a []Value) Value {
		in.obs = append(in.obs, concatStr(concatStr(a[0], "="), a[1]))
		return nil
	})
	s("Engine", func(in *Interp, fi *FuncInfo, a []Value) Value { return true })
	s("Param", func(in *Interp, fi *FuncInfo, a []Value) Value {
		if v, ok := in.w.sh.cfg.Params[argStr(a[0])]; ok {
			return uint64(int64(v))
		}
		return a[1]
	})
	// And/Or/Not/Implies on conditions without branching
	s("And", func(in *Interp, fi *FuncInfo, a []Value) Value { return in.and(a[0], a[1]) })
	s("Or", func(in *Interp, fi *FuncInfo, a []Value) Value { return in.or(a[0], a[1]) })
	s("Implies", func(in *Interp, fi *FuncInfo, a []Value) Value { return in.or(in.not(a[0]), a[1]) })
	s("Iff", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return fromTerm(in.st.Eq(in.boolTerm(a[0]), in.boolTerm(a[1])))
	})
	// IsConcrete forces a decision so that a value is used concretely
	s("Decide", func(in *Interp, fi *FuncInfo, a []Value) Value { return in.decideV(a[0]) })
	s("Concrete", func(in *Interp, fi *FuncInfo, a []Value) Value {
		switch x := a[0].(type) {
		case *Term:
			lo, hi := a[1].(uint64), a[2].(uint64)
			for v := lo; ; v++ {
				if in.decide(in.st.Eq(x, in.st.Const(64, v))) {
					return v
				}
				if v == hi {
					in.infeasible()
				}
			}
		}
		return a[0]
	})
	s("MapNondet", func(in *Interp, fi *FuncInfo, a []Value) Value {
		old := in.mapNondet
		in.mapNondet = a[0].(bool)
		in.undo(func() { in.mapNondet = old })
		return nil
	})

	d := func(n string, f nativeFn) { reg(schedPkg+n, f) }
	s("Fatal", func(in *Interp, fi *FuncInfo, a []Value) Value { in.violation("fatal", in.showStr(a[0])); return nil })
	s("Next", func(in *Interp, fi *FuncInfo, a []Value) Value { unsupp("sym.Next"); return nil })
	d("Go", func(in *Interp, fi *FuncInfo, a []Value) Value {
		c, _ := a[0].(*Closure)
		if c == nil {
			in.nilDeref()
		}
		in.spawn(c, nil)
		return nil
	})
	d("Begin", func(in *Interp, fi *FuncInfo, a []Value) Value {
		if in.w.sh.cfg.Closure && in.clo == nil {
			if in.cur != 0 {
				unsupp("Begin outside the main goroutine")
			}
			in.startClosure()
		}
		return nil
	})
	d("Point", func(in *Interp, fi *FuncInfo, a []Value) Value { return in.point(nil) })
	d("Stmt", func(in *Interp, fi *FuncInfo, a []Value) Value {
		if !in.stmtOn || len(in.gs) == 1 || in.nestLevel > 0 {
			return nil
		}
		return in.point(nil)
	})
	d("Await", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return in.point(&waitRec{cond: a[0].(*Closure)})
	})
	d("AwaitIdle", func(in *Interp, fi *FuncInfo, a []Value) Value {
		return in.point(&waitRec{idle: true})
	})
	d("OnIdle", func(in *Interp, fi *FuncInfo, a []Value) Value {
		old := in.idleHook
		in.idleHook = a[0].(*Closure)
		in.undo(func() { in.idleHook = old })
		return nil
	})
	d("Self", func(in *Interp, fi *FuncInfo, a []Value) Value { return uint64(in.cur) })
	d("Bound", func(in *Interp, fi *FuncInfo, a []Value) Value {
		old := in.maxPreempt
		in.maxPreempt = in.asInt(a[0], "preemption bound")
		in.undo(func() { in.maxPreempt = old })
		return nil
	})
}
