package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// typeTab canonicalises types of one interpreter.
type typeTab struct {
	byPtr map[types.Type]*RType
	canon typeutil.Map
	n     int
	impl  map[implKey]bool
}

type implKey struct {
	t *RType
	i *types.Interface
}

func newTypeTab() *typeTab {
	return &typeTab{byPtr: map[types.Type]*RType{}, impl: map[implKey]bool{}}
}

func (tt *typeTab) of(t types.Type) *RType {
	if r, ok := tt.byPtr[t]; ok {
		return r
	}
	u := types.Unalias(t)
	if r := tt.canon.At(u); r != nil {
		tt.byPtr[t] = r.(*RType)
		return r.(*RType)
	}
	tt.n++
	r := &RType{t: u, id: tt.n, meth: map[string]*ssa.Function{}, comparable: types.Comparable(u)}
	tt.canon.Set(u, r)
	tt.byPtr[t] = r
	return r
}

func (tt *typeTab) implements(t *RType, i *types.Interface) bool {
	k := implKey{t, i}
	if b, ok := tt.impl[k]; ok {
		return b
	}
	b := types.Implements(t.t, i)
	tt.impl[k] = b
	return b
}

// method finds the implementation of a method on dynamic type t.
func (in *Interp) method(t *RType, m *types.Func) *ssa.Function {
	id := m.Id()
	if f, ok := t.meth[id]; ok {
		return f
	}
	in.w.sh.mu.Lock()
	f := in.prog.LookupMethod(t.t, m.Pkg(), m.Name())
	in.w.sh.mu.Unlock()
	t.meth[id] = f
	return f
}

func (in *Interp) methodByName(t *RType, name string) *ssa.Function {
	if f, ok := t.meth["."+name]; ok {
		return f
	}
	in.w.sh.mu.Lock()
	defer in.w.sh.mu.Unlock()
	ms := in.prog.MethodSets.MethodSet(t.t)
	sel := ms.Lookup(nil, name)
	var f *ssa.Function
	if sel != nil {
		f = in.prog.MethodValue(sel)
	}
	t.meth["."+name] = f
	return f
}
