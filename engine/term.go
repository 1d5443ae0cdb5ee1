package main

import (
	"fmt"
	"strings"
)

// Op is a term constructor. Sorts: w==0 is Bool, w>0 is (_ BitVec w), w<=64.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	ONeg
	OBNot
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // val = low bit
)

var opName = [...]string{"", "", "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem",
	"bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvneg", "bvnot", "bvult", "bvule", "bvslt", "bvsle", "", "", ""}

// Term is a hash-consed formula node.
type Term struct {
	op   Op
	w    uint8
	n    uint8
	a    [3]*Term
	val  uint64
	name string
	id   int

	defEpoch int // solver epoch in which this term has a name
	memo     uint64
	memoAt   int // model generation of memo
}

type termKey struct {
	op         Op
	w          uint8
	a0, a1, a2 int
	val        uint64
	name       string
}

// Store hash-conses terms.
type Store struct {
	tab    map[termKey]*Term
	n      int
	tt, ff *Term
}

func newStore() *Store {
	s := &Store{tab: map[termKey]*Term{}}
	s.tt = s.mk(OConst, 0, 1, "")
	s.ff = s.mk(OConst, 0, 0, "")
	return s
}

func (s *Store) mk(op Op, w uint8, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, val: val, name: name, a0: -1, a1: -1, a2: -1}
	for i, a := range args {
		switch i {
		case 0:
			k.a0 = a.id
		case 1:
			k.a1 = a.id
		case 2:
			k.a2 = a.id
		}
	}
	if t, ok := s.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, id: s.n, n: uint8(len(args)), memoAt: -1, defEpoch: -1}
	copy(t.a[:], args)
	s.n++
	s.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (s *Store) Const(w uint8, v uint64) *Term { return s.mk(OConst, w, v&mask(w), "") }
func (s *Store) Bool(b bool) *Term {
	if b {
		return s.tt
	}
	return s.ff
}
func (s *Store) Var(name string, w uint8) *Term { return s.mk(OVar, w, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }

func (s *Store) Not(a *Term) *Term {
	switch {
	case a == s.tt:
		return s.ff
	case a == s.ff:
		return s.tt
	case a.op == ONot:
		return a.a[0]
	}
	return s.mk(ONot, 0, 0, "", a)
}

func (s *Store) And(a, b *Term) *Term {
	if a == s.ff || b == s.ff {
		return s.ff
	}
	if a == s.tt {
		return b
	}
	if b == s.tt || a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return s.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OAnd, 0, 0, "", a, b)
}

func (s *Store) Or(a, b *Term) *Term {
	if a == s.tt || b == s.tt {
		return s.tt
	}
	if a == s.ff {
		return b
	}
	if b == s.ff || a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return s.tt
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OOr, 0, 0, "", a, b)
}

func (s *Store) Eq(a, b *Term) *Term {
	if a == b {
		return s.tt
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a == s.tt {
			return b
		}
		if b == s.tt {
			return a
		}
		if a == s.ff {
			return s.Not(b)
		}
		if b == s.ff {
			return s.Not(a)
		}
	}
	if b.isConst() {
		a, b = b, a
	}
	// a const, b something
	if a.isConst() {
		switch b.op {
		case OZext:
			in := b.a[0]
			if a.val > mask(in.w) {
				return s.ff
			}
			return s.Eq(s.Const(in.w, a.val), in)
		case OIte:
			x, y := b.a[1], b.a[2]
			if x.isConst() && y.isConst() {
				ex, ey := x.val == a.val, y.val == a.val
				switch {
				case ex && ey:
					return s.tt
				case ex:
					return b.a[0]
				case ey:
					return s.Not(b.a[0])
				default:
					return s.ff
				}
			}
			if x.isConst() || y.isConst() {
				return s.Ite(b.a[0], s.Eq(a, x), s.Eq(a, y))
			}
		}
	} else if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
		return s.Eq(a.a[0], b.a[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OEq, 0, 0, "", a, b)
}

func (s *Store) Ite(c, a, b *Term) *Term {
	if c == s.tt || a == b {
		return a
	}
	if c == s.ff {
		return b
	}
	if a.w == 0 {
		if a == s.tt {
			return s.Or(c, b)
		}
		if a == s.ff {
			return s.And(s.Not(c), b)
		}
		if b == s.tt {
			return s.Or(s.Not(c), a)
		}
		if b == s.ff {
			return s.And(c, a)
		}
	}
	if c.op == ONot {
		return s.Ite(c.a[0], b, a)
	}
	return s.mk(OIte, a.w, 0, "", c, a, b)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>y) & m, true
	case OUlt:
		return b2u(x < y), true
	case OUle:
		return b2u(x <= y), true
	case OSlt:
		return b2u(sext64(x, w) < sext64(y, w)), true
	case OSle:
		return b2u(sext64(x, w) <= sext64(y, w)), true
	}
	return 0, false
}

// Bin builds a binary bit-vector operation or comparison.
func (s *Store) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op %s %d %d", opName[op], a.w, b.w))
	}
	rw := a.w
	if op >= OUlt && op <= OSle {
		rw = 0
	}
	if a.isConst() && b.isConst() {
		v, _ := foldBin(op, a.w, a.val, b.val)
		return s.mk(OConst, rw, v, "")
	}
	switch op {
	case OAdd:
		if a.isConst() && a.val == 0 {
			return b
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		// (x + c1) + c2
		if b.isConst() && a.op == OAdd && a.a[1].isConst() {
			return s.Bin(OAdd, a.a[0], s.Const(a.w, a.a[1].val+b.val))
		}
		if a.isConst() {
			a, b = b, a
		}
	case OSub:
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			return s.Const(a.w, 0)
		}
		if b.isConst() {
			return s.Bin(OAdd, a, s.Const(a.w, -b.val))
		}
	case OMul:
		for i := 0; i < 2; i++ {
			if a.isConst() {
				if a.val == 0 {
					return a
				}
				if a.val == 1 {
					return b
				}
			}
			a, b = b, a
		}
	case OBAnd:
		for i := 0; i < 2; i++ {
			if a.isConst() {
				if a.val == 0 {
					return a
				}
				if a.val == mask(a.w) {
					return b
				}
			}
			a, b = b, a
		}
		if a == b {
			return a
		}
	case OBOr:
		for i := 0; i < 2; i++ {
			if a.isConst() {
				if a.val == 0 {
					return b
				}
				if a.val == mask(a.w) {
					return a
				}
			}
			a, b = b, a
		}
		if a == b {
			return a
		}
	case OBXor:
		if a == b {
			return s.Const(a.w, 0)
		}
		if a.isConst() && a.val == 0 {
			return b
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
	case OUlt:
		if a == b || b.isConst() && b.val == 0 {
			return s.ff
		}
		if z, c := a, b; z.op == OZext && c.isConst() {
			if c.val > mask(z.a[0].w) {
				return s.tt
			}
			return s.Bin(OUlt, z.a[0], s.Const(z.a[0].w, c.val))
		}
		if a.isConst() && b.op == OZext {
			if a.val >= mask(b.a[0].w) {
				return s.ff
			}
			return s.Bin(OUlt, s.Const(b.a[0].w, a.val), b.a[0])
		}
	case OUle:
		if a == b || a.isConst() && a.val == 0 {
			return s.tt
		}
		return s.Not(s.Bin(OUlt, b, a))
	case OSlt:
		if a == b {
			return s.ff
		}
		// zero-extended operands are non-negative
		if a.op == OZext && b.isConst() {
			if sext64(b.val, b.w) <= 0 {
				return s.ff
			}
			return s.Bin(OUlt, a, b)
		}
		if b.op == OZext && a.isConst() {
			if sext64(a.val, a.w) < 0 {
				return s.tt
			}
			return s.Bin(OUlt, a, b)
		}
		if a.op == OZext && b.op == OZext {
			return s.Bin(OUlt, a, b)
		}
	case OSle:
		if a == b {
			return s.tt
		}
		return s.Not(s.Bin(OSlt, b, a))
	}
	return s.mk(op, rw, 0, "", a, b)
}

func (s *Store) Neg(a *Term) *Term {
	if a.isConst() {
		return s.Const(a.w, -a.val)
	}
	return s.mk(ONeg, a.w, 0, "", a)
}

func (s *Store) BNot(a *Term) *Term {
	if a.isConst() {
		return s.Const(a.w, ^a.val)
	}
	return s.mk(OBNot, a.w, 0, "", a)
}

// Resize converts a to width w, sign- or zero-extending or truncating.
func (s *Store) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		if a.isConst() {
			return s.Const(w, a.val)
		}
		if (a.op == OZext || a.op == OSext) && a.a[0].w >= w {
			return s.Resize(a.a[0], w, signed)
		}
		if a.op == OZext && a.a[0].w < w {
			return s.Resize(a.a[0], w, false)
		}
		return s.mk(OExtract, w, 0, "", a)
	}
	if a.isConst() {
		if signed {
			return s.Const(w, uint64(sext64(a.val, a.w)))
		}
		return s.Const(w, a.val)
	}
	if a.op == OZext {
		return s.Resize(a.a[0], w, false)
	}
	if signed {
		return s.mk(OSext, w, 0, "", a)
	}
	return s.mk(OZext, w, 0, "", a)
}

// Model is an assignment; unlisted variables are 0. Immutable once shared.
type Model struct {
	v   map[string]uint64
	gen int
}

var modelGen int // per process; workers use disjoint stores so only uniqueness within a store matters

func (m *Model) with(gen int, kv map[string]uint64) *Model {
	n := make(map[string]uint64, len(m.v)+len(kv))
	for k, v := range m.v {
		n[k] = v
	}
	for k, v := range kv {
		n[k] = v
	}
	return &Model{v: n, gen: gen}
}

// eval computes t's value under m.
func (t *Term) eval(m *Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.memoAt == m.gen {
		return t.memo
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m.v[t.name] & maskB(t.w)
	case ONot:
		r = 1 - t.a[0].eval(m)
	case OAnd:
		if t.a[0].eval(m) == 0 {
			r = 0
		} else {
			r = t.a[1].eval(m)
		}
	case OOr:
		if t.a[0].eval(m) == 1 {
			r = 1
		} else {
			r = t.a[1].eval(m)
		}
	case OEq:
		if t.a[0].eval(m) == t.a[1].eval(m) {
			r = 1
		}
	case OIte:
		if t.a[0].eval(m) == 1 {
			r = t.a[1].eval(m)
		} else {
			r = t.a[2].eval(m)
		}
	case ONeg:
		r = -t.a[0].eval(m) & mask(t.w)
	case OBNot:
		r = ^t.a[0].eval(m) & mask(t.w)
	case OZext:
		r = t.a[0].eval(m)
	case OSext:
		r = uint64(sext64(t.a[0].eval(m), t.a[0].w)) & mask(t.w)
	case OExtract:
		r = (t.a[0].eval(m) >> t.val) & mask(t.w)
	default:
		r, _ = foldBin(t.op, t.a[0].w, t.a[0].eval(m), t.a[1].eval(m))
	}
	t.memo, t.memoAt = r, m.gen
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (t *Term) sortStr() string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	var b strings.Builder
	switch t.op {
	case OZext:
		fmt.Fprintf(&b, "((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OSext:
		fmt.Fprintf(&b, "((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OExtract:
		fmt.Fprintf(&b, "((_ extract %d 0) %s)", t.w-1, t.a[0].ref())
	default:
		b.WriteByte('(')
		b.WriteString(opName[t.op])
		for i := 0; i < int(t.n); i++ {
			b.WriteByte(' ')
			b.WriteString(t.a[i].ref())
		}
		b.WriteByte(')')
	}
	return b.String()
}

func (t *Term) String() string {
	switch t.op {
	case OConst, OVar:
		return t.ref()
	}
	var b strings.Builder
	b.WriteByte('(')
	if opName[t.op] == "" {
		fmt.Fprintf(&b, "resize%d", t.w)
	} else {
		b.WriteString(opName[t.op])
	}
	for i := 0; i < int(t.n); i++ {
		b.WriteByte(' ')
		b.WriteString(t.a[i].String())
	}
	b.WriteByte(')')
	return b.String()
}
