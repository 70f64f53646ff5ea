package main

// Hash-consed SMT terms: booleans and bit-vectors up to 64 bits.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpEq  // any -> bool
	OpIte // bool, T, T
	OpUlt // bv -> bool
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBvAnd
	OpBvOr
	OpBvXor
	OpBvNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpExtract // low bits: extract[w-1:0] after shifting by val
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem",
	OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor",
	OpBvNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
}

// Term is a bool (w==0) or a bit-vector of width w.
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
	name    string
	id      uint32
	vs      []*Term // variables, see vars
	vsOK    bool
	mark    uint32
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
	name    string
}

// TF is a term factory. Not safe for concurrent use.
type TF struct {
	tab    map[termKey]*Term
	nextID uint32
	tru    *Term
	fls    *Term
	bytesC [256]*Term
	smallI [1024]*Term
}

func newTF() *TF {
	f := &TF{tab: make(map[termKey]*Term)}
	f.tru = f.mk(termKey{op: OpConst, w: 0, val: 1})
	f.fls = f.mk(termKey{op: OpConst, w: 0, val: 0})
	for i := range f.bytesC {
		f.bytesC[i] = f.mk(termKey{op: OpConst, w: 8, val: uint64(i)})
	}
	for i := range f.smallI {
		f.smallI[i] = f.mk(termKey{op: OpConst, w: 64, val: uint64(i)})
	}
	return f
}

func (f *TF) mk(k termKey) *Term {
	if t, ok := f.tab[k]; ok {
		return t
	}
	f.nextID++
	t := &Term{op: k.op, w: k.w, a: k.a, b: k.b, c: k.c, val: k.val, name: k.name, id: f.nextID}
	f.tab[k] = t
	return t
}

// vars are the variables of t.
func (t *Term) vars() []*Term {
	if t.vsOK {
		return t.vs
	}
	t.vsOK = true
	switch t.op {
	case OpConst:
	case OpVar:
		t.vs = []*Term{t}
	default:
		for _, x := range [...]*Term{t.a, t.b, t.c} {
			if x == nil {
				continue
			}
			l := x.vars()
			if len(t.vs) == 0 {
				t.vs = l[:len(l):len(l)]
				continue
			}
		next:
			for _, v := range l {
				for _, w := range t.vs {
					if v == w {
						continue next
					}
				}
				t.vs = append(t.vs, v)
			}
		}
	}
	return t.vs
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (f *TF) Const(v uint64, w uint8) *Term {
	v &= mask(w)
	if w == 8 {
		return f.bytesC[v]
	}
	if w == 64 && v < 1024 {
		return f.smallI[v]
	}
	return f.mk(termKey{op: OpConst, w: w, val: v})
}

func (f *TF) Bool(b bool) *Term {
	if b {
		return f.tru
	}
	return f.fls
}

func (f *TF) Var(name string, w uint8) *Term {
	return f.mk(termKey{op: OpVar, w: w, name: name})
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

func (f *TF) Not(a *Term) *Term {
	if a.isConst() {
		return f.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return f.mk(termKey{op: OpNot, a: a})
}

func (f *TF) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return f.fls
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return f.fls
	}
	return f.mk(termKey{op: OpAnd, a: a, b: b})
}

func (f *TF) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return f.tru
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return f.tru
	}
	return f.mk(termKey{op: OpOr, a: a, b: b})
}

func (f *TF) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() {
			return f.Or(c, b)
		}
		if a.isFalse() {
			return f.And(f.Not(c), b)
		}
		if b.isTrue() {
			return f.Or(f.Not(c), a)
		}
		if b.isFalse() {
			return f.And(c, a)
		}
	}
	return f.mk(termKey{op: OpIte, w: a.w, a: c, b: a, c: b})
}

// maxVal gives a cheap upper bound of a bit-vector term as unsigned.
func maxVal(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpZext:
		return maxVal(t.a)
	case OpBvAnd:
		a, b := maxVal(t.a), maxVal(t.b)
		if a < b {
			return a
		}
		return b
	case OpIte:
		a, b := maxVal(t.b), maxVal(t.c)
		if a > b {
			return a
		}
		return b
	case OpUrem:
		if t.b.isConst() && t.b.val > 0 {
			return t.b.val - 1
		}
	case OpUdiv:
		if t.b.isConst() && t.b.val > 0 {
			return maxVal(t.a) / t.b.val
		}
	case OpLshr:
		if t.b.isConst() && t.b.val < 64 {
			return maxVal(t.a) >> t.b.val
		}
	case OpAdd:
		a, b := maxVal(t.a), maxVal(t.b)
		if s, c := bits.Add64(a, b, 0); c == 0 && s <= mask(t.w) {
			return s
		}
	}
	return mask(t.w)
}

func (f *TF) Eq(a, b *Term) *Term {
	if a == b {
		return f.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq: width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return f.fls
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.isTrue() {
				return a
			}
			return f.Not(a)
		}
		switch a.op {
		case OpZext:
			if b.val > mask(a.a.w) {
				return f.fls
			}
			return f.Eq(a.a, f.Const(b.val, a.a.w))
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				return f.Ite(a.a, f.Eq(a.b, b), f.Eq(a.c, b))
			}
		case OpAdd:
			if a.b.isConst() {
				return f.Eq(a.a, f.Const(b.val-a.b.val, a.w))
			}
		}
		if b.val > maxVal(a) {
			return f.fls
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return f.mk(termKey{op: OpEq, a: a, b: b})
}

func (f *TF) Ult(a, b *Term) *Term {
	if a == b {
		return f.fls
	}
	if a.isConst() && b.isConst() {
		return f.Bool(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return f.fls
		}
		if maxVal(a) < b.val {
			return f.tru
		}
		if a.op == OpZext {
			if b.val > mask(a.a.w) {
				return f.tru
			}
			return f.Ult(a.a, f.Const(b.val, a.a.w))
		}
	}
	if a.isConst() {
		if a.val >= maxVal(b) {
			return f.fls
		}
		if b.op == OpZext {
			return f.Ult(f.Const(a.val, b.a.w), b.a)
		}
	}
	return f.mk(termKey{op: OpUlt, a: a, b: b})
}

func (f *TF) Ule(a, b *Term) *Term { return f.Not(f.Ult(b, a)) }

func nonNeg(t *Term) bool { return maxVal(t) <= mask(t.w)>>1 }

func (f *TF) Slt(a, b *Term) *Term {
	if a == b {
		return f.fls
	}
	if a.isConst() && b.isConst() {
		return f.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	if nonNeg(a) && nonNeg(b) {
		return f.Ult(a, b)
	}
	if b.isConst() && nonNeg(a) && !nonNeg(b) {
		return f.fls
	}
	if a.isConst() && nonNeg(b) && !nonNeg(a) {
		return f.tru
	}
	return f.mk(termKey{op: OpSlt, a: a, b: b})
}

func (f *TF) Sle(a, b *Term) *Term { return f.Not(f.Slt(b, a)) }

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSdiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m, true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSrem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpBvAnd:
		return x & y, true
	case OpBvOr:
		return x | y, true
	case OpBvXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

// Bin builds a bit-vector binary operation (both operands of the same width).
func (f *TF) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s: width mismatch %d %d", opNames[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		v, _ := evalBin(op, w, a.val, b.val)
		return f.Const(v, w)
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return f.Bin(OpAdd, a.a, f.Const(a.b.val+b.val, w))
			}
		}
	case OpSub:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			return f.Bin(OpAdd, a, f.Const(-b.val, w))
		}
		if a == b {
			return f.Const(0, w)
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OpBvAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val&mask(w) == mask(w) {
				return a
			}
			if b.val == mask(8) && maxVal(a) <= 255 {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBvOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 || a == b {
			return a
		}
	case OpBvXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			return f.Const(0, w)
		}
	case OpShl, OpLshr, OpAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
	case OpUdiv, OpSdiv:
		if b.isConst() && b.val == 1 {
			return a
		}
	}
	return f.mk(termKey{op: op, w: w, a: a, b: b})
}

func (f *TF) BvNot(a *Term) *Term {
	if a.isConst() {
		return f.Const(^a.val, a.w)
	}
	return f.mk(termKey{op: OpBvNot, w: a.w, a: a})
}

func (f *TF) Neg(a *Term) *Term {
	if a.isConst() {
		return f.Const(-a.val, a.w)
	}
	return f.mk(termKey{op: OpNeg, w: a.w, a: a})
}

// Resize converts a to width w (truncate, zero- or sign-extend).
func (f *TF) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return f.Const(uint64(sext(a.val, a.w)), w)
		}
		return f.Const(a.val, w)
	}
	if w < a.w {
		if (a.op == OpZext || a.op == OpSext) && a.a.w >= w {
			return f.Resize(a.a, w, false)
		}
		if a.op == OpZext {
			return f.Resize(a.a, w, false)
		}
		return f.mk(termKey{op: OpExtract, w: w, a: a})
	}
	if signed && !nonNeg(a) {
		return f.mk(termKey{op: OpSext, w: w, a: a})
	}
	if a.op == OpZext {
		a = a.a
	}
	return f.mk(termKey{op: OpZext, w: w, a: a})
}

// Model is an assignment to variables by name; absent names are zero.
type Model map[string]uint64

func (f *TF) Eval(t *Term, m Model) uint64 {
	cache := make(map[*Term]uint64)
	return evalT(t, m, cache)
}

func evalT(t *Term, m Model, cache map[*Term]uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return m[t.name]
	}
	if v, ok := cache[t]; ok {
		return v
	}
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	var v uint64
	switch t.op {
	case OpNot:
		v = 1 - evalT(t.a, m, cache)
	case OpAnd:
		if evalT(t.a, m, cache) == 0 {
			v = 0
		} else {
			v = evalT(t.b, m, cache)
		}
	case OpOr:
		if evalT(t.a, m, cache) == 1 {
			v = 1
		} else {
			v = evalT(t.b, m, cache)
		}
	case OpEq:
		v = b2(evalT(t.a, m, cache) == evalT(t.b, m, cache))
	case OpIte:
		if evalT(t.a, m, cache) == 1 {
			v = evalT(t.b, m, cache)
		} else {
			v = evalT(t.c, m, cache)
		}
	case OpUlt:
		v = b2(evalT(t.a, m, cache) < evalT(t.b, m, cache))
	case OpSlt:
		v = b2(sext(evalT(t.a, m, cache), t.a.w) < sext(evalT(t.b, m, cache), t.b.w))
	case OpBvNot:
		v = ^evalT(t.a, m, cache) & mask(t.w)
	case OpNeg:
		v = -evalT(t.a, m, cache) & mask(t.w)
	case OpZext, OpExtract:
		v = evalT(t.a, m, cache) & mask(t.w)
	case OpSext:
		v = uint64(sext(evalT(t.a, m, cache), t.a.w)) & mask(t.w)
	default:
		var ok bool
		v, ok = evalBin(t.op, t.w, evalT(t.a, m, cache), evalT(t.b, m, cache))
		if !ok {
			panic("eval: bad op")
		}
	}
	cache[t] = v
	return v
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	if d == 0 {
		sb.WriteString("..")
		return
	}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.val == 1)
		} else {
			fmt.Fprintf(sb, "%d", t.val)
		}
	case OpVar:
		sb.WriteString(t.name)
	default:
		n := opNames[t.op]
		if n == "" {
			n = fmt.Sprintf("op%d.%d", t.op, t.w)
		}
		sb.WriteString("(" + n)
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				x.str(sb, d-1)
			}
		}
		sb.WriteByte(')')
	}
}
