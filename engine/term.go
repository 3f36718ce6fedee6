package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term: a Boolean (w == 0) or a bit-vector of width w.
type Term struct {
	op      uint8
	w       uint8
	a, b, c *Term
	val     uint64 // constants; low bit index for Extract
	name    string // variables
	id      int32
	dom     *[4]uint64 // 8-bit variables: allowed byte values (nil: all)
	defined int32      // solver epoch in which this term was emitted
}

const (
	tConst uint8 = iota
	tVar
	tNot
	tAnd
	tOr
	tEq
	tIte
	tAdd
	tSub
	tMul
	tUDiv
	tSDiv
	tURem
	tSRem
	tBAnd
	tBOr
	tBXor
	tShl
	tLShr
	tAShr
	tNeg
	tBNot
	tUlt
	tUle
	tSlt
	tSle
	tZExt
	tSExt
	tExtract
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvneg", "bvnot", "bvult", "bvule", "bvslt", "bvsle", "zext", "sext", "extract"}

type termKey struct {
	op      uint8
	w       uint8
	a, b, c *Term
	val     uint64
	name    string
}

type termTable struct {
	m    map[termKey]*Term
	next int32
}

func newTermTable() *termTable { return &termTable{m: map[termKey]*Term{}} }

func (tt *termTable) mk(op, w uint8, a, b, c *Term, val uint64, name string) *Term {
	k := termKey{op, w, a, b, c, val, name}
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.next++
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, name: name, id: tt.next}
	tt.m[k] = t
	return t
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) uint64 {
	if w >= 64 || w == 0 {
		return v
	}
	s := 64 - w
	return uint64(int64(v<<s) >> s)
}

func (tt *termTable) Const(v uint64, w uint8) *Term {
	return tt.mk(tConst, w, nil, nil, nil, v&maskW(w), "")
}
func (tt *termTable) Bool(b bool) *Term {
	if b {
		return tt.mk(tConst, 0, nil, nil, nil, 1, "")
	}
	return tt.mk(tConst, 0, nil, nil, nil, 0, "")
}
func (tt *termTable) Var(name string, w uint8) *Term {
	return tt.mk(tVar, w, nil, nil, nil, 0, name)
}

func (t *Term) isConst() bool { return t.op == tConst }
func (t *Term) isTrue() bool  { return t.op == tConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == tConst && t.w == 0 && t.val == 0 }

func (tt *termTable) Not(a *Term) *Term {
	if a.op == tConst {
		return tt.Bool(a.val == 0)
	}
	if a.op == tNot {
		return a.a
	}
	return tt.mk(tNot, 0, a, nil, nil, 0, "")
}

func (tt *termTable) And(a, b *Term) *Term {
	if a.isFalse() || b.isTrue() {
		return a
	}
	if b.isFalse() || a.isTrue() {
		return b
	}
	if a == b {
		return a
	}
	if (a.op == tNot && a.a == b) || (b.op == tNot && b.a == a) {
		return tt.Bool(false)
	}
	return tt.mk(tAnd, 0, a, b, nil, 0, "")
}

func (tt *termTable) Or(a, b *Term) *Term {
	if a.isTrue() || b.isFalse() {
		return a
	}
	if b.isTrue() || a.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if (a.op == tNot && a.a == b) || (b.op == tNot && b.a == a) {
		return tt.Bool(true)
	}
	return tt.mk(tOr, 0, a, b, nil, 0, "")
}

func (tt *termTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.Bool(true)
	}
	if a.op == tConst && b.op == tConst {
		return tt.Bool(a.val == b.val)
	}
	if a.op == tConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == tConst {
			if b.val == 1 {
				return a
			}
			return tt.Not(a)
		}
	} else if b.op == tConst {
		switch a.op {
		case tVar:
			if a.dom != nil && a.w == 8 && a.dom[b.val>>6]>>(b.val&63)&1 == 0 {
				return tt.Bool(false)
			}
		case tZExt:
			if b.val > maskW(a.a.w) {
				return tt.Bool(false)
			}
			return tt.Eq(a.a, tt.Const(b.val, a.a.w))
		case tSExt:
			lo := b.val & maskW(a.a.w)
			if sext(lo, a.a.w)&maskW(a.w) != b.val {
				return tt.Bool(false)
			}
			return tt.Eq(a.a, tt.Const(lo, a.a.w))
		case tIte:
			if a.b.op == tConst && a.c.op == tConst {
				x, y := a.b.val == b.val, a.c.val == b.val
				switch {
				case x && y:
					return tt.Bool(true)
				case x:
					return a.a
				case y:
					return tt.Not(a.a)
				default:
					return tt.Bool(false)
				}
			}
			if a.b.op == tConst || a.c.op == tConst {
				return tt.Or(tt.And(a.a, tt.Eq(a.b, b)), tt.And(tt.Not(a.a), tt.Eq(a.c, b)))
			}
		case tAdd:
			if a.b.op == tConst {
				return tt.Eq(a.a, tt.Const(b.val-a.b.val, a.w))
			}
		}
	} else if a.op == tZExt && b.op == tZExt && a.a.w == b.a.w {
		return tt.Eq(a.a, b.a)
	} else if a.op == tVar && b.op == tVar && a.dom != nil && b.dom != nil {
		disjoint := true
		for i := range a.dom {
			if a.dom[i]&b.dom[i] != 0 {
				disjoint = false
			}
		}
		if disjoint {
			return tt.Bool(false)
		}
	}
	if a.op != tConst && b.op != tConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(tEq, 0, a, b, nil, 0, "")
}

func (tt *termTable) Ite(c, a, b *Term) *Term {
	if c.op == tConst {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return tt.Or(c, b)
		}
		if a.isFalse() {
			return tt.And(tt.Not(c), b)
		}
		if b.isTrue() {
			return tt.Or(tt.Not(c), a)
		}
		if b.isFalse() {
			return tt.And(c, a)
		}
	}
	return tt.mk(tIte, a.w, c, a, b, 0, "")
}

// evalBin computes a binary bit-vector operation; ok is false for division by zero.
func evalBin(op uint8, w uint8, x, y uint64) (uint64, bool) {
	m := maskW(w)
	sx, sy := int64(sext(x, w)), int64(sext(y, w))
	switch op {
	case tAdd:
		return (x + y) & m, true
	case tSub:
		return (x - y) & m, true
	case tMul:
		return (x * y) & m, true
	case tUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case tURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case tSDiv:
		if y == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case tSRem:
		if y == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case tBAnd:
		return x & y, true
	case tBOr:
		return x | y, true
	case tBXor:
		return x ^ y, true
	case tShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y & m, true
	case tLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case tAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m, true
	case tUlt:
		return b2u(x < y), true
	case tUle:
		return b2u(x <= y), true
	case tSlt:
		return b2u(sx < sy), true
	case tSle:
		return b2u(sx <= sy), true
	}
	return 0, false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tt *termTable) Bin(op uint8, a, b *Term) *Term {
	w := a.w
	rw := w
	if op >= tUlt && op <= tSle {
		rw = 0
	}
	if a.op == tConst && b.op == tConst {
		if v, ok := evalBin(op, w, a.val, b.val); ok {
			if rw == 0 {
				return tt.Bool(v == 1)
			}
			return tt.Const(v, rw)
		}
	}
	switch op {
	case tAdd:
		if a.op == tConst {
			a, b = b, a
		}
		if b.op == tConst {
			if b.val == 0 {
				return a
			}
			if a.op == tAdd && a.b.op == tConst {
				return tt.Bin(tAdd, a.a, tt.Const(a.b.val+b.val, w))
			}
		}
	case tSub:
		if a == b {
			return tt.Const(0, w)
		}
		if b.op == tConst {
			return tt.Bin(tAdd, a, tt.Const(-b.val, w))
		}
	case tMul:
		if a.op == tConst {
			a, b = b, a
		}
		if b.op == tConst {
			switch b.val {
			case 0:
				return b
			case 1:
				return a
			}
		}
	case tBAnd:
		if a.op == tConst {
			a, b = b, a
		}
		if b.op == tConst {
			if b.val == 0 {
				return b
			}
			if b.val == maskW(w) {
				return a
			}
			if a.op == tZExt && b.val&maskW(a.a.w) == maskW(a.a.w) {
				return a
			}
		}
	case tBOr, tBXor:
		if a.op == tConst {
			a, b = b, a
		}
		if b.op == tConst && b.val == 0 {
			return a
		}
	case tShl, tLShr, tAShr:
		if b.op == tConst && b.val == 0 {
			return a
		}
	case tUDiv, tSDiv:
		if b.op == tConst && b.val == 1 {
			return a
		}
	case tUlt, tUle, tSlt, tSle:
		if a == b {
			return tt.Bool(op == tUle || op == tSle)
		}
		if t := tt.narrowCmp(op, a, b); t != nil {
			return t
		}
		if a.op == tVar && a.dom != nil && b.op == tConst || b.op == tVar && b.dom != nil && a.op == tConst {
			if t := tt.domCmp(op, a, b); t != nil {
				return t
			}
		}
	}
	return tt.mk(op, rw, a, b, nil, 0, "")
}

// domCmp decides a comparison of an 8-bit variable with a constant from the variable's domain.
func (tt *termTable) domCmp(op uint8, a, b *Term) *Term {
	v := a
	if a.op == tConst {
		v = b
	}
	allT, allF := true, true
	for i := uint64(0); i < 256; i++ {
		if v.dom[i>>6]>>(i&63)&1 == 0 {
			continue
		}
		var r uint64
		if v == a {
			r, _ = evalBin(op, 8, i, b.val)
		} else {
			r, _ = evalBin(op, 8, a.val, i)
		}
		if r == 1 {
			allF = false
		} else {
			allT = false
		}
	}
	if allT {
		return tt.Bool(true)
	}
	if allF {
		return tt.Bool(false)
	}
	return nil
}

// narrowCmp compares zero-extended operands at their own width.
func (tt *termTable) narrowCmp(op uint8, a, b *Term) *Term {
	uop := op
	if op == tSlt {
		uop = tUlt
	} else if op == tSle {
		uop = tUle
	}
	signed := op == tSlt || op == tSle
	strict := uop == tUlt
	if a.op == tZExt && b.op == tZExt && a.a.w == b.a.w {
		return tt.Bin(uop, a.a, b.a)
	}
	if a.op == tZExt && b.op == tConst {
		if signed && int64(sext(b.val, b.w)) < 0 {
			return tt.Bool(false) // a >= 0 > b
		}
		if b.val > maskW(a.a.w) {
			return tt.Bool(true)
		}
		return tt.Bin(uop, a.a, tt.Const(b.val, a.a.w))
	}
	if a.op == tConst && b.op == tZExt {
		if signed && int64(sext(a.val, a.w)) < 0 {
			return tt.Bool(true)
		}
		if a.val > maskW(b.a.w) {
			return tt.Bool(false)
		}
		_ = strict
		return tt.Bin(uop, tt.Const(a.val, b.a.w), b.a)
	}
	return nil
}

func (tt *termTable) Neg(a *Term) *Term {
	if a.op == tConst {
		return tt.Const(-a.val, a.w)
	}
	return tt.mk(tNeg, a.w, a, nil, nil, 0, "")
}
func (tt *termTable) BNot(a *Term) *Term {
	if a.op == tConst {
		return tt.Const(^a.val, a.w)
	}
	return tt.mk(tBNot, a.w, a, nil, nil, 0, "")
}
func (tt *termTable) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == tConst {
		return tt.Const(a.val, w)
	}
	if a.op == tZExt {
		return tt.ZExt(a.a, w)
	}
	return tt.mk(tZExt, w, a, nil, nil, 0, "")
}
func (tt *termTable) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == tConst {
		return tt.Const(sext(a.val, a.w), w)
	}
	if a.op == tZExt {
		return tt.ZExt(a.a, w)
	}
	return tt.mk(tSExt, w, a, nil, nil, 0, "")
}
func (tt *termTable) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == tConst {
		return tt.Const(a.val, w)
	}
	if a.op == tZExt || a.op == tSExt {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return tt.Trunc(a.a, w)
		}
		if a.op == tZExt {
			return tt.ZExt(a.a, w)
		}
		return tt.SExt(a.a, w)
	}
	if a.op == tIte {
		return tt.Ite(a.a, tt.Trunc(a.b, w), tt.Trunc(a.c, w))
	}
	// truncation commutes with these
	switch a.op {
	case tAdd, tSub, tMul, tBAnd, tBOr, tBXor:
		return tt.Bin(a.op, tt.Trunc(a.a, w), tt.Trunc(a.b, w))
	}
	return tt.mk(tExtract, w, a, nil, nil, 0, "")
}

// eval evaluates t under a model; variables missing from the model take their default.
func (t *Term) eval(m map[string]uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case tConst:
		return t.val
	case tVar:
		return m[t.name]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case tNot:
		r = 1 - t.a.eval(m, memo)
	case tAnd:
		r = t.a.eval(m, memo)
		if r == 1 {
			r = t.b.eval(m, memo)
		}
	case tOr:
		r = t.a.eval(m, memo)
		if r == 0 {
			r = t.b.eval(m, memo)
		}
	case tEq:
		r = b2u(t.a.eval(m, memo) == t.b.eval(m, memo))
	case tIte:
		if t.a.eval(m, memo) == 1 {
			r = t.b.eval(m, memo)
		} else {
			r = t.c.eval(m, memo)
		}
	case tNeg:
		r = -t.a.eval(m, memo) & maskW(t.w)
	case tBNot:
		r = ^t.a.eval(m, memo) & maskW(t.w)
	case tZExt:
		r = t.a.eval(m, memo)
	case tSExt:
		r = sext(t.a.eval(m, memo), t.a.w) & maskW(t.w)
	case tExtract:
		r = t.a.eval(m, memo) & maskW(t.w)
	default:
		r, _ = evalBin(t.op, t.a.w, t.a.eval(m, memo), t.b.eval(m, memo))
	}
	memo[t] = r
	return r
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (t *Term) ref() string {
	switch t.op {
	case tConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.val)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.val)
	case tVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

// body is the SMT-LIB expression of t in terms of its children's references.
func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case tZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case tSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case tExtract:
		fmt.Fprintf(&sb, "((_ extract %d 0) %s)", t.w-1, t.a.ref())
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(x.ref())
			}
		}
		sb.WriteByte(')')
	}
	return sb.String()
}

func bitsNeeded(v uint64) uint8 {
	n := bits.Len64(v)
	if n == 0 {
		n = 1
	}
	return uint8(n)
}
