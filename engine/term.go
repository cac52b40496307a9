package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Sort: 0 = Bool, 1..64 = bit-vector width, sF32/sF64 = IEEE floats.
type Sort uint8

const (
	sBool Sort = 0
	sF32  Sort = 101
	sF64  Sort = 102
)

func (s Sort) isBV() bool { return s >= 1 && s <= 64 }
func (s Sort) isFP() bool { return s == sF32 || s == sF64 }
func (s Sort) smt() string {
	switch s {
	case sBool:
		return "Bool"
	case sF32:
		return "(_ FloatingPoint 8 24)"
	case sF64:
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(int(s)) + ")"
}

type Op uint8

const (
	oConst Op = iota
	oVar
	oNot
	oAnd
	oOr
	oXorB // bool xor
	oEq
	oIte
	oAdd
	oSub
	oMul
	oUDiv
	oSDiv
	oURem
	oSRem
	oBAnd
	oBOr
	oBXor
	oShl
	oLShr
	oAShr
	oBNot
	oNeg
	oUlt
	oUle
	oSlt
	oSle
	oZext
	oSext
	oExtract // low bits: width = sort, offset = aux
	oConcat
	oFAdd
	oFSub
	oFMul
	oFDiv
	oFNeg
	oFAbs
	oFSqrt
	oFLt
	oFLe
	oFEq
	oFIsNaN
	oFFromBits
	oFFromS // signed bv to fp
	oFFromU
	oFToS // fp -> signed bv (sort width), RTZ
	oFToU
	oFToF
	oTab    // constant table val at index a[0]
	oFRound // aux: 0 RNE,1 RTZ,2 RTP,3 RTN,4 RNA
)

type Term struct {
	op   Op
	sort Sort
	aux  uint8
	id   int32 // 0 for un-interned constants
	val  uint64
	a    [3]*Term
	name string
	ubv  uint64 // memo of ub+1 (0: not computed)

	gen int32
	ev  uint64
}

func (t *Term) isConst() bool { return t.op == oConst }
func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}
func signExt(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

var smallConsts [5][512]*Term
var trueT = &Term{op: oConst, sort: sBool, val: 1}
var falseT = &Term{op: oConst, sort: sBool, val: 0}

func init() {
	for i, w := range []Sort{8, 16, 32, 64} {
		for v := 0; v < 512; v++ {
			smallConsts[i][v] = &Term{op: oConst, sort: w, val: uint64(v) & mask(w)}
		}
	}
}

func mkConst(s Sort, v uint64) *Term {
	if s == sBool {
		if v != 0 {
			return trueT
		}
		return falseT
	}
	if s <= 64 {
		v &= mask(s)
		if v < 512 {
			switch s {
			case 8:
				return smallConsts[0][v]
			case 16:
				return smallConsts[1][v]
			case 32:
				return smallConsts[2][v]
			case 64:
				return smallConsts[3][v]
			}
		}
	}
	return &Term{op: oConst, sort: s, val: v}
}
func mkBool(b bool) *Term {
	if b {
		return trueT
	}
	return falseT
}
func mkInt(v int) *Term       { return mkConst(64, uint64(v)) }
func mkF64(f float64) *Term   { return mkConst(sF64, math.Float64bits(f)) }
func (t *Term) isTrue() bool  { return t.op == oConst && t.sort == sBool && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == oConst && t.sort == sBool && t.val == 0 }
func (t *Term) sval() int64   { return signExt(t.val, t.sort) }

type tkey struct {
	op      Op
	sort    Sort
	aux     uint8
	a, b, c int32
	val     uint64
	name    string
}

// TB is a per-worker hash-consing term builder.
type TB struct {
	tab    map[tkey]*Term
	consts map[tkey]*Term
	next   int32
	gen    int32
}

func newTB() *TB {
	return &TB{tab: map[tkey]*Term{}, consts: map[tkey]*Term{}}
}

func (b *TB) canon(t *Term) *Term {
	if t.op != oConst {
		return t
	}
	k := tkey{op: oConst, sort: t.sort, val: t.val}
	if c := b.consts[k]; c != nil {
		return c
	}
	b.next++
	c := &Term{op: oConst, sort: t.sort, val: t.val, id: b.next}
	b.consts[k] = c
	return c
}

func (b *TB) mk(op Op, s Sort, aux uint8, args ...*Term) *Term {
	k := tkey{op: op, sort: s, aux: aux}
	var cc [3]*Term
	for i, x := range args {
		cc[i] = b.canon(x)
	}
	if cc[0] != nil {
		k.a = cc[0].id
	}
	if cc[1] != nil {
		k.b = cc[1].id
	}
	if cc[2] != nil {
		k.c = cc[2].id
	}
	if t := b.tab[k]; t != nil {
		return t
	}
	b.next++
	t := &Term{op: op, sort: s, aux: aux, id: b.next, a: cc}
	b.tab[k] = t
	return t
}

func (b *TB) Var(name string, s Sort) *Term {
	k := tkey{op: oVar, sort: s, name: name}
	if t := b.tab[k]; t != nil {
		return t
	}
	b.next++
	t := &Term{op: oVar, sort: s, id: b.next, name: name}
	b.tab[k] = t
	return t
}

func sameTerm(x, y *Term) bool {
	if x == y {
		return true
	}
	return x.op == oConst && y.op == oConst && x.sort == y.sort && x.val == y.val
}

func (b *TB) Not(x *Term) *Term {
	if x.op == oConst {
		return mkBool(x.val == 0)
	}
	if x.op == oNot {
		return x.a[0]
	}
	if x.op == oTab {
		return b.mapTab(x, sBool, func(e uint64) uint64 { return 1 - e })
	}
	return b.mk(oNot, sBool, 0, x)
}
func (b *TB) And(x, y *Term) *Term {
	if x.isFalse() || y.isFalse() {
		return falseT
	}
	if x.isTrue() {
		return y
	}
	if y.isTrue() || x == y {
		return x
	}
	if b.Not(x) == y {
		return falseT
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(oAnd, sBool, 0, x, y)
}
func (b *TB) Or(x, y *Term) *Term {
	if x.isTrue() || y.isTrue() {
		return trueT
	}
	if x.isFalse() {
		return y
	}
	if y.isFalse() || x == y {
		return x
	}
	if b.Not(x) == y {
		return trueT
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(oOr, sBool, 0, x, y)
}
func (b *TB) Ite(c, x, y *Term) *Term {
	if c.op == oConst {
		if c.val != 0 {
			return x
		}
		return y
	}
	if sameTerm(x, y) {
		return x
	}
	if x.sort == sBool {
		if x.isTrue() {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
	}
	if c.op == oNot {
		return b.mk(oIte, x.sort, 0, c.a[0], y, x)
	}
	return b.mk(oIte, x.sort, 0, c, x, y)
}
func (b *TB) Eq(x, y *Term) *Term {
	if x.sort.isFP() {
		panic("Eq on FP")
	}
	if sameTerm(x, y) {
		return trueT
	}
	if x.op == oConst && y.op == oConst {
		return falseT
	}
	if x.sort == sBool {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.op == oConst {
		x, y = y, x
	}
	if y.op == oConst {
		if x.sort.isBV() && y.val > ub(x) {
			return falseT
		}
		if x.op == oTab {
			return b.mapTab(x, sBool, func(e uint64) uint64 { return b2u(e == y.val) })
		}
		switch x.op {
		case oIte:
			if x.a[1].op == oConst || x.a[2].op == oConst {
				return b.Ite(x.a[0], b.Eq(x.a[1], y), b.Eq(x.a[2], y))
			}
		case oZext:
			if y.val > mask(x.a[0].sort) {
				return falseT
			}
			return b.Eq(x.a[0], mkConst(x.a[0].sort, y.val))
		case oSext:
			if uint64(signExt(y.val&mask(x.a[0].sort), x.a[0].sort))&mask(x.sort) != y.val {
				return falseT
			}
			return b.Eq(x.a[0], mkConst(x.a[0].sort, y.val))
		case oAdd:
			if x.a[1].op == oConst {
				return b.Eq(x.a[0], mkConst(x.sort, y.val-x.a[1].val))
			}
		}
		return b.mk(oEq, sBool, 0, x, y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(oEq, sBool, 0, x, y)
}

func fbin(op Op, s Sort, x, y uint64) uint64 {
	if s == sF64 {
		a, c := math.Float64frombits(x), math.Float64frombits(y)
		var r float64
		switch op {
		case oFAdd:
			r = a + c
		case oFSub:
			r = a - c
		case oFMul:
			r = a * c
		case oFDiv:
			r = a / c
		}
		return math.Float64bits(r)
	}
	a, c := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
	var r float32
	switch op {
	case oFAdd:
		r = a + c
	case oFSub:
		r = a - c
	case oFMul:
		r = a * c
	case oFDiv:
		r = a / c
	}
	return uint64(math.Float32bits(r))
}

func fval(s Sort, v uint64) float64 {
	if s == sF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp computes an operator on concrete operands. rs = result sort, s = operand sort.
func evalOp(op Op, rs Sort, aux uint8, s Sort, x, y, z uint64) uint64 {
	m := mask(s)
	switch op {
	case oNot:
		return 1 - x
	case oAnd:
		return x & y
	case oOr:
		return x | y
	case oXorB:
		return x ^ y
	case oEq:
		return b2u(x == y)
	case oIte:
		if x != 0 {
			return y
		}
		return z
	case oAdd:
		return (x + y) & m
	case oSub:
		return (x - y) & m
	case oMul:
		return (x * y) & m
	case oUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case oURem:
		if y == 0 {
			return x
		}
		return x % y
	case oSDiv:
		a, c := signExt(x, s), signExt(y, s)
		if c == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if c == -1 {
			return uint64(-a) & m
		}
		return uint64(a/c) & m
	case oSRem:
		a, c := signExt(x, s), signExt(y, s)
		if c == 0 {
			return x
		}
		if c == -1 {
			return 0
		}
		return uint64(a%c) & m
	case oBAnd:
		return x & y
	case oBOr:
		return x | y
	case oBXor:
		return x ^ y
	case oShl:
		if y >= uint64(s) {
			return 0
		}
		return (x << y) & m
	case oLShr:
		if y >= uint64(s) {
			return 0
		}
		return x >> y
	case oAShr:
		a := signExt(x, s)
		if y >= uint64(s) {
			y = 63
		}
		return uint64(a>>y) & m
	case oBNot:
		return ^x & m
	case oNeg:
		return -x & m
	case oUlt:
		return b2u(x < y)
	case oUle:
		return b2u(x <= y)
	case oSlt:
		return b2u(signExt(x, s) < signExt(y, s))
	case oSle:
		return b2u(signExt(x, s) <= signExt(y, s))
	case oZext:
		return x
	case oSext:
		return uint64(signExt(x, s)) & mask(rs)
	case oExtract:
		return (x >> aux) & mask(rs)
	case oFAdd, oFSub, oFMul, oFDiv:
		return fbin(op, s, x, y)
	case oFNeg:
		if s == sF32 {
			return x ^ (1 << 31)
		}
		return x ^ (1 << 63)
	case oFAbs:
		if s == sF32 {
			return x &^ (1 << 31)
		}
		return x &^ (1 << 63)
	case oFSqrt:
		return math.Float64bits(math.Sqrt(math.Float64frombits(x)))
	case oFLt:
		return b2u(fval(s, x) < fval(s, y))
	case oFLe:
		return b2u(fval(s, x) <= fval(s, y))
	case oFEq:
		return b2u(fval(s, x) == fval(s, y))
	case oFIsNaN:
		f := fval(s, x)
		return b2u(f != f)
	case oFFromBits:
		return x
	case oFFromS:
		v := signExt(x, s)
		if rs == sF32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case oFFromU:
		if rs == sF32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case oFToS:
		return uint64(int64(fval(s, x))) & mask(rs)
	case oFToU:
		return uint64(fval(s, x)) & mask(rs)
	case oFToF:
		if rs == sF32 {
			return uint64(math.Float32bits(float32(fval(s, x))))
		}
		return math.Float64bits(fval(s, x))
	case oFRound:
		f := fval(s, x)
		switch aux {
		case 0:
			f = math.RoundToEven(f)
		case 1:
			f = math.Trunc(f)
		case 2:
			f = math.Ceil(f)
		case 3:
			f = math.Floor(f)
		case 4:
			f = math.Round(f)
		}
		if s == sF32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

func isCommut(op Op) bool {
	switch op {
	case oAdd, oMul, oBAnd, oBOr, oBXor:
		return true
	}
	return false
}

// ub is an upper bound of t read as an unsigned number, from its structure alone.
func ub(t *Term) uint64 {
	if t.op == oConst {
		return t.val
	}
	if t.ubv != 0 {
		return t.ubv - 1
	}
	m := mask(t.sort)
	r := m
	switch t.op {
	case oZext:
		r = ub(t.a[0])
	case oAdd:
		if s, c := bits.Add64(ub(t.a[0]), ub(t.a[1]), 0); c == 0 && s <= m {
			r = s
		}
	case oMul:
		if h, l := bits.Mul64(ub(t.a[0]), ub(t.a[1])); h == 0 && l <= m {
			r = l
		}
	case oUDiv:
		if c := t.a[1]; c.op == oConst && c.val != 0 {
			r = ub(t.a[0]) / c.val
		}
	case oURem:
		if c := t.a[1]; c.op == oConst && c.val != 0 {
			r = min(ub(t.a[0]), c.val-1)
		}
	case oLShr:
		if c := t.a[1]; c.op == oConst {
			r = ub(t.a[0]) >> min(c.val, 64)
		}
	case oShl:
		if c := t.a[1]; c.op == oConst && c.val < 64 {
			if u := ub(t.a[0]); u<<c.val>>c.val == u && u<<c.val <= m {
				r = u << c.val
			}
		}
	case oBAnd:
		r = min(ub(t.a[0]), ub(t.a[1]))
	case oBOr, oBXor:
		if n := bits.Len64(ub(t.a[0]) | ub(t.a[1])); n < 64 {
			r = uint64(1)<<n - 1
		}
	case oIte:
		r = max(ub(t.a[1]), ub(t.a[2]))
	case oTab:
		r = 0
		for _, x := range tabOf(t).v {
			r = max(r, x)
		}
	case oExtract:
		if u := ub(t.a[0]); t.aux < 64 && u>>t.aux <= m {
			r = u >> t.aux
		}
	}
	r = min(r, m)
	if r != ^uint64(0) {
		t.ubv = r + 1
	}
	return r
}

// low is the low w bits of x, pushed through operations whose low bits depend on low bits only.
func (b *TB) low(x *Term, w Sort) *Term {
	if x.sort == w {
		return x
	}
	switch x.op {
	case oAdd, oSub, oMul, oBAnd, oBOr, oBXor:
		return b.Bin(x.op, b.low(x.a[0], w), b.low(x.a[1], w))
	case oIte:
		return b.Ite(x.a[0], b.low(x.a[1], w), b.low(x.a[2], w))
	}
	return b.Extract(x, 0, w)
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// narrow computes an unsigned division, remainder or product at the width its operands need.
func (b *TB) narrow(op Op, x, y *Term) *Term {
	if !x.sort.isBV() || x.sort < 16 {
		return nil
	}
	top := mask(x.sort) >> 1
	switch op {
	case oSDiv, oSRem:
		if ub(x) > top || ub(y) > top {
			return nil
		}
		if op == oSDiv {
			return b.Bin(oUDiv, x, y)
		}
		return b.Bin(oURem, x, y)
	case oSlt, oSle:
		if ub(x) > top || ub(y) > top {
			return nil
		}
		if op == oSlt {
			return b.Bin(oUlt, x, y)
		}
		return b.Bin(oUle, x, y)
	case oUlt:
		if y.op == oConst && ub(x) < y.val {
			return trueT
		}
		if x.op == oConst && ub(y) <= x.val {
			return falseT
		}
		return nil
	case oUle:
		if y.op == oConst && ub(x) <= y.val {
			return trueT
		}
		if x.op == oConst && ub(y) < x.val {
			return falseT
		}
		return nil
	case oUDiv, oURem:
		if y.op != oConst || y.val == 0 {
			return nil
		}
		if ub(x) < y.val {
			if op == oUDiv {
				return mkConst(x.sort, 0)
			}
			return x
		}
		z := x
		for z.op == oZext {
			z = z.a[0]
		}
		if z.op == oMul && z.a[1].op == oConst && z.a[1].val != 0 {
			// no overflow: common factors cancel
			if h, l := bits.Mul64(ub(z.a[0]), z.a[1].val); h == 0 && l <= mask(z.sort) {
				if g := gcd(z.a[1].val, y.val); g > 1 {
					q := b.Bin(oMul, b.Zext(z.a[0], x.sort), mkConst(x.sort, z.a[1].val/g))
					if op == oUDiv {
						return b.Bin(oUDiv, q, mkConst(x.sort, y.val/g))
					}
					return b.Bin(oMul, b.Bin(oURem, q, mkConst(x.sort, y.val/g)), mkConst(x.sort, g))
				}
			}
		}
		if op == oUDiv && z.op == oUDiv && z.a[1].op == oConst && z.a[1].val != 0 {
			if h, l := bits.Mul64(z.a[1].val, y.val); h == 0 && l <= mask(x.sort) {
				return b.Bin(oUDiv, b.Zext(z.a[0], x.sort), mkConst(x.sort, l))
			}
			return mkConst(x.sort, 0)
		}
		w := Sort(bits.Len64(ub(x)))
		if w+4 > x.sort {
			return nil
		}
		return b.Zext(b.Bin(op, b.low(x, w), mkConst(w, y.val)), x.sort)
	}
	return nil
}

func (b *TB) Bin(op Op, x, y *Term) *Term {
	rs := x.sort
	switch op {
	case oUlt, oUle, oSlt, oSle, oFLt, oFLe, oFEq:
		rs = sBool
	}
	if x.op == oConst && y.op == oConst {
		return mkConst(rs, evalOp(op, rs, 0, x.sort, x.val, y.val, 0))
	}
	if x.op == oTab || y.op == oTab {
		if r := b.tabBin(op, rs, x, y); r != nil {
			return r
		}
	}
	if isCommut(op) {
		if x.op == oConst || (y.op != oConst && x.id > y.id) {
			x, y = y, x
		}
	}
	m := mask(x.sort)
	if y.op == oConst {
		switch op {
		case oAdd, oSub, oBOr, oBXor, oShl, oLShr, oAShr:
			if y.val == 0 {
				return x
			}
		case oMul:
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
			if x.op == oMul && x.a[1].op == oConst {
				return b.Bin(oMul, x.a[0], mkConst(x.sort, x.a[1].val*y.val))
			}
		case oBAnd:
			if y.val == 0 {
				return y
			}
			if y.val == m {
				return x
			}
			// contiguous low mask
			if y.val&(y.val+1) == 0 && y.val != m {
				w := Sort(bits.Len64(y.val))
				return b.Zext(b.Extract(x, 0, w), x.sort)
			}
		case oUDiv, oSDiv:
			if y.val == 1 {
				return x
			}
			if op == oUDiv && y.val != 0 && y.val&(y.val-1) == 0 {
				return b.Bin(oLShr, x, mkConst(x.sort, uint64(bits.TrailingZeros64(y.val))))
			}
		case oURem:
			if y.val == 1 {
				return mkConst(x.sort, 0)
			}
			if y.val != 0 && y.val&(y.val-1) == 0 {
				return b.Bin(oBAnd, x, mkConst(x.sort, y.val-1))
			}
		case oUlt:
			if y.val == 0 {
				return falseT
			}
		case oUle:
			if y.val == m {
				return trueT
			}
		}
		if op == oSub {
			return b.Bin(oAdd, x, mkConst(x.sort, -y.val))
		}
		if op == oAdd && x.op == oAdd && x.a[1].op == oConst {
			return b.Bin(oAdd, x.a[0], mkConst(x.sort, x.a[1].val+y.val))
		}
		if (op == oUlt || op == oUle) && x.op == oZext {
			if y.val > mask(x.a[0].sort) {
				return trueT
			}
			return b.Bin(op, x.a[0], mkConst(x.a[0].sort, y.val))
		}
		if (op == oSlt || op == oSle) && x.op == oZext && x.a[0].sort < x.sort {
			sv := signExt(y.val, x.sort)
			if sv < 0 {
				return falseT
			}
			if uint64(sv) > mask(x.a[0].sort) {
				return trueT
			}
			if op == oSlt {
				return b.Bin(oUlt, x.a[0], mkConst(x.a[0].sort, y.val))
			}
			return b.Bin(oUle, x.a[0], mkConst(x.a[0].sort, y.val))
		}
		if x.op == oIte && (x.a[1].op == oConst && x.a[2].op == oConst) {
			return b.Ite(x.a[0], b.Bin(op, x.a[1], y), b.Bin(op, x.a[2], y))
		}
	} else if x.op == oConst {
		switch op {
		case oUlt:
			if x.val == m {
				return falseT
			}
		case oUle:
			if x.val == 0 {
				return trueT
			}
		case oShl, oLShr:
			if x.val == 0 {
				return x
			}
		}
		if (op == oSlt || op == oSle) && y.op == oZext && y.a[0].sort < y.sort {
			sv := signExt(x.val, x.sort)
			if sv < 0 {
				return trueT
			}
			if uint64(sv) > mask(y.a[0].sort) {
				return falseT
			}
			if op == oSlt {
				return b.Bin(oUlt, mkConst(y.a[0].sort, x.val), y.a[0])
			}
			return b.Bin(oUle, mkConst(y.a[0].sort, x.val), y.a[0])
		}
		if (op == oUlt || op == oUle) && y.op == oZext {
			if x.val > mask(y.a[0].sort) {
				return falseT
			}
			return b.Bin(op, mkConst(y.a[0].sort, x.val), y.a[0])
		}
		if y.op == oIte && (y.a[1].op == oConst && y.a[2].op == oConst) {
			return b.Ite(y.a[0], b.Bin(op, x, y.a[1]), b.Bin(op, x, y.a[2]))
		}
	} else {
		if x == y {
			switch op {
			case oSub, oBXor:
				return mkConst(x.sort, 0)
			case oBAnd, oBOr:
				return x
			case oUlt, oSlt:
				return falseT
			case oUle, oSle:
				return trueT
			}
		}
		if x.op == oZext && y.op == oZext && x.a[0].sort == y.a[0].sort && x.a[0].sort < x.sort {
			switch op {
			case oUlt, oSlt:
				return b.Bin(oUlt, x.a[0], y.a[0])
			case oUle, oSle:
				return b.Bin(oUle, x.a[0], y.a[0])
			}
		}
	}
	switch op {
	case oSDiv, oSRem, oUDiv, oURem, oSlt, oSle, oUlt, oUle:
		if r := b.narrow(op, x, y); r != nil {
			return r
		}
	}
	return b.mk(op, rs, 0, x, y)
}

func (b *TB) Un(op Op, rs Sort, aux uint8, x *Term) *Term {
	if x.op == oConst {
		return mkConst(rs, evalOp(op, rs, aux, x.sort, x.val, 0, 0))
	}
	return b.mk(op, rs, aux, x)
}
func (b *TB) Zext(x *Term, w Sort) *Term {
	if x.sort == w {
		return x
	}
	if x.op == oConst {
		return mkConst(w, x.val)
	}
	if x.op == oZext {
		return b.Zext(x.a[0], w)
	}
	return b.mk(oZext, w, 0, x)
}
func (b *TB) Sext(x *Term, w Sort) *Term {
	if x.sort == w {
		return x
	}
	if x.op == oConst {
		return mkConst(w, uint64(signExt(x.val, x.sort)))
	}
	if x.op == oZext {
		return b.Zext(x.a[0], w)
	}
	if x.op == oTab {
		s := x.sort
		return b.mapTab(x, w, func(e uint64) uint64 { return uint64(signExt(e, s)) })
	}
	return b.mk(oSext, w, 0, x)
}
func (b *TB) Extract(x *Term, off uint8, w Sort) *Term {
	if off == 0 && x.sort == w {
		return x
	}
	if x.op == oConst {
		return mkConst(w, x.val>>off)
	}
	if (x.op == oZext || x.op == oSext) && off == 0 {
		if x.a[0].sort == w {
			return x.a[0]
		}
		if x.a[0].sort > w {
			return b.Extract(x.a[0], 0, w)
		}
		if x.op == oZext {
			return b.Zext(x.a[0], w)
		}
		return b.Sext(x.a[0], w)
	}
	if x.op == oZext && off >= uint8(x.a[0].sort) {
		return mkConst(w, 0)
	}
	if x.op == oZext && off+uint8(w) <= uint8(x.a[0].sort) {
		return b.Extract(x.a[0], off, w)
	}
	if x.op == oExtract {
		return b.Extract(x.a[0], x.aux+off, w)
	}
	if x.op == oTab {
		return b.mapTab(x, w, func(e uint64) uint64 { return e >> off })
	}
	if x.op == oIte && x.a[1].op == oConst && x.a[2].op == oConst {
		return b.Ite(x.a[0], b.Extract(x.a[1], off, w), b.Extract(x.a[2], off, w))
	}
	return b.mk(oExtract, w, off, x)
}

// Resize converts an integer term to width w, sign-extending when signed.
func (b *TB) Resize(x *Term, signed bool, w Sort) *Term {
	if x.sort == w {
		return x
	}
	if x.sort > w {
		return b.Extract(x, 0, w)
	}
	if signed {
		return b.Sext(x, w)
	}
	return b.Zext(x, w)
}

type Model map[string]uint64

// eval evaluates t under the model (missing vars are 0). Memoised per generation.
func (b *TB) eval(t *Term, m Model) uint64 {
	switch t.op {
	case oConst:
		return t.val
	case oVar:
		return m[t.name]
	}
	if t.gen == b.gen {
		return t.ev
	}
	var v [3]uint64
	if t.op == oIte {
		v[0] = b.eval(t.a[0], m)
		if v[0] != 0 {
			v[1] = b.eval(t.a[1], m)
		} else {
			v[2] = b.eval(t.a[2], m)
		}
	} else {
		for i, x := range t.a {
			if x != nil {
				v[i] = b.eval(x, m)
			}
		}
	}
	if t.op == oTab {
		v := tabOf(t).v
		t.gen, t.ev = b.gen, v[b.eval(t.a[0], m)&uint64(len(v)-1)]
		return t.ev
	}
	s := t.sort
	if t.a[0] != nil {
		s = t.a[0].sort
	}
	r := evalOp(t.op, t.sort, t.aux, s, v[0], v[1], v[2])
	t.gen = b.gen
	t.ev = r
	return r
}

var smtOps = map[Op]string{
	oNot: "not", oAnd: "and", oOr: "or", oXorB: "xor", oEq: "=", oIte: "ite",
	oAdd: "bvadd", oSub: "bvsub", oMul: "bvmul", oUDiv: "bvudiv", oSDiv: "bvsdiv", oURem: "bvurem", oSRem: "bvsrem",
	oBAnd: "bvand", oBOr: "bvor", oBXor: "bvxor", oShl: "bvshl", oLShr: "bvlshr", oAShr: "bvashr", oBNot: "bvnot", oNeg: "bvneg",
	oUlt: "bvult", oUle: "bvule", oSlt: "bvslt", oSle: "bvsle",
	oFAdd: "fp.add RNE", oFSub: "fp.sub RNE", oFMul: "fp.mul RNE", oFDiv: "fp.div RNE", oFNeg: "fp.neg", oFAbs: "fp.abs", oFSqrt: "fp.sqrt RNE",
	oFLt: "fp.lt", oFLe: "fp.leq", oFEq: "fp.eq", oFIsNaN: "fp.isNaN",
}

func smtConst(t *Term) string {
	switch {
	case t.sort == sBool:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case t.sort == sF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	case t.sort == sF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", uint32(t.val))
	case t.sort%4 == 0:
		return fmt.Sprintf("#x%0*x", int(t.sort/4), t.val)
	default:
		return fmt.Sprintf("#b%0*b", int(t.sort), t.val)
	}
}

func fpDims(s Sort) string {
	if s == sF32 {
		return "8 24"
	}
	return "11 53"
}

func smtRef(t *Term) string {
	switch t.op {
	case oConst:
		return smtConst(t)
	case oVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func smtBody(t *Term) string {
	if t.op == oTab {
		return smtTab(t)
	}
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case oZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.sort-t.a[0].sort)
	case oSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.sort-t.a[0].sort)
	case oExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", int(t.aux)+int(t.sort)-1, t.aux)
	case oFFromBits:
		fmt.Fprintf(&sb, "(_ to_fp %s)", fpDims(t.sort))
	case oFFromS, oFToF:
		fmt.Fprintf(&sb, "(_ to_fp %s) RNE", fpDims(t.sort))
	case oFFromU:
		fmt.Fprintf(&sb, "(_ to_fp_unsigned %s) RNE", fpDims(t.sort))
	case oFToS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.sort)
	case oFToU:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", t.sort)
	case oFRound:
		sb.WriteString("fp.roundToIntegral " + []string{"RNE", "RTZ", "RTP", "RTN", "RNA"}[t.aux])
	default:
		sb.WriteString(smtOps[t.op])
	}
	for _, x := range t.a {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(smtRef(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string { return termStr(t, 6) }
func termStr(t *Term, d int) string {
	if t.op == oConst {
		if t.sort == sF64 {
			return fmt.Sprint(math.Float64frombits(t.val))
		}
		if t.sort == sBool {
			return smtConst(t)
		}
		return fmt.Sprint(t.sval())
	}
	if t.op == oVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	s := "(" + smtOps[t.op]
	if smtOps[t.op] == "" {
		s += fmt.Sprintf("op%d/%d", t.op, t.sort)
	}
	for _, x := range t.a {
		if x != nil {
			s += " " + termStr(x, d-1)
		}
	}
	return s + ")"
}
