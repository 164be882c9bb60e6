package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Terms: hash-consed SMT terms over Bool, BitVec(w<=64) and IEEE floats.

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KFP
)

type Sort struct {
	K Kind
	W uint8
}

var BoolS = Sort{KBool, 1}

func BV(w int) Sort  { return Sort{KBV, uint8(w)} }
func FPS(w int) Sort { return Sort{KFP, uint8(w)} }

func (s Sort) SMT() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	if s.W == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // val = hi<<8|lo
	OZExt
	OSExt
	OFFromBits
	OFLt
	OFLe
	OFEq
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFFromS // signed bv -> fp
	OFFromU
	OFToF // fp->fp
	OFIsNaN
	OFToS // float to signed integer, truncating; only meaningful in range
	OFFloor
	OFCeil
	OFTrunc
	OFRound
	OFRoundEven
	OFSqrt
	OFAbs
	OFIsNeg // sign bit; the sign of a NaN is taken to be clear
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFIsNaN: "fp.isNaN",
	OFFloor: "fp.roundToIntegral RTN", OFCeil: "fp.roundToIntegral RTP", OFTrunc: "fp.roundToIntegral RTZ", OFRound: "fp.roundToIntegral RNA", OFRoundEven: "fp.roundToIntegral RNE", OFSqrt: "fp.sqrt RNE", OFAbs: "fp.abs", OFIsNeg: "fp.isNegative"}

type Term struct {
	id   int
	op   Op
	sort Sort
	val  uint64
	name string
	args []*Term
	vars []*Term // lazily computed free variables (sorted by id)
	vok  bool
}

type termKey struct {
	op      Op
	sort    Sort
	val     uint64
	name    string
	a, b, c int
	rest    string
}

type TermTable struct {
	m    map[termKey]*Term
	list []*Term
}

var TT = &TermTable{m: map[termKey]*Term{}}

func mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: s, val: val, name: name}
	switch len(args) {
	case 0:
	case 1:
		k.a = args[0].id + 1
	case 2:
		k.a, k.b = args[0].id+1, args[1].id+1
	case 3:
		k.a, k.b, k.c = args[0].id+1, args[1].id+1, args[2].id+1
	default:
		var sb strings.Builder
		for _, a := range args {
			sb.WriteString(strconv.Itoa(a.id))
			sb.WriteByte(',')
		}
		k.rest = sb.String()
	}
	if t, ok := TT.m[k]; ok {
		return t
	}
	t := &Term{id: len(TT.list), op: op, sort: s, val: val, name: name, args: append([]*Term(nil), args...)}
	TT.list = append(TT.list, t)
	TT.m[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func Const(s Sort, v uint64) *Term { return mk(OConst, s, v&mask(s.W), "") }
func BVc(w int, v uint64) *Term    { return Const(BV(w), v) }

var True = Const(BoolS, 1)
var False = Const(BoolS, 0)

func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Var(name string, s Sort) *Term {
	if s.K == KFP {
		return FFromBits(Var(name, BV(int(s.W))))
	}
	return mk(OVar, s, 0, name)
}
func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t == True }
func (t *Term) IsFalse() bool { return t == False }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}
func (t *Term) Int() int64   { return sext(t.val, t.sort.W) }
func (t *Term) Uint() uint64 { return t.val }

func Not(a *Term) *Term {
	if a.IsConst() {
		return BoolC(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return mk(ONot, BoolS, 0, "", a)
}

func And(as ...*Term) *Term { return nary(OAnd, as) }
func Or(as ...*Term) *Term  { return nary(OOr, as) }

func nary(op Op, as []*Term) *Term {
	var unit, zero = True, False
	if op == OOr {
		unit, zero = False, True
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == zero {
			return false
		}
		if a == unit || seen[a.id] {
			return true
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a.op == ONot && seen[a.args[0].id] {
			return false
		}
		if seen[-1-a.id] {
			return false
		}
		seen[a.id] = true
		if a.op == ONot {
			seen[-1-a.args[0].id] = true
		}
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	// canonical order
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j-1].id > out[j].id; j-- {
			out[j-1], out[j] = out[j], out[j-1]
		}
	}
	return mk(op, BoolS, 0, "", out...)
}

func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v", a, b))
	}
	if a.sort.K == KFP {
		return fbin(OFEq, BoolS, a, b)
	}
	if a == b {
		return True
	}
	if a.IsConst() && b.IsConst() {
		return False
	}
	if b.IsConst() || (!a.IsConst() && a.id > b.id) {
		a, b = b, a
	}
	// a const possibly
	if a.IsConst() {
		if a.sort.K == KBool {
			if a.IsTrue() {
				return b
			}
			return Not(b)
		}
		switch b.op {
		case OIte:
			x, y := b.args[1], b.args[2]
			if x.IsConst() || y.IsConst() {
				ex, ey := Eq(a, x), Eq(a, y)
				return Or(And(b.args[0], ex), And(Not(b.args[0]), ey))
			}
		case OAdd:
			if b.args[0].IsConst() {
				return Eq(BVc(int(a.sort.W), a.val-b.args[0].val), b.args[1])
			}
		case OZExt:
			w := b.args[0].sort.W
			if a.val > mask(w) {
				return False
			}
			return Eq(BVc(int(w), a.val), b.args[0])
		case OSExt:
			w := b.args[0].sort.W
			if uint64(sext(a.val&mask(w), w))&mask(a.sort.W) != a.val {
				return False
			}
			return Eq(BVc(int(w), a.val), b.args[0])
		}
	} else {
		if a.op == OAdd && b.op == OAdd && a.args[0].IsConst() && b.args[0].IsConst() {
			if a.args[1] == b.args[1] {
				return BoolC(a.args[0].val == b.args[0].val)
			}
			if a.args[0] == b.args[0] {
				return Eq(a.args[1], b.args[1])
			}
		}
		if b.op == OAdd && b.args[0].IsConst() && b.args[1] == a || a.op == OAdd && a.args[0].IsConst() && a.args[1] == b {
			return False // constants in sums are non-zero
		}
		if a.op == OZExt && b.op == OZExt && a.args[0].sort == b.args[0].sort {
			return Eq(a.args[0], b.args[0])
		}
		if a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a {
			return False
		}
	}
	return mk(OEq, BoolS, 0, "", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c.IsTrue() || a == b {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a.sort.K == KBool {
		if a.IsTrue() {
			return Or(c, b)
		}
		if a.IsFalse() {
			return And(Not(c), b)
		}
		if b.IsTrue() {
			return Or(Not(c), a)
		}
		if b.IsFalse() {
			return And(c, a)
		}
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if a == b {
		return a
	}
	return mk(OIte, a.sort, 0, "", c, a, b)
}

func evalBV(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		a := sext(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(a>>y) & m
	}
	panic("evalBV")
}

func Bin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin sort mismatch %v %v %v", opName[op], a, b))
	}
	w := a.sort.W
	if a.IsConst() && b.IsConst() {
		return Const(a.sort, evalBV(op, w, a.val, b.val))
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if b.IsConst() || (!a.IsConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	m := mask(w)
	switch op {
	case OAdd:
		if a.IsConst() {
			if a.val == 0 {
				return b
			}
			if b.op == OAdd && b.args[0].IsConst() {
				return Bin(OAdd, Const(a.sort, a.val+b.args[0].val), b.args[1])
			}
		} else {
			if a.op == OAdd && a.args[0].IsConst() {
				return Bin(OAdd, a.args[0], Bin(OAdd, a.args[1], b))
			}
			if b.op == OAdd && b.args[0].IsConst() {
				return Bin(OAdd, b.args[0], Bin(OAdd, a, b.args[1]))
			}
			// x + (y - x) style: a - handled in Sub
		}
	case OSub:
		if b.IsConst() {
			return Bin(OAdd, Const(a.sort, -b.val), a)
		}
		if a == b {
			return Const(a.sort, 0)
		}
		// (c+x) - x
		if a.op == OAdd {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
			if a.args[0].IsConst() && b.op == OAdd && b.args[0].IsConst() {
				return Bin(OAdd, Const(a.sort, a.args[0].val-b.args[0].val), Bin(OSub, a.args[1], b.args[1]))
			}
			if a.args[0].IsConst() {
				return Bin(OAdd, a.args[0], Bin(OSub, a.args[1], b))
			}
		}
		if b.op == OAdd && b.args[0].IsConst() {
			return Bin(OAdd, Const(a.sort, -b.args[0].val), Bin(OSub, a, b.args[1]))
		}
		if b.op == OAdd && b.args[0] == a {
			return Neg(b.args[1])
		}
		if b.op == OAdd && b.args[1] == a {
			return Neg(b.args[0])
		}
	case OMul:
		if a.IsConst() {
			if a.val == 0 {
				return a
			}
			if a.val == 1 {
				return b
			}
		}
	case OBAnd:
		if a == b {
			return a
		}
		if a.IsConst() {
			if a.val == 0 {
				return a
			}
			if a.val == m {
				return b
			}
		}
	case OBOr:
		if a == b {
			return a
		}
		if a.IsConst() {
			if a.val == 0 {
				return b
			}
			if a.val == m {
				return a
			}
		}
	case OBXor:
		if a == b {
			return Const(a.sort, 0)
		}
		if a.IsConst() && a.val == 0 {
			return b
		}
	case OShl, OLShr, OAShr:
		if b.IsConst() && b.val == 0 {
			return a
		}
		if b.IsConst() && b.val >= uint64(w) && op != OAShr {
			return Const(a.sort, 0)
		}
		if a.IsConst() && a.val == 0 {
			return a
		}
	case OUDiv, OSDiv:
		if b.IsConst() && b.val == 1 {
			return a
		}
		// (x/c)/d = x/(cd) for truncated division by positive constants; 0 if cd exceeds every magnitude
		if a.op == op && b.IsConst() && a.args[1].IsConst() && a.sort.W <= 64 {
			c, d := a.args[1].val, b.val
			if op == OUDiv && c > 0 && d > 0 || sext(c, uint8(w)) > 0 && sext(d, uint8(w)) > 0 {
				hi, lo := bits.Mul64(c, d)
				lim := mask(uint8(w))
				if op == OSDiv {
					lim >>= 1
				}
				if hi == 0 && lo <= lim {
					return Bin(op, a.args[0], Const(a.sort, lo))
				}
				if hi > 0 || lo > lim+1 {
					return Const(a.sort, 0)
				}
			}
		}
	}
	return mk(op, a.sort, 0, "", a, b)
}

func Neg(a *Term) *Term {
	if a.IsConst() {
		return Const(a.sort, -a.val)
	}
	if a.op == ONeg {
		return a.args[0]
	}
	return mk(ONeg, a.sort, 0, "", a)
}
func BNot(a *Term) *Term {
	if a.IsConst() {
		return Const(a.sort, ^a.val)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return mk(OBNot, a.sort, 0, "", a)
}

func evalCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext(x, w) < sext(y, w)
	case OSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("evalCmp")
}

func Cmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Cmp sort mismatch %v %v", a, b))
	}
	w := a.sort.W
	if a.IsConst() && b.IsConst() {
		return BoolC(evalCmp(op, w, a.val, b.val))
	}
	if a == b {
		return BoolC(op == OUle || op == OSle)
	}
	switch op {
	case OUlt:
		if b.IsConst() && b.val == 0 {
			return False
		}
	case OUle:
		if a.IsConst() && a.val == 0 {
			return True
		}
		return Not(Cmp(OUlt, b, a))
	case OSle:
		return Not(Cmp(OSlt, b, a))
	}
	return mk(op, BoolS, 0, "", a, b)
}

func Extract(hi, lo int, a *Term) *Term {
	if lo == 0 && hi == int(a.sort.W)-1 {
		return a
	}
	w := hi - lo + 1
	if a.IsConst() {
		return BVc(w, a.val>>uint(lo))
	}
	switch a.op {
	case OExtract:
		l := int(a.val & 0xff)
		return Extract(hi+l, lo+l, a.args[0])
	case OZExt, OSExt:
		in := int(a.args[0].sort.W)
		if hi < in {
			return Extract(hi, lo, a.args[0])
		}
		if a.op == OZExt && lo >= in {
			return BVc(w, 0)
		}
	case OConcat:
		lw := int(a.args[1].sort.W)
		if hi < lw {
			return Extract(hi, lo, a.args[1])
		}
		if lo >= lw {
			return Extract(hi-lw, lo-lw, a.args[0])
		}
	case OLShr:
		if a.args[1].IsConst() {
			s := int(a.args[1].val)
			if hi+s < int(a.sort.W) {
				return Extract(hi+s, lo+s, a.args[0])
			}
		}
	case OAShr:
		if a.args[1].IsConst() {
			s := int(a.args[1].val)
			if s < 64 && hi+s < int(a.sort.W) {
				return Extract(hi+s, lo+s, a.args[0])
			}
		}
	case OShl:
		if a.args[1].IsConst() {
			s := int(a.args[1].val)
			if lo >= s {
				return Extract(hi-s, lo-s, a.args[0])
			}
			if hi < s {
				return BVc(w, 0)
			}
		}
	case OBOr, OBAnd, OBXor:
		return Bin(a.op, Extract(hi, lo, a.args[0]), Extract(hi, lo, a.args[1]))
	case OIte:
		if a.args[1].IsConst() || a.args[2].IsConst() {
			return Ite(a.args[0], Extract(hi, lo, a.args[1]), Extract(hi, lo, a.args[2]))
		}
	}
	return mk(OExtract, BV(w), uint64(hi)<<8|uint64(lo), "", a)
}

func ZExt(w int, a *Term) *Term {
	if w == int(a.sort.W) {
		return a
	}
	if w < int(a.sort.W) {
		return Extract(w-1, 0, a)
	}
	if a.IsConst() {
		return BVc(w, a.val)
	}
	if a.op == OZExt {
		return ZExt(w, a.args[0])
	}
	return mk(OZExt, BV(w), 0, "", a)
}
func SExt(w int, a *Term) *Term {
	if w == int(a.sort.W) {
		return a
	}
	if w < int(a.sort.W) {
		return Extract(w-1, 0, a)
	}
	if a.IsConst() {
		return BVc(w, uint64(a.Int()))
	}
	if a.op == OZExt {
		return ZExt(w, a.args[0])
	}
	return mk(OSExt, BV(w), 0, "", a)
}

// floats: constants hold their IEEE bits
func FC(w int, f float64) *Term {
	if w == 32 {
		return Const(FPS(32), uint64(math.Float32bits(float32(f))))
	}
	return Const(FPS(64), math.Float64bits(f))
}
func (t *Term) Float() float64 { return bitsF(t.val, t.sort.W) }
func bitsF(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func FFromBits(a *Term) *Term {
	if a.IsConst() {
		return Const(FPS(int(a.sort.W)), a.val)
	}
	return mk(OFFromBits, FPS(int(a.sort.W)), 0, "", a)
}
func evalF(op Op, w uint8, x, y uint64) uint64 {
	a, b := bitsF(x, w), bitsF(y, w)
	bo := func(v bool) uint64 {
		if v {
			return 1
		}
		return 0
	}
	switch op {
	case OFLt:
		return bo(a < b)
	case OFLe:
		return bo(a <= b)
	case OFEq:
		return bo(a == b)
	}
	if w == 32 {
		p, q := float32(a), float32(b)
		var r float32
		switch op {
		case OFAdd:
			r = p + q
		case OFSub:
			r = p - q
		case OFMul:
			r = p * q
		case OFDiv:
			r = p / q
		}
		return uint64(math.Float32bits(r))
	}
	var r float64
	switch op {
	case OFAdd:
		r = a + b
	case OFSub:
		r = a - b
	case OFMul:
		r = a * b
	case OFDiv:
		r = a / b
	}
	return math.Float64bits(r)
}
func fbin(op Op, s Sort, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Const(s, evalF(op, a.sort.W, a.val, b.val))
	}
	return mk(op, s, 0, "", a, b)
}
func FNeg(a *Term) *Term {
	if a.IsConst() {
		return Const(a.sort, fbits(-a.Float(), a.sort.W))
	}
	return mk(OFNeg, a.sort, 0, "", a)
}
func FFromInt(a *Term, signed bool, w int) *Term {
	if a.IsConst() {
		if signed {
			return FC(w, float64(a.Int()))
		}
		return FC(w, float64(a.val))
	}
	op := OFFromU
	if signed {
		op = OFFromS
	}
	return mk(op, FPS(w), 0, "", a)
}
func FToF(a *Term, w int) *Term {
	if int(a.sort.W) == w {
		return a
	}
	if a.IsConst() {
		return FC(w, a.Float())
	}
	return mk(OFToF, FPS(w), 0, "", a)
}

// fun applies a unary rounding function, the root or the absolute value.
func fun(op Op, a *Term) *Term {
	if a.IsConst() {
		return Const(a.sort, evalFU(op, a.sort.W, a.val))
	}
	return mk(op, a.sort, 0, "", a)
}
func evalFU(op Op, w uint8, v uint64) uint64 {
	f := bitsF(v, w)
	switch op {
	case OFFloor:
		f = math.Floor(f)
	case OFCeil:
		f = math.Ceil(f)
	case OFTrunc:
		f = math.Trunc(f)
	case OFRound:
		f = math.Round(f)
	case OFRoundEven:
		f = math.RoundToEven(f)
	case OFSqrt:
		if w == 32 {
			return uint64(math.Float32bits(float32(math.Sqrt(f))))
		}
		f = math.Sqrt(f)
	case OFAbs:
		f = math.Abs(f)
	}
	return fbits(f, w)
}

// FToInt is Go's conversion on amd64: truncation, and the smallest signed integer where that does
// not fit (the language leaves those values to the implementation).
func FToInt(a *Term, w int, signed bool) *Term {
	a = FToF(a, 64)
	to := func(a *Term, w int) *Term {
		if a.IsConst() {
			return BVc(w, evalFToS(a.val, uint8(w)))
		}
		lim := math.Ldexp(1, w-1)
		lo := fbin(OFLe, BoolS, FC(64, -lim), a)
		if w < 53 {
			lo = fbin(OFLt, BoolS, FC(64, -lim-1), a)
		}
		in := And(lo, fbin(OFLt, BoolS, a, FC(64, lim)))
		return Ite(in, mk(OFToS, BV(w), 0, "", a), BVc(w, 1<<(w-1)))
	}
	switch {
	case signed && w >= 32:
		return to(a, w)
	case w < 32:
		return Extract(w-1, 0, to(a, 32))
	case w == 32:
		return Extract(31, 0, to(a, 64))
	}
	big := fbin(OFLe, BoolS, FC(64, math.Ldexp(1, 63)), a)
	hi := Bin(OBXor, to(fbin(OFSub, FPS(64), a, FC(64, math.Ldexp(1, 63))), 64), BVc(64, 1<<63))
	return Ite(big, hi, to(a, 64))
}
func evalFToS(v uint64, w uint8) uint64 {
	f := math.Trunc(math.Float64frombits(v))
	lim := math.Ldexp(1, int(w)-1)
	if f >= -lim && f < lim {
		return uint64(int64(f)) & mask(w)
	}
	return 1 << (w - 1)
}
func FIsNaN(a *Term) *Term {
	if a.IsConst() {
		return BoolC(math.IsNaN(a.Float()))
	}
	return mk(OFIsNaN, BoolS, 0, "", a)
}

// Vars returns the free variables of t.
func (t *Term) Vars() []*Term {
	if t.vok {
		return t.vars
	}
	if t.op == OVar {
		t.vars = []*Term{t}
	} else if len(t.args) == 1 {
		t.vars = t.args[0].Vars()
	} else {
		set := map[*Term]bool{}
		for _, a := range t.args {
			for _, v := range a.Vars() {
				if !set[v] {
					set[v] = true
					t.vars = append(t.vars, v)
				}
			}
		}
	}
	t.vok = true
	return t.vars
}

func (t *Term) String() string {
	return t.str(4)
}
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.sort.K == KBool {
			return strconv.FormatBool(t.val == 1)
		}
		if t.sort.K == KFP {
			return fmt.Sprint(t.Float())
		}
		return strconv.FormatInt(t.Int(), 10)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	var sb strings.Builder
	n := opName[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	sb.WriteString("(" + n)
	for _, a := range t.args {
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}

// smtBody renders t with its arguments referenced by name.
func (t *Term) smtBody(ref func(*Term) string) string {
	switch t.op {
	case OConst:
		switch t.sort.K {
		case KBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case KBV:
			return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.W)
		default:
			if t.sort.W == 32 {
				return fmt.Sprintf("((_ to_fp 8 24) (_ bv%d 32))", t.val)
			}
			return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.val)
		}
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, ref(t.args[0]))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.W-t.args[0].sort.W, ref(t.args[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.W-t.args[0].sort.W, ref(t.args[0]))
	case OFFromBits:
		if t.sort.W == 32 {
			return fmt.Sprintf("((_ to_fp 8 24) %s)", ref(t.args[0]))
		}
		return fmt.Sprintf("((_ to_fp 11 53) %s)", ref(t.args[0]))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.sort.W, ref(t.args[0]))
	case OFFromS, OFFromU, OFToF:
		fn := "to_fp"
		if t.op == OFFromU {
			fn = "to_fp_unsigned"
		}
		if t.sort.W == 32 {
			return fmt.Sprintf("((_ %s 8 24) RNE %s)", fn, ref(t.args[0]))
		}
		return fmt.Sprintf("((_ %s 11 53) RNE %s)", fn, ref(t.args[0]))
	}
	var sb strings.Builder
	sb.WriteString("(" + opName[t.op])
	for _, a := range t.args {
		sb.WriteString(" " + ref(a))
	}
	sb.WriteString(")")
	return sb.String()
}

// Model: assignment of variables; missing variables are 0.
type Model struct {
	m    map[*Term]uint64
	memo map[*Term]uint64
}

func NewModel() *Model { return &Model{m: map[*Term]uint64{}, memo: map[*Term]uint64{}} }
func (m *Model) With(upd map[*Term]uint64) *Model {
	n := NewModel()
	for k, v := range m.m {
		n.m[k] = v
	}
	for k, v := range upd {
		n.m[k] = v
	}
	return n
}
func (m *Model) Eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m.m[t]
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	v := m.eval(t)
	m.memo[t] = v
	return v
}
func (m *Model) True(t *Term) bool { return m.Eval(t) == 1 }
func (m *Model) eval(t *Term) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		return 1 - m.Eval(t.args[0])
	case OAnd:
		for _, a := range t.args {
			if m.Eval(a) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, a := range t.args {
			if m.Eval(a) == 1 {
				return 1
			}
		}
		return 0
	case OEq:
		return b2u(m.Eval(t.args[0]) == m.Eval(t.args[1]))
	case OIte:
		if m.Eval(t.args[0]) == 1 {
			return m.Eval(t.args[1])
		}
		return m.Eval(t.args[2])
	case OUlt, OUle, OSlt, OSle:
		return b2u(evalCmp(t.op, t.args[0].sort.W, m.Eval(t.args[0]), m.Eval(t.args[1])))
	case OBNot:
		return ^m.Eval(t.args[0]) & mask(t.sort.W)
	case ONeg:
		return -m.Eval(t.args[0]) & mask(t.sort.W)
	case OConcat:
		return m.Eval(t.args[0])<<t.args[1].sort.W | m.Eval(t.args[1])
	case OExtract:
		return (m.Eval(t.args[0]) >> (t.val & 0xff)) & mask(t.sort.W)
	case OZExt:
		return m.Eval(t.args[0])
	case OSExt:
		return uint64(sext(m.Eval(t.args[0]), t.args[0].sort.W)) & mask(t.sort.W)
	case OFFromBits:
		return m.Eval(t.args[0])
	case OFLt, OFLe, OFEq, OFAdd, OFSub, OFMul, OFDiv:
		return evalF(t.op, t.args[0].sort.W, m.Eval(t.args[0]), m.Eval(t.args[1]))
	case OFNeg:
		return fbits(-bitsF(m.Eval(t.args[0]), t.sort.W), t.sort.W)
	case OFFromS:
		if n := sext(m.Eval(t.args[0]), t.args[0].sort.W); t.sort.W == 32 {
			return uint64(math.Float32bits(float32(n)))
		} else {
			return math.Float64bits(float64(n))
		}
	case OFFromU:
		if n := m.Eval(t.args[0]); t.sort.W == 32 {
			return uint64(math.Float32bits(float32(n)))
		} else {
			return math.Float64bits(float64(n))
		}
	case OFToF:
		return fbits(bitsF(m.Eval(t.args[0]), t.args[0].sort.W), t.sort.W)
	case OFToS:
		return evalFToS(m.Eval(t.args[0]), t.sort.W)
	case OFFloor, OFCeil, OFTrunc, OFRound, OFRoundEven, OFSqrt, OFAbs:
		return evalFU(t.op, t.sort.W, m.Eval(t.args[0]))
	case OFIsNeg:
		f := bitsF(m.Eval(t.args[0]), t.args[0].sort.W)
		return b2u(math.Signbit(f) && !math.IsNaN(f))
	case OFIsNaN:
		return b2u(math.IsNaN(bitsF(m.Eval(t.args[0]), t.args[0].sort.W)))
	}
	return evalBV(t.op, t.sort.W, m.Eval(t.args[0]), m.Eval(t.args[1]))
}

var _ = bits.Len

// Concat joins two bit-vectors, hi in the upper bits.
func Concat(hi, lo *Term) *Term {
	w := int(hi.sort.W) + int(lo.sort.W)
	if hi.IsConst() && lo.IsConst() {
		return BVc(w, hi.val<<lo.sort.W|lo.val)
	}
	if hi.IsConst() && hi.val == 0 {
		return ZExt(w, lo)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.args[0] == lo.args[0] && int(hi.val&0xff) == int(lo.val>>8)+1 {
		return Extract(int(hi.val>>8), int(lo.val&0xff), lo.args[0])
	}
	return mk(OConcat, BV(w), 0, "", hi, lo)
}
