// Package smt: hash-consed terms over Bool, bit-vectors and IEEE floats, with
// native (exact Go) evaluation, simplification and SMT-LIB2 lowering.
package smt

import (
	"fmt"
	"math"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KF32
	KF64
)

type Sort struct {
	K Kind
	W uint8 // bit width for KBV
}

var (
	Bool = Sort{KBool, 0}
	F32  = Sort{KF32, 0}
	F64  = Sort{KF64, 0}
	BV64 = Sort{KBV, 64}
	BV32 = Sort{KBV, 32}
	BV8  = Sort{KBV, 8}
)

func BV(w int) Sort { return Sort{KBV, uint8(w)} }

func (s Sort) IsFloat() bool { return s.K == KF32 || s.K == KF64 }

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OSDiv
	OSRem
	OUDiv
	OURem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	OSlt
	OSle
	OUlt
	OUle
	OTrunc
	OSExt
	OZExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFMin
	OFMax
	OFFloor
	OFCeil
	OFTrunc
	OFConv // between F32 and F64
	OSToF
	OUToF
	OFToS
	OFBits  // float -> BV bits
	OFFromB // BV bits -> float
	OFun    // uninterpreted (named) function with native evaluator
)

var opNames = [...]string{"const", "var", "not", "and", "or", "ite", "eq", "add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "shl", "lshr", "ashr", "band", "bor", "bxor", "bnot", "slt", "sle", "ult", "ule", "trunc", "sext", "zext", "fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "fsqrt", "flt", "fle", "feq", "fisnan", "fmin", "fmax", "ffloor", "fceil", "ftrunc", "fconv", "stof", "utof", "ftos", "fbits", "ffromb", "fun"}

func (o Op) String() string { return opNames[o] }

type Term struct {
	Op   Op
	S    Sort
	Args []*Term
	K    uint64
	Name string
	ID   int
	// small size estimate (saturating) used by heuristics
	Depth int
}

type key struct {
	op         Op
	s          Sort
	k          uint64
	name       string
	a, b, c, d int
}

var table = map[key]*Term{}
var nextID = 1

// Count returns the number of distinct terms created.
func Count() int { return nextID }

// Native evaluators for OFun
var FunEval = map[string]func(a []float64) float64{
	"pow":   func(a []float64) float64 { return math.Pow(a[0], a[1]) },
	"sin":   func(a []float64) float64 { return math.Sin(a[0]) },
	"cos":   func(a []float64) float64 { return math.Cos(a[0]) },
	"tan":   func(a []float64) float64 { return math.Tan(a[0]) },
	"asin":  func(a []float64) float64 { return math.Asin(a[0]) },
	"acos":  func(a []float64) float64 { return math.Acos(a[0]) },
	"atan":  func(a []float64) float64 { return math.Atan(a[0]) },
	"atan2": func(a []float64) float64 { return math.Atan2(a[0], a[1]) },
	"log":   func(a []float64) float64 { return math.Log(a[0]) },
	"log10": func(a []float64) float64 { return math.Log10(a[0]) },
	"log2":  func(a []float64) float64 { return math.Log2(a[0]) },
	"log1p": func(a []float64) float64 { return math.Log1p(a[0]) },
	"exp":   func(a []float64) float64 { return math.Exp(a[0]) },
	"exp2":  func(a []float64) float64 { return math.Exp2(a[0]) },
	"expm1": func(a []float64) float64 { return math.Expm1(a[0]) },
	"cbrt":  func(a []float64) float64 { return math.Cbrt(a[0]) },
	"hypot": func(a []float64) float64 { return math.Hypot(a[0], a[1]) },
	"mod":   func(a []float64) float64 { return math.Mod(a[0], a[1]) },
	"tanh":  func(a []float64) float64 { return math.Tanh(a[0]) },
	"sinh":  func(a []float64) float64 { return math.Sinh(a[0]) },
	"cosh":  func(a []float64) float64 { return math.Cosh(a[0]) },
	"round": func(a []float64) float64 { return math.Round(a[0]) },
	"rndev": func(a []float64) float64 { return math.RoundToEven(a[0]) },
	"fma":   func(a []float64) float64 { return math.FMA(a[0], a[1], a[2]) },
	"rem":   func(a []float64) float64 { return math.Remainder(a[0], a[1]) },
}

func mk(op Op, s Sort, k uint64, name string, args ...*Term) *Term {
	var ky key
	ky.op, ky.s, ky.k, ky.name = op, s, k, name
	switch len(args) {
	case 0:
	case 1:
		ky.a = args[0].ID
	case 2:
		ky.a, ky.b = args[0].ID, args[1].ID
	case 3:
		ky.a, ky.b, ky.c = args[0].ID, args[1].ID, args[2].ID
	default:
		panic("mk: too many args")
	}
	if t, ok := table[ky]; ok {
		return t
	}
	t := &Term{Op: op, S: s, Args: append([]*Term(nil), args...), K: k, Name: name, ID: nextID}
	for _, a := range args {
		if a.Depth >= t.Depth {
			t.Depth = a.Depth + 1
		}
	}
	nextID++
	// constant folding
	if op != OConst && op != OVar && len(args) > 0 {
		all := true
		for _, a := range args {
			if a.Op != OConst {
				all = false
				break
			}
		}
		if all {
			var buf [3]uint64
			for i, a := range args {
				buf[i] = a.K
			}
			c := Const(s, evalOp(t, buf[:len(args)]))
			table[ky] = c
			return c
		}
	}
	table[ky] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func Const(s Sort, k uint64) *Term {
	if s.K == KBV {
		k &= mask(s.W)
	}
	if s.K == KF64 {
		if f := math.Float64frombits(k); f != f {
			k = math.Float64bits(math.NaN())
		}
	}
	if s.K == KF32 {
		if f := math.Float32frombits(uint32(k)); f != f {
			k = uint64(math.Float32bits(float32(math.NaN())))
		}
	}
	return mk(OConst, s, k, "")
}

var True = Const(Bool, 1)
var False = Const(Bool, 0)

func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntC(v int64) *Term         { return Const(BV64, uint64(v)) }
func BVC(w int, v uint64) *Term  { return Const(BV(w), v) }
func F64C(f float64) *Term       { return Const(F64, math.Float64bits(f)) }
func F32C(f float32) *Term       { return Const(F32, uint64(math.Float32bits(f))) }
func Var(s Sort, n string) *Term { return mk(OVar, s, 0, n) }
func (t *Term) IsConst() bool    { return t.Op == OConst }
func (t *Term) IsTrue() bool     { return t == True }
func (t *Term) IsFalse() bool    { return t == False }
func (t *Term) Int() int64       { return sx(t.K, t.S.W) }
func (t *Term) Float() float64 {
	if t.S.K == KF32 {
		return float64(math.Float32frombits(uint32(t.K)))
	}
	return math.Float64frombits(t.K)
}

func sx(k uint64, w uint8) int64 {
	if w == 64 || w == 0 {
		return int64(k)
	}
	sh := 64 - w
	return int64(k<<sh) >> sh
}

func Not(a *Term) *Term {
	if a.IsConst() {
		return BoolC(a.K == 0)
	}
	if a.Op == ONot {
		return a.Args[0]
	}
	return mk(ONot, Bool, 0, "", a)
}

func neg(a, b *Term) bool {
	return (a.Op == ONot && a.Args[0] == b) || (b.Op == ONot && b.Args[0] == a)
}

// And builds conjunctions AIG-style; Or is defined through And and Not, so
// complementary literals are recognised syntactically.
func And(a, b *Term) *Term {
	if a.IsConst() {
		if a.K == 0 {
			return False
		}
		return b
	}
	if b.IsConst() {
		if b.K == 0 {
			return False
		}
		return a
	}
	if a == b {
		return a
	}
	if neg(a, b) {
		return False
	}
	for k := 0; k < 2; k++ {
		x, y := a, b
		if k == 1 {
			x, y = b, a
		}
		if x.Op == OAnd {
			for i := 0; i < 2; i++ {
				if x.Args[i] == y {
					return x
				}
				if neg(x.Args[i], y) {
					return False
				}
			}
		}
		if x.Op == ONot && x.Args[0].Op == OAnd {
			in := x.Args[0]
			for i := 0; i < 2; i++ {
				if neg(in.Args[i], y) {
					return y
				}
				if in.Args[i] == y {
					return And(y, Not(in.Args[1-i]))
				}
			}
		}
	}
	if a.Op == ONot && b.Op == ONot && a.Args[0].Op == OAnd && b.Args[0].Op == OAnd {
		p, q := a.Args[0], b.Args[0]
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if p.Args[i] == q.Args[j] && neg(p.Args[1-i], q.Args[1-j]) {
					return Not(p.Args[i])
				}
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OAnd, Bool, 0, "", a, b)
}

func AndAll(ts ...*Term) *Term {
	r := True
	for _, t := range ts {
		r = And(r, t)
	}
	return r
}

func Or(a, b *Term) *Term { return Not(And(Not(a), Not(b))) }

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.K != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %v %v", a.S, b.S))
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.S == Bool {
		if a.IsTrue() {
			return Or(c, b)
		}
		if a.IsFalse() {
			return And(Not(c), b)
		}
		if b.IsTrue() {
			return Or(Not(c), a)
		}
		if b.IsFalse() {
			return And(c, a)
		}
	}
	if a.Op == OIte && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == OIte && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.Op == OIte && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	return mk(OIte, a.S, 0, "", c, a, b)
}

// leaves of an ite tree all constant?
func constTree(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.IsConst() {
		return true
	}
	return t.Op == OIte && constTree(t.Args[1], budget) && constTree(t.Args[2], budget)
}

func ConstTree(t *Term, n int) bool { b := n; return t.Op == OIte && constTree(t, &b) }

// Lift1 pushes f into an ite tree with constant leaves
func lift1(t *Term, f func(*Term) *Term) *Term {
	if t.Op == OIte {
		return Ite(t.Args[0], lift1(t.Args[1], f), lift1(t.Args[2], f))
	}
	return f(t)
}

const liftBudget = 24

func tryLift(a, b *Term, f func(x, y *Term) *Term) *Term {
	if b.IsConst() && ConstTree(a, liftBudget) {
		return lift1(a, func(x *Term) *Term { return f(x, b) })
	}
	if a.IsConst() && ConstTree(b, liftBudget) {
		return lift1(b, func(y *Term) *Term { return f(a, y) })
	}
	return nil
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %v %v", a.S, b.S))
	}
	if a.S == Bool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return Not(a)
		}
		if neg(a, b) {
			return False
		}
	}
	if r := tryLift(a, b, Eq); r != nil {
		return r
	}
	if a.S.K == KBV {
		// add(x,c1) = c2
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && a.Op == OAdd && a.Args[1].IsConst() {
			return Eq(a.Args[0], Const(a.S, b.K-a.Args[1].K))
		}
		if b.IsConst() && (a.Op == OBOr || a.Op == OBXor || a.Op == OBAnd) {
			z, o := known(a, 6)
			if o&^b.K != 0 || z&b.K != 0 {
				return False
			}
		}
		if b.IsConst() && (a.Op == OZExt) {
			if b.K&^mask(a.Args[0].S.W) != 0 {
				return False
			}
			return Eq(a.Args[0], Const(a.Args[0].S, b.K))
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OEq, Bool, 0, "", a, b)
}

func commut(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

// Bin builds a bit-vector binary operation (SDiv etc. have Go semantics; the
// executor checks division by zero first).
func Bin(op Op, a, b *Term) *Term {
	if a.S != b.S || a.S.K != KBV {
		panic(fmt.Sprintf("bin %v sorts %v %v", op, a.S, b.S))
	}
	if commut(op) {
		if a.IsConst() && !b.IsConst() {
			a, b = b, a
		} else if !a.IsConst() && !b.IsConst() && a.ID > b.ID {
			a, b = b, a
		}
	}
	w := a.S.W
	if b.IsConst() && !a.IsConst() {
		switch op {
		case OAdd:
			if b.K == 0 {
				return a
			}
			if a.Op == OAdd && a.Args[1].IsConst() {
				return Bin(OAdd, a.Args[0], Const(a.S, a.Args[1].K+b.K))
			}
		case OSub:
			return Bin(OAdd, a, Const(a.S, -b.K))
		case OMul:
			if b.K == 0 {
				return b
			}
			if b.K == 1 {
				return a
			}
		case OSDiv, OUDiv:
			if b.K == 1 {
				return a
			}
		case OShl, OLShr, OAShr:
			if b.K == 0 {
				return a
			}
			if op == OLShr && a.Op == OLShr && a.Args[1].IsConst() {
				if s := a.Args[1].K + b.K; s < uint64(w) {
					return Bin(OLShr, a.Args[0], Const(a.S, s))
				}
			}
			if op == OAShr && a.Op == OAShr && a.Args[1].IsConst() {
				if s := a.Args[1].K + b.K; s < uint64(w) {
					return Bin(OAShr, a.Args[0], Const(a.S, s))
				}
			}
		case OBAnd:
			if b.K == 0 {
				return b
			}
			if b.K == mask(w) {
				return a
			}
			if a.Op == OBAnd && a.Args[1].IsConst() {
				return Bin(OBAnd, a.Args[0], Const(a.S, a.Args[1].K&b.K))
			}
			if (a.Op == OBOr || a.Op == OBXor) && a.Args[1].IsConst() {
				return Bin(a.Op, Bin(OBAnd, a.Args[0], b), Const(a.S, a.Args[1].K&b.K))
			}
		case OBOr, OBXor:
			if b.K == 0 {
				return a
			}
			if op == OBOr && a.Op == OBOr && a.Args[1].IsConst() {
				return Bin(OBOr, a.Args[0], Const(a.S, a.Args[1].K|b.K))
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return Const(a.S, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	if op == OAdd || op == OSub || op == OMul || op == OBAnd || op == OBOr || op == OShl {
		if r := tryLift(a, b, func(x, y *Term) *Term { return Bin(op, x, y) }); r != nil {
			return r
		}
	}
	return mk(op, a.S, 0, "", a, b)
}

// known returns bits known to be zero and one.
func known(t *Term, depth int) (zero, one uint64) {
	m := mask(t.S.W)
	if t.IsConst() {
		return m &^ t.K, t.K
	}
	if depth == 0 {
		return 0, 0
	}
	switch t.Op {
	case OBAnd:
		z1, o1 := known(t.Args[0], depth-1)
		z2, o2 := known(t.Args[1], depth-1)
		return z1 | z2, o1 & o2
	case OBOr:
		z1, o1 := known(t.Args[0], depth-1)
		z2, o2 := known(t.Args[1], depth-1)
		return z1 & z2, o1 | o2
	case OBXor:
		z1, o1 := known(t.Args[0], depth-1)
		z2, o2 := known(t.Args[1], depth-1)
		return z1&z2 | o1&o2, z1&o2 | o1&z2
	case OBNot:
		z, o := known(t.Args[0], depth-1)
		return o, z
	case OZExt:
		z, o := known(t.Args[0], depth-1)
		return z | m&^mask(t.Args[0].S.W), o
	case OTrunc:
		z, o := known(t.Args[0], depth-1)
		return z & m, o & m
	case OIte:
		z1, o1 := known(t.Args[1], depth-1)
		z2, o2 := known(t.Args[2], depth-1)
		return z1 & z2, o1 & o2
	}
	return 0, 0
}

func BNot(a *Term) *Term { return mk(OBNot, a.S, 0, "", a) }

func Cmp(op Op, a, b *Term) *Term {
	if a == b {
		return BoolC(op == OSle || op == OUle)
	}
	if r := tryLift(a, b, func(x, y *Term) *Term { return Cmp(op, x, y) }); r != nil {
		return r
	}
	// normalise: a<=b  ==  !(b<a)
	switch op {
	case OSle:
		return Not(Cmp(OSlt, b, a))
	case OUle:
		return Not(Cmp(OUlt, b, a))
	}
	if a.IsConst() && a.K == 0 && (b.Op == OBOr || b.Op == OBXor || b.Op == OBAnd) {
		z, o := known(b, 6)
		if o != 0 && (op == OUlt || z>>(b.S.W-1) == 1) {
			return True
		}
	}
	// 0 < x  ==  x != 0 for masked x
	if a.IsConst() && a.K == 0 && b.Op == OBAnd && b.Args[1].IsConst() && (op == OUlt || b.Args[1].K>>(b.S.W-1) == 0) {
		return Not(Eq(b, a))
	}
	return mk(op, Bool, 0, "", a, b)
}

func Trunc(a *Term, w int) *Term {
	if int(a.S.W) == w {
		return a
	}
	if (a.Op == OZExt || a.Op == OSExt) && int(a.Args[0].S.W) == w {
		return a.Args[0]
	}
	if ConstTree(a, liftBudget) {
		return lift1(a, func(x *Term) *Term { return mk(OTrunc, BV(w), 0, "", x) })
	}
	return mk(OTrunc, BV(w), 0, "", a)
}
func SExt(a *Term, w int) *Term {
	if int(a.S.W) == w {
		return a
	}
	return mk(OSExt, BV(w), 0, "", a)
}
func ZExt(a *Term, w int) *Term {
	if int(a.S.W) == w {
		return a
	}
	return mk(OZExt, BV(w), 0, "", a)
}

func isF(t *Term, f float64) bool {
	return t.IsConst() && t.S.IsFloat() && t.Float() == f && math.Signbit(t.Float()) == math.Signbit(f)
}

func FBin(op Op, a, b *Term) *Term {
	if a.S != b.S || !a.S.IsFloat() {
		panic(fmt.Sprintf("fbin %v sorts %v %v", op, a.S, b.S))
	}
	switch op {
	case OFMul:
		if isF(b, 1) {
			return a
		}
		if isF(a, 1) {
			return b
		}
		if isF(a, -1) {
			return FNeg(b)
		}
		if isF(b, -1) {
			return FNeg(a)
		}
	case OFDiv:
		if isF(b, 1) {
			return a
		}
	case OFSub:
		if isF(b, 0) {
			return a
		}
	}
	if (op == OFAdd || op == OFMul) && a.ID > b.ID {
		a, b = b, a
	}
	if op == OFMin || op == OFMax {
		if a == b {
			return a
		}
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	if r := tryLift(a, b, func(x, y *Term) *Term { return mk(op, a.S, 0, "", x, y) }); r != nil {
		return r
	}
	return mk(op, a.S, 0, "", a, b)
}

func FNeg(a *Term) *Term {
	if a.Op == OFNeg {
		return a.Args[0]
	}
	return mk(OFNeg, a.S, 0, "", a)
}
func FUn(op Op, a *Term) *Term {
	switch op {
	case OFAbs:
		if a.Op == OFAbs {
			return a
		}
		if a.Op == OFNeg {
			return FUn(OFAbs, a.Args[0])
		}
	case OFFloor, OFCeil, OFTrunc:
		if a.Op == OSToF {
			return a
		}
	}
	return mk(op, a.S, 0, "", a)
}

// narrow returns the float32 term x was widened from, or nil.
func narrow(x *Term) *Term {
	if x.Op == OFConv && x.S.K == KF64 {
		return x.Args[0]
	}
	if x.IsConst() && x.S.K == KF64 {
		if f := x.Float(); f != f || float64(float32(f)) == f {
			return F32C(float32(f))
		}
	}
	return nil
}

func FCmp(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic("fcmp sorts")
	}
	if a.S.K == KF64 && !(a.IsConst() && b.IsConst()) {
		if x, y := narrow(a), narrow(b); x != nil && y != nil {
			return FCmp(op, x, y)
		}
	}
	if a == b && op == OFLt {
		return False
	}
	if op == OFEq && a.ID > b.ID {
		a, b = b, a
	}
	if r := tryLift(a, b, func(x, y *Term) *Term { return mk(op, Bool, 0, "", x, y) }); r != nil {
		return r
	}
	return mk(op, Bool, 0, "", a, b)
}
func FIsNaN(a *Term) *Term {
	switch a.Op {
	case OSToF, OUToF:
		return False
	case OFConv, OFNeg, OFAbs, OFFloor, OFCeil, OFTrunc:
		return FIsNaN(a.Args[0])
	case OIte:
		b := liftBudget
		if constTree(a, &b) {
			return lift1(a, FIsNaN)
		}
		l, r := FIsNaN(a.Args[1]), FIsNaN(a.Args[2])
		if l == r {
			return l
		}
	}
	return mk(OFIsNaN, Bool, 0, "", a)
}
func FConv(a *Term, s Sort) *Term {
	if a.S == s {
		return a
	}
	if a.S.K == KF64 && s.K == KF32 {
		// An operation on exactly widened float32 operands, rounded back to
		// float32, equals the float32 operation (Figueroa: 53 >= 2*24+2).
		switch a.Op {
		case OFMin, OFMax, OFAbs, OFFloor, OFCeil, OFTrunc, OFNeg, OFSqrt, OFAdd, OFSub, OFMul, OFDiv:
			ok := true
			args := make([]*Term, len(a.Args))
			for i, x := range a.Args {
				if n := narrow(x); n != nil {
					args[i] = n
				} else {
					ok = false
				}
			}
			if ok {
				switch a.Op {
				case OFNeg:
					return FNeg(args[0])
				case OFAbs, OFFloor, OFCeil, OFTrunc, OFSqrt:
					return FUn(a.Op, args[0])
				}
				return FBin(a.Op, args[0], args[1])
			}
		case OIte:
			x, y := narrow(a.Args[1]), narrow(a.Args[2])
			if x != nil && y != nil {
				return Ite(a.Args[0], x, y)
			}
		}
	}
	// f32 -> f64 -> f32 is the identity
	if a.Op == OFConv && a.S.K == KF64 && s.K == KF32 {
		return a.Args[0]
	}
	return mk(OFConv, s, 0, "", a)
}
func SToF(a *Term, s Sort) *Term { return mk(OSToF, s, 0, "", a) }
func UToF(a *Term, s Sort) *Term { return mk(OUToF, s, 0, "", a) }

// FToS converts a float to a signed 64-bit integer with amd64 semantics.
func FToS(a *Term) *Term {
	return mk(OFToS, BV64, 0, "", a)
}
func FBits(a *Term) *Term {
	if a.Op == OFFromB {
		return a.Args[0]
	}
	w := 64
	if a.S.K == KF32 {
		w = 32
	}
	return mk(OFBits, BV(w), 0, "", a)
}
func FFromB(a *Term, s Sort) *Term { return mk(OFFromB, s, 0, "", a) }

// Fun applies a named F64 function.
func Fun(name string, args ...*Term) *Term {
	if name == "pow" {
		y := args[1]
		if isF(y, 1) {
			return args[0]
		}
		if isF(y, 0) {
			return F64C(1)
		}
		if isF(args[0], 1) {
			return F64C(1)
		}
	}
	return mk(OFun, F64, 0, name, args...)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func f64(k uint64) float64 { return math.Float64frombits(k) }
func f32(k uint64) float32 { return math.Float32frombits(uint32(k)) }
func k64(f float64) uint64 { return math.Float64bits(f) }
func k32(f float32) uint64 { return uint64(math.Float32bits(f)) }

// evalOp evaluates the operation of t on concrete argument encodings.
func evalOp(t *Term, a []uint64) uint64 {
	w := t.S.W
	switch t.Op {
	case OConst:
		return t.K
	case ONot:
		return 1 - a[0]
	case OAnd:
		return a[0] & a[1]
	case OOr:
		return a[0] | a[1]
	case OIte:
		if a[0] != 0 {
			return a[1]
		}
		return a[2]
	case OEq:
		if k := t.Args[0].S; k.IsFloat() {
			// structural equality with all NaNs identified
			if k.K == KF64 {
				x, y := f64(a[0]), f64(a[1])
				return b2u(a[0] == a[1] || (x != x && y != y))
			}
			x, y := f32(a[0]), f32(a[1])
			return b2u(a[0] == a[1] || (x != x && y != y))
		}
		return b2u(a[0] == a[1])
	case OAdd:
		return (a[0] + a[1]) & mask(w)
	case OSub:
		return (a[0] - a[1]) & mask(w)
	case OMul:
		return (a[0] * a[1]) & mask(w)
	case OSDiv:
		x, y := sx(a[0], w), sx(a[1], w)
		if y == 0 {
			return mask(w)
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OSRem:
		x, y := sx(a[0], w), sx(a[1], w)
		if y == 0 {
			return a[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OUDiv:
		if a[1] == 0 {
			return mask(w)
		}
		return a[0] / a[1]
	case OURem:
		if a[1] == 0 {
			return a[0]
		}
		return a[0] % a[1]
	case OShl:
		if a[1] >= uint64(w) {
			return 0
		}
		return (a[0] << a[1]) & mask(w)
	case OLShr:
		if a[1] >= uint64(w) {
			return 0
		}
		return a[0] >> a[1]
	case OAShr:
		s := a[1]
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sx(a[0], w)>>s) & mask(w)
	case OBAnd:
		return a[0] & a[1]
	case OBOr:
		return a[0] | a[1]
	case OBXor:
		return a[0] ^ a[1]
	case OBNot:
		return ^a[0] & mask(w)
	case OSlt:
		w := t.Args[0].S.W
		return b2u(sx(a[0], w) < sx(a[1], w))
	case OSle:
		w := t.Args[0].S.W
		return b2u(sx(a[0], w) <= sx(a[1], w))
	case OUlt:
		return b2u(a[0] < a[1])
	case OUle:
		return b2u(a[0] <= a[1])
	case OTrunc:
		return a[0] & mask(w)
	case OSExt:
		return uint64(sx(a[0], t.Args[0].S.W)) & mask(w)
	case OZExt:
		return a[0]
	case OSToF:
		x := sx(a[0], t.Args[0].S.W)
		if t.S.K == KF64 {
			return k64(float64(x))
		}
		return k32(float32(x))
	case OUToF:
		if t.S.K == KF64 {
			return k64(float64(a[0]))
		}
		return k32(float32(a[0]))
	case OFToS:
		var f float64
		if t.Args[0].S.K == KF64 {
			f = f64(a[0])
		} else {
			f = float64(f32(a[0]))
		}
		return uint64(F2I(f))
	case OFBits, OFFromB:
		return a[0]
	case OFConv:
		if t.S.K == KF64 {
			return k64(float64(f32(a[0])))
		}
		return k32(float32(f64(a[0])))
	case OFun:
		var fs [3]float64
		for i := range a {
			fs[i] = f64(a[i])
		}
		ev := FunEval[t.Name]
		if ev == nil {
			panic("no evaluator for " + t.Name)
		}
		return k64(ev(fs[:len(a)]))
	}
	// float ops
	s := t.S
	if t.Op == OFLt || t.Op == OFLe || t.Op == OFEq || t.Op == OFIsNaN {
		s = t.Args[0].S
	}
	if s.K == KF64 {
		x := f64(a[0])
		var y float64
		if len(a) > 1 {
			y = f64(a[1])
		}
		switch t.Op {
		case OFAdd:
			return k64(x + y)
		case OFSub:
			return k64(x - y)
		case OFMul:
			return k64(x * y)
		case OFDiv:
			return k64(x / y)
		case OFNeg:
			return k64(-x)
		case OFAbs:
			return k64(math.Abs(x))
		case OFSqrt:
			return k64(math.Sqrt(x))
		case OFLt:
			return b2u(x < y)
		case OFLe:
			return b2u(x <= y)
		case OFEq:
			return b2u(x == y)
		case OFIsNaN:
			return b2u(x != x)
		case OFMin:
			return k64(math.Min(x, y))
		case OFMax:
			return k64(math.Max(x, y))
		case OFFloor:
			return k64(math.Floor(x))
		case OFCeil:
			return k64(math.Ceil(x))
		case OFTrunc:
			return k64(math.Trunc(x))
		}
	} else {
		x := f32(a[0])
		var y float32
		if len(a) > 1 {
			y = f32(a[1])
		}
		switch t.Op {
		case OFAdd:
			return k32(x + y)
		case OFSub:
			return k32(x - y)
		case OFMul:
			return k32(x * y)
		case OFDiv:
			return k32(x / y)
		case OFNeg:
			return k32(-x)
		case OFAbs:
			return k32(float32(math.Abs(float64(x))))
		case OFSqrt:
			return k32(float32(math.Sqrt(float64(x))))
		case OFLt:
			return b2u(x < y)
		case OFLe:
			return b2u(x <= y)
		case OFEq:
			return b2u(x == y)
		case OFIsNaN:
			return b2u(x != x)
		case OFMin:
			return k32(float32(math.Min(float64(x), float64(y))))
		case OFMax:
			return k32(float32(math.Max(float64(x), float64(y))))
		case OFFloor:
			return k32(float32(math.Floor(float64(x))))
		case OFCeil:
			return k32(float32(math.Ceil(float64(x))))
		case OFTrunc:
			return k32(float32(math.Trunc(float64(x))))
		}
	}
	panic("evalOp: " + t.Op.String())
}

// F2I is Go's float64->int64 conversion on amd64.
func F2I(f float64) int64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(f)
}

// Model assigns bit encodings to variables (by name).
type Model map[string]uint64

// Evaluator evaluates terms exactly (native Go arithmetic and libm).
type Evaluator struct {
	M    Model
	memo map[int]uint64
}

func NewEval(m Model) *Evaluator { return &Evaluator{M: m, memo: map[int]uint64{}} }

func (e *Evaluator) Eval(t *Term) uint64 {
	if t.Op == OConst {
		return t.K
	}
	if v, ok := e.memo[t.ID]; ok {
		return v
	}
	// iterative for depth safety
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.Args) {
			c := f.t.Args[f.i]
			f.i++
			if c.Op != OConst {
				if _, ok := e.memo[c.ID]; !ok {
					st = append(st, fr{c, 0})
				}
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if x.Op == OVar {
			e.memo[x.ID] = e.M[x.Name]
			continue
		}
		var buf [3]uint64
		for i, c := range x.Args {
			if c.Op == OConst {
				buf[i] = c.K
			} else {
				buf[i] = e.memo[c.ID]
			}
		}
		e.memo[x.ID] = evalOp(x, buf[:len(x.Args)])
	}
	return e.memo[t.ID]
}

func (e *Evaluator) Bool(t *Term) bool { return e.Eval(t) != 0 }

// Subst rebuilds t with variables replaced by constants of m (only those present).
func Subst(t *Term, m map[string]*Term, memo map[int]*Term) *Term {
	if t.Op == OConst {
		return t
	}
	if r, ok := memo[t.ID]; ok {
		return r
	}
	var r *Term
	if t.Op == OVar {
		if v, ok := m[t.Name]; ok {
			r = v
		} else {
			r = t
		}
	} else {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = Subst(a, m, memo)
			if args[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = Rebuild(t, args)
		}
	}
	memo[t.ID] = r
	return r
}

// Rebuild applies t's operation to new arguments with simplification.
func Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a[0], a[1])
	case OOr:
		return Or(a[0], a[1])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OAdd, OSub, OMul, OSDiv, OSRem, OUDiv, OURem, OShl, OLShr, OAShr, OBAnd, OBOr, OBXor:
		return Bin(t.Op, a[0], a[1])
	case OSlt, OSle, OUlt, OUle:
		return Cmp(t.Op, a[0], a[1])
	case OTrunc:
		return Trunc(a[0], int(t.S.W))
	case OSExt:
		return SExt(a[0], int(t.S.W))
	case OZExt:
		return ZExt(a[0], int(t.S.W))
	case OFAdd, OFSub, OFMul, OFDiv, OFMin, OFMax:
		return FBin(t.Op, a[0], a[1])
	case OFLt, OFLe, OFEq:
		return FCmp(t.Op, a[0], a[1])
	case OFNeg:
		return FNeg(a[0])
	case OFIsNaN:
		return FIsNaN(a[0])
	case OFConv:
		return FConv(a[0], t.S)
	case OFun:
		return Fun(t.Name, a...)
	case OFBits:
		return FBits(a[0])
	}
	return mk(t.Op, t.S, t.K, t.Name, a...)
}

// Vars collects the variables of ts.
func Vars(ts ...*Term) []*Term {
	var out []*Term
	Walk(func(t *Term) {
		if t.Op == OVar {
			out = append(out, t)
		}
	}, ts...)
	return out
}

// Walk visits each distinct subterm once, children first.
func Walk(f func(*Term), ts ...*Term) { WalkIn(f, func(*Term) bool { return true }, ts...) }

// WalkIn is Walk entering only the arguments of terms in selects; all of ts
// are entered.
func WalkIn(f func(*Term), in func(*Term) bool, ts ...*Term) {
	seen := map[int]bool{}
	type fr struct {
		t *Term
		i int
	}
	for _, t0 := range ts {
		if seen[t0.ID] {
			continue
		}
		seen[t0.ID] = true
		st := []fr{{t0, 0}}
		for len(st) > 0 {
			top := &st[len(st)-1]
			if top.i < len(top.t.Args) && (len(st) == 1 || in(top.t)) {
				c := top.t.Args[top.i]
				top.i++
				if !seen[c.ID] {
					seen[c.ID] = true
					st = append(st, fr{c, 0})
				}
				continue
			}
			t := top.t
			st = st[:len(st)-1]
			f(t)
		}
	}
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		switch t.S.K {
		case KBool:
			return fmt.Sprint(t.K != 0)
		case KBV:
			return fmt.Sprint(t.Int())
		default:
			return fmt.Sprintf("%g", t.Float())
		}
	case OVar:
		return t.Name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.ID)
	}
	n := t.Op.String()
	if t.Op == OFun {
		n = t.Name
	}
	s := "(" + n
	for _, a := range t.Args {
		s += " " + a.str(d-1)
	}
	return s + ")"
}
