package smt

import (
	"fmt"
	"math"
	"strings"
)

// Mode selects how float operations are lowered.
type Mode int

const (
	// ModeFP: IEEE arithmetic exactly (SMT FloatingPoint); named functions
	// (pow, sin, ...) uninterpreted.
	ModeFP Mode = iota
	// ModeUF: comparisons, min/max, abs, neg, add, sub, conversions exact;
	// mul, div, sqrt, rounding and named functions uninterpreted.
	ModeUF
	// ModeBits: floats are bit-vectors; comparisons/min/max/abs/neg exact, all
	// arithmetic uninterpreted (over-approximation, fastest).
	ModeBits
	// ModeReal: floats are reals (finite, unrounded). Used only to propose
	// candidates, or with explicit axioms for order-based claims.
	ModeReal
)

func (m Mode) String() string { return [...]string{"fp", "uf", "bits", "real"}[m] }

// Abstract reports whether t's operation is uninterpreted in mode m.
func (m Mode) Abstract(t *Term) bool {
	switch t.Op {
	case OFun:
		return true
	case OFMul, OFDiv, OFSqrt, OFFloor, OFCeil, OFTrunc:
		return m == ModeUF || m == ModeBits
	case OFAdd, OFSub, OFConv, OSToF, OUToF, OFToS:
		return m == ModeBits
	}
	return false
}

type printer struct {
	mode  Mode
	sb    *strings.Builder
	decl  map[string]bool
	names map[int]string
}

func (p *printer) sort(s Sort) string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case KF32:
		if p.mode == ModeBits {
			return "(_ BitVec 32)"
		}
		return "(_ FloatingPoint 8 24)"
	}
	if p.mode == ModeBits {
		return "(_ BitVec 64)"
	}
	return "(_ FloatingPoint 11 53)"
}

func fpw(s Sort) (int, int, int) {
	if s.K == KF32 {
		return 8, 24, 32
	}
	return 11, 53, 64
}

func bvlit(v uint64, w int) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func (p *printer) constant(t *Term) string {
	switch t.S.K {
	case KBool:
		if t.K != 0 {
			return "true"
		}
		return "false"
	case KBV:
		return bvlit(t.K, int(t.S.W))
	}
	e, s, w := fpw(t.S)
	if p.mode == ModeBits {
		return bvlit(t.K, w)
	}
	f := t.Float()
	if f != f {
		return fmt.Sprintf("(_ NaN %d %d)", e, s)
	}
	if math.IsInf(f, 1) {
		return fmt.Sprintf("(_ +oo %d %d)", e, s)
	}
	if math.IsInf(f, -1) {
		return fmt.Sprintf("(_ -oo %d %d)", e, s)
	}
	sign := t.K >> (w - 1)
	exp := (t.K >> (s - 1)) & ((1 << e) - 1)
	man := t.K & ((1 << (s - 1)) - 1)
	return fmt.Sprintf("(fp #b%d #b%0*b #b%0*b)", sign, e, exp, s-1, man)
}

func sanit(n string) string {
	return "|" + strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, n) + "|"
}

const bitsPrelude = `(define-fun nan64 ((x (_ BitVec 64))) Bool (bvugt (bvand x #x7fffffffffffffff) #x7ff0000000000000))
(define-fun nan32 ((x (_ BitVec 32))) Bool (bvugt (bvand x #x7fffffff) #x7f800000))
(define-fun key64 ((x (_ BitVec 64))) (_ BitVec 64) (ite (= ((_ extract 63 63) x) #b1) (bvnot x) (bvor x #x8000000000000000)))
(define-fun key32 ((x (_ BitVec 32))) (_ BitVec 32) (ite (= ((_ extract 31 31) x) #b1) (bvnot x) (bvor x #x80000000)))
(define-fun bz64 ((x (_ BitVec 64)) (y (_ BitVec 64))) Bool (= (bvand (bvor x y) #x7fffffffffffffff) #x0000000000000000))
(define-fun bz32 ((x (_ BitVec 32)) (y (_ BitVec 32))) Bool (= (bvand (bvor x y) #x7fffffff) #x00000000))
(define-fun flt64 ((x (_ BitVec 64)) (y (_ BitVec 64))) Bool (and (not (nan64 x)) (not (nan64 y)) (not (bz64 x y)) (bvult (key64 x) (key64 y))))
(define-fun flt32 ((x (_ BitVec 32)) (y (_ BitVec 32))) Bool (and (not (nan32 x)) (not (nan32 y)) (not (bz32 x y)) (bvult (key32 x) (key32 y))))
(define-fun fle64 ((x (_ BitVec 64)) (y (_ BitVec 64))) Bool (and (not (nan64 x)) (not (nan64 y)) (or (bz64 x y) (bvule (key64 x) (key64 y)))))
(define-fun fle32 ((x (_ BitVec 32)) (y (_ BitVec 32))) Bool (and (not (nan32 x)) (not (nan32 y)) (or (bz32 x y) (bvule (key32 x) (key32 y)))))
(define-fun feq64 ((x (_ BitVec 64)) (y (_ BitVec 64))) Bool (and (not (nan64 x)) (not (nan64 y)) (or (bz64 x y) (= x y))))
(define-fun feq32 ((x (_ BitVec 32)) (y (_ BitVec 32))) Bool (and (not (nan32 x)) (not (nan32 y)) (or (bz32 x y) (= x y))))
(define-fun fsame64 ((x (_ BitVec 64)) (y (_ BitVec 64))) Bool (or (= x y) (and (nan64 x) (nan64 y))))
(define-fun fsame32 ((x (_ BitVec 32)) (y (_ BitVec 32))) Bool (or (= x y) (and (nan32 x) (nan32 y))))
`

var bvOps = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OSDiv: "bvsdiv", OSRem: "bvsrem", OUDiv: "bvudiv", OURem: "bvurem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OSlt: "bvslt", OSle: "bvsle", OUlt: "bvult", OUle: "bvule"}

func (p *printer) uf(name string, args []*Term, res Sort) string {
	key := name
	for _, a := range args {
		key += fmt.Sprintf("_%d_%d", a.S.K, a.S.W)
	}
	key += fmt.Sprintf("_r%d_%d", res.K, res.W)
	if !p.decl[key] {
		p.decl[key] = true
		s := "(declare-fun " + key + " ("
		for _, a := range args {
			s += p.sort(a.S) + " "
		}
		s += ") " + p.sort(res) + ")\n"
		p.sb.WriteString(s)
	}
	s := "(" + key
	for _, a := range args {
		s += " " + p.names[a.ID]
	}
	return s + ")"
}

func (p *printer) expr(t *Term) string {
	a := func(i int) string { return p.names[t.Args[i].ID] }
	switch t.Op {
	case OConst:
		return p.constant(t)
	case OVar:
		return sanit(t.Name)
	}
	if p.mode.Abstract(t) {
		n := "u_" + t.Op.String()
		if t.Op == OFun {
			n = "u_" + t.Name
		}
		return p.uf(n, t.Args, t.S)
	}
	bits := p.mode == ModeBits
	fs := t.S
	if len(t.Args) > 0 && !fs.IsFloat() {
		fs = t.Args[0].S
	}
	w := "64"
	if fs.K == KF32 {
		w = "32"
	}
	switch t.Op {
	case ONot:
		return "(not " + a(0) + ")"
	case OAnd:
		return "(and " + a(0) + " " + a(1) + ")"
	case OOr:
		return "(or " + a(0) + " " + a(1) + ")"
	case OIte:
		return "(ite " + a(0) + " " + a(1) + " " + a(2) + ")"
	case OEq:
		if bits && t.Args[0].S.IsFloat() {
			return "(fsame" + w + " " + a(0) + " " + a(1) + ")"
		}
		return "(= " + a(0) + " " + a(1) + ")"
	case OBNot:
		return "(bvnot " + a(0) + ")"
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.S.W-1, a(0))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.S.W-t.Args[0].S.W, a(0))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.S.W-t.Args[0].S.W, a(0))
	case OFAdd:
		return "(fp.add RNE " + a(0) + " " + a(1) + ")"
	case OFSub:
		return "(fp.sub RNE " + a(0) + " " + a(1) + ")"
	case OFMul:
		return "(fp.mul RNE " + a(0) + " " + a(1) + ")"
	case OFDiv:
		return "(fp.div RNE " + a(0) + " " + a(1) + ")"
	case OFSqrt:
		return "(fp.sqrt RNE " + a(0) + ")"
	case OFFloor:
		return "(fp.roundToIntegral RTN " + a(0) + ")"
	case OFCeil:
		return "(fp.roundToIntegral RTP " + a(0) + ")"
	case OFTrunc:
		return "(fp.roundToIntegral RTZ " + a(0) + ")"
	case OFNeg:
		if bits {
			if w == "64" {
				return "(bvxor " + a(0) + " #x8000000000000000)"
			}
			return "(bvxor " + a(0) + " #x80000000)"
		}
		return "(fp.neg " + a(0) + ")"
	case OFAbs:
		if bits {
			if w == "64" {
				return "(bvand " + a(0) + " #x7fffffffffffffff)"
			}
			return "(bvand " + a(0) + " #x7fffffff)"
		}
		return "(fp.abs " + a(0) + ")"
	case OFLt:
		if bits {
			return "(flt" + w + " " + a(0) + " " + a(1) + ")"
		}
		return "(fp.lt " + a(0) + " " + a(1) + ")"
	case OFLe:
		if bits {
			return "(fle" + w + " " + a(0) + " " + a(1) + ")"
		}
		return "(fp.leq " + a(0) + " " + a(1) + ")"
	case OFEq:
		if bits {
			return "(feq" + w + " " + a(0) + " " + a(1) + ")"
		}
		return "(fp.eq " + a(0) + " " + a(1) + ")"
	case OFIsNaN:
		if bits {
			return "(nan" + w + " " + a(0) + ")"
		}
		return "(fp.isNaN " + a(0) + ")"
	case OFMin, OFMax:
		x, y := a(0), a(1)
		inf, nan := Const(t.S, 0), Const(t.S, 0)
		sgn := -1
		if t.Op == OFMax {
			sgn = 1
		}
		if t.S.K == KF64 {
			inf, nan = F64C(math.Inf(sgn)), F64C(math.NaN())
		} else {
			inf, nan = F32C(float32(math.Inf(sgn))), F32C(float32(math.NaN()))
		}
		I, N := p.constant(inf), p.constant(nan)
		var isn, zz, lt, neg string
		if bits {
			isn = fmt.Sprintf("(or (nan%s %s) (nan%s %s))", w, x, w, y)
			zz = fmt.Sprintf("(bz%s %s %s)", w, x, y)
			lt = fmt.Sprintf("(flt%s %s %s)", w, x, y)
			hi := 63
			if w == "32" {
				hi = 31
			}
			neg = fmt.Sprintf("(= ((_ extract %d %d) %s) #b1)", hi, hi, x)
		} else {
			isn = fmt.Sprintf("(or (fp.isNaN %s) (fp.isNaN %s))", x, y)
			zz = fmt.Sprintf("(and (fp.isZero %s) (fp.isZero %s))", x, y)
			lt = fmt.Sprintf("(fp.lt %s %s)", x, y)
			neg = fmt.Sprintf("(fp.isNegative %s)", x)
		}
		zx, zy := x, y
		if t.Op == OFMax {
			zx, zy = y, x
		}
		// Go: infinities first, then NaN, then signed zeros
		sel := fmt.Sprintf("(ite %s %s %s)", lt, zx, zy)
		return fmt.Sprintf("(ite (or (= %s %s) (= %s %s)) %s (ite %s %s (ite %s (ite %s %s %s) %s)))", x, I, y, I, I, isn, N, zz, neg, zx, zy, sel)
	case OFConv:
		e, s, _ := fpw(t.S)
		return fmt.Sprintf("((_ to_fp %d %d) RNE %s)", e, s, a(0))
	case OSToF:
		e, s, _ := fpw(t.S)
		return fmt.Sprintf("((_ to_fp %d %d) RNE %s)", e, s, a(0))
	case OUToF:
		e, s, _ := fpw(t.S)
		return fmt.Sprintf("((_ to_fp_unsigned %d %d) RNE %s)", e, s, a(0))
	case OFToS:
		lo, hi := F64C(-9223372036854775808.0), F64C(9223372036854775808.0)
		if fs.K == KF32 {
			lo, hi = F32C(-9223372036854775808.0), F32C(9223372036854775808.0)
		}
		return fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", p.constant(lo), a(0), a(0), p.constant(hi), a(0))
	case OFFromB:
		if bits {
			return a(0)
		}
		e, s, _ := fpw(t.S)
		return fmt.Sprintf("((_ to_fp %d %d) %s)", e, s, a(0))
	case OFBits:
		if bits {
			return a(0)
		}
		return p.uf("u_fbits", t.Args, t.S)
	}
	if o, ok := bvOps[t.Op]; ok {
		return "(" + o + " " + a(0) + " " + a(1) + ")"
	}
	panic("lower: " + t.Op.String())
}

// Lower prints declarations and definitions for ts and returns the printed
// names of the roots. Float variables are declared through their bits.
func (p *printer) lower(ts ...*Term) {
	Walk(func(t *Term) {
		if _, ok := p.names[t.ID]; ok {
			return
		}
		switch t.Op {
		case OConst:
			p.names[t.ID] = p.constant(t)
			return
		case OVar:
			n := sanit(t.Name)
			if t.S.IsFloat() && p.mode != ModeBits {
				e, s, w := fpw(t.S)
				fmt.Fprintf(p.sb, "(declare-const %s (_ BitVec %d))\n", sanit(t.Name+"!b"), w)
				fmt.Fprintf(p.sb, "(define-fun %s () %s ((_ to_fp %d %d) %s))\n", n, p.sort(t.S), e, s, sanit(t.Name+"!b"))
			} else {
				fmt.Fprintf(p.sb, "(declare-const %s %s)\n", n, p.sort(t.S))
			}
			p.names[t.ID] = n
			return
		}
		e := p.expr(t)
		n := fmt.Sprintf("n%d", t.ID)
		fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, p.sort(t.S), e)
		p.names[t.ID] = n
	}, ts...)
}

func newPrinter(m Mode) *printer {
	p := &printer{mode: m, sb: &strings.Builder{}, decl: map[string]bool{}, names: map[int]string{}}
	return p
}

func prelude(m Mode) string {
	if m == ModeBits {
		return bitsPrelude
	}
	return ""
}

func varQueryName(t *Term, m Mode) string {
	if t.S.IsFloat() && m != ModeBits {
		return sanit(t.Name + "!b")
	}
	return sanit(t.Name)
}

// Script renders a complete query: assert all of ts, check, print the model.
func Script(m Mode, ts []*Term, getModel bool) (string, []*Term) {
	p := newPrinter(m)
	p.sb.WriteString("(set-option :produce-models true)\n")
	p.sb.WriteString(prelude(m))
	p.lower(ts...)
	for _, t := range ts {
		fmt.Fprintf(p.sb, "(assert %s)\n", p.names[t.ID])
	}
	p.sb.WriteString("(check-sat)\n")
	vs := Vars(ts...)
	if getModel && len(vs) > 0 {
		p.sb.WriteString("(get-value (")
		for _, v := range vs {
			p.sb.WriteString(varQueryName(v, m) + " ")
		}
		p.sb.WriteString("))\n")
	}
	return p.sb.String(), vs
}
