package exec

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"gosym/smt"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome

var intrinsics map[string]intrinsic

// models maps library functions to Go models in vharness/sym.
var models = map[string]string{}

func T(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("term expected, got %T", v)
	}
	return t
}

func S(v Value) Str {
	t, ok := v.(Str)
	if !ok {
		unsup("string expected, got %T", v)
	}
	return t
}

func lit(v Value) string {
	l, ok := S(v).IsLit()
	if !ok {
		unsup("literal string expected: %v", v)
	}
	return l
}

func (e *Engine) input(name string, s smt.Sort, kind string) *Term {
	if k, ok := e.InputKind[name]; ok {
		if k != kind {
			unsup("input %s redeclared", name)
		}
		return smt.Var(s, name)
	}
	t := smt.Var(s, name)
	e.InputKind[name] = kind
	e.Inputs = append(e.Inputs, t)
	return t
}

func (e *Engine) note(s string) { e.Notes[s]++ }

// assume adds c to the path; nil if impossible.
func (e *Engine) assume(st *State, c *Term) *State {
	if c.IsFalse() {
		return nil
	}
	if !e.feasible(st.pc, c) {
		e.Infeasible++
		return nil
	}
	return st.add(c)
}

// choose is an if-then-else, decided where the path allows it cheaply.
func (e *Engine) choose(st *State, c, a, b *Term) *Term {
	if !c.IsConst() {
		v, ok := known(st.pc, c)
		if !ok && e.Cfg.Decide != nil {
			d := e.Cfg.Decide(st.pc, c)
			v, ok = d == 1, d >= 0
		}
		if ok {
			if v {
				return a
			}
			return b
		}
	}
	return smt.Ite(c, a, b)
}

func out1(st *State, v Value) []Outcome {
	if st == nil {
		return nil
	}
	return one(st, v)
}

func (e *Engine) assert(st *State, bad *Term, label string, pos token.Pos) []Outcome {
	e.Reached[label]++
	if e.Reached[label] <= 8 {
		e.ReachPC[label] = append(e.ReachPC[label], smt.AndAll(st.pc...))
	}
	e.Asserts++
	if bad.IsFalse() {
		return one(st, nil)
	}
	e.Obls = append(e.Obls, &Obligation{Kind: "assert", Label: label, Pos: e.posOf(pos), PC: st.pc, Bad: bad})
	return one(st, nil)
}

func fbin(op smt.Op) intrinsic {
	return func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
		return one(st, smt.FBin(op, T(a[0]), T(a[1])))
	}
}
func fun(op smt.Op) intrinsic {
	return func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
		return one(st, smt.FUn(op, T(a[0])))
	}
}
func named(n string) intrinsic {
	return func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
		ts := make([]*Term, len(a))
		for i := range a {
			ts[i] = T(a[i])
		}
		return one(st, smt.Fun(n, ts...))
	}
}
func nop(e *Engine, st *State, a []Value, pos token.Pos) []Outcome { return one(st, nil) }

// all literal?
func lits(a []Value) ([]string, bool) {
	var out []string
	for _, v := range a {
		if s, ok := v.(Str); ok {
			l, ok := s.IsLit()
			if !ok {
				return nil, false
			}
			out = append(out, l)
		}
	}
	return out, true
}

func isBytes(s Str) bool {
	if _, ok := s.IsLit(); ok {
		return false
	}
	_, ok := s.bytes()
	return ok
}

func (e *Engine) model(st *State, name string, args ...Value) []Outcome {
	return e.Call(st, e.symFunc(name), args, nil)
}

const atomChars = "+-0123456789.eNaInf"

func atomByte(c byte) bool { return strings.IndexByte(atomChars, c) >= 0 }

// ropeFind locates literal sub in a rope made of literals and numeric atoms;
// parts before and after. ok=false when undecidable.
func ropeFind(s Str, sub string) (pre, post Str, found, ok bool) {
	if sub == "" {
		return Str{}, s, true, true
	}
	mixed := false
	for i := 0; i < len(sub); i++ {
		if atomByte(sub[i]) {
			mixed = true
		}
	}
	for i, p := range s.P {
		if p.K == PLit {
			if k := strings.Index(p.L, sub); k >= 0 {
				if mixed && i > 0 {
					return pre, post, false, false
				}
				pre = mkStr(append(append([]Part(nil), s.P[:i]...), Part{K: PLit, L: p.L[:k]}))
				post = mkStr(append([]Part{{K: PLit, L: p.L[k+len(sub):]}}, s.P[i+1:]...))
				return pre, post, true, true
			}
			continue
		}
		if p.K == PBytes {
			return pre, post, false, false
		}
		if mixed {
			// could the match start or end in this atom?
			only := true
			for k := 0; k < len(sub); k++ {
				if !atomByte(sub[k]) {
					only = false
				}
			}
			if only {
				return pre, post, false, false
			}
			// sub contains a non-atom byte: it must overlap a literal
			// neighbour; give up only if a neighbour shares that byte
			for _, q := range s.P {
				if q.K == PLit {
					for k := 0; k < len(sub); k++ {
						if !atomByte(sub[k]) && strings.IndexByte(q.L, sub[k]) >= 0 {
							return pre, post, false, false
						}
					}
				}
			}
		}
	}
	return Str{}, Str{}, false, true
}

func ropeTrim(s Str, set func(r rune) bool, left, right bool) Str {
	ps := append([]Part(nil), s.P...)
	if left && len(ps) > 0 && ps[0].K == PLit {
		ps[0].L = strings.TrimLeftFunc(ps[0].L, set)
	}
	if right && len(ps) > 0 && ps[len(ps)-1].K == PLit {
		ps[len(ps)-1].L = strings.TrimRightFunc(ps[len(ps)-1].L, set)
	}
	return mkStr(ps)
}

func space(r rune) bool { return strings.ContainsRune(" \t\n\v\f\r\u0085\u00A0\u2000\u3000", r) }

func trimmer(model string, left, right bool) intrinsic {
	return func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
		s := S(a[0])
		set := space
		if len(a) > 1 {
			cut := lit(a[1])
			set = func(r rune) bool { return strings.ContainsRune(cut, r) }
			for i := 0; i < len(cut); i++ {
				if atomByte(cut[i]) && !isBytes(s) {
					if _, ok := s.IsLit(); !ok {
						unsup("trim of numeric text")
					}
				}
			}
		}
		if isBytes(s) {
			if len(a) == 1 && left && right {
				return e.model(st, "modelTrimSpace", a...)
			}
			if left && right {
				var out []Outcome
				for _, o := range e.model(st, "modelTrimLeft", a...) {
					out = append(out, e.model(o.St, "modelTrimRight", o.Ret, a[1])...)
				}
				return out
			}
			return e.model(st, model, a...)
		}
		return one(st, ropeTrim(s, set, left, right))
	}
}

func prefixCond(s Str, p string) (*Term, bool) {
	i := 0
	for _, q := range s.P {
		if i >= len(p) {
			return smt.True, true
		}
		if q.K == PLit {
			n := len(q.L)
			if n > len(p)-i {
				n = len(p) - i
			}
			if q.L[:n] != p[i:i+n] {
				return smt.False, true
			}
			i += n
			continue
		}
		if q.K != PBytes {
			if !atomByte(p[i]) {
				return smt.False, true
			}
			if q.K == PInt && p[i] == '-' && len(p) == i+1 {
				return smt.Cmp(smt.OSlt, q.T, smt.IntC(0)), true
			}
			if q.K == PInt && !strings.ContainsRune("-0123456789", rune(p[i])) {
				return smt.False, true
			}
		}
		return nil, false
	}
	return smt.BoolC(i >= len(p)), true
}

func suffixCond(s Str, p string) (*Term, bool) {
	i := len(p)
	for k := len(s.P) - 1; k >= 0; k-- {
		if i == 0 {
			return smt.True, true
		}
		q := s.P[k]
		if q.K == PLit {
			n := len(q.L)
			if n > i {
				n = i
			}
			if q.L[len(q.L)-n:] != p[i-n:i] {
				return smt.False, true
			}
			i -= n
			continue
		}
		if q.K != PBytes && !atomByte(p[i-1]) {
			return smt.False, true
		}
		return nil, false
	}
	return smt.BoolC(i == 0), true
}

// virtual length: numeric atoms count one position
func vlen(s Str) int {
	n := 0
	for _, p := range s.P {
		if p.K == PLit {
			n += len(p.L)
		} else {
			n++
		}
	}
	return n
}

func (e *Engine) strSlice(st *State, parts []Str) Slice {
	vals := make([]Value, len(parts))
	for i := range parts {
		vals[i] = parts[i]
	}
	return e.newSlice(st, vals, Str{})
}

func splitN(e *Engine, st *State, a []Value, n int) []Outcome {
	s := S(a[0])
	sep := S(a[1])
	if isBytes(s) || isBytes(sep) {
		return e.model(st, "modelSplitN", s, sep, smt.IntC(int64(n)))
	}
	sp := lit(sep)
	nst := st.clone()
	if l, ok := s.IsLit(); ok {
		ps := strings.SplitN(l, sp, n)
		if ps == nil {
			return one(nst, Slice{})
		}
		var out []Str
		for _, p := range ps {
			out = append(out, Lit(p))
		}
		return one(nst, e.strSlice(nst, out))
	}
	if n == 0 {
		return one(nst, Slice{})
	}
	var out []Str
	for n < 0 || len(out) < n-1 {
		pre, post, found, ok := ropeFind(s, sp)
		if !ok {
			unsup("split of numeric text at %q", sp)
		}
		if !found {
			break
		}
		out = append(out, pre)
		s = post
	}
	return one(nst, e.strSlice(nst, append(out, s)))
}

// numeric parsing ---------------------------------------------------------

func (e *Engine) atoiRes(st *State, n *Term, bad string, errT bool) []Outcome {
	if bad == "" {
		return one(st, TupleV{n, Iface{}})
	}
	s := st.clone()
	return one(s, TupleV{n, e.hostErr(s, bad)})
}

func (e *Engine) parseInt(st *State, s Str, base, bitSize int) []Outcome {
	if l, ok := s.IsLit(); ok {
		v, err := strconv.ParseInt(l, base, bitSize)
		if err != nil {
			return e.atoiRes(st, smt.IntC(v), err.Error(), true)
		}
		return e.atoiRes(st, smt.IntC(v), "", false)
	}
	if base != 10 && base != 0 {
		unsup("parseint base")
	}
	if len(s.P) == 1 && s.P[0].K == PInt {
		t := s.P[0].T
		if bitSize == 0 || bitSize == 64 {
			return one(st, TupleV{t, Iface{}})
		}
		lo, hi := int64(-1)<<(bitSize-1), int64(1)<<(bitSize-1)-1
		in := smt.And(smt.Cmp(smt.OSle, smt.IntC(lo), t), smt.Cmp(smt.OSle, t, smt.IntC(hi)))
		var out []Outcome
		if e.feasible(st.pc, in) {
			out = append(out, Outcome{st.add(in), TupleV{t, Iface{}}})
		}
		if !in.IsTrue() && e.feasible(st.pc, smt.Not(in)) {
			n := st.add(smt.Not(in)).clone()
			out = append(out, Outcome{n, TupleV{smt.Ite(smt.Cmp(smt.OSlt, t, smt.IntC(0)), smt.IntC(lo), smt.IntC(hi)), e.hostErr(n, "value out of range")}})
		}
		return out
	}
	if isBytes(s) {
		var out []Outcome
		for _, o := range e.model(st, "modelAtoi", s) {
			tv := o.Ret.(TupleV)
			ok := tv[1].(*Term)
			if e.feasible(o.St.pc, ok) {
				out = append(out, Outcome{o.St.add(ok), TupleV{tv[0], Iface{}}})
			}
			if !ok.IsTrue() && e.feasible(o.St.pc, smt.Not(ok)) {
				n := o.St.add(smt.Not(ok)).clone()
				out = append(out, Outcome{n, TupleV{tv[0], e.hostErr(n, "invalid syntax")}})
			}
		}
		return out
	}
	// a float atom (contains 'e', "NaN" or "Inf"), or any non-digit literal byte
	for i, p := range s.P {
		if p.K == PF64 || p.K == PF32 {
			return e.atoiRes(st, smt.IntC(0), "invalid syntax", true)
		}
		if p.K == PLit {
			for k := 0; k < len(p.L); k++ {
				c := p.L[k]
				if c < '0' || c > '9' {
					if (c == '-' || c == '+') && i == 0 && k == 0 {
						continue
					}
					return e.atoiRes(st, smt.IntC(0), "invalid syntax", true)
				}
			}
		}
	}
	unsup("parse of mixed numeric text")
	return nil
}

func (e *Engine) parseFloat(st *State, s Str, bitSize int) []Outcome {
	ret := func(st *State, t *Term, bad string) []Outcome {
		if bad == "" {
			return one(st, TupleV{t, Iface{}})
		}
		n := st.clone()
		return one(n, TupleV{t, e.hostErr(n, bad)})
	}
	if l, ok := s.IsLit(); ok {
		v, err := strconv.ParseFloat(l, bitSize)
		if err != nil {
			return ret(st, smt.F64C(v), err.Error())
		}
		return ret(st, smt.F64C(v), "")
	}
	if len(s.P) == 1 {
		p := s.P[0]
		switch p.K {
		case PInt:
			if bitSize == 32 {
				return ret(st, smt.FConv(smt.SToF(p.T, smt.F32), smt.F64), "")
			}
			return ret(st, smt.SToF(p.T, smt.F64), "")
		case PF64:
			if bitSize == 32 {
				// overflow to infinity also reports an error
				n := smt.FConv(smt.FConv(p.T, smt.F32), smt.F64)
				inf := func(x *Term) *Term {
					return smt.FCmp(smt.OFEq, smt.FUn(smt.OFAbs, x), smt.F64C(math.Inf(1)))
				}
				ov := smt.And(inf(n), smt.Not(inf(p.T)))
				var out []Outcome
				if e.feasible(st.pc, smt.Not(ov)) {
					out = append(out, ret(st.add(smt.Not(ov)), n, "")...)
				}
				if e.feasible(st.pc, ov) {
					out = append(out, ret(st.add(ov), n, "value out of range")...)
				}
				return out
			}
			return ret(st, p.T, "")
		case PF32:
			w := smt.FConv(p.T, smt.F64)
			if bitSize == 32 {
				return ret(st, w, "")
			}
			// shortest float32 text read at 64 bits: some value rounding to it
			v := e.input(fmt.Sprintf("text64(%d)", p.T.ID), smt.F64, "aux")
			n := st.add(smt.Eq(smt.FConv(v, smt.F32), p.T))
			return ret(n, v, "")
		}
	}
	if isBytes(s) {
		b, _ := s.bytes()
		// undetermined outcome, constrained only by the syntax of a number
		e.note("ParseFloat of symbolic bytes returns an arbitrary value")
		key := "parsefloat"
		for _, t := range b.B {
			key += fmt.Sprintf("_%d", t.ID)
		}
		if b.Len != nil {
			key += fmt.Sprintf("_l%d", b.Len.ID)
		}
		v := e.input(key, smt.F64, "aux")
		return ret(st, v, "")
	}
	for _, p := range s.P {
		if p.K == PLit {
			for k := 0; k < len(p.L); k++ {
				if !strings.ContainsRune("+-0123456789.eExXpP_abcdefABCDEFinfINFnatyNATY", rune(p.L[k])) {
					return ret(st, smt.F64C(0), "invalid syntax")
				}
			}
		}
	}
	unsup("parse of mixed numeric text")
	return nil
}

// readers -------------------------------------------------------------------

// readerText resolves an io.Reader to the text it delivers and the error it
// then reports (nil Iface value for io.EOF).
func (e *Engine) readerText(st *State, r Value) (Str, Value) {
	i, ok := r.(Iface)
	if !ok {
		if p, isP := r.(Ptr); isP {
			i = Iface{V: p}
		} else {
			unsup("reader %T", r)
		}
	}
	p, ok := i.V.(Ptr)
	if !ok {
		unsup("reader value %T", i.V)
	}
	switch o := st.heap.Get(p.Obj).(type) {
	case *Host:
		switch o.Kind {
		case "reader":
			return o.F[0].(Str), Iface{}
		case "treader":
			s, er := e.readerText(st, o.F[0])
			if len(s.P) > 0 && s.P[0].K == PBytes && s.P[0].Len == nil {
				s = mkStr(append(runs(s.P[0].B), s.P[1:]...))
			}
			if o.S == "bom" && len(s.P) > 0 && s.P[0].K == PLit {
				l := strings.TrimPrefix(s.P[0].L, "\xef\xbb\xbf")
				s = mkStr(append([]Part{{K: PLit, L: l}}, s.P[1:]...))
			}
			return s, er
		}
		unsup("reader kind %s", o.Kind)
	case *StructV:
		if i.T != nil && strings.HasSuffix(i.T.String(), "vharness/sym.Reader") {
			return o.F[0].(Str), o.F[1]
		}
	}
	unsup("reader type %v", i.T)
	return Str{}, nil
}

// runs splits bytes into literal and symbolic parts.
func runs(b []*Term) []Part {
	var out []Part
	for i := 0; i < len(b); {
		j := i
		if b[i].IsConst() {
			var l []byte
			for j < len(b) && b[j].IsConst() {
				l = append(l, byte(b[j].Int()))
				j++
			}
			out = append(out, Part{K: PLit, L: string(l)})
		} else {
			for j < len(b) && !b[j].IsConst() {
				j++
			}
			out = append(out, Part{K: PBytes, B: b[i:j]})
		}
		i = j
	}
	return out
}

func splitLines(s Str) []Str {
	var out []Str
	cur := []Part{}
	var parts []Part
	for _, p := range s.P {
		if p.K == PBytes && p.Len == nil {
			// newlines among the bytes are literal: symbolic bytes are printable
			parts = append(parts, runs(p.B)...)
			continue
		}
		parts = append(parts, p)
	}
	for _, p := range parts {
		if p.K != PLit {
			cur = append(cur, p)
			continue
		}
		l := p.L
		for {
			k := strings.IndexByte(l, '\n')
			if k < 0 {
				cur = append(cur, Part{K: PLit, L: l})
				break
			}
			cur = append(cur, Part{K: PLit, L: l[:k]})
			out = append(out, mkStr(cur))
			cur = nil
			l = l[k+1:]
		}
	}
	last := mkStr(cur)
	if len(last.P) > 0 {
		out = append(out, last)
	}
	for i, l := range out {
		if n := len(l.P); n > 0 && l.P[n-1].K == PLit && strings.HasSuffix(l.P[n-1].L, "\r") {
			ps := append([]Part(nil), l.P...)
			ps[n-1].L = strings.TrimSuffix(ps[n-1].L, "\r")
			out[i] = mkStr(ps)
		}
	}
	for i, l := range out {
		r := Str{}
		for _, p := range l.P {
			r = Concat(r, Str{[]Part{p}})
		}
		out[i] = r
	}
	return out
}

func (e *Engine) hostAt(st *State, v Value) (*Host, int) {
	p, ok := v.(Ptr)
	if !ok || p.Obj == 0 || len(p.Path) != 0 {
		unsup("host object expected")
	}
	h, ok := st.heap.Get(p.Obj).(*Host)
	if !ok {
		unsup("host object expected, got %T", st.heap.Get(p.Obj))
	}
	return h, p.Obj
}

func (e *Engine) bytesToStr(st *State, v Value) Str {
	s := v.(Slice)
	if s.Len == 0 && s.Obj == 0 {
		return Str{}
	}
	if h, ok := st.heap.Get(s.Obj).(*Host); ok {
		return h.F[0].(Str)
	}
	var b bstr
	for _, t := range e.sliceVals(st, s) {
		b.B = append(b.B, T(t))
	}
	return fromB(b)
}

func (e *Engine) newHost(st *State, h *Host) ([]Outcome, *State) {
	n := st.clone()
	id := e.alloc(n, h, "")
	return one(n, Ptr{Obj: id}), n
}

// sorting ---------------------------------------------------------------------

func (e *Engine) sortCall(st *State, a []Value, stable bool, pos token.Pos) []Outcome {
	i := a[0].(Iface)
	s, ok := i.V.(Slice)
	if !ok {
		unsup("sort of %T", i.V)
	}
	if s.Len < 2 {
		return one(st, nil)
	}
	sp := e.pkg("sort")
	swap := &FuncV{Fn: e.symFunc("modelSwap"), Bind: []Value{s}}
	data := &StructV{[]Value{a[1], swap}}
	if e.Cfg.SortNet {
		return e.Call(st, e.symFunc("modelSort"), []Value{a[1], swap, smt.IntC(int64(s.Len))}, nil)
	}
	if stable {
		return e.Call(st, sp.Func("stable_func"), []Value{data, smt.IntC(int64(s.Len))}, nil)
	}
	return e.Call(st, sp.Func("pdqsort_func"), []Value{data, smt.IntC(0), smt.IntC(int64(s.Len)), smt.IntC(int64(bits.Len(uint(s.Len))))}, nil)
}

func (e *Engine) pkg(path string) *ssa.Package {
	for _, p := range e.Prog.AllPackages() {
		if p.Pkg.Path() == path {
			p.Build()
			return p
		}
	}
	unsup("package %s not loaded", path)
	return nil
}

func strPred(model string, natively func(a, b string) bool, rope func(s Str, p string) (*Term, bool)) intrinsic {
	return func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
		x, y := S(a[0]), S(a[1])
		if l, ok := lits(a); ok {
			return one(st, smt.BoolC(natively(l[0], l[1])))
		}
		if p, ok := y.IsLit(); ok {
			if c, ok := rope(x, p); ok {
				return one(st, c)
			}
		}
		if _, ok := x.bytes(); ok {
			if _, ok := y.bytes(); ok {
				return e.model(st, model, a...)
			}
		}
		unsup("%s on %v", model, x)
		return nil
	}
}

func containsCond(s Str, p string) (*Term, bool) {
	if isBytes(s) {
		return nil, false
	}
	_, _, found, ok := ropeFind(s, p)
	return smt.BoolC(found), ok
}

func (e *Engine) index2(st *State, s Str, sub string, last bool) []Outcome {
	if l, ok := s.IsLit(); ok {
		if last {
			return one(st, smt.IntC(int64(strings.LastIndex(l, sub))))
		}
		return one(st, smt.IntC(int64(strings.Index(l, sub))))
	}
	if isBytes(s) && !last {
		return e.model(st, "modelIndex", s, Lit(sub))
	}
	if last {
		unsup("lastindex")
	}
	pre, _, found, ok := ropeFind(s, sub)
	if !ok {
		unsup("index in numeric text")
	}
	if !found {
		return one(st, smt.IntC(-1))
	}
	e.note("positions in numeric text are virtual")
	return one(st, smt.IntC(int64(vlen(pre))))
}

func init() {
	intrinsics = map[string]intrinsic{
		// math
		"math.Abs":         fun(smt.OFAbs),
		"math.Sqrt":        fun(smt.OFSqrt),
		"math.sqrt":        fun(smt.OFSqrt),
		"math.Floor":       fun(smt.OFFloor),
		"math.Ceil":        fun(smt.OFCeil),
		"math.Trunc":       fun(smt.OFTrunc),
		"math.Min":         fbin(smt.OFMin),
		"math.Max":         fbin(smt.OFMax),
		"math.Pow":         named("pow"),
		"math.Sin":         named("sin"),
		"math.Cos":         named("cos"),
		"math.Tan":         named("tan"),
		"math.Asin":        named("asin"),
		"math.Acos":        named("acos"),
		"math.Atan":        named("atan"),
		"math.Atan2":       named("atan2"),
		"math.Log":         named("log"),
		"math.Log10":       named("log10"),
		"math.Log2":        named("log2"),
		"math.Log1p":       named("log1p"),
		"math.Exp":         named("exp"),
		"math.Exp2":        named("exp2"),
		"math.Expm1":       named("expm1"),
		"math.Cbrt":        named("cbrt"),
		"math.Hypot":       named("hypot"),
		"math.Mod":         named("mod"),
		"math.Tanh":        named("tanh"),
		"math.Sinh":        named("sinh"),
		"math.Cosh":        named("cosh"),
		"math.Round":       named("round"),
		"math.RoundToEven": named("rndev"),
		"math.FMA":         named("fma"),
		"math.Remainder":   named("rem"),
		"math.NaN": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.F64C(math.NaN()))
		},
		"math.Inf": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.Ite(smt.Cmp(smt.OSle, smt.IntC(0), T(a[0])), smt.F64C(math.Inf(1)), smt.F64C(math.Inf(-1))))
		},
		"math.IsNaN": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.FIsNaN(T(a[0])))
		},
		"math.IsInf": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			x, s := T(a[0]), T(a[1])
			p := smt.And(smt.Cmp(smt.OSle, smt.IntC(0), s), smt.FCmp(smt.OFEq, x, smt.F64C(math.Inf(1))))
			n := smt.And(smt.Cmp(smt.OSle, s, smt.IntC(0)), smt.FCmp(smt.OFEq, x, smt.F64C(math.Inf(-1))))
			return one(st, smt.Or(p, n))
		},
		"math.Float64bits": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.FBits(T(a[0])))
		},
		"math.Float32bits": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.FBits(T(a[0])))
		},
		"math.Float64frombits": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.FFromB(T(a[0]), smt.F64))
		},
		"math.Float32frombits": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.FFromB(T(a[0]), smt.F32))
		},
		"math.Signbit": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.Cmp(smt.OSlt, smt.FBits(T(a[0])), smt.IntC(0)))
		},
		"math.Copysign": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			x, y := T(a[0]), T(a[1])
			n := smt.Cmp(smt.OSlt, smt.FBits(y), smt.IntC(0))
			ab := smt.FUn(smt.OFAbs, x)
			return one(st, smt.Ite(n, smt.FNeg(ab), ab))
		},
		"math.Modf": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			t := smt.FUn(smt.OFTrunc, T(a[0]))
			return one(st, TupleV{t, smt.FBin(smt.OFSub, T(a[0]), t)})
		},

		// errors, fmt, sync
		"errors.New": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			n := st.clone()
			id := e.alloc(n, &StructV{[]Value{a[0]}}, "")
			er := e.hostErr(n, "").(Iface)
			return one(n, Iface{er.T, Ptr{Obj: id}})
		},
		"fmt.Errorf": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			n := st.clone()
			return one(n, e.hostErr(n, "formatted error"))
		},
		"fmt.Sprintf": sprintf,
		"fmt.Println": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, TupleV{smt.IntC(0), Iface{}})
		},
		"fmt.Printf": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, TupleV{smt.IntC(0), Iface{}})
		},
		"log.Println":                nop,
		"log.Printf":                 nop,
		"(*sync.Mutex).Lock":         nop,
		"(*sync.Mutex).Unlock":       nop,
		"(*sync.RWMutex).Lock":       nop,
		"(*sync.RWMutex).Unlock":     nop,
		"(*sync.RWMutex).RLock":      nop,
		"(*sync.RWMutex).RUnlock":    nop,
		"(*sync.Pool).Put":           nop,
		"runtime.GC":                 nop,
		"runtime.KeepAlive":          nop,
		"runtime/debug.FreeOSMemory": nop,

		// strconv
		"strconv.Atoi": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.parseInt(st, S(a[0]), 10, 0)
		},
		"strconv.ParseInt": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.parseInt(st, S(a[0]), int(T(a[1]).Int()), int(T(a[2]).Int()))
		},
		"strconv.ParseFloat": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.parseFloat(st, S(a[0]), int(T(a[1]).Int()))
		},
		"strconv.Itoa": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, intText(T(a[0])))
		},
		"strconv.FormatInt": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			if b := T(a[1]); !b.IsConst() || b.Int() != 10 {
				unsup("formatint base")
			}
			return one(st, intText(T(a[0])))
		},

		// strings
		"strings.HasPrefix": strPred("modelHasPrefix", strings.HasPrefix, prefixCond),
		"strings.HasSuffix": strPred("modelHasSuffix", strings.HasSuffix, suffixCond),
		"strings.Contains":  strPred("modelContains", strings.Contains, containsCond),
		"strings.ContainsRune": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			r := T(a[1])
			if !r.IsConst() {
				unsup("containsrune")
			}
			return intrinsics["strings.Contains"](e, st, []Value{a[0], Lit(string(rune(r.Int())))}, pos)
		},
		"strings.ContainsAny": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			set := lit(a[1])
			if l, ok := S(a[0]).IsLit(); ok {
				return one(st, smt.BoolC(strings.ContainsAny(l, set)))
			}
			c := smt.False
			for _, r := range set {
				if r > 127 {
					continue
				}
				if b, ok := S(a[0]).bytes(); ok {
					for i, t := range b.B {
						c = smt.Or(c, smt.And(smt.Cmp(smt.OSlt, smt.IntC(int64(i)), b.lenT()), smt.Eq(t, smt.BVC(8, uint64(r)))))
					}
					continue
				}
				_, _, f, ok := ropeFind(S(a[0]), string(r))
				if !ok {
					unsup("containsany")
				}
				c = smt.Or(c, smt.BoolC(f))
			}
			return one(st, c)
		},
		"strings.Index": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.index2(st, S(a[0]), lit(a[1]), false)
		},
		"strings.LastIndex": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.index2(st, S(a[0]), lit(a[1]), true)
		},
		"strings.IndexByte": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.index2(st, S(a[0]), string([]byte{byte(T(a[1]).K)}), false)
		},
		"strings.IndexRune": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.index2(st, S(a[0]), string(rune(T(a[1]).Int())), false)
		},
		"strings.Count": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			if l, ok := lits(a); ok {
				return one(st, smt.IntC(int64(strings.Count(l[0], l[1]))))
			}
			s, sub, n := S(a[0]), lit(a[1]), 0
			if isBytes(s) {
				unsup("count in bytes")
			}
			for {
				_, post, f, ok := ropeFind(s, sub)
				if !ok {
					unsup("count")
				}
				if !f {
					return one(st, smt.IntC(int64(n)))
				}
				n++
				s = post
			}
		},
		"strings.Split": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return splitN(e, st, a, -1)
		},
		"strings.SplitN": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return splitN(e, st, a, int(T(a[2]).Int()))
		},
		"strings.Cut": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			var out []Outcome
			for _, o := range splitN(e, st, a, 2) {
				ps := e.sliceVals(o.St, o.Ret.(Slice))
				if len(ps) == 2 {
					out = append(out, Outcome{o.St, TupleV{ps[0], ps[1], smt.True}})
				} else {
					out = append(out, Outcome{o.St, TupleV{a[0], Str{}, smt.False}})
				}
			}
			return out
		},
		"strings.Fields": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			if l, ok := lits(a); ok {
				n := st.clone()
				var ps []Str
				for _, f := range strings.Fields(l[0]) {
					ps = append(ps, Lit(f))
				}
				return one(n, e.strSlice(n, ps))
			}
			unsup("fields")
			return nil
		},
		"strings.TrimSpace": trimmer("modelTrimSpace", true, true),
		"strings.Trim":      trimmer("", true, true),
		"strings.TrimLeft":  trimmer("modelTrimLeft", true, false),
		"strings.TrimRight": trimmer("modelTrimRight", false, true),
		"strings.TrimPrefix": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return trimFix(e, st, a, pos, true)
		},
		"strings.TrimSuffix": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return trimFix(e, st, a, pos, false)
		},
		"strings.Replace": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return replace(e, st, a, T(a[3]))
		},
		"strings.ReplaceAll": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return replace(e, st, a, smt.IntC(-1))
		},
		"strings.ToUpper": caser("modelToUpper", strings.ToUpper),
		"strings.ToLower": caser("modelToLower", strings.ToLower),
		"strings.EqualFold": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			if l, ok := lits(a); ok {
				return one(st, smt.BoolC(strings.EqualFold(l[0], l[1])))
			}
			unsup("equalfold")
			return nil
		},
		"strings.Join": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			r := Str{}
			for i, v := range e.sliceVals(st, a[0].(Slice)) {
				if i > 0 {
					r = Concat(r, S(a[1]))
				}
				r = Concat(r, S(v))
			}
			return one(st, r)
		},
		"strings.Repeat": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, Lit(strings.Repeat(lit(a[0]), int(T(a[1]).Int()))))
		},
		"strings.NewReader": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			o, _ := e.newHost(st, &Host{Kind: "reader", F: []Value{a[0]}})
			return o
		},
		"(*strings.Builder).WriteString": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			n := e.sbAppend(st, a[0], S(a[1]), pos)
			return one(n, TupleV{smt.IntC(0), Iface{}})
		},
		"(*strings.Builder).WriteByte": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(e.sbAppend(st, a[0], fromB(bstr{B: []*Term{T(a[1])}}), pos), Iface{})
		},
		"(*strings.Builder).WriteRune": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			var out []Outcome
			for _, o := range e.convert(st, a[1], types.Typ[types.Rune], types.Typ[types.String]) {
				out = append(out, Outcome{e.sbAppend(o.St, a[0], S(o.Ret), pos), TupleV{smt.IntC(1), Iface{}}})
			}
			return out
		},
		"(*strings.Builder).Grow": nop,
		"(*strings.Builder).String": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, e.sbGet(st, a[0]))
		},
		"(*strings.Builder).Len": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, e.strLen(e.sbGet(st, a[0])))
		},

		// readers
		"bytes.NewReader": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			o, _ := e.newHost(st, &Host{Kind: "reader", F: []Value{e.bytesToStr(st, a[0])}})
			return o
		},
		"bytes.NewBuffer": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			o, _ := e.newHost(st, &Host{Kind: "reader", F: []Value{e.bytesToStr(st, a[0])}})
			return o
		},
		"bytes.NewBufferString": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			o, _ := e.newHost(st, &Host{Kind: "reader", F: []Value{a[0]}})
			return o
		},
		"bufio.NewReader": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			o, _ := e.newHost(st, &Host{Kind: "treader", F: []Value{a[0]}})
			return o
		},
		"golang.org/x/text/transform.NewReader": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			mode := ""
			if i, ok := a[1].(Iface); ok {
				if p, ok := i.V.(Ptr); ok {
					if h, ok := st.heap.Get(p.Obj).(*Host); ok && h.Kind == "bom" {
						mode = "bom"
					}
				}
			}
			o, _ := e.newHost(st, &Host{Kind: "treader", F: []Value{a[0]}, S: mode})
			return o
		},
		"golang.org/x/text/encoding/unicode.BOMOverride": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			o, n := e.newHost(st, &Host{Kind: "bom"})
			er := e.hostErr(n, "").(Iface)
			return one(n, Iface{er.T, o[0].Ret})
		},
		"bufio.NewScanner": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			o, _ := e.newHost(st, &Host{Kind: "scanner", F: []Value{a[0], Str{}, Iface{}, Slice{}}, N: 64 << 10, S: "new"})
			return o
		},
		"(*bufio.Scanner).Buffer": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			h, id := e.hostAt(st, a[0])
			c := *h
			mx := T(a[2])
			c.N = int(mx.Int())
			if sl := a[1].(Slice); sl.Cap > c.N {
				c.N = sl.Cap
			}
			n := st.clone()
			n.heap = n.heap.Set(id, &c)
			return one(n, nil)
		},
		"(*bufio.Scanner).Split": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			if f, ok := a[1].(*FuncV); ok && f.Fn != nil && f.Fn.String() == "bufio.ScanLines" {
				return one(st, nil)
			}
			unsup("scanner split")
			return nil
		},
		"(*bufio.Scanner).Scan": scan,
		"(*bufio.Scanner).Text": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			h, _ := e.hostAt(st, a[0])
			return one(st, h.F[1])
		},
		"(*bufio.Scanner).Bytes": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			h, _ := e.hostAt(st, a[0])
			return e.convert(st, h.F[1], types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))
		},
		"(*bufio.Scanner).Err": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			h, _ := e.hostAt(st, a[0])
			return one(st, h.F[2])
		},
		"io.ReadAll":        readAll,
		"io/ioutil.ReadAll": readAll,

		// sort
		"sort.Slice": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.sortCall(st, a, false, pos)
		},
		"sort.SliceStable": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.sortCall(st, a, true, pos)
		},
		"vharness/sym.modelSwap": nil,

		// harness interface
		"vharness/sym.Int": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			t := e.input(lit(a[0]), smt.BV64, "int")
			lo, hi := T(a[1]), T(a[2])
			n := e.assume(st, smt.And(smt.Cmp(smt.OSle, lo, t), smt.Cmp(smt.OSle, t, hi)))
			return out1(n, t)
		},
		"vharness/sym.Bool": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, e.input(lit(a[0]), smt.Bool, "bool"))
		},
		"vharness/sym.F64": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, e.input(lit(a[0]), smt.F64, "f64"))
		},
		"vharness/sym.F32": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, e.input(lit(a[0]), smt.F32, "f32"))
		},
		"vharness/sym.F64In": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			t := e.input(lit(a[0]), smt.F64, "f64")
			n := e.assume(st, smt.And(smt.FCmp(smt.OFLe, T(a[1]), t), smt.FCmp(smt.OFLe, t, T(a[2]))))
			return out1(n, t)
		},
		"vharness/sym.F32In": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			t := e.input(lit(a[0]), smt.F32, "f32")
			n := e.assume(st, smt.And(smt.FCmp(smt.OFLe, T(a[1]), t), smt.FCmp(smt.OFLe, t, T(a[2]))))
			return out1(n, t)
		},
		"vharness/sym.Choose": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			name := lit(a[0])
			t := e.input(name, smt.BV64, "int")
			var out []Outcome
			for i := int64(0); i < T(a[1]).Int(); i++ {
				c := smt.Eq(t, smt.IntC(i))
				if v, ok := known(st.pc, c); ok && !v {
					continue
				}
				if fx, ok := e.Cfg.Fix[name]; ok && fx != i {
					continue
				}
				n := st.add(c).clone()
				n.tag += fmt.Sprintf("%s=%d;", name, i)
				out = append(out, Outcome{n, smt.IntC(i)})
			}
			return out
		},
		"vharness/sym.Bytes": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			name := lit(a[0])
			var b bstr
			n := st
			for i := 0; i < int(T(a[1]).Int()); i++ {
				t := e.input(fmt.Sprintf("%s.%d", name, i), smt.BV8, "byte")
				n = n.add(smt.And(smt.Cmp(smt.OUle, smt.BVC(8, 0x20), t), smt.Cmp(smt.OUlt, t, smt.BVC(8, 0x7f))))
				b.B = append(b.B, t)
			}
			return one(n, fromB(b))
		},
		"vharness/sym.IntText": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, intText(T(a[0])))
		},
		"vharness/sym.FloatText": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, Str{[]Part{{K: PF64, T: T(a[0])}}})
		},
		"vharness/sym.Float32Text": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, Str{[]Part{{K: PF32, T: T(a[0])}}})
		},
		"vharness/sym.Assume": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return out1(e.assume(st, T(a[0])), nil)
		},
		"vharness/sym.Assert": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.assert(st, smt.Not(T(a[0])), lit(a[1]), pos)
		},
		"vharness/sym.AssertEqF": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			x, y := T(a[0]), T(a[1])
			return e.assert(st, smt.Not(smt.Or(smt.Eq(x, y), smt.FCmp(smt.OFEq, x, y))), lit(a[2]), pos)
		},
		"vharness/sym.AssertEqF32": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			x, y := T(a[0]), T(a[1])
			return e.assert(st, smt.Not(smt.Or(smt.Eq(x, y), smt.FCmp(smt.OFEq, x, y))), lit(a[2]), pos)
		},
		"vharness/sym.AssertLeF": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.assert(st, smt.Not(smt.FCmp(smt.OFLe, T(a[0]), T(a[1]))), lit(a[2]), pos)
		},
		"vharness/sym.AssertEqI": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return e.assert(st, smt.Not(smt.Eq(T(a[0]), T(a[1]))), lit(a[2]), pos)
		},
		"vharness/sym.AssertEqS": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			c, ok := StrEq(S(a[0]), S(a[1]))
			if !ok {
				unsup("string comparison %v / %v", a[0], a[1])
			}
			return e.assert(st, smt.Not(c), lit(a[2]), pos)
		},
		"vharness/sym.Observe": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			l := lit(a[0])
			e.Observed[l] = append(e.Observed[l], ObsT{st.pc, T(a[1])})
			return one(st, nil)
		},
		"vharness/sym.Reach": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			l := lit(a[0])
			e.Reached[l]++
			if e.Reached[l] <= 8 {
				e.ReachPC[l] = append(e.ReachPC[l], smt.AndAll(st.pc...))
			}
			return one(st, nil)
		},
		"vharness/sym.Thorough": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.BoolC(e.Cfg.Thorough))
		},
		"vharness/sym.FrameBegin": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			n := st.clone()
			fr := frameRec{label: lit(a[0]), limit: e.nextObj}
			if r := a[1].(Slice); r.Obj != 0 {
				fr.only = map[int]bool{}
				e.reach(st, r, fr.only)
			}
			n.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
			return one(n, nil)
		},
		"vharness/sym.FrameEnd": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			n := st.clone()
			l := st.frames[len(st.frames)-1].label
			n.frames = st.frames[:len(st.frames)-1]
			e.Reached[l]++
			e.Asserts++
			if e.Reached[l] <= 8 {
				e.ReachPC[l] = append(e.ReachPC[l], smt.AndAll(st.pc...))
			}
			return one(n, nil)
		},
		"vharness/sym.And": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.And(T(a[0]), T(a[1])))
		},
		"vharness/sym.Or": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.Or(T(a[0]), T(a[1])))
		},
		"vharness/sym.Implies": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, smt.Implies(T(a[0]), T(a[1])))
		},
		"vharness/sym.IteF": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, e.choose(st, T(a[0]), T(a[1]), T(a[2])))
		},
		"vharness/sym.IteF32": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, e.choose(st, T(a[0]), T(a[1]), T(a[2])))
		},
		"vharness/sym.IteI": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, e.choose(st, T(a[0]), T(a[1]), T(a[2])))
		},
		"vharness/sym.Long": func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
			return one(st, Lit(strings.Repeat("x", int(T(a[0]).Int()))))
		},
	}
	delete(intrinsics, "vharness/sym.modelSwap")
	for _, f := range []string{"Floor", "Ceil", "Trunc", "Sqrt"} {
		intrinsics["math."+strings.ToLower(f[:1])+f[1:]] = intrinsics["math."+f]
	}
}

func intText(t *Term) Str {
	if t.IsConst() {
		return Lit(strconv.FormatInt(t.Int(), 10))
	}
	return Str{[]Part{{K: PInt, T: t}}}
}

func caser(model string, f func(string) string) intrinsic {
	return func(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
		if l, ok := lits(a); ok {
			return one(st, Lit(f(l[0])))
		}
		if isBytes(S(a[0])) {
			return e.model(st, model, a...)
		}
		unsup("case conversion")
		return nil
	}
}

func trimFix(e *Engine, st *State, a []Value, pos token.Pos, pre bool) []Outcome {
	s := S(a[0])
	p := lit(a[1])
	var os []Outcome
	if pre {
		os = intrinsics["strings.HasPrefix"](e, st, a, pos)
	} else {
		os = intrinsics["strings.HasSuffix"](e, st, a, pos)
	}
	var out []Outcome
	for _, o := range os {
		c := T(o.Ret)
		if e.feasible(o.St.pc, smt.Not(c)) && !c.IsTrue() {
			out = append(out, Outcome{o.St.add(smt.Not(c)), s})
		}
		if c.IsFalse() || !e.feasible(o.St.pc, c) {
			continue
		}
		n := o.St.add(c)
		if isBytes(s) {
			b, _ := s.bytes()
			l := smt.IntC(int64(len(p)))
			if pre {
				out = append(out, e.substr(n, s, l, nil, pos)...)
			} else {
				out = append(out, e.substr(n, s, smt.IntC(0), smt.Bin(smt.OSub, b.lenT(), l), pos)...)
			}
			continue
		}
		ps := append([]Part(nil), s.P...)
		rest := len(p)
		for rest > 0 && len(ps) > 0 {
			k := 0
			if !pre {
				k = len(ps) - 1
			}
			if ps[k].K != PLit {
				unsup("trim in numeric text")
			}
			m := len(ps[k].L)
			if m > rest {
				m = rest
			}
			if pre {
				ps[k].L = ps[k].L[m:]
			} else {
				ps[k].L = ps[k].L[:len(ps[k].L)-m]
			}
			rest -= m
			if ps[k].L == "" {
				if pre {
					ps = ps[1:]
				} else {
					ps = ps[:k]
				}
			}
		}
		out = append(out, Outcome{n, mkStr(ps)})
	}
	return out
}

func replace(e *Engine, st *State, a []Value, cnt *Term) []Outcome {
	s := S(a[0])
	old := lit(a[1])
	if l, ok := lits(a[:3]); ok && cnt.IsConst() {
		return one(st, Lit(strings.Replace(l[0], l[1], l[2], int(cnt.Int()))))
	}
	if !cnt.IsConst() || cnt.Int() >= 0 {
		unsup("bounded replace")
	}
	if isBytes(s) {
		if len(old) != 1 {
			unsup("replace in bytes")
		}
		return e.model(st, "modelReplaceAll1", s, smt.BVC(8, uint64(old[0])), a[2])
	}
	r := Str{}
	for {
		pre, post, f, ok := ropeFind(s, old)
		if !ok {
			unsup("replace in numeric text")
		}
		if !f {
			return one(st, Concat(r, s))
		}
		r = Concat(Concat(r, pre), S(a[2]))
		s = post
	}
}

func (e *Engine) sbGet(st *State, p Value) Str {
	rs := e.load(st, p.(Ptr), token.NoPos)
	if len(rs) != 1 {
		unsup("builder")
	}
	f := rs[0].V.(*StructV).F
	if s, ok := f[len(f)-1].(Str); ok {
		return s
	}
	return Str{}
}

func (e *Engine) sbAppend(st *State, p Value, s Str, pos token.Pos) *State {
	cur := e.sbGet(st, p)
	rs := e.load(st, p.(Ptr), pos)
	f := append([]Value(nil), rs[0].V.(*StructV).F...)
	f[len(f)-1] = Concat(cur, s)
	ss := e.store(st, p.(Ptr), &StructV{f}, pos)
	return ss[0]
}

func readAll(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
	s, er := e.readerText(st, a[0])
	n := st.clone()
	id := e.alloc(n, &Host{Kind: "bytes", F: []Value{s}}, "")
	return one(n, TupleV{Slice{Obj: id, Len: vlen(s), Cap: vlen(s)}, er})
}

func scan(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
	h, id := e.hostAt(st, a[0])
	c := *h
	c.F = append([]Value(nil), h.F...)
	n := st.clone()
	if h.S == "new" {
		txt, er := e.readerText(st, h.F[0])
		ls := splitLines(txt)
		vals := make([]Value, len(ls))
		for i := range ls {
			vals[i] = ls[i]
		}
		c.F[3] = e.newSlice(n, vals, Str{})
		c.F = append(c.F, smt.IntC(0), er)
		c.S = "on"
	}
	lines := c.F[3].(Slice)
	k := int(T(c.F[4]).Int())
	ret := smt.False
	if c.S == "on" && k < lines.Len {
		l := e.sliceGet(n, lines, k).(Str)
		if vlen(l) >= c.N {
			c.F[1], c.F[2], c.S = Str{}, e.globalErr(n, "bufio", "ErrTooLong"), "done"
		} else {
			c.F[1], c.F[4], ret = l, smt.IntC(int64(k+1)), smt.True
		}
	} else if c.S == "on" {
		c.F[1], c.F[2], c.S = Str{}, c.F[5], "done"
	}
	n.heap = n.heap.Set(id, &c)
	return one(n, ret)
}

func (e *Engine) globalErr(st *State, pkg, name string) Value {
	g, ok := e.pkg(pkg).Members[name].(*ssa.Global)
	if !ok {
		return e.hostErr(st, name)
	}
	return st.heapGetGlobal(e, g)
}

func (st *State) heapGetGlobal(e *Engine, g *ssa.Global) Value {
	id := e.globalObj(st, g)
	return st.heap.Get(id)
}

func sprintf(e *Engine, st *State, a []Value, pos token.Pos) []Outcome {
	f := lit(a[0])
	args := e.sliceVals(st, a[1].(Slice))
	r := Str{}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' || i+1 >= len(f) {
			r = Concat(r, Lit(f[i:i+1]))
			continue
		}
		i++
		if f[i] == '%' {
			r = Concat(r, Lit("%"))
			continue
		}
		if k >= len(args) {
			unsup("sprintf arity")
		}
		v := args[k].(Iface).V
		k++
		switch x := v.(type) {
		case Str:
			r = Concat(r, x)
		case *Term:
			if x.S.K == smt.KBV && x.S.W == 64 && (f[i] == 'd' || f[i] == 'v') {
				r = Concat(r, intText(x))
				continue
			}
			r = Concat(r, Str{[]Part{{K: PF64, T: smt.F64C(0)}}})
		default:
			unsup("sprintf %T", v)
		}
	}
	return one(st, r)
}

var _ = constant.MakeBool
