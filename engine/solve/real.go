package solve

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"gosym/smt"
)

// Reals with rounding errors: a float whose range is known to be finite is a
// real number, and every operation on such floats is the real operation plus
// an error no larger than rounding allows for the operation's range. Whatever
// is not covered is left free, so a refutation holds for the floats.
type realEnc struct {
	r     *ranger
	sb    strings.Builder
	vals  map[*Term]string
	bools map[*Term]string
	n     int
	size  int
	nz    map[string]bool // reals other than zero
	mono  map[string][][2]string
}

func ratStr(f float64) string {
	q := new(big.Rat).SetFloat64(f)
	neg := q.Sign() < 0
	q.Abs(q)
	s := q.Num().String() + ".0"
	if !q.IsInt() {
		s = "(/ " + s + " " + q.Denom().String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

func (e *realEnc) fin(t *Term) (iv, bool) {
	v := e.r.get(t)
	return v, v.fin() && v.lo <= v.hi && math.Max(math.Abs(v.lo), math.Abs(v.hi)) < 1e300
}

func (e *realEnc) fresh(sort string) string {
	e.n++
	s := fmt.Sprintf("r%d", e.n)
	fmt.Fprintf(&e.sb, "(declare-const %s %s)\n", s, sort)
	return s
}

func (e *realEnc) say(f string, a ...interface{}) {
	fmt.Fprintf(&e.sb, "(assert "+f+")\n", a...)
}

// within asserts |a-b| <= d.
// nonlinear asserts a fact that a first attempt leaves out.
func (e *realEnc) nonlinear(f string, a ...interface{}) {
	fmt.Fprintf(&e.sb, "(assert "+f+") ; nonlinear\n", a...)
}

func (e *realEnc) within(a, b string, d float64) {
	e.say("(<= (- %s) (- %s %s) %s)", ratStr(d), a, b, ratStr(d))
}

func (e *realEnc) val(t *Term) string {
	if s, ok := e.vals[t]; ok {
		return s
	}
	if t.IsConst() && !math.IsInf(t.Float(), 0) && t.Float() == t.Float() {
		s := ratStr(t.Float())
		e.vals[t] = s
		return s
	}
	if v, ok := e.fin(t); ok && v.lo == v.hi {
		s := ratStr(v.lo)
		e.vals[t] = s
		return s
	}
	s := e.calc(t)
	e.vals[t] = s
	if v, ok := e.fin(t); ok {
		e.say("(<= %s %s %s)", ratStr(v.lo), s, ratStr(v.hi))
	}
	return s
}

// increasing notes that rounding keeps the order of x op y for a fixed y.
func (e *realEnc) increasing(key, x, res string) {
	old := e.mono[key]
	if len(old) >= 6 {
		return
	}
	for _, o := range old {
		e.say("(=> (<= %s %s) (<= %s %s))", x, o[0], res, o[1])
		e.say("(=> (<= %s %s) (<= %s %s))", o[0], x, o[1], res)
	}
	e.mono[key] = append(old, [2]string{x, res})
}

// order notes that adding d to a gives s.
func (e *realEnc) order(s, a string, d iv) {
	if d.lo >= 0 {
		e.say("(>= %s %s)", s, a)
	}
	if d.hi <= 0 {
		e.say("(<= %s %s)", s, a)
	}
}

// same notes that a function has one result for an argument.
func (e *realEnc) same(key, x, res string) {
	old := e.mono[key]
	for _, o := range old {
		e.say("(=> (= %s %s) (= %s %s))", x, o[0], res, o[1])
	}
	e.mono[key] = append(old, [2]string{x, res})
}

func (e *realEnc) calc(t *Term) string {
	v, ok := e.fin(t)
	if !ok || !t.S.IsFloat() {
		return e.fresh("Real")
	}
	floats := 0
	for _, a := range t.Args {
		if a.S.IsFloat() {
			if _, ok := e.fin(a); !ok && t.Op != smt.OIte {
				return e.fresh("Real")
			}
			floats++
		}
	}
	e.size++
	m := math.Max(math.Abs(v.lo), math.Abs(v.hi))
	u := m * 0x1p-52
	if t.S.K == smt.KF32 {
		u = m*0x1p-23 + 1e-44
	}
	u += 1e-300
	arg := func(i int) string { return e.val(t.Args[i]) }
	rounded := func(f string, a ...interface{}) string {
		s := e.fresh("Real")
		x := fmt.Sprintf(f, a...)
		if v.lo >= 0 {
			y := e.fresh("Real")
			e.say("(= %s %s)", y, x)
			x = y
			k := 0x1p-52
			if t.S.K == smt.KF32 {
				k = 0x1p-23
			}
			e.say("(<= (- (* %s %s) %s) %s (+ (* %s %s) %s))", ratStr(1-k), x, ratStr(1e-44), s, ratStr(1+k), x, ratStr(1e-44))
		}
		e.within(s, x, u)
		return s
	}
	same := func(f string, a ...interface{}) string {
		s := e.fresh("Real")
		e.say("(= %s %s)", s, fmt.Sprintf(f, a...))
		return s
	}
	switch t.Op {
	case smt.OFAdd:
		a, b := arg(0), arg(1)
		if a == "0.0" {
			return b
		}
		if b == "0.0" {
			return a
		}
		s := rounded("(+ %s %s)", a, b)
		e.order(s, a, e.r.get(t.Args[1]))
		e.order(s, b, e.r.get(t.Args[0]))
		e.increasing("+"+b, a, s)
		e.increasing("+"+a, b, s)
		return s
	case smt.OFSub:
		a, b := arg(0), arg(1)
		if b == "0.0" {
			return a
		}
		if a == b {
			return "0.0"
		}
		s := rounded("(- %s %s)", a, b)
		if w := e.r.get(t.Args[1]); true {
			e.order(s, a, iv{-w.hi, -w.lo, w.nan})
		}
		e.say("(=> (>= %s %s) (>= %s 0.0))", a, b, s)
		e.say("(=> (<= %s %s) (<= %s 0.0))", a, b, s)
		e.increasing("-"+b, a, s)
		e.increasing(a+"-", "(- "+b+")", s)
		return s
	case smt.OFMul:
		a, b := arg(0), arg(1)
		if a == "1.0" {
			return b
		}
		if b == "1.0" {
			return a
		}
		p := e.fresh("Real")
		say := e.nonlinear
		if t.Args[0].IsConst() || t.Args[1].IsConst() {
			say = e.say
		}
		say("(= %s (* %s %s))", p, a, b)
		s := rounded("%s", p)
		for i := 0; i < 2; i++ {
			x, y := []string{a, b}[i], e.r.get(t.Args[1-i])
			if e.r.get(t.Args[i]).lo >= 0 && y.lo >= 0 {
				if y.hi <= 1 {
					e.say("(<= %s %s)", s, x)
				} else if y.lo >= 1 {
					e.say("(>= %s %s)", s, x)
				}
			}
		}
		if e.r.get(t.Args[1]).lo >= 0 {
			e.increasing("*"+b, a, s)
		}
		if e.r.get(t.Args[0]).lo >= 0 {
			e.increasing("*"+a, b, s)
		}
		return s
	case smt.OFDiv:
		d := e.r.get(t.Args[1])
		if d.lo <= 0 && d.hi >= 0 && !e.r.nz[t.Args[1]] && !e.nz[arg(1)] {
			return e.fresh("Real")
		}
		if arg(0) == arg(1) {
			return "1.0"
		}
		if arg(1) == "1.0" {
			return arg(0)
		}
		q := e.fresh("Real")
		if t.Args[1].IsConst() {
			e.say("(= (* %s %s) %s)", q, arg(1), arg(0))
		} else {
			e.nonlinear("(= (* %s %s) %s)", q, arg(1), arg(0))
		}
		s := rounded("%s", q)
		if d.lo >= 0 {
			e.say("(=> (>= %s 0.0) (>= %s 0.0))", arg(0), s)
			e.say("(=> (<= %s 0.0) (<= %s 0.0))", arg(0), s)
			e.say("(=> (>= %s %s) (>= %s 1.0))", arg(0), arg(1), s)
			e.say("(=> (<= %s %s) (<= %s 1.0))", arg(0), arg(1), s)
			e.increasing("/"+arg(1), arg(0), s)
		}
		return s
	case smt.OFSqrt:
		if a := e.r.get(t.Args[0]); a.lo < 0 {
			return e.fresh("Real")
		}
		q := e.fresh("Real")
		e.say("(>= %s 0.0)", q)
		e.nonlinear("(= (* %s %s) %s)", q, q, arg(0))
		return rounded("%s", q)
	case smt.OFNeg:
		return same("(- %s)", arg(0))
	case smt.OFAbs:
		return same("(ite (>= %s 0.0) %s (- %s))", arg(0), arg(0), arg(0))
	case smt.OFMin:
		return same("(ite (<= %s %s) %s %s)", arg(0), arg(1), arg(0), arg(1))
	case smt.OFMax:
		return same("(ite (>= %s %s) %s %s)", arg(0), arg(1), arg(0), arg(1))
	case smt.OIte:
		c := e.boolean(t.Args[0])
		return same("(ite %s %s %s)", c, arg(1), arg(2))
	case smt.OFConv:
		if t.S.K == smt.KF64 {
			return same("%s", arg(0))
		}
		return rounded("%s", arg(0))
	case smt.OFFloor:
		s := e.fresh("Real")
		e.say("(and (<= %s %s) (< %s (+ %s 1.0)))", s, arg(0), arg(0), s)
		return s
	case smt.OFCeil:
		s := e.fresh("Real")
		e.say("(and (>= %s %s) (> (+ %s 1.0) %s))", s, arg(0), arg(0), s)
		return s
	case smt.OFTrunc:
		s := e.fresh("Real")
		e.within(s, arg(0), 1)
		return s
	case smt.OFun:
		if t.Name == "mod" && t.Args[1].IsConst() && e.r.get(t.Args[0]).lo >= 0 {
			c := t.Args[1].Float()
			x, s := arg(0), e.fresh("Real")
			e.same("mod"+arg(1), x, s)
			if k := e.r.get(t.Args[0]).hi / c; k < 8 {
				or := "(or"
				for i := 0.0; i <= k; i++ {
					or += fmt.Sprintf(" (and (= %s (- %s %s)) (<= 0.0 %s) (< %s %s))", s, x, ratStr(c*i), s, s, ratStr(c))
				}
				e.say("%s)", or)
			}
			return s
		}
		if t.Name == "pow" && t.Args[1].IsConst() && t.Args[1].Float() == 2 {
			s, p := e.fresh("Real"), e.fresh("Real")
			e.nonlinear("(= %s (* %s %s))", p, arg(0), arg(0))
			e.within(s, p, m*1e-12+1e-300)
			return s
		}
	}
	return e.fresh("Real")
}

func (e *realEnc) boolean(t *Term) string {
	if s, ok := e.bools[t]; ok {
		return s
	}
	s := e.boolCalc(t)
	e.bools[t] = s
	return s
}

func (e *realEnc) boolCalc(t *Term) string {
	list := func(op string) string {
		s := "(" + op
		for _, a := range t.Args {
			s += " " + e.boolean(a)
		}
		return s + ")"
	}
	name := func(f string, a ...interface{}) string {
		s := e.fresh("Bool")
		e.say("(= %s %s)", s, fmt.Sprintf(f, a...))
		return s
	}
	switch t.Op {
	case smt.OConst:
		if t.IsTrue() {
			return "true"
		}
		return "false"
	case smt.ONot:
		return "(not " + e.boolean(t.Args[0]) + ")"
	case smt.OAnd:
		return name("%s", list("and"))
	case smt.OOr:
		return name("%s", list("or"))
	case smt.OFIsNaN:
		if !e.r.get(t.Args[0]).nan {
			return "false"
		}
	case smt.OFLt, smt.OFLe, smt.OFEq:
		_, a := e.fin(t.Args[0])
		_, b := e.fin(t.Args[1])
		if a && b {
			op := map[smt.Op]string{smt.OFLt: "<", smt.OFLe: "<=", smt.OFEq: "="}[t.Op]
			return name("(%s %s %s)", op, e.val(t.Args[0]), e.val(t.Args[1]))
		}
	case smt.OIte:
		return name("%s", list("ite"))
	case smt.OEq:
		a, b := t.Args[0], t.Args[1]
		if a.S.K == smt.KBool {
			return name("%s", list("="))
		}
		if a.S.IsFloat() {
			_, x := e.fin(a)
			_, y := e.fin(b)
			if x && y {
				s := e.fresh("Bool")
				e.say("(=> %s (= %s %s))", s, e.val(a), e.val(b))
				return s
			}
		}
	}
	return e.fresh("Bool")
}

// nearly is the condition under which an equality assertion fails even with
// the tolerance that native runs allow, or "".
func (e *realEnc) nearly(bad *Term) string {
	if bad.Op != smt.OAnd || len(bad.Args) != 2 {
		return ""
	}
	for _, a := range bad.Args {
		if a.Op != smt.ONot || len(a.Args[0].Args) != 2 {
			return ""
		}
		c := a.Args[0]
		if c.Op != smt.OFEq {
			continue
		}
		_, x := e.fin(c.Args[0])
		_, y := e.fin(c.Args[1])
		if !x || !y {
			return ""
		}
		a, b := e.val(c.Args[0]), e.val(c.Args[1])
		tol := ratStr(1e-9)
		if c.Args[0].S.K == smt.KF32 {
			tol = ratStr(1e-6)
		}
		d := e.fresh("Real")
		e.say("(= %s (- %s %s))", d, a, b)
		s := e.fresh("Real")
		e.say("(and (or (= %s %s) (= %s (- %s))) (>= %s 0.0))", s, a, s, a, s)
		return fmt.Sprintf("(and (or (> %s 0.0) (< %s 0.0)) (or (> %s (* %s %s)) (< %s (- (* %s %s)))) (or (> %s %s) (< %s (- %s))))",
			d, d, d, tol, s, d, tol, s, d, ratStr(1e-15), d, ratStr(1e-15))
	}
	return ""
}

// reals tries to refute ts (the last one is the goal) over the reals.
func (c *Ctx) reals(ts []*Term, left func(time.Duration) time.Duration) (bool, string) {
	mu.Lock()
	pc, bad := ts[:len(ts)-1], ts[len(ts)-1]
	r := newRanger(pc, nil)
	start := func() *realEnc {
		r.memo = map[*Term]iv{}
		e := &realEnc{r: r, vals: map[*Term]string{}, bools: map[*Term]string{}, nz: map[string]bool{}, mono: map[string][][2]string{}}
		for _, t := range pc {
			b := e.boolean(t)
			e.say("%s", b)
		}
		var nz []*Term
		for t := range r.nz {
			if _, ok := e.fin(t); ok {
				nz = append(nz, t)
			}
		}
		sort.Slice(nz, func(i, j int) bool { return nz[i].ID < nz[j].ID })
		for _, t := range nz {
			e.nz[e.val(t)] = true
		}
		return e
	}
	e := start()
	// quotients of at most one
	var divs []*Term
	smt.Walk(func(t *Term) {
		if t.Op == smt.OFDiv && len(divs) < 8 {
			divs = append(divs, t)
		}
	}, ts...)
	sort.Slice(divs, func(i, j int) bool { return divs[i].ID < divs[j].ID })
	asked, learnt := 0, false
	for _, t := range divs {
		v, ok := e.fin(t)
		_, x := e.fin(t.Args[0])
		_, y := e.fin(t.Args[1])
		if ok && v.hi < 8 || !x || !y || asked >= 6 {
			continue
		}
		a, b := e.val(t.Args[0]), e.val(t.Args[1])
		if a == b && e.nz[b] {
			v = iv{1, 1, false}
		} else {
			asked++
			abs := func(s string) string { return fmt.Sprintf("(ite (>= %s 0.0) %s (- %s))", s, s, s) }
			most := 0.0
			for _, k := range []float64{1, 4.5} {
				text := e.sb.String() + fmt.Sprintf("(assert (or (= %s 0.0) (> %s (* %s %s))))\n(check-sat)\n", b, abs(a), ratStr(k), abs(b))
				mu.Unlock()
				q := smt.RunText("z3-new", "reals", text, left(2*time.Second), make(chan struct{}))
				mu.Lock()
				if q == smt.Unsat {
					most = k
					break
				}
			}
			if most == 0 {
				continue
			}
			v = iv{-most, most, false}
			if x, y := e.r.get(t.Args[0]), e.r.get(t.Args[1]); x.lo >= 0 && y.lo >= 0 {
				v.lo = 0
			}
		}
		r.nz[t.Args[1]] = true
		r.fb[t] = v
		r.memo = map[*Term]iv{}
		learnt = true
	}
	if learnt {
		e = start()
	}
	goal := e.nearly(bad)
	how := "reals with rounding bounds"
	if goal != "" {
		how = "equal up to rounding (reals with rounding bounds)"
	} else {
		goal = e.boolean(bad)
	}
	e.say("%s", goal)
	body := e.sb.String()
	mu.Unlock()
	var linear strings.Builder
	for _, l := range strings.SplitAfter(body, "\n") {
		if !strings.HasSuffix(l, "; nonlinear\n") {
			linear.WriteString(l)
		}
	}
	if e.size == 0 || e.size > 400 {
		return false, ""
	}
	if d := os.Getenv("GOSYM_REAL"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/real%d.smt2", d, bad.ID), []byte(body+"(check-sat)\n"), 0o644)
	}
	type run struct{ solver, pre, check string }
	runs := []run{
		{"z3-new", "(set-logic QF_NRA)\n", "(check-sat)\n"},
		{"z3-new", "", "(check-sat)\n"},
		{"cvc5", "(set-logic QF_NRA)\n", "(check-sat)\n"},
	}
	if linear.Len() < len(body) {
		if smt.RunText("z3-new", "reals", "(set-logic QF_LRA)\n"+linear.String()+"(check-sat)\n", left(2*time.Second), make(chan struct{})) == smt.Unsat {
			return true, how
		}
	}
	ch := make(chan smt.Verdict, len(runs))
	stop := make(chan struct{})
	d := left(6 * time.Second)
	for _, r := range runs {
		go func(r run) {
			ch <- smt.RunText(r.solver, "reals", r.pre+body+r.check, d, stop)
		}(r)
	}
	for range runs {
		if v := <-ch; v == smt.Unsat {
			close(stop)
			return true, how
		} else if v == smt.Sat && len(runs) > 0 {
			close(stop)
			return false, ""
		}
	}
	return false, ""
}
