package solve

import (
	"fmt"
	"math"
	"os"
	"sort"
	"sync"
	"time"

	"gosym/smt"
)

// prover proves x <= y between corresponding terms of two computations: by
// the monotonicity of the operations, branch by branch, with the remaining
// comparisons and the feasibility of branch combinations left to the solver.
type prover struct {
	c      *Ctx
	pc     []*Term // path condition
	facts  []*Term // established facts
	cond   map[*Term][]*Term
	left   func(time.Duration) time.Duration
	memo   map[string]bool
	rmemo  map[string]*ranger
	proof  [][2]*Term // comparisons proved without guards
	same   [][2]*Term // equalities proved without guards
	bags   map[*Term]map[string]int
	models []smt.Model // of refuted or undecided comparisons
	lk     sync.Mutex  // taken before mu
	depth  int
	nq     int
}

func gkey(g []*Term) string {
	ids := make([]int, len(g))
	for i, t := range g {
		ids[i] = t.ID
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

func (p *prover) all(g []*Term) []*Term {
	out := append([]*Term(nil), p.pc...)
	out = append(out, p.facts...)
	for _, c := range g {
		out = append(out, c)
		out = append(out, p.cond[c]...)
	}
	return out
}

func (p *prover) rng(g []*Term) *ranger {
	k := gkey(g)
	if r, ok := p.rmemo[k]; ok {
		return r
	}
	r := newRanger(p.all(g), p.cond)
	p.rmemo[k] = r
	return r
}

// ask decides whether goal follows; mu is held.
func (p *prover) ask(goal *Term, g []*Term, d time.Duration) bool {
	if goal.IsTrue() {
		return true
	}
	k := fmt.Sprint("q", goal.ID, gkey(g))
	if v, ok := p.memo[k]; ok {
		return v
	}
	if p.left(time.Hour) < time.Second {
		return false
	}
	p.nq++
	no := smt.Not(goal)
	pc := append(append([]*Term(nil), p.pc...), g...)
	q := append(slice(pc, append([]*Term{no}, g...)...), no)
	seen := map[*Term]bool{}
	smt.Walk(func(t *Term) { seen[t] = true }, q...)
	for _, f := range p.facts {
		if f.Op == smt.OAnd || len(f.Args) > 0 {
			ok := true
			for _, a := range sides(f) {
				if !seen[a] {
					ok = false
				}
			}
			if ok {
				q = append(q, f)
			}
		}
	}
	for _, c := range g {
		q = append(q, p.cond[c]...)
	}
	for _, f := range p.proof {
		if seen[f[0]] && seen[f[1]] {
			q = append(q, cmpLe(f[0], f[1]))
		}
	}
	for _, f := range p.same {
		if seen[f[0]] && seen[f[1]] {
			q = append(q, smt.Eq(f[0], f[1]))
		}
	}
	if !goal.IsFalse() {
		q = append(q, safeAxioms(smt.ModeBits, q, true)...)
	}
	mu.Unlock()
	t0 := time.Now()
	v, m := p.c.query("z3-new", smt.ModeBits, q, p.left(d))
	mu.Lock()
	if v == smt.Sat && len(p.models) < 60 {
		p.models = append(p.models, m)
	}
	if os.Getenv("GOSYM_REL") != "" {
		fmt.Fprintf(os.Stderr, "%*sask %v %.2fs (%d guards): %.300s\n", p.depth, "", v, time.Since(t0).Seconds(), len(g), goal.String())
	}
	if v != smt.Unknown || p.left(time.Hour) > time.Second {
		p.memo[k] = v == smt.Unsat
	}
	return v == smt.Unsat
}

// large terms are not worth a query about their order.
func (p *prover) large(t *Term) bool {
	n := 0
	smt.Walk(func(t *Term) {
		if t.S.IsFloat() && len(t.Args) > 0 {
			n++
		}
	}, t)
	return n > 24
}

// sides lists the non-constant float or integer terms a range fact is about.
func sides(f *Term) (out []*Term) {
	smt.WalkIn(func(t *Term) {
		if t.S.IsFloat() || t.S.K == smt.KBV {
			if !t.IsConst() {
				out = append(out, t)
			}
		}
	}, func(t *Term) bool { return !t.S.IsFloat() && t.S.K != smt.KBV }, f)
	return
}

// lift gives the integer term a float term equals exactly.
func (p *prover) lift(t *Term, r *ranger) *Term {
	const lim = 1 << 40
	in := func(n *Term) *Term {
		if b := r.bv(n); b[0] > -lim && b[1] < lim {
			return n
		}
		return nil
	}
	switch t.Op {
	case smt.OConst:
		if f := t.Float(); f == math.Trunc(f) && math.Abs(f) < 1<<30 {
			return smt.IntC(int64(f))
		}
	case smt.OSToF:
		if t.S.K == smt.KF64 && t.Args[0].S.W == 64 {
			return in(t.Args[0])
		}
	case smt.OFAdd, smt.OFSub, smt.OFMul:
		if t.S.K != smt.KF64 {
			return nil
		}
		a, b := p.lift(t.Args[0], r), p.lift(t.Args[1], r)
		if a == nil || b == nil {
			return nil
		}
		op := map[smt.Op]smt.Op{smt.OFAdd: smt.OAdd, smt.OFSub: smt.OSub, smt.OFMul: smt.OMul}[t.Op]
		return in(smt.Bin(op, a, b))
	}
	return nil
}

func has(g []*Term, c *Term) bool {
	for _, x := range g {
		if x == c {
			return true
		}
	}
	return false
}

// pick resolves if-then-else terms decided by g.
func pick(t *Term, g []*Term) *Term {
	for t.Op == smt.OIte {
		c := t.Args[0]
		if has(g, c) {
			t = t.Args[1]
		} else if has(g, smt.Not(c)) {
			t = t.Args[2]
		} else {
			break
		}
	}
	return t
}

func cmpLe(x, y *Term) *Term {
	if x.S.IsFloat() {
		return fle(x, y)
	}
	return smt.Cmp(smt.OSle, x, y)
}

// le proves x <= y under g (both numbers); mu is held.
func (p *prover) le(x, y *Term, g []*Term) bool {
	x, y = pick(x, g), pick(y, g)
	k := fmt.Sprint(x.ID, " ", y.ID, gkey(g))
	if v, ok := p.memo[k]; ok {
		return v
	}
	if len(g) > 0 && p.memo[fmt.Sprint(x.ID, " ", y.ID, "[]")] {
		return true
	}
	if p.left(time.Hour) < time.Second || p.depth > 60 {
		return false
	}
	p.memo[k] = false
	p.depth++
	v := p.le1(x, y, g)
	p.depth--
	p.memo[k] = v
	if os.Getenv("GOSYM_REL") != "" {
		fmt.Fprintf(os.Stderr, "%*sle %v (%d guards): %.150s <= %.150s\n", p.depth, "", v, len(g), x.String(), y.String())
	}
	if v && len(g) == 0 && x != y {
		p.proof = append(p.proof, [2]*Term{x, y})
	}
	return v
}

func (p *prover) nonneg(t *Term, g []*Term) bool {
	if v := p.rng(g).get(t); v.lo >= 0 && !v.nan && v.lo <= v.hi {
		return true
	}
	return p.ask(fle(cf(t.S, 0), t), g, 3*time.Second)
}

func (p *prover) number(t *Term, g []*Term) bool {
	if v := p.rng(g).get(t); !v.nan {
		return true
	}
	return p.ask(num(t), g, 3*time.Second)
}

func (p *prover) le1(x, y *Term, g []*Term) bool {
	r := p.rng(g)
	if !x.S.IsFloat() {
		if x == y {
			return true
		}
		if a, b := r.bv(x), r.bv(y); a[1] <= b[0] {
			return true
		}
		// first how the truncated floats inside compare
		var f [2][]*Term
		for k, t := range []*Term{x, y} {
			if t.Op == smt.OFToS {
				continue
			}
			smt.WalkIn(func(t *Term) {
				if t.Op == smt.OFToS {
					f[k] = append(f[k], t)
				}
			}, func(t *Term) bool { return t.Op != smt.OFToS }, t)
		}
		for _, s := range f[0] {
			for _, t := range f[1] {
				if s != t && s.S == t.S && !p.le(s, t, nil) {
					p.le(t, s, nil)
				}
			}
		}
		switch {
		case x.Op == smt.OIte || y.Op == smt.OIte:
			if ok, done := p.split(x, y, g); done && ok {
				return true
			}
		case x.Op == smt.OFToS && y.Op == smt.OFToS && x.S == y.S:
			v, w := r.get(x.Args[0]), r.get(y.Args[0])
			if v.fin() && w.fin() && math.Max(-v.lo, math.Max(v.hi, math.Max(-w.lo, w.hi))) < 1e18 && p.le(x.Args[0], y.Args[0], g) {
				return true
			}
		}
		return p.ask(cmpLe(x, y), g, 4*time.Second)
	}
	if x == y {
		return p.number(x, g)
	}
	if x.S != y.S {
		return false
	}
	a, b := r.get(x), r.get(y)
	if !a.nan && !b.nan && a.hi <= b.lo && a.lo <= a.hi && b.lo <= b.hi {
		return true
	}
	if m, n := p.lift(x, r), p.lift(y, r); m != nil && n != nil {
		if p.le(m, n, g) {
			return true
		}
	}
	// a factor within 0..1
	drop := func() bool {
		for k := 0; k < 2; k++ {
			if v := r.get(x.Args[k]); v.lo >= 0 && v.hi <= 1 && !v.nan && p.number(x, g) && p.nonneg(x.Args[1-k], g) && p.le(x.Args[1-k], y, g) {
				return true
			}
		}
		return false
	}
	if x.Op == smt.OFMul && (y.Op != smt.OFMul || y == x.Args[0] || y == x.Args[1]) && drop() {
		return true
	}
	// the larger of two
	if a, b := larger(x); a != nil {
		if c, d := larger(y); c != nil {
			for k := 0; k < 2; k++ {
				if p.number(x, g) && p.number(y, g) && p.le(a, c, g) && p.le(b, d, g) {
					return true
				}
				a, b = b, a
			}
		}
	}
	both := func() bool { return p.number(x, g) && p.number(y, g) }
	if x.Op == y.Op && x.Name == y.Name && len(x.Args) == len(y.Args) {
		X, Y := func(i int) *Term { return x.Args[i] }, func(i int) *Term { return y.Args[i] }
		same := len(x.Args) > 0 && X(0).S == Y(0).S
		perms := p.perms(x, y)
		switch x.Op {
		case smt.OFAdd, smt.OFMin, smt.OFMax:
			for _, q := range perms {
				if p.le(X(0), Y(q[0]), g) && p.le(X(1), Y(q[1]), g) && both() {
					return true
				}
			}
		case smt.OFSub:
			if p.le(X(0), Y(0), g) && p.le(Y(1), X(1), g) && both() {
				return true
			}
		case smt.OFNeg:
			if p.le(Y(0), X(0), g) {
				return true
			}
		case smt.OFMul:
			for _, q := range perms {
				if X(0).IsConst() && X(0) == Y(q[0]) {
					if X(0).Float() >= 0 && p.le(X(1), Y(q[1]), g) && both() || X(0).Float() <= 0 && p.le(Y(q[1]), X(1), g) && both() {
						return true
					}
					continue
				}
				if X(1).IsConst() && X(1) == Y(q[1]) {
					if X(1).Float() >= 0 && p.le(X(0), Y(q[0]), g) && both() {
						return true
					}
					continue
				}
				if p.nonneg(X(0), g) && p.nonneg(X(1), g) && p.le(X(0), Y(q[0]), g) && p.le(X(1), Y(q[1]), g) && both() {
					return true
				}
			}
		case smt.OFDiv:
			w, z := r.get(X(1)), r.get(Y(1))
			pos := func(t *Term, v iv) bool {
				return v.lo > 0 && !v.nan || p.ask(flt(cf(t.S, 0), t), g, 3*time.Second)
			}
			if X(1) == Y(1) {
				if pos(X(1), w) && p.le(X(0), Y(0), g) && both() {
					return true
				}
			} else if pos(X(1), w) && pos(Y(1), z) && p.nonneg(X(0), g) && p.le(X(0), Y(0), g) && p.le(Y(1), X(1), g) && both() {
				return true
			}
		case smt.OFSqrt, smt.OFFloor, smt.OFCeil, smt.OFTrunc, smt.OFConv, smt.OSToF:
			if same && p.le(X(0), Y(0), g) && both() {
				return true
			}
		case smt.OFun:
			switch x.Name {
			case "log", "log10", "log2", "log1p", "exp", "atan", "tanh", "round", "rndev":
				if p.le(X(0), Y(0), g) && both() {
					return true
				}
			case "pow":
				bx, by, ex, ey := r.get(X(0)), r.get(Y(0)), r.get(X(1)), r.get(Y(1))
				ok := func(v iv) bool { return !v.nan && v.lo <= v.hi }
				if ok(bx) && ok(by) && ok(ex) && ok(ey) {
					switch {
					case X(1) == Y(1) && ex.lo >= 0:
						if p.nonneg(X(0), g) && p.le(X(0), Y(0), g) && both() {
							return true
						}
					case X(0) == Y(0) && bx.lo >= 1:
						if p.le(X(1), Y(1), g) {
							return true
						}
					case ey.lo >= 0 && bx.lo >= 0 && bx.hi <= 1:
						// a smaller base below one to a larger power
						if p.le(X(0), Y(0), g) && p.le(Y(1), X(1), g) && both() {
							return true
						}
					}
				}
			}
		}
	}
	if x.Op == smt.OFMul && y.Op == smt.OFMul && drop() {
		return true
	}
	if x.Op == smt.OIte || y.Op == smt.OIte {
		if ok, done := p.split(x, y, g); done {
			return ok
		}
	}
	if p.large(x) || p.large(y) {
		return false
	}
	return p.ask(cmpLe(x, y), g, 4*time.Second)
}

// larger gives the two numbers a conditional chooses the larger of.
func larger(t *Term) (a, b *Term) {
	if t.Op != smt.OIte || !t.S.IsFloat() {
		return nil, nil
	}
	c, x, y := t.Args[0], t.Args[1], t.Args[2]
	if c.Op == smt.ONot {
		c, x, y = c.Args[0], y, x
	}
	if (c.Op == smt.OFLt || c.Op == smt.OFLe) && c.Args[0] == y && c.Args[1] == x {
		return x, y
	}
	return nil, nil
}

// bag counts the operations, names and constants below a term.
func (p *prover) bag(t *Term) map[string]int {
	if b, ok := p.bags[t]; ok {
		return b
	}
	b := map[string]int{}
	smt.Walk(func(t *Term) {
		b[fmt.Sprint(t.Op, t.Name, t.K)]++
	}, t)
	p.bags[t] = b
	return b
}

// perms pairs the arguments of two commutative operations by likeness.
func (p *prover) perms(x, y *Term) [][2]int {
	if len(x.Args) != 2 {
		return nil
	}
	like := func(a, b *Term) int {
		if a == b {
			return 1 << 20
		}
		m, n := p.bag(a), p.bag(b)
		lo, hi := 0, 0
		for k, v := range m {
			w := n[k]
			if v < w {
				lo, hi = lo+v, hi+w
			} else {
				lo, hi = lo+w, hi+v
			}
		}
		for k, w := range n {
			if m[k] == 0 {
				hi += w
			}
		}
		return lo * 10000 / (hi + 1)
	}
	s := like(x.Args[0], y.Args[0]) + like(x.Args[1], y.Args[1])
	z := like(x.Args[0], y.Args[1]) + like(x.Args[1], y.Args[0])
	switch {
	case z > 2*s:
		return [][2]int{{1, 0}}
	case z > s:
		return [][2]int{{1, 0}, {0, 1}}
	case s > 2*z:
		return [][2]int{{0, 1}}
	}
	return [][2]int{{0, 1}, {1, 0}}
}

// split proves x <= y case by case.
func (p *prover) split(x, y *Term, g []*Term) (ok, done bool) {
	if len(g) >= 6 {
		return false, false
	}
	c := x
	if x.Op != smt.OIte {
		c = y
	}
	cond := c.Args[0]
	for _, l := range []*Term{cond, smt.Not(cond)} {
		h := append(append([]*Term(nil), g...), l)
		mixed := x.Op == smt.OIte && y.Op == smt.OIte && x.Args[0] != y.Args[0] || len(g) > 0 && (x.Op != smt.OIte || y.Op != smt.OIte)
		if mixed && p.ask(smt.False, h, 2*time.Second) {
			continue
		}
		if p.le(x, y, h) {
			continue
		}
		if !p.ask(smt.False, h, 2*time.Second) {
			return false, true
		}
	}
	return true, true
}

// prover gives a prover for a part of the path; mu is held.
func (c *Ctx) prover(pc []*Term) *prover {
	in := map[*Term]bool{}
	for _, t := range pc {
		in[t] = true
	}
find:
	for _, p := range c.provers {
		for _, t := range p.pc {
			if !in[t] {
				continue find
			}
		}
		return p
	}
	return nil
}

// refuted gives the models of the failed comparisons on the path.
func (c *Ctx) refuted(pc []*Term) []smt.Model {
	mu.Lock()
	defer mu.Unlock()
	if p := c.prover(pc); p != nil {
		return append([]smt.Model(nil), p.models...)
	}
	return nil
}

// order decides bad = not (x <= y). Goals on one path share a prover, one at a
// time.
func (c *Ctx) order(pc []*Term, bad *Term, facts []*Term, cond map[*Term][]*Term) bool {
	if bad.Op != smt.ONot || bad.Args[0].Op != smt.OFLe {
		return false
	}
	mu.Lock()
	p := c.prover(pc)
	if p == nil {
		p = newProver(c, pc, nil, map[*Term][]*Term{}, nil)
		c.provers = append(c.provers, p)
	}
	mu.Unlock()
	p.lk.Lock()
	defer p.lk.Unlock()
	end := time.Now().Add(c.PerObl)
	if end.After(c.Deadline) {
		end = c.Deadline
	}
	p.left = func(d time.Duration) time.Duration {
		if l := time.Until(end); l < d {
			if l < 50*time.Millisecond {
				return 50 * time.Millisecond
			}
			return l
		}
		return d
	}
	mu.Lock()
	defer mu.Unlock()
	add := func(to []*Term, fs []*Term) []*Term {
		for _, f := range fs {
			if !has(to, f) {
				to = append(to, f)
			}
		}
		return to
	}
	p.facts = add(p.facts, facts)
	for k, v := range cond {
		p.cond[k] = add(p.cond[k], v)
	}
	p.rmemo = map[string]*ranger{}
	for k, v := range p.memo {
		if !v && k[0] != 'q' {
			delete(p.memo, k)
		}
	}
	p.nq = 0
	ok := p.le(bad.Args[0].Args[0], bad.Args[0].Args[1], nil)
	if os.Getenv("GOSYM_REL") != "" {
		fmt.Fprintf(os.Stderr, "prover %p of %d, path %d\n", p, len(c.provers), len(pc))
		fmt.Fprintf(os.Stderr, "order: %v after %d queries\n", ok, p.nq)
	}
	return ok
}

func newProver(c *Ctx, pc, facts []*Term, cond map[*Term][]*Term, left func(time.Duration) time.Duration) *prover {
	return &prover{c: c, pc: pc, facts: facts, cond: cond, left: left, memo: map[string]bool{}, rmemo: map[string]*ranger{}, bags: map[*Term]map[string]int{}}
}
