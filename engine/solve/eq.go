package solve

import (
	"fmt"
	"os"
	"time"

	"gosym/smt"
)

// eq proves that two terms have the same bits under g, matching operation by
// operation and branch by branch; what is left goes to the solver. mu is held.
func (p *prover) eq(x, y *Term, g []*Term) bool {
	x, y = p.ints(pick(x, g)), p.ints(pick(y, g))
	if x == y {
		return true
	}
	if x.S != y.S || x.IsConst() && y.IsConst() {
		return false
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	k := fmt.Sprint("e", x.ID, " ", y.ID, gkey(g))
	if v, ok := p.memo[k]; ok {
		return v
	}
	if p.left(time.Hour) < 200*time.Millisecond || p.depth > 200 {
		return false
	}
	p.memo[k] = false
	if len(g) > 0 && p.eq(x, y, nil) {
		p.memo[k] = true
		return true
	}
	p.depth++
	v := p.eq1(x, y, g)
	p.depth--
	p.memo[k] = v
	if v && len(g) == 0 {
		p.same = append(p.same, [2]*Term{x, y})
	}
	if os.Getenv("GOSYM_REL") != "" {
		fmt.Fprintf(os.Stderr, "%*seq %v (%d guards): %.150s == %.150s\n", p.depth, "", v, len(g), x.String(), y.String())
	}
	return v
}

// ints turns a comparison of integers held in floats into one of integers.
func (p *prover) ints(t *Term) *Term {
	if t.Op == smt.ONot {
		if n := p.ints(t.Args[0]); n != t.Args[0] {
			return smt.Not(n)
		}
		return t
	}
	if t.Op != smt.OFLt && t.Op != smt.OFLe && t.Op != smt.OFEq {
		return t
	}
	r := p.rng(nil)
	a, b := p.lift(t.Args[0], r), p.lift(t.Args[1], r)
	if a == nil || b == nil {
		return t
	}
	switch t.Op {
	case smt.OFLt:
		return smt.Cmp(smt.OSlt, a, b)
	case smt.OFLe:
		return smt.Cmp(smt.OSle, a, b)
	}
	return smt.Eq(a, b)
}

var commutes = map[smt.Op]bool{smt.OFAdd: true, smt.OFMul: true, smt.OFMin: true, smt.OFMax: true, smt.OFEq: true, smt.OAdd: true, smt.OMul: true, smt.OEq: true}

func (p *prover) args(x, y *Term, g []*Term) bool {
	if x.Op != y.Op || x.Name != y.Name || len(x.Args) != len(y.Args) || len(x.Args) == 0 || x.K != y.K {
		return false
	}
	try := func(a, b int) bool { return p.eq(x.Args[0], y.Args[a], g) && p.eq(x.Args[1], y.Args[b], g) }
	if commutes[x.Op] && len(x.Args) == 2 {
		for _, q := range p.perms(x, y) {
			if x.Args[0].S == y.Args[q[0]].S && x.Args[1].S == y.Args[q[1]].S && try(q[0], q[1]) {
				return true
			}
		}
		return false
	}
	for i := range x.Args {
		if x.Args[i].S != y.Args[i].S || !p.eq(x.Args[i], y.Args[i], g) {
			return false
		}
	}
	return true
}

func (p *prover) eq1(x, y *Term, g []*Term) bool {
	if x.Op == smt.OIte && y.Op == smt.OIte && p.eq(x.Args[0], y.Args[0], g) {
		if p.eq(x.Args[1], y.Args[1], g) && p.eq(x.Args[2], y.Args[2], g) {
			return true
		}
	} else if x.Op != smt.OIte && p.args(x, y, g) {
		return true
	}
	if x.Op == smt.OIte || y.Op == smt.OIte {
		if ok, done := p.splitEq(x, y, g); done {
			return ok
		}
	}
	if x.S.IsFloat() && !selects(x) && !selects(y) {
		return false
	}
	return p.ask(smt.Eq(x, y), g, 3*time.Second)
}

// selects says whether a float term may be equal to one of another shape.
func selects(t *Term) bool {
	switch t.Op {
	case smt.OFAdd, smt.OFSub, smt.OFMul, smt.OFDiv, smt.OFun, smt.OFSqrt:
		return false
	}
	return true
}

func (p *prover) splitEq(x, y *Term, g []*Term) (ok, done bool) {
	if len(g) >= 5 {
		return false, false
	}
	c := x
	if x.Op != smt.OIte {
		c = y
	}
	cond := c.Args[0]
	for _, l := range []*Term{cond, smt.Not(cond)} {
		h := append(append([]*Term(nil), g...), l)
		a, b := pick(x, h), pick(y, h)
		// the other side's branch may follow from this one
		for _, t := range []**Term{&a, &b} {
			for (*t).Op == smt.OIte {
				o := p.ints((*t).Args[0])
				if p.ask(o, h, time.Second) {
					*t = pick((*t).Args[1], h)
				} else if p.ask(smt.Not(o), h, time.Second) {
					*t = pick((*t).Args[2], h)
				} else {
					break
				}
			}
		}
		mixed := x.Op != smt.OIte || y.Op != smt.OIte
		if mixed && p.ask(smt.False, h, 2*time.Second) {
			continue
		}
		if p.eq(a, b, h) {
			continue
		}
		if mixed || !p.ask(smt.False, h, 2*time.Second) {
			return false, true
		}
	}
	return true, true
}

// equated recognises a refutable equality.
func equated(bad *Term) (x, y *Term) {
	t := bad
	if t.Op == smt.OAnd {
		for _, a := range t.Args {
			if a.Op == smt.ONot && a.Args[0].Op == smt.OEq {
				t = a
				break
			}
		}
		// only the pattern "neither the same bits nor equal"
		if t == bad || len(bad.Args) != 2 {
			return nil, nil
		}
	}
	if t.Op != smt.ONot || t.Args[0].Op != smt.OEq {
		return nil, nil
	}
	return t.Args[0].Args[0], t.Args[0].Args[1]
}

// equal decides bad = "x and y differ".
func (c *Ctx) equal(pc []*Term, bad *Term, left func(time.Duration) time.Duration) bool {
	x, y := equated(bad)
	if x == nil {
		return false
	}
	mu.Lock()
	defer mu.Unlock()
	p := newProver(c, pc, nil, map[*Term][]*Term{}, left)
	ok := p.eq(x, y, nil)
	if os.Getenv("GOSYM_REL") != "" {
		fmt.Fprintf(os.Stderr, "equal: %v after %d queries\n", ok, p.nq)
	}
	return ok
}
