package solve

import (
	"fmt"
	"math"
	"os"
	"time"

	"gosym/smt"
)

// lemma: v holds for a term whenever all of pc holds.
type lemma struct {
	pc []*Term
	v  iv
}

func rangeFact(t *Term, v iv) *Term {
	f := smt.True
	if t.Op == smt.OSToF {
		n := t.Args[0]
		return and(smt.Cmp(smt.OSle, smt.IntC(int64(v.lo)), n), smt.Cmp(smt.OSle, n, smt.IntC(int64(v.hi))))
	}
	if !v.nan {
		f = num(t)
	}
	if !math.IsInf(v.lo, -1) {
		f = and(f, fle(cf(t.S, v.lo), t))
	}
	if !math.IsInf(v.hi, 1) {
		f = and(f, fle(t, cf(t.S, v.hi)))
	}
	return f
}

// lemmas derives ranges of float terms of bad that interval arithmetic cannot
// bound: bases of powers and converted integers, within the branches of
// if-then-else terms under the branch's condition. Each is proved by the
// solver under pc from the facts about its own subterms; interval arithmetic
// then bounds the if-then-else terms.
func (c *Ctx) lemmas(pc []*Term, bad *Term, left func(time.Duration) time.Duration) (k map[*Term]iv, fs []*Term, cs map[*Term][]*Term, no bool) {
	known := map[*Term]iv{}
	cond := map[*Term][]*Term{}
	var facts []*Term
	mu.Lock()
	if c.lem == nil {
		c.lem = map[[2]*Term][]lemma{}
		c.noLem = map[[2]*Term][]lemma{}
	}
	in := map[*Term]bool{}
	for _, p := range pc {
		in[p] = true
	}
	holds := func(l lemma) bool {
		for _, p := range l.pc {
			if !in[p] {
				return false
			}
		}
		return true
	}
	rng := func() *ranger {
		return newRanger(append(append([]*Term(nil), pc...), facts...), cond)
	}
	inner := func(t *Term) (b []*Term) {
		seen := map[*Term]bool{}
		smt.WalkIn(func(t *Term) {
			if t.Op == smt.OFun && t.Name == "pow" && t.Args[0].Op != smt.OFDiv {
				if e := t.Args[1]; e.IsConst() && math.Mod(e.Float(), 2) == 0 {
					return
				}
				t = t.Args[0]
			} else if t.Op == smt.OFDiv || t.Op == smt.OFSub && t.Args[0].IsConst() {
			} else if t.Op != smt.OSToF || t.Args[0].S.W != 64 {
				return
			}
			if !seen[t] && !t.IsConst() && t.Op != smt.OVar {
				seen[t] = true
				b = append(b, t)
			}
		}, func(t *Term) bool { return !t.S.IsFloat() || t.Op != smt.OIte }, t)
		return
	}
	good := func(t *Term, v iv) bool {
		if t.Op == smt.OSToF {
			return v.lo >= 0 && v.hi < 1<<40
		}
		if t.Op == smt.OFDiv && v.fin() {
			return true
		}
		return v.fin() && v.lo >= 0
	}
	cands := func(t *Term, v iv) []iv {
		if t.Op == smt.OSToF {
			return []iv{{0, 1 << 16, false}, {0, 1 << 20, false}}
		}
		if v.fin() {
			return []iv{{0, math.Max(1, v.hi), false}}
		}
		return []iv{{0, 1, false}, {0, math.Inf(1), false}}
	}
	// try proves a range of t under g (nil: always)
	try := func(g, t *Term) *iv {
		mu.Lock()
		k := [2]*Term{g, t}
		r := rng()
		if g != nil {
			if r = r.under(g); r == nil {
				r = rng()
			}
		}
		rv := r.get(t)
		if good(t, rv) {
			mu.Unlock()
			return nil
		}
		for _, l := range c.lem[k] {
			if holds(l) {
				mu.Unlock()
				x := l.v
				return &x
			}
		}
		for _, l := range c.noLem[k] {
			if holds(l) && len(l.pc) == len(pc) {
				mu.Unlock()
				return nil
			}
		}
		mu.Unlock()
		for _, v := range cands(t, rv) {
			if left(time.Hour) < time.Second {
				return nil
			}
			mu.Lock()
			goal := smt.Not(rangeFact(t, v))
			under := pc
			if g != nil {
				under = append(append([]*Term(nil), pc...), g)
			}
			sl := append(slice(under, goal), goal)
			q := append(append([]*Term(nil), sl...), factsIn(sl, known)...)
			if g != nil {
				q = append(q, cond[g]...)
			}
			q = append(q, safeAxioms(smt.ModeBits, q, true)...)
			mu.Unlock()
			res, _ := c.query("z3-new", smt.ModeBits, q, left(4*time.Second))
			if os.Getenv("GOSYM_LEM") != "" {
				gs := "nothing"
				if g != nil {
					gs = g.String()
				}
				fmt.Fprintf(os.Stderr, "lemma %v %v: %.200s given %.100s\n", v, res, t.String(), gs)
			}
			if res == smt.Unsat {
				mu.Lock()
				var from []*Term
				for _, p := range sl[:len(sl)-1] {
					if p != g {
						from = append(from, p)
					}
				}
				c.lem[k] = append(c.lem[k], lemma{from, v})
				mu.Unlock()
				return &v
			}
		}
		mu.Lock()
		c.noLem[k] = append(c.noLem[k], lemma{append([]*Term(nil), pc...), top})
		mu.Unlock()
		return nil
	}
	seen := map[*Term]bool{}
	var todo []*Term
	smt.Walk(func(t *Term) {
		if t.S.IsFloat() && t.Op == smt.OIte && !seen[t] {
			seen[t] = true
			todo = append(todo, t)
		}
	}, bad)
	rest := inner(bad)
	mu.Unlock()
	learn := func(t *Term, v iv) {
		known[t] = v
		facts = append(facts, rangeFact(t, v))
	}
	for _, u := range todo {
		mu.Lock()
		v := rng().get(u)
		mu.Unlock()
		if v.fin() && v.lo >= 0 {
			continue
		}
		for k := 1; k <= 2; k++ {
			if u.Args[k].IsConst() {
				continue
			}
			mu.Lock()
			g := u.Args[0]
			if k == 2 {
				g = smt.Not(g)
			}
			ts := inner(u.Args[k])
			mu.Unlock()
			for _, t := range ts {
				// without the condition if that will do
				if t.Op == smt.OSToF {
					if v := try(nil, t); v != nil {
						mu.Lock()
						learn(t, *v)
						mu.Unlock()
						continue
					}
				}
				if v := try(g, t); v != nil {
					mu.Lock()
					cond[g] = append(cond[g], rangeFact(t, *v))
					mu.Unlock()
				}
			}
		}
		mu.Lock()
		v = rng().get(u)
		if os.Getenv("GOSYM_LEM") != "" {
			fmt.Fprintf(os.Stderr, "range %v: %.200s\n", v, u.String())
		}
		if v.fin() {
			learn(u, v)
		}
		mu.Unlock()
	}
	for _, t := range rest {
		if v := try(nil, t); v != nil {
			mu.Lock()
			learn(t, *v)
			mu.Unlock()
		}
	}
	mu.Lock()
	no = rng().truth(bad) == 0
	mu.Unlock()
	return known, facts, cond, no
}

// truth decides a boolean term by ranges: 1 true, 0 false, -1 unknown.
func (r *ranger) truth(t *Term) int {
	switch t.Op {
	case smt.OConst:
		if t.IsTrue() {
			return 1
		}
		return 0
	case smt.ONot:
		if v := r.truth(t.Args[0]); v >= 0 {
			return 1 - v
		}
	case smt.OAnd, smt.OOr:
		zero := 0
		if t.Op == smt.OOr {
			zero = 1
		}
		out := 1 - zero
		for _, a := range t.Args {
			switch r.truth(a) {
			case zero:
				return zero
			case -1:
				out = -1
			}
		}
		return out
	case smt.OFIsNaN:
		if !r.get(t.Args[0]).nan {
			return 0
		}
	case smt.OFLe, smt.OFLt:
		a, b := r.get(t.Args[0]), r.get(t.Args[1])
		if a.lo > a.hi || b.lo > b.hi {
			return -1
		}
		if !a.nan && !b.nan && (a.hi < b.lo || t.Op == smt.OFLe && a.hi <= b.lo) {
			return 1
		}
		if a.lo > b.hi || t.Op == smt.OFLt && a.lo >= b.hi {
			return 0
		}
	case smt.OFEq:
		a, b := r.get(t.Args[0]), r.get(t.Args[1])
		if a.lo > a.hi || b.lo > b.hi {
			return -1
		}
		if a.hi < b.lo || b.hi < a.lo {
			return 0
		}
		for i, z := range t.Args {
			if z.IsConst() && z.Float() == 0 && r.nz[t.Args[1-i]] {
				return 0
			}
		}
	case smt.OSle, smt.OSlt, smt.OEq:
		if t.Args[0].S.K != smt.KBV || t.Args[0].S.W != 64 {
			return -1
		}
		a, b := r.bv(t.Args[0]), r.bv(t.Args[1])
		if a[0] > a[1] || b[0] > b[1] {
			return -1
		}
		switch {
		case t.Op == smt.OEq && (a[1] < b[0] || b[1] < a[0]):
			return 0
		case t.Op == smt.OSle && a[1] <= b[0], t.Op == smt.OSlt && a[1] < b[0]:
			return 1
		case t.Op == smt.OSle && a[0] > b[1], t.Op == smt.OSlt && a[0] >= b[1]:
			return 0
		}
	}
	return -1
}

// Ranges decides branch conditions by interval arithmetic over the literals of
// the path condition: 1 true, 0 false, -1 unknown.
type Ranges struct {
	last map[uint64]*rangeSet
}

type rangeSet struct {
	pc      []*Term
	r       *ranger
	memo    map[*Term]int
	lits    map[*Term]bool // facts
	clauses [][]*Term      // one of each holds
}

func newRangeSet(pc []*Term) *rangeSet {
	s := &rangeSet{pc: pc, r: newRanger(pc, nil), memo: map[*Term]int{}, lits: map[*Term]bool{}}
	for _, c := range pc {
		s.note(s.lits, c)
		switch {
		case c.Op == smt.OOr:
			s.clauses = append(s.clauses, c.Args)
		case c.Op == smt.ONot && c.Args[0].Op == smt.OAnd:
			var d []*Term
			for _, a := range c.Args[0].Args {
				d = append(d, smt.Not(a))
			}
			s.clauses = append(s.clauses, d)
		}
	}
	return s
}

func (s *rangeSet) note(m map[*Term]bool, c *Term) {
	m[c] = true
	if c.Op == smt.OAnd {
		for _, a := range c.Args {
			s.note(m, a)
		}
	}
	if c.Op == smt.ONot && c.Args[0].Op == smt.OOr {
		for _, a := range c.Args[0].Args {
			s.note(m, smt.Not(a))
		}
	}
}

// refutes reports whether assuming c leaves no choice in some clause.
func (s *rangeSet) refutes(c *Term) bool {
	if len(s.clauses) == 0 {
		return false
	}
	now := map[*Term]bool{}
	s.note(now, c)
	for _, d := range s.clauses {
		left, uses := false, false
		for _, a := range d {
			n := smt.Not(a)
			if now[n] {
				uses = true
			} else if !s.lits[n] {
				left = true
				break
			}
		}
		if !left && uses {
			return true
		}
	}
	return false
}

func (d *Ranges) Decide(pc []*Term, c *Term) int {
	h := uint64(14695981039346656037)
	for _, t := range pc {
		h = (h ^ uint64(t.ID)) * 1099511628211
	}
	s := d.last[h]
	if s != nil {
		ok := len(s.pc) == len(pc)
		for i := 0; ok && i < len(pc); i++ {
			ok = s.pc[i] == pc[i]
		}
		if !ok {
			s = nil
		}
	}
	if s == nil {
		if d.last == nil || len(d.last) > 2000 {
			d.last = map[uint64]*rangeSet{}
		}
		s = newRangeSet(pc)
		d.last[h] = s
	}
	if v, ok := s.memo[c]; ok {
		return v
	}
	v := s.r.truth(c)
	if v < 0 && s.refutes(c) {
		v = 0
	}
	if v < 0 && s.refutes(smt.Not(c)) {
		v = 1
	}
	s.memo[c] = v
	return v
}

// factsIn states the known ranges of the terms occurring in ts.
func factsIn(ts []*Term, known map[*Term]iv) []*Term {
	var out []*Term
	smt.Walk(func(t *Term) {
		if v, ok := known[t]; ok {
			out = append(out, rangeFact(t, v))
		}
	}, ts...)
	return out
}
