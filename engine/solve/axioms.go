package solve

import (
	"math"

	"gosym/smt"
)

type Term = smt.Term

// iv over-approximates the values of a float term.
type iv struct {
	lo, hi float64
	nan    bool
}

var top = iv{math.Inf(-1), math.Inf(1), true}

func (v iv) fin() bool { return !v.nan && !math.IsInf(v.lo, 0) && !math.IsInf(v.hi, 0) }

func union(a, b iv) iv {
	return iv{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi), a.nan || b.nan}
}

func up(f float64) float64 { return math.Nextafter(f, math.Inf(1)) }
func dn(f float64) float64 { return math.Nextafter(f, math.Inf(-1)) }

// bounds collects variable ranges from literals of the path condition.
// The third result holds the floats known to be other than zero.
func bounds(pc []*Term) (map[*Term]iv, map[*Term][2]int64, map[*Term]bool) {
	fb := map[*Term]iv{}
	nz := map[*Term]bool{}
	ib := map[*Term][2]int64{}
	var lit func(c *Term)
	get := func(v *Term) iv {
		if x, ok := fb[v]; ok {
			return x
		}
		return top
	}
	geti := func(v *Term) [2]int64 {
		if x, ok := ib[v]; ok {
			return x
		}
		return [2]int64{math.MinInt64, math.MaxInt64}
	}
	// ordered records a <= b, or a < b.
	ordered := func(a, b *Term, strict bool) {
		if a.S.K != smt.KBV || a.S.W != 64 {
			return
		}
		d := int64(0)
		if strict {
			d = 1
		}
		if b.IsConst() && !a.IsConst() && b.Int() > math.MinInt64 {
			x := geti(a)
			if b.Int()-d < x[1] {
				x[1] = b.Int() - d
			}
			ib[a] = x
		}
		if a.IsConst() && !b.IsConst() && a.Int() < math.MaxInt64 {
			x := geti(b)
			if a.Int()+d > x[0] {
				x[0] = a.Int() + d
			}
			ib[b] = x
		}
	}
	lit = func(c *Term) {
		switch c.Op {
		case smt.OAnd:
			for _, a := range c.Args {
				lit(a)
			}
		case smt.OFLe, smt.OFLt:
			a, b := c.Args[0], c.Args[1]
			if c.Op == smt.OFLt {
				for i, z := range c.Args {
					if z.IsConst() && z.Float() == 0 {
						nz[c.Args[1-i]] = true
					}
				}
			}
			if !a.IsConst() {
				x := get(a)
				x.nan = false
				if b.IsConst() && b.Float() < x.hi {
					x.hi = b.Float()
				}
				fb[a] = x
			}
			if !b.IsConst() {
				x := get(b)
				x.nan = false
				if a.IsConst() && a.Float() > x.lo {
					x.lo = a.Float()
				}
				fb[b] = x
			}
		case smt.OFEq:
			a, b := c.Args[0], c.Args[1]
			if a.IsConst() {
				a, b = b, a
			}
			if b.IsConst() && !a.IsConst() {
				fb[a] = iv{b.Float(), b.Float(), false}
			}
		case smt.OSle, smt.OSlt:
			ordered(c.Args[0], c.Args[1], c.Op == smt.OSlt)
		case smt.OEq:
			a, b := c.Args[0], c.Args[1]
			if a.IsConst() {
				a, b = b, a
			}
			if b.IsConst() && b.S.K == smt.KBV && b.S.W == 64 {
				ib[a] = [2]int64{b.Int(), b.Int()}
			}
		case smt.ONot:
			n := c.Args[0]
			if n.Op == smt.OFEq {
				for i, z := range n.Args {
					if z.IsConst() && z.Float() == 0 {
						nz[n.Args[1-i]] = true
					}
				}
			}
			if n.Op == smt.OFIsNaN {
				x := get(n.Args[0])
				x.nan = false
				fb[n.Args[0]] = x
			}
			if n.Op == smt.OFLe || n.Op == smt.OFLt {
				// reversed, or one side is not a number
				a, b := n.Args[0], n.Args[1]
				if b.IsConst() && !a.IsConst() && b.Float() == b.Float() {
					x := get(a)
					x.lo = math.Max(x.lo, b.Float())
					fb[a] = x
				}
				if a.IsConst() && !b.IsConst() && a.Float() == a.Float() {
					x := get(b)
					x.hi = math.Min(x.hi, a.Float())
					fb[b] = x
				}
			}
			if n.Op == smt.OSle || n.Op == smt.OSlt {
				ordered(n.Args[1], n.Args[0], n.Op == smt.OSle)
			}
		}
	}
	for _, c := range pc {
		lit(c)
	}
	upper := []*Term{}
	for t, v := range fb {
		if !v.nan && v.hi >= 0 && v.hi < 1e30 {
			upper = append(upper, t)
		}
	}
	for _, t := range upper {
		lengths(fb, t, fb[t].hi)
	}
	return fb, ib, nz
}

// lengths bounds the operands of a square root, a sum of squares or a square
// that is a number and at most hi.
func lengths(fb map[*Term]iv, t *Term, hi float64) {
	within := func(a *Term, lo, hi float64) {
		if a.IsConst() {
			return
		}
		v, ok := fb[a]
		if !ok {
			v = top
		}
		fb[a] = iv{math.Max(v.lo, lo), math.Min(v.hi, hi), false}
	}
	square := func(a *Term) bool { return a.Op == smt.OFMul && a.Args[0] == a.Args[1] }
	switch {
	case t.Op == smt.OFSqrt:
		within(t.Args[0], math.Inf(-1), hi*hi*1.001+1e-30)
		lengths(fb, t.Args[0], hi*hi*1.001+1e-30)
	case t.Op == smt.OFAdd && t.Args[0].IsConst() && t.Args[0].Float() == 0:
		within(t.Args[1], math.Inf(-1), hi)
		lengths(fb, t.Args[1], hi)
	case t.Op == smt.OFAdd && square(t.Args[0]) && square(t.Args[1]):
		lengths(fb, t.Args[0], hi*1.001+1e-30)
		lengths(fb, t.Args[1], hi*1.001+1e-30)
	case t.Op == smt.OFConv:
		within(t.Args[0], math.Inf(-1), hi*1.001+1e-30)
		lengths(fb, t.Args[0], hi*1.001+1e-30)
	case square(t):
		within(t, math.Inf(-1), hi)
		within(t.Args[0], -math.Sqrt(hi)*1.001-1e-15, math.Sqrt(hi)*1.001+1e-15)
	}
}

type ranger struct {
	fb   map[*Term]iv
	ib   map[*Term][2]int64
	memo map[*Term]iv
	im   map[*Term][2]int64
	deep int
	cond map[*Term][]*Term // facts that hold under a condition
	nz   map[*Term]bool    // floats other than zero
}

func newRanger(pc []*Term, cond map[*Term][]*Term) *ranger {
	fb, ib, nz := bounds(pc)
	return &ranger{fb, ib, map[*Term]iv{}, map[*Term][2]int64{}, 0, cond, nz}
}

// numeric is a term that is numerically equal to t, whatever the sign of
// zeros. It must not be divided by.
func (r *ranger) numeric(t *Term) *Term {
	if t.IsConst() || !t.S.IsFloat() {
		return t
	}
	if v := r.get(t); v.lo == v.hi && !v.nan {
		return cf(t.S, v.lo+0)
	}
	zero := func(a *Term) bool { return a.IsConst() && a.Float() == 0 }
	switch t.Op {
	case smt.OFAdd, smt.OFSub:
		a, b := r.numeric(t.Args[0]), r.numeric(t.Args[1])
		if zero(b) {
			return a
		}
		if zero(a) && t.Op == smt.OFAdd {
			return b
		}
		if a != t.Args[0] || b != t.Args[1] {
			return smt.FBin(t.Op, a, b)
		}
	}
	return t
}

// equalities replaces the floats compared in a condition by simpler ones.
func (r *ranger) equalities(c *Term) *Term {
	switch c.Op {
	case smt.OAnd:
		n := make([]*Term, len(c.Args))
		for i, a := range c.Args {
			n[i] = r.equalities(a)
		}
		return smt.AndAll(n...)
	case smt.ONot:
		return smt.Not(r.equalities(c.Args[0]))
	case smt.OFEq, smt.OFLt, smt.OFLe:
		a, b := r.numeric(c.Args[0]), r.numeric(c.Args[1])
		if a == b && c.Op != smt.OFLt && !r.get(a).nan {
			return smt.True
		}
		if a != c.Args[0] || b != c.Args[1] {
			return smt.FCmp(c.Op, a, b)
		}
	}
	return c
}

// under is r with condition c added, or nil.
func (r *ranger) under(c *Term) *ranger {
	if r.deep >= 3 {
		return nil
	}
	fb, ib, nz := bounds(append([]*Term{c}, r.cond[c]...))
	if len(fb)+len(ib)+len(nz) == 0 {
		return nil
	}
	for t, v := range r.fb {
		if o, ok := fb[t]; ok {
			v = iv{math.Max(v.lo, o.lo), math.Min(v.hi, o.hi), v.nan && o.nan}
		}
		fb[t] = v
	}
	for t, v := range r.ib {
		if o, ok := ib[t]; ok {
			v = [2]int64{max64(v[0], o[0]), min64(v[1], o[1])}
		}
		ib[t] = v
	}
	for t := range r.nz {
		nz[t] = true
	}
	return &ranger{fb, ib, map[*Term]iv{}, map[*Term][2]int64{}, r.deep + 1, r.cond, nz}
}

func (r *ranger) bv(t *Term) [2]int64 {
	full := [2]int64{math.MinInt64, math.MaxInt64}
	if t.IsConst() {
		return [2]int64{t.Int(), t.Int()}
	}
	if v, ok := r.im[t]; ok {
		return v
	}
	out := full
	w := t.S.W
	switch t.Op {
	case smt.OIte:
		a, b := r.bv(t.Args[1]), r.bv(t.Args[2])
		if q := r.under(t.Args[0]); q != nil && !t.Args[1].IsConst() {
			a = q.bv(t.Args[1])
		}
		if q := r.under(smt.Not(t.Args[0])); q != nil && !t.Args[2].IsConst() {
			b = q.bv(t.Args[2])
		}
		if a[0] > a[1] {
			a = b
		} else if b[0] > b[1] {
			b = a
		}
		out = [2]int64{min64(a[0], b[0]), max64(a[1], b[1])}
	case smt.OSExt:
		out = r.bv(t.Args[0])
	case smt.OZExt:
		if a := r.bv(t.Args[0]); a[0] >= 0 {
			out = a
		} else if t.Args[0].S.W < 64 {
			out = [2]int64{0, 1<<t.Args[0].S.W - 1}
		}
	case smt.OAdd, smt.OSub, smt.OMul:
		a, b := r.bv(t.Args[0]), r.bv(t.Args[1])
		const lim = 1 << 30
		if a[0] > -lim && a[1] < lim && b[0] > -lim && b[1] < lim && w == 64 {
			switch t.Op {
			case smt.OAdd:
				out = [2]int64{a[0] + b[0], a[1] + b[1]}
			case smt.OSub:
				out = [2]int64{a[0] - b[1], a[1] - b[0]}
			default:
				p := []int64{a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]}
				out = [2]int64{p[0], p[0]}
				for _, x := range p {
					out = [2]int64{min64(out[0], x), max64(out[1], x)}
				}
			}
		}
	case smt.OBAnd:
		for k := 0; k < 2; k++ {
			if c := r.bv(t.Args[k]); c[0] >= 0 {
				out = [2]int64{0, min64(c[1], out[1])}
			}
		}
	case smt.OTrunc:
		a := r.bv(t.Args[0])
		if w < 64 && a[0] >= -(1<<(w-1)) && a[1] < 1<<(w-1) {
			out = a
		}
	}
	if w < 64 {
		out[0], out[1] = max64(out[0], -(1<<(w-1))), min64(out[1], 1<<(w-1)-1)
	}
	if b, ok := r.ib[t]; ok {
		out = [2]int64{max64(out[0], b[0]), min64(out[1], b[1])}
	}
	r.im[t] = out
	return out
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (r *ranger) get(t *Term) iv {
	if t.IsConst() {
		f := t.Float()
		if f != f {
			return iv{math.Inf(1), math.Inf(-1), true}
		}
		return iv{f, f, false}
	}
	if v, ok := r.memo[t]; ok {
		return v
	}
	v := r.calc(t)
	if b, ok := r.fb[t]; ok {
		v.lo = math.Max(v.lo, b.lo)
		v.hi = math.Min(v.hi, b.hi)
		v.nan = v.nan && b.nan
	}
	r.memo[t] = v
	return v
}

func (r *ranger) calc(t *Term) iv {
	if t.S.K == smt.KF32 && t.Op != smt.OVar && t.Op != smt.OIte && t.Op != smt.OFMin && t.Op != smt.OFMax && t.Op != smt.OFNeg && t.Op != smt.OFAbs && t.Op != smt.OFConv {
		if t.Op == smt.OFAdd || t.Op == smt.OFSub || t.Op == smt.OFMul || t.Op == smt.OFDiv || t.Op == smt.OFSqrt || t.Op == smt.OSToF {
			v := r.calc64(t)
			return round32(v)
		}
		return top
	}
	return r.calc64(t)
}

// refine narrows the range of t under condition c.
func refine(v iv, t, c *Term) iv {
	if t.IsConst() {
		return v
	}
	fb, _, _ := bounds([]*Term{c})
	if b, ok := fb[t]; ok {
		v.lo = math.Max(v.lo, b.lo)
		v.hi = math.Min(v.hi, b.hi)
		v.nan = v.nan && b.nan
	}
	return v
}

// round32 widens a float64 interval to what rounding to float32 may give.
func round32(v iv) iv {
	// an end that is a float32 is kept: what rounds to it in float64 rounds to
	// it in float32
	lo, hi := float32(v.lo), float32(v.hi)
	if float64(lo) != v.lo {
		lo = math.Nextafter32(lo, float32(math.Inf(-1)))
	}
	if float64(hi) != v.hi {
		hi = math.Nextafter32(hi, float32(math.Inf(1)))
	}
	return iv{float64(lo), float64(hi), v.nan}
}

// geq tells whether x >= y can be seen from how they are built (neither is a
// NaN) and from the order of the pairs given.
func (r *ranger) geq(x, y *Term, depth int, known ...[2]*Term) bool {
	if x == y {
		return true
	}
	for _, k := range known {
		if k[0] == x && k[1] == y {
			return true
		}
	}
	if depth == 0 {
		return false
	}
	depth--
	// with adds what c says.
	with := func(c *Term, neg bool) [][2]*Term {
		for c.Op == smt.ONot {
			c, neg = c.Args[0], !neg
		}
		if c.Op != smt.OFLt && c.Op != smt.OFLe {
			return known
		}
		p, q := c.Args[1], c.Args[0] // q < p
		if neg {
			if r.get(p).nan || r.get(q).nan {
				return known
			}
			p, q = q, p
		}
		return append(append([][2]*Term(nil), known...), [2]*Term{p, q})
	}
	switch x.Op {
	case smt.OFMax:
		if r.get(x).nan {
			return false
		}
		if r.geq(x.Args[0], y, depth, known...) || r.geq(x.Args[1], y, depth, known...) {
			return true
		}
	case smt.OFMin:
		if r.geq(x.Args[0], y, depth, known...) && r.geq(x.Args[1], y, depth, known...) {
			return true
		}
	case smt.OIte:
		if r.geq(x.Args[1], y, depth, with(x.Args[0], false)...) && r.geq(x.Args[2], y, depth, with(x.Args[0], true)...) {
			return true
		}
	case smt.OFAdd:
		for i := 0; i < 2; i++ {
			if v := r.get(x.Args[i]); v.lo >= 0 && v.lo <= v.hi && !v.nan && r.geq(x.Args[1-i], y, depth, known...) {
				return true
			}
		}
	}
	switch y.Op {
	case smt.OFMin:
		if r.get(y).nan {
			return false
		}
		return r.geq(x, y.Args[0], depth, known...) || r.geq(x, y.Args[1], depth, known...)
	case smt.OFMax:
		return r.geq(x, y.Args[0], depth, known...) && r.geq(x, y.Args[1], depth, known...)
	case smt.OIte:
		return r.geq(x, y.Args[1], depth, with(y.Args[0], false)...) && r.geq(x, y.Args[2], depth, with(y.Args[0], true)...)
	}
	return false
}

func (r *ranger) calc64(t *Term) iv {
	a := func(i int) iv { return r.get(t.Args[i]) }
	switch t.Op {
	case smt.OIte:
		x, y := a(1), a(2)
		x = refine(x, t.Args[1], t.Args[0])
		y = refine(y, t.Args[2], smt.Not(t.Args[0]))
		if v := union(x, y); v.lo > 0 && v.fin() {
			return v
		}
		// again with the condition known throughout
		meet := func(v iv, c, b *Term) iv {
			if q := r.under(c); q != nil && !b.IsConst() {
				w := q.get(b)
				if w.lo <= w.hi {
					return iv{math.Max(v.lo, w.lo), math.Min(v.hi, w.hi), v.nan && w.nan}
				}
			}
			return v
		}
		return union(meet(x, t.Args[0], t.Args[1]), meet(y, smt.Not(t.Args[0]), t.Args[2]))
	case smt.OFNeg:
		x := a(0)
		return iv{-x.hi, -x.lo, x.nan}
	case smt.OFAbs:
		x := a(0)
		m := math.Max(math.Abs(x.lo), math.Abs(x.hi))
		l := 0.0
		if x.lo > 0 {
			l = x.lo
		} else if x.hi < 0 {
			l = -x.hi
		}
		return iv{l, m, x.nan}
	case smt.OFMin:
		x, y := a(0), a(1)
		return iv{math.Min(x.lo, y.lo), math.Min(x.hi, y.hi), x.nan || y.nan}
	case smt.OFMax:
		x, y := a(0), a(1)
		return iv{math.Max(x.lo, y.lo), math.Max(x.hi, y.hi), x.nan || y.nan}
	case smt.OFAdd, smt.OFSub, smt.OFMul:
		x, y := a(0), a(1)
		if x.lo > x.hi || y.lo > y.hi {
			return top
		}
		if t.Op == smt.OFSub {
			y = iv{-y.hi, -y.lo, y.nan}
		}
		if t.Op != smt.OFMul {
			n := x.nan || y.nan || (math.IsInf(x.lo, -1) && math.IsInf(y.hi, 1)) || (math.IsInf(x.hi, 1) && math.IsInf(y.lo, -1))
			lo, hi := x.lo+y.lo, x.hi+y.hi
			if lo != lo {
				lo = math.Inf(-1)
			}
			if hi != hi {
				hi = math.Inf(1)
			}
			if t.Op == smt.OFSub && !n && lo < 0 && hi > 0 {
				if r.geq(t.Args[0], t.Args[1], 4) {
					lo = 0
				} else if r.geq(t.Args[1], t.Args[0], 4) {
					hi = 0
				}
			}
			return iv{lo, hi, n}
		}
		inf := math.IsInf(x.lo, 0) || math.IsInf(x.hi, 0)
		inf2 := math.IsInf(y.lo, 0) || math.IsInf(y.hi, 0)
		n := x.nan || y.nan || (inf && y.lo <= 0 && y.hi >= 0) || (inf2 && x.lo <= 0 && x.hi >= 0)
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, p := range []float64{x.lo, x.hi} {
			for _, q := range []float64{y.lo, y.hi} {
				v := p * q
				if v != v {
					v = 0
				}
				lo, hi = math.Min(lo, v), math.Max(hi, v)
			}
		}
		if t.Args[0] == t.Args[1] {
			lo = math.Max(lo, 0)
			if x.lo > 0 {
				lo = math.Max(lo, x.lo*x.lo)
			}
		}
		return iv{lo, hi, n}
	case smt.OFDiv:
		x, y := a(0), a(1)
		if x.lo > x.hi || y.lo > y.hi {
			return top
		}
		if x.lo == 0 && x.hi == 0 && !x.nan && !y.nan && (r.nz[t.Args[1]] || y.lo > 0 || y.hi < 0) {
			return iv{0, 0, false}
		}
		if y.lo <= 0 && y.hi >= 0 {
			if !x.nan && !y.nan && x.lo > 0 && y.lo >= 0 {
				return iv{math.Inf(-1), math.Inf(1), false} // +-0 divisors give either infinity
			}
			return top
		}
		xi := math.IsInf(x.lo, 0) || math.IsInf(x.hi, 0)
		yi := math.IsInf(y.lo, 0) || math.IsInf(y.hi, 0)
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, p := range []float64{x.lo, x.hi} {
			for _, q := range []float64{y.lo, y.hi} {
				v := p / q
				if v != v {
					return top
				}
				lo, hi = math.Min(lo, v), math.Max(hi, v)
			}
		}
		return iv{lo, hi, x.nan || y.nan || xi && yi}
	case smt.OFSqrt:
		x := a(0)
		return iv{math.Sqrt(math.Max(x.lo, 0)), math.Sqrt(math.Max(x.hi, 0)), x.nan || x.lo < 0}
	case smt.OFFloor:
		x := a(0)
		return iv{math.Floor(x.lo), math.Floor(x.hi), x.nan}
	case smt.OFCeil:
		x := a(0)
		return iv{math.Ceil(x.lo), math.Ceil(x.hi), x.nan}
	case smt.OFTrunc:
		x := a(0)
		return iv{math.Trunc(x.lo), math.Trunc(x.hi), x.nan}
	case smt.OFConv:
		x := a(0)
		if t.S.K == smt.KF32 {
			return round32(x)
		}
		return x
	case smt.OSToF:
		b := r.bv(t.Args[0])
		return iv{float64(b[0]), float64(b[1]), false}
	case smt.OUToF:
		b := r.bv(t.Args[0])
		if b[0] >= 0 {
			return iv{float64(b[0]), float64(b[1]), false}
		}
		return iv{0, math.Ldexp(1, 64), false}
	case smt.OFun:
		switch t.Name {
		case "pow":
			x, y := a(0), a(1)
			if x.nan || y.nan || x.lo > x.hi || y.lo > y.hi {
				return top
			}
			if e := y.lo; x.lo < 0 && e == y.hi && e >= 1 && e < 64 && e == math.Trunc(e) {
				// whole powers of possibly negative numbers
				lo, hi := math.Pow(x.lo, e), math.Pow(x.hi, e)
				if math.Mod(e, 2) == 0 {
					lo, hi = 0, math.Max(lo, hi)
				}
				lo, hi = slack(lo, -1), slack(hi, 1)
				if x.lo >= -1 && x.hi <= 1 {
					lo, hi = math.Max(lo, -1), math.Min(hi, 1)
				}
				return iv{lo, hi, false}
			}
			if x.lo < 0 {
				return top
			}
			lo, hi := math.Inf(1), math.Inf(-1)
			if x.lo <= 1 && x.hi >= 1 || y.lo <= 0 && y.hi >= 0 {
				lo, hi = 1, 1
			}
			for _, p := range []float64{x.lo, x.hi} {
				for _, q := range []float64{y.lo, y.hi} {
					v := math.Pow(p, q)
					if v != v {
						return top
					}
					lo, hi = math.Min(lo, v), math.Max(hi, v)
				}
			}
			lo, hi = slack(lo, -1), slack(hi, 1)
			if y.lo >= 0 && x.hi <= 1 {
				hi = math.Min(hi, 1)
			}
			if y.lo >= 0 && x.lo >= 1 {
				lo = math.Max(lo, 1)
			}
			return iv{lo, hi, false}
		case "mod":
			x, y := a(0), a(1)
			if x.fin() && x.lo <= x.hi && y.lo == y.hi && y.lo > 0 && y.fin() {
				if x.lo >= 0 && x.hi < y.lo {
					return x
				}
				v := iv{-y.lo, y.lo, false}
				if x.lo >= 0 {
					v.lo = 0
				}
				if x.hi <= 0 {
					v.hi = 0
				}
				return v
			}
		case "log", "log10", "log2", "log1p":
			x := a(0)
			f := map[string]func(float64) float64{"log": math.Log, "log10": math.Log10, "log2": math.Log2, "log1p": math.Log1p}[t.Name]
			dom := 0.0
			if t.Name == "log1p" {
				dom = -1
			}
			if x.nan || x.lo < dom || x.lo > x.hi {
				return top
			}
			return iv{slack(f(x.lo), -1), slack(f(x.hi), 1), false}
		case "exp":
			x := a(0)
			if x.lo > x.hi {
				return top
			}
			return iv{math.Max(0, slack(math.Exp(x.lo), -1)), slack(math.Exp(x.hi), 1), x.nan}
		case "tanh":
			x := a(0)
			return iv{-1, 1, x.nan}
		case "sin", "cos":
			x := a(0)
			return iv{-1, 1, x.nan || math.IsInf(x.lo, 0) || math.IsInf(x.hi, 0)}
		case "acos":
			x := a(0)
			return iv{0, 3.15, x.nan || x.lo < -1 || x.hi > 1}
		case "asin", "atan":
			x := a(0)
			return iv{-1.5708, 1.5708, x.nan || t.Name == "asin" && (x.lo < -1 || x.hi > 1)}
		case "atan2":
			return iv{-3.1416, 3.1416, a(0).nan || a(1).nan}
		case "round", "rndev":
			x := a(0)
			if x.lo > x.hi {
				return top
			}
			return iv{math.Round(x.lo) - 1, math.Round(x.hi) + 1, x.nan}
		}
	}
	return top
}

// slack widens a libm result by a relative 1e-12.
func slack(f, s float64) float64 {
	if math.IsInf(f, 0) || f == 0 {
		return f
	}
	return f + s*math.Abs(f)*1e-12
}

func fle(a, b *Term) *Term { return smt.FCmp(smt.OFLe, a, b) }
func flt(a, b *Term) *Term { return smt.FCmp(smt.OFLt, a, b) }
func num(a *Term) *Term    { return smt.Not(smt.FIsNaN(a)) }
func cf(s smt.Sort, f float64) *Term {
	if s.K == smt.KF32 {
		return smt.F32C(float32(f))
	}
	return smt.F64C(f)
}
func imp(c, d *Term) *Term { return smt.Implies(c, d) }
func and(t ...*Term) *Term { return smt.AndAll(t...) }

// Axioms returns facts about the operations uninterpreted in mode m that occur
// in ts. Every fact is valid for IEEE arithmetic; the ones about named
// functions (pow, log, ...) assume them monotone and within a relative 1e-12
// at the ends of their intervals.
func Axioms(m smt.Mode, ts []*Term, pairs bool) []*Term {
	r := newRanger(ts, nil)
	var abs []*Term
	smt.Walk(func(t *Term) {
		if m.Abstract(t) {
			abs = append(abs, t)
		}
	}, ts...)
	var out []*Term
	add := func(t *Term) {
		if !t.IsTrue() {
			out = append(out, t)
		}
	}
	for _, t := range abs {
		if !t.S.IsFloat() {
			if t.Op == smt.OFToS {
				// truncation keeps order and sign
				x := t.Args[0]
				v := r.get(x)
				if !v.nan && v.lo > -9e18 && v.hi < 9e18 {
					add(smt.And(smt.Cmp(smt.OSle, smt.IntC(int64(v.lo)), t), smt.Cmp(smt.OSle, t, smt.IntC(int64(v.hi)))))
				}
				if x.S.K == smt.KF64 && t.S.W == 64 {
					add(imp(and(fle(smt.F64C(0), x), fle(x, smt.F64C(9e18))), smt.Cmp(smt.OSle, smt.IntC(0), t)))
					for _, s := range abs {
						if s.Op != smt.OSToF || s.S != x.S || s.Args[0].S.W != 64 {
							continue
						}
						// truncation against exactly converted integers
						if b := r.bv(s.Args[0]); b[0] > -1<<52 && b[1] < 1<<52 {
							add(imp(and(fle(x, s), fle(smt.F64C(-9e18), x), smt.Cmp(smt.OSle, smt.IntC(0), s.Args[0])), smt.Cmp(smt.OSle, t, s.Args[0])))
							add(imp(and(fle(s, x), fle(x, smt.F64C(9e18))), smt.Cmp(smt.OSle, s.Args[0], t)))
						}
					}
				}
			}
			continue
		}
		v := r.get(t)
		if t.S.K == smt.KF64 || t.Op == smt.OFConv || t.Op == smt.OFAdd || t.Op == smt.OFMul || t.Op == smt.OFSub || t.Op == smt.OSToF {
			if !v.nan {
				add(num(t))
			}
			if !math.IsInf(v.lo, -1) && v.lo <= v.hi {
				add(smt.Or(smt.FIsNaN(t), fle(cf(t.S, v.lo), t)))
			}
			if !math.IsInf(v.hi, 1) && v.lo <= v.hi {
				add(smt.Or(smt.FIsNaN(t), fle(t, cf(t.S, v.hi))))
			}
		}
		z, o := cf(t.S, 0), cf(t.S, 1)
		n := num(t)
		A := func(i int) *Term { return t.Args[i] }
		if v.nan || math.IsInf(v.lo, 0) || math.IsInf(v.hi, 0) || t.Op == smt.OSToF || t.Op == smt.OFun && t.Name == "pow" {
			weak(t, v, r, add)
		}
		switch t.Op {
		case smt.OFAdd:
			a, b := A(0), A(1)
			add(imp(and(n, fle(z, b)), fle(a, t)))
			add(imp(and(n, fle(z, a)), fle(b, t)))
			add(imp(and(n, fle(b, z)), fle(t, a)))
			add(imp(and(n, fle(a, z)), fle(t, b)))
		case smt.OFSub:
			a, b := A(0), A(1)
			add(imp(and(n, fle(z, b)), fle(t, a)))
			add(imp(and(n, fle(b, z)), fle(a, t)))
			add(imp(and(n, fle(b, a)), fle(z, t)))
			add(imp(and(n, fle(a, b)), fle(t, z)))
		case smt.OFMul:
			for k := 0; k < 2; k++ {
				a, b := A(k), A(1-k)
				add(imp(and(n, fle(z, a), fle(o, b)), fle(a, t)))
				add(imp(and(n, fle(z, a), fle(z, b), fle(b, o)), fle(t, a)))
				if A(0) == A(1) {
					break
				}
			}
			if A(0) == A(1) {
				add(imp(n, fle(z, t)))
			} else {
				a, b := A(0), A(1)
				add(imp(and(n, fle(z, a), fle(z, b)), fle(z, t)))
				add(imp(and(n, fle(a, z), fle(b, z)), fle(z, t)))
				add(imp(and(n, fle(a, z), fle(z, b)), fle(t, z)))
				add(imp(and(n, fle(z, a), fle(b, z)), fle(t, z)))
			}
		case smt.OFDiv:
			a, b := A(0), A(1)
			add(imp(and(n, fle(z, a), flt(z, b)), fle(z, t)))
			add(imp(and(n, fle(a, z), flt(z, b)), fle(t, z)))
			add(imp(and(n, fle(z, a), fle(o, b)), fle(t, a)))
			add(imp(and(n, fle(z, a), flt(z, b), fle(b, o)), fle(a, t)))
			add(imp(and(n, fle(z, a), flt(z, b), fle(a, b)), fle(t, o)))
			add(imp(and(n, flt(z, b), fle(b, a)), fle(o, t)))
		case smt.OFSqrt:
			add(imp(n, fle(z, t)))
		case smt.OFFloor:
			add(imp(num(A(0)), and(n, fle(t, A(0)))))
			add(imp(fle(z, A(0)), fle(z, t)))
			add(imp(fle(o, A(0)), fle(o, t)))
		case smt.OFCeil:
			add(imp(num(A(0)), and(n, fle(A(0), t))))
			add(imp(fle(A(0), z), fle(t, z)))
		}
	}
	if !pairs {
		return out
	}
	// order facts for pairs of alike terms: grouped by operator and constant
	// arguments, large groups split by deeper shape
	budget := 3000
	var split func(g []*Term, d int)
	split = func(g []*Term, d int) {
		sh := map[*Term]string{}
		groups := map[string][]*Term{}
		var keys []string
		for _, t := range g {
			k := shape(t, sh, d, d)
			if groups[k] == nil {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], t)
		}
		for _, k := range keys {
			g := groups[k]
			if len(g) < 2 {
				continue
			}
			if len(g) > 12 {
				if d < 7 {
					split(g, d+1)
				}
				continue
			}
			for i, x := range g {
				for j, y := range g {
					if i == j || budget <= 0 {
						continue
					}
					if f := mono(x, y); f != nil {
						add(f)
						budget--
					}
				}
			}
		}
	}
	var fl []*Term
	for _, t := range abs {
		if t.S.IsFloat() {
			fl = append(fl, t)
		}
	}
	split(fl, 1)
	return out
}

// weak adds conditional facts about a term whose range is not known outright.
func weak(t *Term, v iv, r *ranger, add func(*Term)) {
	z, o, inf := cf(t.S, 0), cf(t.S, 1), math.Inf(1)
	fin := func(a *Term) *Term {
		if v := r.get(a); v.fin() {
			return smt.True
		}
		return and(flt(cf(a.S, -inf), a), flt(a, cf(a.S, inf)))
	}
	nn := func(a *Term) *Term {
		if v := r.get(a); !v.nan {
			return smt.True
		}
		return num(a)
	}
	for _, a := range t.Args {
		if a.S != t.S && t.Op != smt.OSToF && t.Op != smt.OUToF {
			return
		}
	}
	A := func(i int) *Term { return t.Args[i] }
	switch t.Op {
	case smt.OFAdd, smt.OFSub:
		add(imp(and(nn(A(0)), nn(A(1)), smt.Or(fin(A(0)), fin(A(1)))), num(t)))
		if t.Op == smt.OFAdd {
			add(imp(and(num(t), fle(A(0), o), fle(A(1), o)), fle(t, cf(t.S, 2))))
		}
	case smt.OFMul:
		add(imp(and(nn(A(0)), nn(A(1)), fin(A(0)), fin(A(1))), num(t)))
		for k := 0; k < 2; k++ {
			if w := r.get(A(k)); w.fin() && w.lo >= 0 {
				for _, c := range []float64{2, 4} {
					if h := w.hi * c * 1.0001; h < 1e300 {
						add(imp(and(fle(z, A(1-k)), fle(A(1-k), cf(t.S, c))), and(num(t), fle(t, cf(t.S, h)))))
					}
				}
			}
		}
	case smt.OFDiv:
		add(imp(and(nn(A(0)), nn(A(1)), fin(A(1)), smt.Not(smt.FCmp(smt.OFEq, A(1), z))), num(t)))
		add(imp(and(nn(A(1)), fin(A(0)), smt.Not(smt.FCmp(smt.OFEq, A(1), z))), num(t)))
	case smt.OFSqrt:
		add(imp(and(nn(A(0)), fle(z, A(0))), num(t)))
	case smt.OSToF:
		n := A(0)
		if n.S.W == 64 {
			add(imp(smt.Cmp(smt.OSle, smt.IntC(0), n), fle(z, t)))
			add(imp(smt.Cmp(smt.OSle, smt.IntC(1), n), fle(o, t)))
			add(imp(smt.Cmp(smt.OSle, n, smt.IntC(0)), fle(t, z)))
		}
	case smt.OFun:
		switch t.Name {
		case "pow":
			a, b := A(0), A(1)
			p := and(nn(a), nn(b), fle(z, a))
			add(imp(p, and(num(t), fle(z, t))))
			add(imp(and(p, fle(a, o), fle(z, b)), fle(t, o)))
			add(imp(and(p, fle(o, a), fle(z, b)), fle(o, t)))
			add(imp(and(p, fle(a, o), fle(o, b)), fle(t, a)))
			add(imp(and(p, fle(o, a), fle(o, b)), fle(a, t)))
		case "log", "log10", "log2":
			add(imp(and(nn(A(0)), fle(o, A(0))), and(num(t), fle(z, t))))
		}
	}
}

// mono gives a condition under which x <= y.
func mono(x, y *Term) *Term {
	if x.S != y.S || len(x.Args) != len(y.Args) {
		return nil
	}
	for i := range x.Args {
		if x.Args[i].S != y.Args[i].S {
			return nil
		}
	}
	z := cf(x.S, 0)
	n := and(num(x), num(y))
	a, b := func(i int) *Term { return x.Args[i] }, func(i int) *Term { return y.Args[i] }
	switch x.Op {
	case smt.OFAdd:
		return imp(and(n, fle(a(0), b(0)), fle(a(1), b(1))), fle(x, y))
	case smt.OFSub:
		return imp(and(n, fle(a(0), b(0)), fle(b(1), a(1))), fle(x, y))
	case smt.OFMul:
		for k := 0; k < 2; k++ {
			if a(k).IsConst() && a(k) == b(k) {
				if a(k).Float() >= 0 {
					return imp(and(n, fle(a(1-k), b(1-k))), fle(x, y))
				}
				return imp(and(n, fle(b(1-k), a(1-k))), fle(x, y))
			}
		}
		return imp(and(n, fle(z, a(0)), fle(z, a(1)), fle(a(0), b(0)), fle(a(1), b(1))), fle(x, y))
	case smt.OFDiv:
		if a(1).IsConst() && a(1) == b(1) && a(1).Float() != 0 {
			if a(1).Float() > 0 {
				return imp(and(n, fle(a(0), b(0))), fle(x, y))
			}
			return imp(and(n, fle(b(0), a(0))), fle(x, y))
		}
		return imp(and(n, fle(z, a(0)), flt(z, b(1)), fle(a(0), b(0)), fle(b(1), a(1))), fle(x, y))
	case smt.OFSqrt, smt.OFFloor, smt.OFCeil, smt.OFTrunc, smt.OFConv:
		return imp(and(n, fle(a(0), b(0))), fle(x, y))
	case smt.OSToF:
		return imp(smt.Cmp(smt.OSle, a(0), b(0)), fle(x, y))
	case smt.OUToF:
		return imp(smt.Cmp(smt.OUle, a(0), b(0)), fle(x, y))
	case smt.OFun:
		switch x.Name {
		case "pow":
			o := cf(x.S, 1)
			return and(
				imp(and(n, fle(z, a(0)), fle(a(0), b(0)), fle(z, a(1)), smt.FCmp(smt.OFEq, a(1), b(1))), fle(x, y)),
				imp(and(n, fle(o, a(0)), smt.FCmp(smt.OFEq, a(0), b(0)), fle(a(1), b(1))), fle(x, y)),
				imp(and(n, fle(z, a(0)), fle(a(0), o), fle(a(0), b(0)), fle(z, b(1)), fle(b(1), a(1))), fle(x, y)))
		case "log", "log10", "log2", "log1p", "exp", "atan", "tanh", "round", "rndev":
			return imp(and(n, fle(a(0), b(0))), fle(x, y))
		}
	}
	return nil
}

// shape renders t to depth d; top is the depth of the call whose results are
// remembered.
func shape(t *Term, memo map[*Term]string, d, top int) string {
	if t.IsConst() {
		return "c" + t.String()
	}
	if d == 0 {
		return "."
	}
	if t.Op == smt.OVar {
		return "v"
	}
	if d == top {
		if s, ok := memo[t]; ok {
			return s
		}
	}
	s := t.Op.String() + t.Name + "("
	for _, a := range t.Args {
		s += shape(a, memo, d-1, top) + ","
	}
	s += ")"
	if len(s) > 400 {
		s = s[:400]
	}
	if d == top {
		memo[t] = s
	}
	return s
}
