package solve

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"gosym/exec"
	"gosym/smt"
)

// mu guards the term table: terms are built by one goroutine at a time.
var mu sync.Mutex

type Status string

const (
	Proved   Status = "proved"
	Violated Status = "violated"
	Open     Status = "inconclusive"
	Mismatch Status = "mismatch"
	Reduced  Status = "reduced-bound"
	Skipped  Status = "skipped"
)

// Result of one obligation.
type Result struct {
	Obl    *exec.Obligation
	Status Status
	How    string
	Model  smt.Model
	Resp   Resp
	Sec    float64
}

// Ctx decides the obligations of one engine run.
type Ctx struct {
	E        *exec.Engine
	R        *Runner
	Rng      *rand.Rand
	PerObl   time.Duration
	Deadline time.Time
	Workers  int
	Exact    bool // try exact floating point
	NoPairs  bool
	provers  []*prover
	Draws    int  // native runs on drawn inputs
	Reals    bool // try reals with rounding bounds
	Lemmas   bool // derive ranges of guarded terms first

	lem      map[[2]*Term][]lemma
	noLem    map[[2]*Term][]lemma
	pool     []smt.Model
	AxiomBad []string
	AxiomN   int
	hits     int
	replayed map[string]bool
}

func slice(pc []*Term, c ...*Term) []*Term {
	if len(pc) < 2 {
		return pc
	}
	vs := map[*Term]bool{}
	for _, v := range smt.Vars(c...) {
		vs[v] = true
	}
	used := make([]bool, len(pc))
	pv := make([][]*Term, len(pc))
	for i, p := range pc {
		pv[i] = smt.Vars(p)
	}
	for ch := true; ch; {
		ch = false
		for i := range pc {
			if used[i] {
				continue
			}
			for _, v := range pv[i] {
				if vs[v] {
					used[i], ch = true, true
					for _, w := range pv[i] {
						vs[w] = true
					}
					break
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return out
}

// query solves ts in mode m (building the script under the lock).
func (c *Ctx) query(solver string, m smt.Mode, ts []*Term, to time.Duration) (smt.Verdict, smt.Model) {
	mu.Lock()
	q := smt.Prepare(solver, m, ts)
	mu.Unlock()
	return q.Run(to)
}

func (c *Ctx) evalAll(m smt.Model, ts []*Term) bool {
	mu.Lock()
	defer mu.Unlock()
	ev := smt.NewEval(m)
	for i := len(ts) - 1; i >= 0; i-- {
		if !ev.Bool(ts[i]) {
			return false
		}
	}
	return true
}

// abstracted reports whether a term of ts is uninterpreted in mode m.
func abstracted(m smt.Mode, ts []*Term) bool {
	r := false
	smt.Walk(func(t *Term) {
		if m.Abstract(t) {
			r = true
		}
	}, ts...)
	return r
}

// facts pins abstract applications at the argument values they take in mod.
func facts(m smt.Mode, ts []*Term, mod smt.Model) []*Term {
	ev := smt.NewEval(mod)
	var out []*Term
	smt.Walk(func(t *Term) {
		if !m.Abstract(t) || len(out) > 4000 {
			return
		}
		c := smt.True
		for _, a := range t.Args {
			c = smt.And(c, smt.Eq(a, smt.Const(a.S, ev.Eval(a))))
		}
		f := smt.Implies(c, smt.Eq(t, smt.Const(t.S, ev.Eval(t))))
		if !f.IsTrue() {
			out = append(out, f)
		}
	}, ts...)
	return out
}

func (c *Ctx) vars(ts []*Term) (fl []*Term, all []*Term) {
	all = smt.Vars(ts...)
	for _, v := range all {
		if v.S.IsFloat() {
			fl = append(fl, v)
		}
	}
	return
}

// guess draws a float value for v within its path bounds.
func (c *Ctx) guess(v *Term, b iv, mod smt.Model) uint64 {
	if k, ok := mod[v.Name]; ok && c.Rng.Intn(3) == 0 {
		return k
	}
	lo, hi := b.lo, b.hi
	if math.IsInf(lo, -1) {
		lo = -5000
	}
	if math.IsInf(hi, 1) {
		hi = 5000
	}
	if lo < -1e6 {
		lo = -1e6
	}
	if hi > 1e6 {
		hi = 1e6
	}
	if lo > hi {
		lo, hi = b.lo, b.hi
	}
	var f float64
	switch c.Rng.Intn(8) {
	case 0:
		f = lo
	case 1:
		f = hi
	case 2:
		f = math.Round(lo + (hi-lo)*c.Rng.Float64())
	case 3:
		f = math.Round(lo+(hi-lo)*c.Rng.Float64()*4) / 4
	case 4:
		f = lo + (hi-lo)*math.Pow(c.Rng.Float64(), 4)
	case 5:
		if lo <= 0 && hi >= 0 {
			f = []float64{0, 1, -1, 0.5, 2}[c.Rng.Intn(5)]
		} else {
			f = lo + (hi-lo)*c.Rng.Float64()
		}
	default:
		f = lo + (hi-lo)*c.Rng.Float64()
	}
	if f < lo {
		f = lo
	}
	if f > hi {
		f = hi
	}
	if v.S.K == smt.KF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// Pool registers a model that satisfies some path.
func (c *Ctx) addPool(m smt.Model) {
	if len(c.pool) < 64 {
		c.pool = append(c.pool, m)
	}
}

func key(m smt.Model) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%x;", k, m[k])
	}
	return b.String()
}

// candidate replays a model; done tells the caller to stop.
func (c *Ctx) candidate(res *Result, m smt.Model) bool {
	r := c.R.Run([]smt.Model{m})[0]
	if r.Bad() {
		res.Status, res.Model, res.Resp = Violated, m, r
		return true
	}
	if res.Status != Mismatch {
		res.Status, res.Model, res.Resp = Mismatch, m, r
	}
	return false
}

// Find looks for inputs satisfying ts exactly; Unsat means none exist.
func (c *Ctx) Find(ts []*Term, budget time.Duration, try func(smt.Model) bool) (smt.Verdict, string) {
	end := time.Now().Add(budget)
	if end.After(c.Deadline) {
		end = c.Deadline
	}
	left := func(d time.Duration) time.Duration {
		l := time.Until(end)
		if l < d {
			if l < 50*time.Millisecond {
				return 50 * time.Millisecond
			}
			return l
		}
		return d
	}
	// known models first
	mu.Lock()
	pool := append([]smt.Model(nil), c.pool...)
	mu.Unlock()
	for _, m := range pool {
		if c.evalAll(m, ts) && try(m) {
			return smt.Sat, "known input"
		}
	}
	mu.Lock()
	rg := newRanger(ts[:len(ts)-1], nil)
	var bad *Term
	for _, t := range ts {
		if bad = rg.equalities(t); bad.IsFalse() {
			mu.Unlock()
			return smt.Unsat, "ranges"
		}
	}
	if rg.truth(bad) == 0 {
		mu.Unlock()
		return smt.Unsat, "ranges"
	}
	sl := append(slice(ts[:len(ts)-1], bad), bad)
	abs := abstracted(smt.ModeBits, sl)
	var ax []*Term
	if abs {
		ax = safeAxioms(smt.ModeBits, sl, !c.NoPairs)
	}
	mu.Unlock()
	extra := []*Term{}
	round := 0
	lemmas := false
	tryModel := func(m smt.Model) (bool, bool) {
		if m == nil {
			return false, false
		}
		if c.evalAll(m, ts) {
			c.checkAxioms(ax, m)
			return true, try(m)
		}
		return false, false
	}
	if abs && c.equal(ts[:len(ts)-1], bad, func(d time.Duration) time.Duration {
		if l := left(time.Hour) - budget/2; l < d {
			return l
		}
		return d
	}) {
		return smt.Unsat, "matched operation by operation"
	}
	if abs && c.Reals {
		if ok, how := c.reals(append(append([]*Term(nil), sl[:len(sl)-1]...), bad), left); ok {
			return smt.Unsat, how
		}
	}
	// abstract refinement
	for ; round < 6 && time.Now().Before(end); round++ {
		q := append(append(append([]*Term(nil), sl...), ax...), extra...)
		v, m := c.query("z3-new", smt.ModeBits, q, left(6*time.Second))
		if v == smt.Unsat {
			if abs {
				return smt.Unsat, "abstract floats with order axioms"
			}
			return smt.Unsat, "bit-vectors"
		}
		if abs && c.Lemmas && !lemmas && (v == smt.Unknown || round == 1) {
			lemmas = true
			k, fs, cond, no := c.lemmas(ts[:len(ts)-1], bad, left)
			if no {
				return smt.Unsat, "ranges proved branch by branch"
			}
			if c.order(ts[:len(ts)-1], bad, fs, cond) {
				return smt.Unsat, "order proved branch by branch"
			}
			// where comparisons failed
			for _, m := range c.refuted(ts[:len(ts)-1]) {
				for k := -1; k < len(pool) && k < 16; k++ {
					x := smt.Model{}
					if k >= 0 {
						for n, v := range pool[k] {
							x[n] = v
						}
					}
					for n, v := range m {
						x[n] = v
					}
					if c.evalAll(x, ts) && try(x) {
						return smt.Sat, "model of a failed comparison"
					}
				}
			}
			if len(k) > 0 {
				mu.Lock()
				ax = append(safeAxioms(smt.ModeBits, append(append([]*Term(nil), sl...), fs...), !c.NoPairs), fs...)
				mu.Unlock()
				round = 0
				continue
			}
		}
		if v == smt.Unknown {
			break
		}
		if len(sl) < len(ts) {
			// complete the model over the whole path
			if v2, m2 := c.query("z3-new", smt.ModeBits, append(append(append([]*Term(nil), ts...), ax...), extra...), left(6*time.Second)); v2 == smt.Sat {
				m = m2
			} else if v2 == smt.Unsat {
				return smt.Unsat, "bit-vectors (path)"
			}
		}
		ok, done := tryModel(m)
		if done {
			return smt.Sat, "abstract model"
		}
		if ok && !abs {
			return smt.Sat, "unconfirmed"
		}
		mu.Lock()
		fs := facts(smt.ModeBits, ts, m)
		mu.Unlock()
		if len(fs) == 0 {
			break
		}
		extra = append(extra, fs...)
		if round == 2 {
			// fix the floats at the model's values, leave the rest to the solver
			if c.pin(ts, m, m, left, tryModel) {
				return smt.Sat, "pinned model"
			}
		}
	}
	// pinned random floats
	fl, _ := c.vars(ts)
	if len(fl) > 0 {
		mu.Lock()
		fb, _, _ := bounds(ts)
		mu.Unlock()
		for k := 0; k < 24 && time.Now().Before(end); k++ {
			m := smt.Model{}
			mu.Lock()
			for _, v := range fl {
				b, ok := fb[v]
				if !ok {
					b = top
				}
				m[v.Name] = c.guess(v, b, nil)
			}
			// sometimes keep all but one or two at their model values
			mu.Unlock()
			if c.pin(ts, m, nil, left, tryModel) {
				return smt.Sat, "pinned floats"
			}
		}
	}
	if !abs {
		// pure bit-vector query unresolved: other solvers
		for _, s := range []string{"cvc5", "z3"} {
			v, m := c.query(s, smt.ModeBits, ts, left(20*time.Second))
			if v == smt.Unsat {
				return v, "bit-vectors (" + s + ")"
			}
			if v == smt.Sat {
				if _, done := tryModel(m); done {
					return v, s
				}
			}
		}
		return smt.Unknown, ""
	}
	// exact floating point, several back ends at once
	if c.Exact && time.Now().Before(end) {
		type ans struct {
			v smt.Verdict
			m smt.Model
			s string
		}
		mu.Lock()
		ax2 := Axioms(smt.ModeFP, sl, false)
		q := append(append([]*Term(nil), sl...), ax2...)
		d := smt.PrepareAll([]string{"z3-new", "cvc5", "z3"}, smt.ModeFP, q)
		mu.Unlock()
		ch := make(chan ans, len(d))
		stop := make(chan struct{})
		for _, p := range d {
			go func(p *smt.Query) {
				v, m := p.RunStop(left(time.Hour), stop)
				ch <- ans{v, m, p.Solver}
			}(p)
		}
		for range d {
			a := <-ch
			if a.v == smt.Unsat {
				close(stop)
				return a.v, "exact floats (" + a.s + ")"
			}
			if a.v == smt.Sat {
				if _, done := tryModel(a.m); done {
					close(stop)
					return a.v, "exact floats (" + a.s + ")"
				}
			}
		}
	}
	return smt.Unknown, ""
}

// pin substitutes floats and lets the solver choose the rest.
func (c *Ctx) pin(ts []*Term, m, seed smt.Model, left func(time.Duration) time.Duration, try func(smt.Model) (bool, bool)) bool {
	mu.Lock()
	sub := map[string]*Term{}
	for _, v := range smt.Vars(ts...) {
		if v.S.IsFloat() {
			sub[v.Name] = smt.Const(v.S, m[v.Name])
		}
	}
	memo := map[int]*Term{}
	var q []*Term
	dead := false
	for _, t := range ts {
		x := smt.Subst(t, sub, memo)
		if x.IsFalse() {
			dead = true
			break
		}
		if !x.IsTrue() {
			q = append(q, x)
		}
	}
	full := smt.Model{}
	for k, t := range sub {
		full[k] = t.K
	}
	mu.Unlock()
	if dead {
		return false
	}
	if len(q) == 0 {
		_, done := try(full)
		return done
	}
	for r := 0; r < 3; r++ {
		v, mm := c.query("z3-new", smt.ModeBits, q, left(3*time.Second))
		if v != smt.Sat || mm == nil {
			return false
		}
		for k, x := range full {
			mm[k] = x
		}
		ok, done := try(mm)
		if done || ok {
			return done
		}
		mu.Lock()
		q = append(q, facts(smt.ModeBits, q, mm)...)
		mu.Unlock()
	}
	return false
}

// checkAxioms evaluates the axioms on a concrete input: all must hold.
func (c *Ctx) checkAxioms(ax []*Term, m smt.Model) {
	mu.Lock()
	defer mu.Unlock()
	ev := smt.NewEval(m)
	for _, a := range ax {
		c.AxiomN++
		if len(c.AxiomBad) < 20 && !ev.Bool(a) {
			c.AxiomBad = append(c.AxiomBad, a.String())
		}
	}
}

// Decide settles one obligation.
func (c *Ctx) Decide(o *exec.Obligation) *Result {
	t0 := time.Now()
	res := &Result{Obl: o, Status: Open}
	ts := append(append([]*Term(nil), o.PC...), o.Bad)
	weak := o.Kind == "unwind" || o.Kind == "unsupported"
	tries := 0
	v, how := c.Find(ts, c.PerObl, func(m smt.Model) bool {
		mu.Lock()
		c.addPool(m)
		mu.Unlock()
		tries++
		if c.candidate(res, m) {
			return true
		}
		return weak && tries >= 2 || tries >= 6
	})
	res.How = how
	if v == smt.Unsat {
		res.Status = Proved
	} else if weak && res.Status != Violated {
		res.Status = Reduced
	}
	res.Sec = time.Since(t0).Seconds()
	return res
}

// safeAxioms is Axioms without facts when it fails.
func safeAxioms(m smt.Mode, ts []*Term, pairs bool) (ax []*Term) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintf(os.Stderr, "gosym: internal error: %v\n%s\n", e, debug.Stack())
			ax = nil
		}
	}()
	return Axioms(m, ts, pairs)
}

// decide is Decide with internal errors turned into an open result.
func (c *Ctx) decide(o *exec.Obligation) (r *Result) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintf(os.Stderr, "gosym: internal error: %v\n%s\n", e, debug.Stack())
			r = &Result{Obl: o, Status: Open}
		}
	}()
	return c.Decide(o)
}

// DecideAll settles obligations in parallel; it stops early once a violation
// is confirmed.
func (c *Ctx) DecideAll(obls []*exec.Obligation) []*Result {
	w := c.Workers
	if w < 1 {
		w = 1
	}
	// identical queries once
	type group struct {
		o *exec.Obligation
		n int
	}
	seen := map[string]int{}
	var gs []group
	for _, o := range obls {
		k := fmt.Sprintf("%s|%s|%s|%d|", o.Kind, o.Label, o.Pos, o.Bad.ID)
		for _, p := range o.PC {
			k += fmt.Sprintf("%d,", p.ID)
		}
		if i, ok := seen[k]; ok {
			gs[i].n++
			continue
		}
		seen[k] = len(gs)
		gs = append(gs, group{o, 1})
	}
	res := make([]*Result, len(gs))
	var next, stop int
	var lk sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				lk.Lock()
				i := next
				next++
				s := stop
				lk.Unlock()
				if i >= len(gs) {
					return
				}
				if s != 0 || time.Now().After(c.Deadline) {
					res[i] = &Result{Obl: gs[i].o, Status: Skipped}
					continue
				}
				r := c.decide(gs[i].o)
				res[i] = r
				if r.Status == Violated {
					lk.Lock()
					stop = 1
					lk.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return res
}

// Witness finds and replays an input for each reachability goal.
func (c *Ctx) Witness(budget time.Duration) (ok map[string]smt.Model, missing []string, bad *Result) {
	ok = map[string]smt.Model{}
	var labels []string
	for l := range c.E.ReachPC {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	end := time.Now().Add(5 * budget)
	np := c.NoPairs
	c.NoPairs = true
	defer func() { c.NoPairs = np }()
	// drawn inputs reach most labels
	fix := smt.Model{}
	for k, v := range c.E.Cfg.Fix {
		fix[k] = uint64(v)
	}
	for _, r := range c.R.Draw(fix, 1+c.Rng.Int63n(1<<30), c.Draws) {
		if r.Abandoned || r.Inputs == nil {
			continue
		}
		m := smt.Model{}
		for k, v := range r.Inputs {
			m[k] = v
		}
		delete(m, "thorough")
		if r.Bad() {
			bad = &Result{Status: Violated, Model: m, Resp: r, How: "reachability witness"}
			return
		}
		for l := range r.Reached {
			if ok[l] == nil {
				ok[l] = m
			}
		}
		if len(c.pool) < 24 {
			c.addPool(m)
		}
	}
	for _, l := range labels {
		got := ok[l] != nil
		for i, pc := range c.E.ReachPC[l] {
			if i > 3 || got || time.Now().After(c.Deadline) || time.Now().After(end) {
				break
			}
			ts := []*Term{pc}
			if pc.Op == smt.OAnd {
				ts = append([]*Term(nil), pc.Args...)
			}
			c.Find(ts, budget, func(m smt.Model) bool {
				r := c.R.Run([]smt.Model{m})[0]
				if r.Bad() {
					bad = &Result{Status: Violated, Model: m, Resp: r, How: "reachability witness"}
					return true
				}
				if r.Reached[l] > 0 {
					got = true
					ok[l] = m
					mu.Lock()
					c.addPool(m)
					mu.Unlock()
				}
				return got
			})
			if bad != nil {
				return
			}
		}
		if !got {
			missing = append(missing, l)
		}
	}
	return
}

// Validate compares observed values of native runs with the encoding.
func (c *Ctx) Validate() (compared int, diffs []string) {
	var ms []smt.Model
	seen := map[string]bool{}
	for _, m := range c.pool {
		if k := key(m); !seen[k] {
			seen[k] = true
			ms = append(ms, m)
		}
	}
	if len(ms) == 0 {
		return
	}
	rs := c.R.Run(ms)
	for i, m := range ms {
		r := rs[i]
		if r.Abandoned || r.Bad() {
			continue
		}
		ev := smt.NewEval(m)
		var ls []string
		for l := range c.E.Observed {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			var want []string
		next:
			for _, o := range c.E.Observed[l] {
				for _, p := range o.PC {
					if !ev.Bool(p) {
						continue next
					}
				}
				k := ev.Eval(o.V)
				want = append(want, fmt.Sprint(math.Float64frombits(k)))
			}
			got := append([]string(nil), r.Observed[l]...)
			sort.Strings(got)
			sort.Strings(want)
			if len(want) == 0 {
				continue
			}
			compared++
			if fmt.Sprint(got) != fmt.Sprint(want) {
				if len(diffs) < 10 {
					diffs = append(diffs, fmt.Sprintf("%s: real %v, encoding %v", l, got, want))
				}
			}
		}
	}
	return
}
