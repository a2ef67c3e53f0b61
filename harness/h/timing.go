package h

import (
	"github.com/Wieku/gosu-pp/beatmap/timing"

	"vharness/sym"
)

// sortedPoints adds n points in any order; order lists the indexes in the
// stable time order.
func sortedPoints(tim *timing.Timings, n int, bl []float64, inh []bool) (order []int, times []float64) {
	names := []string{"t0", "t1", "t2", "t3", "t4"}
	for i := 0; i < n; i++ {
		times = append(times, sym.F64In(names[i], -1e12, 1e12))
		tim.AddPoint(times[i], bl[i], 0, i, 1, 4, inh[i], false, false)
	}
	order = chooseOrder(times, []string{"o0", "o1", "o2", "o3", "o4"})
	return
}

// chooseOrder forks over the stable orders of the times.
func chooseOrder(times []float64, names []string) (order []int) {
	rest := []int{}
	for i := range times {
		rest = append(rest, i)
	}
	for i := 0; len(rest) > 0; i++ {
		c := sym.Choose(names[i], len(rest))
		x := rest[c]
		rest = append(append([]int{}, rest[:c]...), rest[c+1:]...)
		for _, y := range rest {
			if y < x {
				sym.Assume(times[x] < times[y])
			} else {
				sym.Assume(times[x] <= times[y])
			}
		}
		order = append(order, x)
	}
	return
}

// The active point is the last in stable time order that is not after the
// query, else the first.
//
//gosym:prop C08
//gosym:bound 1..4 (thorough 5) points added in any order at any times in [-1e12,1e12], any query time
//gosym:cases n 4
//gosym:thorough-cases n 5
//gosym:feas lite
func ActivePoint() {
	n := sym.Choose("n", 5) + 1
	bl := []float64{300, 301, 302, 303, 304}
	tim := timing.NewTimings()
	sym.Assert(!tim.HasPoints(), "no points yet")
	order, times := sortedPoints(tim, n, bl, make([]bool, 5))
	tim.FinalizePoints()
	sym.Assert(tim.HasPoints(), "points are stored")
	q := sym.F64In("q", -2e12, 2e12)
	want := order[0]
	for _, k := range order {
		want = sym.IteI(times[k] <= q, k, want)
	}
	p := tim.GetPointAt(q)
	sym.AssertEqI(p.SampleIndex, want, "last point that has started")
	o := tim.GetOriginalPointAt(q)
	sym.AssertEqI(o.SampleIndex, want, "the same among uninherited points")
	// every point is kept
	for _, k := range order {
		sym.AssertEqF(tim.GetPointAt(times[k]).Time, times[k], "a point is active at its own time")
	}
}

// Uninherited lookup ignores inherited points.
//
//gosym:prop C08
//gosym:bound 3 (thorough 4) points of any kind at any times, any query time
//gosym:cases mask 8
//gosym:feas lite
func ActiveUninherited() {
	n := 3
	mask := sym.Choose("mask", 8)
	bl := []float64{300, 301, 302, 303}
	inh := []bool{mask&1 != 0, mask&2 != 0, mask&4 != 0, false}
	if sym.Thorough() {
		n = 4
		inh[3] = sym.Choose("inh3", 2) == 1
	}
	tim := timing.NewTimings()
	order, times := sortedPoints(tim, n, bl, inh)
	tim.FinalizePoints()
	q := sym.F64In("q", -2e12, 2e12)
	want := order[0]
	for i, k := range order {
		if !inh[k] && i > 0 {
			want = sym.IteI(times[k] <= q, k, want)
		}
	}
	sym.AssertEqI(tim.GetOriginalPointAt(q).SampleIndex, want, "last uninherited point that has started")
}

func ratioRef(bl float64) float64 {
	r := sym.IteF(-bl < 10, 10, -bl)
	r = sym.IteF(r > 1000, 1000, r)
	r = float64(float32(r) / 100)
	return sym.IteF(bl < 0, r, 1)
}

// Inherited points take the base beat length of the point before them.
//
//gosym:prop C09
//gosym:bound 3 (thorough 4) points of any kind in any order of insertion, any beat lengths
//gosym:cases mask 8
//gosym:feas lite
func Inheritance() {
	n := 3
	mask := sym.Choose("mask", 8)
	inh := []bool{mask&1 != 0, mask&2 != 0, mask&4 != 0, false}
	if sym.Thorough() {
		n = 4
		inh[3] = sym.Choose("inh3", 2) == 1
	}
	bl := []float64{sym.F64("b0"), sym.F64("b1"), sym.F64("b2"), sym.F64("b3")}
	tim := timing.NewTimings()
	tim.SliderMult, tim.TickRate = 1.4, 2
	order, times := sortedPoints(tim, n, bl, inh)
	tim.FinalizePoints()
	base := bl[order[0]]
	for i, k := range order {
		if !inh[k] {
			base = bl[k]
		}
		last := i+1 == len(order)
		if !last {
			last = times[order[i+1]] > times[k]
		}
		if last {
			p := tim.GetPointAt(times[k])
			sym.AssertEqI(p.SampleIndex, k, "the point active at its own time")
			sym.AssertEqF(p.GetBaseBeatLength(), base, "base beat length is inherited")
			sym.AssertEqF(p.GetRawBeatLength(), bl[k], "raw beat length is kept")
			sym.Assert(p.Inherited == inh[k], "inheritance is kept")
		}
	}
}

// Ratio and effective beat length of a point.
//
//gosym:prop C09
//gosym:bound any float64 beat length of a single point
func PointRatio() {
	bl := sym.F64("beat")
	tim := timing.NewTimings()
	tim.AddPoint(0, bl, 0, 0, 1, 4, false, false, false)
	tim.FinalizePoints()
	p := tim.GetPointAt(0)
	r := p.GetRatio()
	sym.Assert(sym.And(r >= float64(float32(0.1)), r <= 10), "ratio is within 0.1..10")
	sym.Assert(sym.Implies(bl >= 0, r == 1), "no ratio for uninherited points")
	sym.Assert(sym.Implies(bl != bl, r == 1), "no ratio for points without a beat length")
	sym.AssertEqF(r, ratioRef(bl), "ratio is the clamped negated beat length")
	sym.AssertEqF(p.GetBeatLength(), bl*r, "effective beat length is base times ratio")
	d := tim.GetDefault()
	sym.AssertEqF(d.GetBeatLength(), 1000, "the default point has 60 BPM")
}

// Velocity and tick spacing follow from multiplier, tick rate and beat length.
//
//gosym:prop C09
//gosym:bound any finite multiplier and tick rate in [0.01,100], base beat length in [1,60000], inherited value in [-10000,-0.001]
func Velocity() {
	sm := sym.F64In("mult", 0.01, 100)
	tr := sym.F64In("rate", 0.01, 100)
	b := sym.F64In("base", 1, 60000)
	v := sym.F64In("inh", -10000, -0.001)
	tim := timing.NewTimings()
	tim.SliderMult, tim.TickRate = sm, tr
	tim.AddPoint(0, b, 0, 0, 1, 4, false, false, false)
	tim.AddPoint(10, v, 0, 1, 1, 4, true, false, false)
	tim.FinalizePoints()
	p, q := tim.GetPointAt(5), tim.GetPointAt(15)
	sym.AssertEqF(tim.GetScoringDistance(), 100*sm/tr, "scoring distance")
	sym.AssertEqF(tim.GetVelocity(p), 100*sm/tr*tr*(1000/b), "velocity at an uninherited point")
	sym.AssertEqF(tim.GetVelocity(q), 100*sm/tr*tr*(1000/(b*ratioRef(v))), "velocity at an inherited point")
	sym.AssertEqF(tim.GetTickDistance(p), 100*sm/tr, "tick distance at an uninherited point")
	sym.AssertEqF(tim.GetTickDistance(q), 100*sm/tr/ratioRef(v), "tick distance at an inherited point")
}
