package h

import (
	"github.com/Wieku/gosu-pp/beatmap/timing"

	"vharness/sym"
)

// manyTimes are the times of 18 entries in file order: ties far apart, ties in
// disorder, nearly sorted with one early entry, all equal.
var manyTimes = [][]float64{
	{5, 3, 5, 1, 3, 5, 1, 2, 2, 5, 3, 1, 4, 4, 5, 3, 2, 1},
	{9, 8, 8, 7, 7, 7, 6, 5, 5, 4, 4, 3, 3, 2, 2, 1, 1, 0},
	{1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 0, 8},
	{4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4},
	{0, 6, 6, 0, 6, 0, 6, 6, 0, 0, 6, 6, 6, 0, 6, 0, 0, 6},
}

var manyNames = []string{"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17"}

func stableOrder(t []float64) (order []int) {
	for i := range t {
		k := len(order)
		for k > 0 && t[order[k-1]] > t[i] {
			k--
		}
		order = append(order[:k], append([]int{i}, order[k:]...)...)
	}
	return
}

// More objects than a sort handles by insertion keep file order at equal
// times.
//
//gosym:prop C04
//gosym:bound 18 circles at 5 patterns of times with ties, each at any x of its own range
//gosym:cases pattern 5
//gosym:feas lite
//gosym:merge all
func ManyObjects() {
	t := manyTimes[sym.Choose("pattern", 5)]
	text := head + "[General]\nStackLeniency:0\n" + meta + diffs + points + "[HitObjects]\n"
	xs := make([]float32, len(t))
	for i := range t {
		xs[i] = sym.F32In(manyNames[i], float32(28*i), float32(28*i+20)) // not close enough to stack
		text += sym.Float32Text(xs[i]) + ",100," + sym.FloatText(1000+100*t[i]) + ",1,0\n"
	}
	m := parse(text)
	sym.AssertEqI(len(m.HitObjects), len(t), "every line is an object")
	if len(m.HitObjects) != len(t) {
		return
	}
	for i, k := range stableOrder(t) {
		o := m.HitObjects[i]
		sym.AssertEqF(o.GetStartTime(), 1000+100*t[k], "objects are in time order")
		sym.AssertEqF32(o.GetStartPosition().X, xs[k], "objects at equal times keep file order")
		sym.AssertEqI(int(o.GetID()), i, "numbered from zero")
	}
}

// More points than a sort handles by insertion keep file order at equal times.
//
//gosym:prop C08
//gosym:bound 18 points at 5 patterns of times with ties, any beat lengths, inherited or not, any query time
//gosym:cases pattern 5
//gosym:feas lite
//gosym:merge all
func ManyPoints() {
	t := manyTimes[sym.Choose("pattern", 5)]
	tim := timing.NewTimings()
	inh := make([]bool, len(t))
	for i := range t {
		inh[i] = i%3 == 1
		bl := sym.F64In(manyNames[i], 1, 10000)
		if inh[i] {
			bl = -bl
		}
		tim.AddPoint(t[i], bl, 0, i, 1, 4, inh[i], false, false)
	}
	tim.FinalizePoints()
	order := stableOrder(t)
	q := sym.F64In("q", -10, 20)
	want := order[0]
	for _, k := range order {
		want = sym.IteI(t[k] <= q, k, want)
	}
	sym.AssertEqI(tim.GetPointAt(q).SampleIndex, want, "the last of the points that have started, in file order")
}
