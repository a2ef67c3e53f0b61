package h

import (
	"math"
	"sort"

	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"

	"vharness/sym"
)

// sliderTimings has a point of each kind: plain, inherited, not a number.
func sliderTimings(kind int) (tim *timing.Timings, beat, ratio float64) {
	tim = timing.NewTimings()
	tim.SliderMult = sym.F64In("slider multiplier", 0.4, 3.6)
	tim.TickRate = sym.F64In("tick rate", 0.5, 8)
	beat = sym.F64In("beat", 1, 100000)
	ratio = 1
	tim.AddPoint(-1e9, beat, 0, 1, 1, 4, false, false, false)
	switch kind {
	case 1:
		inh := sym.F64In("inherited", -2000, -1)
		tim.AddPoint(-1e8, inh, 0, 1, 1, 4, true, false, false)
		ratio = -inh
		ratio = sym.IteF(ratio < 10, 10, sym.IteF(ratio > 1000, 1000, ratio))
		ratio = float64(float32(ratio) / 100)
	case 3, 4, 5:
		tim.AddPoint(-1e8, []float64{-50, -5, -2000}[kind-3], 0, 1, 1, 4, true, false, false)
		ratio = []float64{0.5, float64(float32(0.1)), 10}[kind-3]
	case 2:
		tim.AddPoint(-1e8, math.NaN(), 0, 1, 1, 4, true, false, false)
	}
	// a later point must not count
	tim.AddPoint(1e9, 77, 0, 1, 1, 4, false, false, false)
	tim.FinalizePoints()
	return
}

func sliderOf(start float64, spans int, length float64) *objects.Slider {
	o := objects.CreateObject([]string{"100", "50", sym.FloatText(start), "2", "0", "L|200:50", sym.IntText(spans), sym.FloatText(length)})
	return o.(*objects.Slider)
}

func sliderPath(length float64) *curves.MultiCurve {
	return curves.NewMultiCurveT("L", []vector.Vector2f{{X: 100, Y: 50}, {X: 200, Y: 50}}, length)
}

// A slider lasts its length over its velocity, span by span, and its position
// runs forth and back along the path.
//
//gosym:prop C10
//gosym:bound start in [-1e7,1e7], multiplier 0.4..3.6, tick rate 0.5..8, beat length 1..100000, inherited -2000..-1 or not a number, 1..4 spans, straight path of length 7 (no ticks), any query time
//gosym:cases kind 3 spans 4
//gosym:merge all
//gosym:sort net
//gosym:real
//gosym:feas none
//gosym:symunroll 2
//gosym:nopairs
//gosym:perobl 4
//gosym:sec 60
func SliderSpan() {
	kind := sym.Choose("kind", 3)
	n := sym.Choose("spans", 4) + 1
	tim, beat, ratio := sliderTimings(kind)
	tim.TickRate = 0.5
	start := sym.F64In("start", -1e7, 1e7)
	s := sliderOf(start, n, 7)
	s.SetTiming(tim)
	path := sliderPath(7)
	length := float64(path.GetLength())
	velocity := 100 * tim.SliderMult / tim.TickRate * tim.TickRate * (1000 / (beat * ratio))
	if kind == 2 {
		velocity = 100 * tim.SliderMult / tim.TickRate * tim.TickRate * (1000 / beat)
	}
	sym.AssertEqF(s.GetStartTime(), start, "start time")
	end := start + length*1000*float64(n)/velocity
	sym.AssertEqF(s.GetEndTime(), end, "end time is spans times length over velocity")
	sym.AssertEqF(s.GetDuration(), s.GetEndTime()-start, "duration")
	sym.Observe("duration", s.GetDuration())
	at := func(p float32) vector.Vector2f { return path.PointAt(p) }
	same := func(a, b vector.Vector2f, l string) {
		sym.AssertEqF32(a.X+1000, b.X+1000, l+": x")
		sym.AssertEqF32(a.Y+1000, b.Y+1000, l+": y")
	}
	if s.GetStartTime() == s.GetEndTime() {
		same(s.GetPositionAt(sym.F64In("query", -2e7, 2e7)), at(0), "instant slider stays at its start")
		return
	}
	q := sym.F64In("query", -2e7, 2e7)
	t := sym.IteF(q < start, start, sym.IteF(q > s.GetEndTime(), s.GetEndTime(), q))
	p := math.Mod((t-start)/(length*1000/velocity), 2)
	p = sym.IteF(p >= 1, 2-p, p)
	same(s.GetPositionAt(q), at(float32(p)), "position at a time")
	same(s.GetPositionAt(start), at(0), "position at the start")
	same(s.GetPositionAt(start-sym.F64In("before", 0, 1e7)), at(0), "position before the start")
	e := s.GetEndPosition()
	same(s.GetPositionAt(s.GetEndTime()), e, "position at the end")
	same(s.GetPositionAt(s.GetEndTime()+sym.F64In("after", 0, 1e7)), e, "position after the end")
	same(s.GetStartPosition(), at(0), "start position")
	if n%2 == 1 {
		same(e, at(1), "odd spans end at the path end")
	} else {
		same(e, at(0), "even spans end at the path start")
	}
}

// A slider has its ticks span by span, a repeat point between spans and a tail.
//
//gosym:prop C11
//gosym:bound start in [-1e6,1e6], multiplier 0.4..3.6, tick rate 0.5..8, beat length 1..100000, inherited point none, -50 or not a number (thorough also -5 and -2000), 1..3 spans (thorough 4), straight path of length 250 (thorough also 30) with at most 2 ticks (thorough 4) per span
//gosym:cases kind 3 ticks 3 spans 3
//gosym:thorough-cases kind 5 ticks 5 spans 4 long 2
//gosym:merge noint
//gosym:sort net
//gosym:feas none
//gosym:symunroll 6
//gosym:perobl 12
//gosym:real
//gosym:sec 40
func SliderTicks() {
	kind := []int{0, 2, 3, 4, 5}[sym.Choose("kind", 5)]
	k := sym.Choose("ticks", 5)
	n := sym.Choose("spans", 4) + 1
	tim, beat, ratio := sliderTimings(kind)
	start := sym.F64In("start", -1e6, 1e6)
	pixels := []float64{250, 30}[sym.Choose("long", 2)]
	length := float64(sliderPath(pixels).GetLength())
	velocity := 100 * tim.SliderMult / tim.TickRate * tim.TickRate
	if kind == 2 {
		if k > 0 {
			return // no ticks at all there
		}
		velocity *= 1000 / beat
	} else {
		velocity *= 1000 / (beat * ratio)
	}
	every := 100 * tim.SliderMult / tim.TickRate / ratio
	if every > pixels {
		every = pixels
	}
	span := length * 1000 / velocity
	end := start + length*1000*float64(n)/velocity
	// distances of the ticks
	var ticks []float64
	if kind != 2 {
		d := every
		for ; len(ticks) < k; d += every {
			sym.Assume(d <= length)
			sym.Assume(!(d >= length-velocity*0.01))
			ticks = append(ticks, d)
		}
		if d <= length {
			sym.Assume(d >= length-velocity*0.01)
		}
	}
	var want []objects.TickPoint
	for i := 0; i < n; i++ {
		from := start + float64(i)*span
		for _, d := range ticks {
			p := d / length
			if i%2 == 1 {
				p = 1 - p
			}
			want = append(want, objects.TickPoint{Time: from + p*span})
		}
		if i < n-1 {
			want = append(want, objects.TickPoint{Time: from + span, IsReverse: true})
		}
	}
	want = append(want, objects.TickPoint{Time: math.Max(start+(end-start)/2, end-36)})
	inside := true
	for _, p := range want {
		inside = sym.And(inside, sym.And(p.Time >= start-1e-6, p.Time <= end+1e-3))
	}
	sym.Assert(inside, "no point before or after the slider")
	sort.Slice(want, func(i, j int) bool { return want[i].Time < want[j].Time })
	s := sliderOf(start, n, pixels)
	s.SetTiming(tim)
	got := s.ScorePoints
	sym.AssertEqI(len(got), len(want), "ticks of every span, repeats and a tail")
	if len(got) != len(want) {
		return
	}
	for i, p := range got {
		sym.AssertEqF(p.Time, want[i].Time, "time of the point")
		tie := false
		for j, w := range want {
			if j != i {
				tie = sym.Or(tie, w.Time == want[i].Time)
			}
		}
		sym.Assert(sym.Or(tie, p.IsReverse == want[i].IsReverse), "repeats are where the spans meet")
	}
	sym.Observe("points", float64(len(got)))
}
