package h

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"

	"vharness/sym"
)

var metricMods = []difficulty.Modifier{0, hr, ez | ht, dt, hr | ht}

// metricSlider is a slider at 1000 ms: long with ticks, repeating, nearly
// closed and repeating, short, of no movement.
func metricSlider(shape int, at string) *objects.Slider {
	path := []string{"L|300:150", "L|160:150", "P|150:200|99:152", "L|120:150", "L|140:150"}[shape]
	spans := []string{"1", "3", "2", "1", "4"}[shape]
	length := []string{"200", "60", "150", "3", "40"}[shape]
	o := objects.CreateObject([]string{"100", "150", at, "2", "0", path, spans, length}).(*objects.Slider)
	tim := timing.NewTimings()
	tim.SliderMult, tim.TickRate = 1.4, 2
	tim.AddPoint(0, 500, 0, 1, 1, 4, false, false, false)
	tim.FinalizePoints()
	o.SetTiming(tim)
	return o
}

// stacked gives an object some offset under every kind of mods.
func stacked(o objects.IHitObject, n string) objects.IHitObject {
	o.SetStackOffset(sym.F32In(n+".stack", -30, 0), 0)
	o.SetStackOffset(sym.F32In(n+".stack.ez", -30, 0), ez)
	o.SetStackOffset(sym.F32In(n+".stack.hr", -30, 0), hr)
	return o
}

func within(got, want float64, l string) {
	sym.AssertEqF32(float32(got)+10000, float32(want)+10000, l)
}

func pick(c bool, a, b vec) vec {
	return vec{X: sym.IteF32(c, a.X, b.X), Y: sym.IteF32(c, a.Y, b.Y)}
}

// lazyRef follows a slider with a cursor that moves no more than it has to.
func lazyRef(s *objects.Slider, d *difficulty.Difficulty) (end vec, travel float32, time float64) {
	scale := 50 / d.CircleRadius
	p := s.ScorePoints
	n := len(p)
	time = p[n-1].Time - s.GetStartTime()
	lazyEnd := s.GetStackedPositionAtMod(p[n-1].Time, d.Mods)
	cursor := s.GetStackedStartPositionMod(d.Mods)
	for i := range p {
		need := 90.0
		var move vec
		if i == n-1 {
			move = s.GetStackedEndPositionMod(d.Mods).Sub(cursor)
			lazy := lazyEnd.Sub(cursor)
			move = pick(lazy.Len() < move.Len(), lazy, move)
		} else {
			move = s.GetStackedPositionAtMod(p[i].Time, d.Mods).Sub(cursor)
			if p[i].IsReverse {
				need = 50
			}
		}
		far := scale * float64(move.Len())
		part := (far - need) / far
		cursor = pick(far > need, cursor.Add(move.Scl(float32(part))), cursor)
		travel = sym.IteF32(far > need, travel+float32(far*part), travel)
	}
	return cursor, travel * float32(math.Pow(1+float64(s.RepeatCount-1)/2.5, 0.4)), time
}

// The lazy end, travel distance and travel time of a slider.
//
//gosym:prop C32
//gosym:bound 5 concrete sliders (ticks, repeats, nearly closed, short), any circle size, 5 mod sets, any stack offsets
//gosym:cases shape 5 mods 5
//gosym:real
//gosym:feas lite
//gosym:perobl 10
func LazySliders() {
	s := metricSlider(sym.Choose("shape", 5), "1000")
	stacked(s, "slider")
	d := difficulty.NewDifficulty(5, sym.F64In("cs", 0, 10), 5, 5)
	d.SetMods(metricMods[sym.Choose("mods", 5)])
	sym.FrameBegin("a slider and its difficulty are left alone", s, d)
	l := preprocessing.NewLazySlider(s, d)
	sym.FrameEnd()
	end, travel, time := lazyRef(s, d)
	within(float64(l.LazyEndPosition.X), float64(end.X), "lazy end: x")
	within(float64(l.LazyEndPosition.Y), float64(end.Y), "lazy end: y")
	within(float64(l.LazyTravelDistance), float64(travel), "lazy travel distance")
	sym.AssertEqF(l.LazyTravelTime, time, "lazy travel time")
	sym.Observe("travel", float64(l.LazyTravelDistance))
}

// Metrics of an object after two others.
//
//gosym:prop C32
//gosym:bound 2 or 3 objects of any kinds in any order of time: circles anywhere on the playfield at any time, a concrete slider per mod set (thorough 4), spinners; any circle size, 5 mod sets, any stack offsets
//gosym:cases third 4 second 3 first 3
//gosym:real
//gosym:feas lite
//gosym:merge all
//gosym:perobl 8
func ObjectMetrics() {
	d := difficulty.NewDifficulty(5, sym.F64In("cs", 0, 10), 5, 5)
	mods := sym.Choose("mods", 5)
	d.SetMods(metricMods[mods])
	kinds := []int{sym.Choose("third", 4) - 1, sym.Choose("second", 3), sym.Choose("first", 3)}
	var list []objects.IHitObject
	shape := -1
	for i, k := range kinds {
		n := objNames[i]
		at := sym.FloatText(sym.F64In(n+".time", -1e6, 1e6))
		switch k {
		case 0:
			o := objects.CreateObject([]string{sym.Float32Text(sym.F32In(n+".x", 0, 512)), sym.Float32Text(sym.F32In(n+".y", 0, 384)), at, "1", "0"})
			list = append(list, stacked(o, n))
		case 1:
			if shape < 0 {
				shape = mods % 4
				if sym.Thorough() {
					shape = sym.Choose("shape", 4)
				}
			}
			list = append(list, stacked(metricSlider(shape, "1000"), n))
		case 2:
			list = append(list, objects.CreateObject([]string{"256", "192", at, "8", "0", sym.FloatText(sym.F64In(n+".end", 1e6, 2e6))}))
		}
	}
	sym.FrameBegin("the objects are left alone", list, d)
	got := preprocessing.CreateDifficultyObjects(list, d)
	sym.FrameEnd()
	sym.AssertEqI(len(got), len(list)-1, "one entry per object but the first")
	if len(got) != len(list)-1 {
		return
	}
	// what the objects are to the cursor
	start, end, tail := make([]vec, 3), make([]vec, 3), make([]vec, 3)
	travel, time := make([]float64, 3), make([]float64, 3)
	slider, spinner := make([]bool, 3), make([]bool, 3)
	for i, o := range list {
		_, spinner[i] = o.(*objects.Spinner)
		start[i] = o.GetStackedStartPositionMod(d.Mods)
		end[i], tail[i] = start[i], o.GetStackedEndPositionMod(d.Mods)
		if s, ok := o.(*objects.Slider); ok {
			l := preprocessing.NewLazySlider(s, d)
			slider[i] = true
			end[i], travel[i], time[i] = l.LazyEndPosition, float64(l.LazyTravelDistance), l.LazyTravelTime
		}
	}
	radius := float32(d.CircleRadius)
	scale := 50 / radius
	scale = sym.IteF32(d.CircleRadius < 30, scale*(1+sym.IteF32(30-radius < 5, 30-radius, 5)/50), scale)
	for i := 1; i < len(list); i++ {
		o := got[i-1]
		speed := d.Speed
		delta := (list[i].GetStartTime() - list[i-1].GetStartTime()) / speed
		strain := math.Max(delta, 25)
		sym.Assert(o.BaseObject.GetStartTime() == list[i].GetStartTime(), "entries follow the objects")
		sym.AssertEqF(o.DeltaTime, delta, "delta time")
		sym.AssertEqF(o.StrainTime, strain, "strain time")
		sym.AssertEqF(o.StartTime, list[i].GetStartTime()/speed, "start time")
		sym.AssertEqF(o.EndTime, list[i].GetEndTime()/speed, "end time")
		if spinner[i] || spinner[i-1] {
			for _, v := range []float64{o.JumpDistance, o.MovementDistance, o.MovementTime, o.TravelDistance, o.TravelTime} {
				sym.Assert(v == 0, "no distances next to a spinner")
			}
			sym.Assert(o.Angle != o.Angle, "no angle next to a spinner")
			continue
		}
		jump := float64(start[i].Scl(scale).Dst(end[i-1].Scl(scale)))
		within(o.JumpDistance, jump, "jump distance")
		if slider[i-1] {
			within(o.TravelDistance, travel[i-1], "travel distance of the slider before")
			tt := math.Max(time[i-1]/speed, 25)
			sym.AssertEqF(o.TravelTime, tt, "travel time of the slider before")
			sym.AssertEqF(o.MovementTime, math.Max(strain-tt, 25), "movement time after a slider")
			fromTail := tail[i-1].Dst(start[i])*scale - 120
			within(o.MovementDistance, math.Max(0, math.Min(jump-30, float64(fromTail))), "movement distance after a slider")
		} else {
			sym.AssertEqF(o.MovementTime, strain, "movement time after a circle")
			within(o.MovementDistance, jump, "movement distance after a circle")
			sym.Assert(sym.And(o.TravelDistance == 0, o.TravelTime == 0), "no travel after a circle")
		}
		if i == 1 || spinner[i-2] {
			sym.Assert(o.Angle != o.Angle, "no angle without two objects before")
			continue
		}
		v, w := end[i-2].Sub(start[i-1]), start[i].Sub(end[i-1])
		angle := math.Abs(float64(float32(math.Atan2(float64(v.X*w.Y-v.Y*w.X), float64(v.X*w.X+v.Y*w.Y)))))
		sym.Assert(sym.And(o.Angle >= 0, o.Angle <= 3.15), "angles are between 0 and pi")
		within(o.Angle, angle, "angle at the object before")
	}
}
