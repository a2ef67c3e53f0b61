package h

import (
	"math"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/performance/osu"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"

	"vharness/sym"
)

// Combos of a long map.
//
//gosym:prop C05
//gosym:bound 14 objects in 3 patterns of kinds with every combination of flag bits
//gosym:cases pattern 3
//gosym:merge all
//gosym:feas none
func LongCombos() {
	kinds := []string{"00000000000000", "01020022102001", "00012000000002"}[sym.Choose("pattern", 3)]
	text := head + meta + diffs + points + "[HitObjects]\n"
	typs := []int{}
	for i := range kinds {
		k := int(kinds[i] - '0')
		typ := sym.Int(manyNames[i]+".flags", 0, 127)&(4|16|32|64) | []int{1, 2, 8}[k]
		typs = append(typs, typ)
		text += objectLine(i, k, sym.IntText(1000*i), sym.IntText(typ), 1000*i+500)
	}
	m := parse(text)
	sym.AssertEqI(len(m.HitObjects), len(kinds), "every line is an object")
	num, set, hax := 1, 0, 0
	force := false
	for i, o := range m.HitObjects {
		nc := typs[i]&4 != 0
		start := sym.Or(nc, force)
		force = false
		if kinds[i] == '2' {
			start, force = false, true
		}
		set = sym.IteI(start, set+1, set)
		hax = sym.IteI(start, hax+1+(typs[i]>>4)&7, hax)
		num = sym.IteI(start, 1, num)
		sym.AssertEqI(comboNumber(o), num, "combo number counts from the start of the combo")
		sym.AssertEqI(o.GetComboSet(), set, "combo set counts the combos")
		sym.AssertEqI(o.GetComboSetHax(), hax, "skipped colours are added")
		num++
	}
}

// A slider of many spans.
//
//gosym:prop C11
//gosym:bound a straight slider of 21, 64 or 101 spans with 0..2 ticks each, any start in 500..501
//gosym:cases spans 3 ticks 3
//gosym:merge none
//gosym:feas lite
//gosym:unroll 2000
func LongSlider() {
	n := []int{21, 64, 101}[sym.Choose("spans", 3)]
	ticks := sym.Choose("ticks", 3)
	start := sym.F64In("start", 500, 501)
	tim := timing.NewTimings()
	tim.SliderMult = 1
	tim.TickRate = []float64{1, 1.25, 2}[ticks] // a tick every 100, 80 or 50 px
	tim.AddPoint(-1e9, 500, 0, 1, 1, 4, false, false, false)
	tim.FinalizePoints()
	s := sliderOf(start, n, 145)
	if ticks == 0 {
		s = sliderOf(start, n, 80)
	}
	length := []float64{80, 145, 145}[ticks]
	every := []float64{100, 80, 50}[ticks]
	s.SetTiming(tim)
	span := length * 5
	within := func(got, at float64, l string) {
		sym.Assert(got > at-1e-3 && got < at+1.001, l)
	}
	within(s.GetEndTime(), 500+span*float64(n), "lasts its spans")
	want := 0
	for i := 0; i < n; i++ {
		from := 500 + float64(i)*span
		expect := func(at float64, repeat bool) {
			if want < len(s.ScorePoints) {
				p := s.ScorePoints[want]
				within(p.Time, at, "time of the point")
				sym.Assert(p.IsReverse == repeat, "repeats are where the spans meet")
			}
			want++
		}
		var d []float64
		for x := every; x < length-2; x += every {
			d = append(d, x)
		}
		for k := range d {
			x := d[k]
			if i%2 == 1 {
				x = length - d[len(d)-1-k]
			}
			expect(from+x*5, false)
		}
		if i < n-1 {
			expect(from+span, true)
		} else {
			expect(from+span-36, false)
		}
	}
	sym.AssertEqI(len(s.ScorePoints), want, "ticks of every span, repeats and a tail")
}

var stackLayouts = []string{
	"a a a a a a a a a a", // circles on one place
	"a a b a b b a a b a", // two places in turn
	"s e e e e e e e e e", // circles at the end of a slider
	"a a a s a a e e e e", // a slider within a stack
	"s s s s s s e e e e", // sliders from one place
	"a a n a a a n n a a", // spinners between
	"a a a a - a a a a a", // a pause
	"a c a c a c a c a c", // neighbouring places
	"s t s t s t a e a e", // sliders forth and back
	"e t a s e a t e s a",
}

// Stacks of many objects.
//
//gosym:prop C14
//gosym:bound 10 objects in 10 layouts, any stack leniency in 0..2, gaps of 150 ms and a pause, versions 5 and 14
//gosym:cases version 2 layout 10
//gosym:merge none
//gosym:feas lite
//gosym:states 8000000
func LongStacks() {
	v := []string{"5", "14"}[sym.Choose("version", 2)]
	l := sym.F64In("leniency", 0, 2)
	text := "osu file format v" + v + "\n\n[General]\nStackLeniency:" + sym.FloatText(l) + "\n" + meta +
		"[Difficulty]\nSliderMultiplier:1.4\nSliderTickRate:1\nApproachRate:8\n\n" + points + "[HitObjects]\n"
	t := 1000.0
	for _, k := range strings.Split(stackLayouts[sym.Choose("layout", 10)], " ") {
		at := ",80," + sym.FloatText(t)
		switch k {
		case "a":
			text += "100" + at + ",1,0\n"
		case "b":
			text += "300" + at + ",1,0\n"
		case "c":
			text += "102" + at + ",1,0\n"
		case "e":
			text += "128" + at + ",1,0\n"
		case "s": // 100 ms from 100 to 128
			text += "100" + at + ",2,0,L|200:80,1,28\n"
		case "t":
			text += "128" + at + ",2,0,L|100:80,1,28\n"
		case "n":
			text += "256" + at + ",8,0," + sym.FloatText(t+100) + "\n"
		case "-":
			t += 3000
			continue
		}
		t += 150
	}
	list := parse(text).HitObjects
	checkStacks(list, 8, l, v == "5")
}

var longGaps = [][]float64{
	{100, 100, 200, 100, 100, 100, 400, 200, 200, 50, 50, 100},
	{75, 75, 75, 75, 75, 75, 75, 75, 75, 300, 150, 150},
	{500, 250, 250, 125, 125, 125, 125, 2000, 1000, 333, 333, 334},
}

// longText is a map of n objects with known places, but the object at any is
// a circle at any place.
func longText(n, pattern, any int) string {
	text := head + "[General]\nStackLeniency:0\n" + meta + diffs + points + "[HitObjects]\n"
	t := 350.0
	for i := 0; i < n; i++ {
		x, y := sym.FloatText(float64(50+(i*137)%400)), sym.FloatText(float64(40+(i*89)%300))
		if i == any {
			x, y = sym.Float32Text(sym.F32In("x", 0, 512)), sym.Float32Text(sym.F32In("y", 0, 384))
		}
		at := x + "," + y + "," + sym.FloatText(t)
		switch {
		case i%7 == 3 && i != any:
			text += at + ",2,0,L|250:190,1,60\n"
		case i%19 == 17 && i != any:
			text += at + ",8,0," + sym.FloatText(t+40) + "\n"
		default:
			text += at + ",1,0\n"
		}
		t += longGaps[pattern][i%12]
	}
	return text
}

// Every entry of a long step calculation is the rating of the prefix.
//
//gosym:prop C21
//gosym:bound 45 objects of 3 rhythms of which the last is a circle anywhere on the playfield, 3 mod sets
//gosym:cases mods 3 pattern 3
//gosym:merge all
//gosym:feas none
//gosym:sort net
//gosym:states 80000000
func LongSteps() {
	list := parse(longText(45, sym.Choose("pattern", 3), 44)).HitObjects
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.Modifier([]int{0, fl | dt, hr}[sym.Choose("mods", 3)]))
	steps := osu.CalculateStep(list, d)
	sym.AssertEqI(len(steps), len(list), "one entry per object")
	withPeaks, p := osu.CalculateStepWithPeaks(list, d)
	for i := 1; i < len(list); i++ {
		if i%5 == 4 || i > 39 {
			a, q := osu.CalculateSingleWithPeaks(list[:i+1], d)
			sameAttributes(steps[i], a, "entry is the rating of its prefix")
			sameAttributes(withPeaks[i], a, "entry with peaks is the rating of its prefix")
			if i == len(list)-1 {
				samePeaks(p, q, "step")
				samePeaks(osu.CalculateStrainPeaks(list, d), q, "single")
			}
		}
	}
}

// Only as many objects as a skill looks at count, all of them.
//
//gosym:prop C35
//gosym:bound 45 objects of 3 rhythms and one of any strain time (25..1000 ms) among the last 33, any overall difficulty
//gosym:cases pattern 3 at 4
//gosym:merge all
//gosym:feas lite
func LongRhythm() {
	d := difficulty.NewDifficulty(5, 4, sym.F64In("od", 0, 10), 9)
	s := skills.NewSpeedSkill(d)
	list := preprocessing.CreateDifficultyObjects(parse(longText(46, sym.Choose("pattern", 3), 45)).HitObjects, d)
	at := len(list) - 3 - 9*sym.Choose("at", 4)
	list[at].StrainTime = sym.F64In("strain time", 25, 1000)
	var rhythm float64
	bonus := s.StrainBonusOf
	s.StrainBonusOf = func(o *diffObject) float64 {
		rhythm = bonus(o)
		return rhythm
	}
	s.StrainValueOf = func(*diffObject) float64 { return 1 }
	for i, o := range list {
		s.Process(o)
		if _, spin := o.BaseObject.(*objects.Spinner); spin {
			sym.Assert(rhythm == 0, "no bonus on a spinner")
			continue
		}
		if i < len(list)-5 && i != at {
			continue
		}
		from := i - 32
		if from < 0 {
			from = 0
		}
		var slider []bool
		for _, o := range list[from:i] {
			_, is := o.BaseObject.(*preprocessing.LazySlider)
			slider = append(slider, is)
		}
		sym.AssertEqF(rhythm, rhythmRef(list[from:i], slider, o.StartTime, d.Hit300/d.Speed), "rhythm bonus")
	}
}

// Strain adds up and peaks over a long map, with the history each skill needs.
//
//gosym:prop C36
//gosym:bound 45 objects of 3 rhythms, 3 skills, any strain of one of 4 objects
//gosym:cases skill 3 pattern 3
//gosym:merge all
//gosym:feas lite
func LongStrain() {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	list := preprocessing.CreateDifficultyObjects(parse(longText(45, sym.Choose("pattern", 3), 99)).HitObjects, d)
	var s *skills.Skill
	multiplier, decay, history := 0.0, 0.0, 0
	switch sym.Choose("skill", 3) {
	case 0:
		s, multiplier, decay, history = skills.NewAimSkill(d, true).Skill, 23.25, 0.15, 2
	case 1:
		x := skills.NewSpeedSkill(d)
		x.CurrentRhythm = 1
		x.StrainBonusOf = nil
		s, multiplier, decay, history = x.Skill, 1375, 0.3, 32
	case 2:
		s, multiplier, decay, history = skills.NewFlashlightSkill(d).Skill, 0.15, 0.15, 10
	}
	value := make([]float64, len(list))
	for i := range value {
		value[i] = float64(1 + (i*7)%11)
	}
	value[[]int{0, 15, 33, 43}[sym.Choose("at", 4)]] = sym.F64In("value", 0, 1000)
	i := 0
	s.StrainValueOf = func(*diffObject) float64 { return value[i] }
	var want []float64
	strain, peak, end := 0.0, 0.0, math.Ceil(list[0].StartTime/400)*400
	for i = range list {
		o := list[i]
		for i > 0 && o.StartTime > end {
			want = append(want, peak)
			peak = strain * math.Pow(decay, (end-list[i-1].StartTime)/1000)
			end += 400
		}
		strain = strain*math.Pow(decay, o.DeltaTime/1000) + value[i]*multiplier
		peak = math.Max(strain, peak)
		s.Process(o)
		n := len(s.Previous)
		sym.Assert(n <= history+1, "no more history than needed")
		sym.Assert(n > i || n > history, "as much history as needed")
		for k := 0; k < n; k++ {
			sym.Assert(s.GetPrevious(k) == list[i-k], "the newest objects are the previous ones")
		}
	}
	want = append(want, peak)
	got := s.GetCurrentStrainPeaks()
	sym.AssertEqI(len(got), len(want), "one peak per section")
	for k := range got {
		if k < len(want) {
			sym.AssertEqF(got[k], want[k], "a peak is the largest strain of its section")
		}
	}
}

// The position on a slider of many spans.
//
//gosym:prop C10
//gosym:bound a straight slider of 21, 64 or 101 spans of 525 ms from 500 ms on, any query time
//gosym:cases spans 3
//gosym:merge all
//gosym:feas none
//gosym:unroll 2000
func LongPosition() {
	n := []int{21, 64, 101}[sym.Choose("spans", 3)]
	tim := timing.NewTimings()
	tim.SliderMult = 1
	tim.TickRate = 1
	tim.AddPoint(-1e9, 500, 0, 1, 1, 4, false, false, false)
	tim.FinalizePoints()
	s := sliderOf(500, n, 105)
	s.SetTiming(tim)
	path := sliderPath(105)
	length := float64(path.GetLength())
	end := 500 + length*1000*float64(n)/200
	sym.AssertEqF(s.GetEndTime(), end, "lasts its spans")
	q := sym.F64In("query", -2e7, 2e7)
	t := sym.IteF(q < 500, 500, sym.IteF(q > end, end, q))
	p := math.Mod((t-500)/(length*1000/200), 2)
	p = sym.IteF(p >= 1, 2-p, p)
	sym.AssertEqF32(s.GetPositionAt(q).X, path.PointAt(float32(p)).X, "position at a time")
	for i := 0; i <= n; i++ {
		at := 500 + float64(i)*length*5
		x := float32(100)
		if i%2 == 1 {
			x = 205
		}
		sym.Assert(math.Abs(float64(s.GetPositionAt(at).X-x)) < 0.1, "spans meet at the ends of the path")
	}
}
