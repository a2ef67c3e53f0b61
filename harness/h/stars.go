package h

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"

	"vharness/sym"
)

var objNames = []string{"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7"}

// starList is a list of n objects of any kinds: circles anywhere on the
// playfield, a slider with a repeat and ticks, a spinner. The gaps between
// objects follow a pattern.
func starList(n, pattern int) []objects.IHitObject {
	return parse(starText(n, pattern)).HitObjects
}

func starText(n, pattern int) string {
	gaps := [][]float64{
		{150, 150, 150, 150, 150, 150, 150},
		{90, 300, 75, 410, 100, 100, 30},
		{1300, 60, 0, 900, 20, 400, 400},
		{60, 60, 61, 200, 60, 60, 120},
		{100, 100, 2100, 100, 50, 50, 50},
		{500, 450, 700, 100, 50, 50, 50},
		{900, 2500, 900, 900, 900, 900, 900},
	}[pattern]
	t := []float64{401, 400, 17, -900, 300, 100, 100}[pattern]
	text := head + "[General]\nStackLeniency:0\n" + meta + diffs + points + "[HitObjects]\n"
	for i := 0; i < n; i++ {
		x, y := "100", "80"
		k := sym.Choose(objNames[i]+".kind", 3)
		if k == 0 {
			x, y = sym.Float32Text(sym.F32In(objNames[i]+".x", 0, 512)), sym.Float32Text(sym.F32In(objNames[i]+".y", 0, 384))
		}
		line := x + "," + y + "," + sym.FloatText(t)
		switch k {
		case 0:
			line += ",1,0"
		case 1:
			line += ",2,0,L|200:80,2,150"
		case 2:
			line += ",8,0," + sym.FloatText(t+50)
		}
		text += line + "\n"
		t += gaps[i]
	}
	return text
}

var starMods = []int{0, hr, ez, dt, ht, fl, rx, fl | hr | dt, fl | ez | ht, hr | nc | dt | rx}

func starDiff(m int) *difficulty.Difficulty {
	d := difficulty.NewDifficulty(5, sym.F64In("cs", 0, 10), sym.F64In("od", 0, 10), 9)
	d.SetMods(difficulty.Modifier(m))
	return d
}

func sameAttributes(a, b osu.Attributes, l string) {
	sym.AssertEqF(a.Total, b.Total, l+": total")
	sym.AssertEqF(a.Aim, b.Aim, l+": aim")
	sym.AssertEqF(a.SliderFactor, b.SliderFactor, l+": slider factor")
	sym.AssertEqF(a.Speed, b.Speed, l+": speed")
	sym.AssertEqF(a.Flashlight, b.Flashlight, l+": flashlight")
	sym.AssertEqI(a.ObjectCount, b.ObjectCount, l+": objects")
	sym.AssertEqI(a.Circles, b.Circles, l+": circles")
	sym.AssertEqI(a.Sliders, b.Sliders, l+": sliders")
	sym.AssertEqI(a.Spinners, b.Spinners, l+": spinners")
	sym.AssertEqI(a.MaxCombo, b.MaxCombo, l+": combo")
}

// Every entry of the step calculation is the rating of the prefix.
//
//gosym:prop C21
//gosym:bound 4 objects of any kinds, circles anywhere on the playfield, 4 gap patterns, 10 mod sets, any circle size and overall difficulty
//gosym:cases mods 10 pattern 4
//gosym:merge all
//gosym:feas none
//gosym:sort net
//gosym:states 4000000
func StepIsPrefix() {
	list := starList(4, sym.Choose("pattern", 4))
	d := starDiff(starMods[sym.Choose("mods", 10)])
	steps := osu.CalculateStep(list, d)
	sym.AssertEqI(len(steps), len(list), "one entry per object")
	for i := 1; i < len(list); i++ {
		sameAttributes(steps[i], osu.CalculateSingle(list[:i+1], d), "entry is the rating of its prefix")
	}
	sym.Observe("stars", steps[len(steps)-1].Total)
}

// No calculation crashes, and the counts are those of the list.
//
//gosym:prop C24
//gosym:bound 0..4 objects of any kinds, circles anywhere on the playfield, 4 gap patterns, 10 mod sets, any circle size and overall difficulty
//gosym:cases mods 10 n 5
//gosym:merge all
//gosym:feas none
//gosym:sort net
//gosym:states 4000000
func StarTotality() {
	n := sym.Choose("n", 5)
	list := starList(n, sym.Choose("pattern", 4))
	d := starDiff(starMods[sym.Choose("mods", 10)])
	var want osu.Attributes
	combos := []int{}
	for _, o := range list {
		switch s := o.(type) {
		case *objects.Circle:
			want.Circles++
		case *objects.Slider:
			want.Sliders++
			want.MaxCombo += len(s.ScorePoints)
		case *objects.Spinner:
			want.Spinners++
		}
		want.ObjectCount++
		want.MaxCombo++
		combos = append(combos, want.MaxCombo)
	}
	sym.AssertEqI(want.ObjectCount, n, "one object per line")
	counts := func(a osu.Attributes, l string) {
		sym.AssertEqI(a.ObjectCount, want.ObjectCount, l+": objects")
		sym.AssertEqI(a.Circles, want.Circles, l+": circles")
		sym.AssertEqI(a.Sliders, want.Sliders, l+": sliders")
		sym.AssertEqI(a.Spinners, want.Spinners, l+": spinners")
		sym.AssertEqI(a.MaxCombo, want.MaxCombo, l+": combo")
	}
	a := osu.CalculateSingle(list, d)
	counts(a, "single")
	if n == 0 {
		sym.Assert(a == osu.Attributes{}, "no objects have zero attributes")
	}
	b, _ := osu.CalculateSingleWithPeaks(list, d)
	counts(b, "single with peaks")
	steps := osu.CalculateStep(list, d)
	sym.AssertEqI(len(steps), n, "one step per object")
	for i, s := range steps {
		sym.AssertEqI(s.ObjectCount, i+1, "objects so far")
		sym.AssertEqI(s.Circles+s.Sliders+s.Spinners, i+1, "kinds so far")
		sym.AssertEqI(s.MaxCombo, combos[i], "combo so far")
	}
	if n > 0 {
		counts(steps[n-1], "last step")
	}
	_, p := osu.CalculateStepWithPeaks(list, d)
	q := osu.CalculateStrainPeaks(list, d)
	sym.AssertEqI(len(p.Aim), len(q.Aim), "as many peaks from either calculation")
}

// Calculations with peaks return the same attributes.
//
//gosym:prop C21
//gosym:bound 4 objects of any kinds, circles anywhere on the playfield, 4 gap patterns, 10 mod sets, any circle size and overall difficulty
//gosym:cases mods 10 pattern 4
//gosym:merge all
//gosym:feas none
//gosym:sort net
//gosym:states 4000000
func PeakVariants() {
	list := starList(4, sym.Choose("pattern", 4))
	d := starDiff(starMods[sym.Choose("mods", 10)])
	single := osu.CalculateSingle(list, d)
	a, _ := osu.CalculateSingleWithPeaks(list, d)
	sameAttributes(a, single, "single with peaks")
	steps := osu.CalculateStep(list, d)
	b, _ := osu.CalculateStepWithPeaks(list, d)
	sym.AssertEqI(len(b), len(steps), "as many steps with peaks")
	for i := range b {
		sameAttributes(b[i], steps[i], "step with peaks")
	}
	sameAttributes(steps[len(steps)-1], single, "last step is the whole rating")
}

func samePeaks(a, b osu.StrainPeaks, l string) {
	same := func(x, y []float64, k string) {
		sym.AssertEqI(len(x), len(y), l+": number of "+k)
		for i := range x {
			if i < len(y) {
				sym.AssertEqF(x[i], y[i], l+": "+k)
			}
		}
	}
	same(a.Aim, b.Aim, "aim peaks")
	same(a.Speed, b.Speed, "speed peaks")
	same(a.Flashlight, b.Flashlight, "flashlight peaks")
	same(a.Total, b.Total, "total peaks")
}

// Peaks agree between the entry points, one per section.
//
//gosym:prop C22
//gosym:bound 1..4 objects of any kinds, circles anywhere on the playfield, 4 gap patterns, 10 mod sets, any circle size and overall difficulty
//gosym:cases mods 10 pattern 4
//gosym:merge all
//gosym:feas none
//gosym:sort net
//gosym:states 4000000
func PeakSections() {
	n := sym.Choose("n", 2)*3 + 1
	list := starList(n, sym.Choose("pattern", 4))
	m := starMods[sym.Choose("mods", 10)]
	d := starDiff(m)
	p := osu.CalculateStrainPeaks(list, d)
	_, q := osu.CalculateSingleWithPeaks(list, d)
	samePeaks(p, q, "single")
	_, q = osu.CalculateStepWithPeaks(list, d)
	samePeaks(p, q, "step")
	want := 1
	for i := 1; i < len(list); i++ {
		if i > 1 {
			want += section(list[i], d) - section(list[i-1], d)
		}
	}
	sym.AssertEqI(len(p.Aim), want, "one aim peak per section")
	sym.AssertEqI(len(p.Speed), want, "one speed peak per section")
	sym.AssertEqI(len(p.Total), want, "one total peak per section")
	if m&fl != 0 {
		sym.AssertEqI(len(p.Flashlight), want, "one flashlight peak per section")
	} else {
		sym.AssertEqI(len(p.Flashlight), 0, "no flashlight peaks without the mod")
	}
	for i, t := range p.Total {
		f := 0.0
		if m&fl != 0 {
			f = p.Flashlight[i]
		}
		s := p.Speed[i]
		if m&rx != 0 {
			s = 0
		}
		sym.AssertEqF(t, starFormula(p.Aim[i], s, f, m&fl != 0), "total peak is the rating of the other peaks")
	}
}

// Sections are 400 ms long after the speed change, whatever the times.
//
//gosym:prop C22
//gosym:bound 3 circles starting at 6 times with any of 14 gaps, on and around section borders, 4 clock rates
//gosym:cases mods 4 start 6
//gosym:merge all
//gosym:feas none
//gosym:sort net
//gosym:states 4000000
func SectionBorders() {
	t := []int{-700, 0, 1, 100, 200, 300}[sym.Choose("start", 6)]
	m := []int{0, dt, ht, fl | nc | dt}[sym.Choose("mods", 4)]
	text := head + meta + diffs + points + "[HitObjects]\n"
	for i := 0; i < 3; i++ {
		text += "100,100," + sym.FloatText(float64(t)) + ",1,0\n"
		if i == 2 {
			break
		}
		t += []int{0, 1, 99, 100, 199, 200, 300, 399, 400, 401, 500, 600, 800, 1201}[sym.Choose(objNames[i]+".gap", 14)]
	}
	list := parse(text).HitObjects
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.Modifier(m))
	want := 1 + section(list[2], d) - section(list[1], d)
	p := osu.CalculateStrainPeaks(list, d)
	_, q := osu.CalculateSingleWithPeaks(list, d)
	_, r := osu.CalculateStepWithPeaks(list, d)
	for _, x := range []osu.StrainPeaks{p, q, r} {
		sym.AssertEqI(len(x.Aim), want, "one aim peak per section")
		sym.AssertEqI(len(x.Speed), want, "one speed peak per section")
		sym.AssertEqI(len(x.Total), want, "one total peak per section")
		if m&fl != 0 {
			sym.AssertEqI(len(x.Flashlight), want, "one flashlight peak per section")
		}
	}
}

// section is the number of the 400 ms section an object starts in; a start at
// a boundary belongs to the earlier one.
func section(o objects.IHitObject, d *difficulty.Difficulty) int {
	return int(math.Ceil(o.GetStartTime() / d.Speed / 400))
}

func ppBaseRef(rating float64) float64 {
	return math.Pow(5*math.Max(1, rating/0.0675)-4, 3) / 100000
}

func starFormula(aim, speed, flash float64, withFlash bool) float64 {
	a := ppBaseRef(math.Sqrt(aim) * 0.0675)
	s := ppBaseRef(math.Sqrt(speed) * 0.0675)
	f := 0.0
	if withFlash {
		f = math.Pow(math.Sqrt(flash)*0.0675, 2) * 25
	}
	base := math.Pow(math.Pow(a, 1.1)+math.Pow(s, 1.1)+math.Pow(f, 1.1), 1/1.1)
	return sym.IteF(base > 0.00001, math.Cbrt(1.12)*0.027*(math.Cbrt(100000/math.Pow(2, 1/1.1)*base)+4), 0)
}

// Difficulty values leave the recorded peaks alone and repeat.
//
//gosym:prop C22
//gosym:bound 4 objects of any kinds, circles anywhere on the playfield, 6 gap patterns, 4 mod sets, any circle size and overall difficulty
//gosym:cases mods 4 pattern 6
//gosym:merge all
//gosym:feas none
//gosym:sort net
//gosym:states 4000000
func ValueKeepsPeaks() {
	list := starList(4, sym.Choose("pattern", 6))
	d := starDiff([]int{0, hr, fl | dt, ez | fl}[sym.Choose("mods", 4)])
	aim, speed, flash := skills.NewAimSkill(d, true), skills.NewSpeedSkill(d), skills.NewFlashlightSkill(d)
	for _, s := range []*skills.Skill{aim.Skill, speed.Skill, flash.Skill} {
		for _, o := range preprocessing.CreateDifficultyObjects(list, d) {
			s.Process(o)
		}
		taken := s.GetCurrentStrainPeaks()
		before := append([]float64{}, taken...)
		v := s.DifficultyValue()
		after := s.GetCurrentStrainPeaks()
		sym.AssertEqI(len(after), len(before), "number of peaks is kept")
		for i := range before {
			sym.AssertEqF(after[i], before[i], "peaks keep their values and order")
			sym.AssertEqF(taken[i], before[i], "peaks taken earlier are left alone")
		}
		for i := range after {
			after[i] = -1
		}
		for i, v := range s.GetCurrentStrainPeaks() {
			sym.AssertEqF(v, before[i], "returned peaks are a copy")
		}
		sym.AssertEqF(s.DifficultyValue(), v, "difficulty value repeats")
	}
}

// Calculations change nothing and repeat, whatever ran in between.
//
//gosym:prop C23
//gosym:bound 4 objects of any kinds, circles anywhere on the playfield, 4 gap patterns, 10 mod sets interleaved with 2 others, any circle size and overall difficulty
//gosym:cases mods 10 pattern 4
//gosym:merge all
//gosym:feas none
//gosym:sort net
//gosym:states 4000000
func StarPurity() {
	text := starText(4, sym.Choose("pattern", 4))
	list := parse(text).HitObjects
	m := starMods[sym.Choose("mods", 10)]
	d := starDiff(m)
	e := difficulty.NewDifficulty(5, 4, 8, 9)
	e.SetMods(difficulty.Modifier([]int{hr | dt | fl, ez | ht}[sym.Choose("other", 2)]))
	sym.FrameBegin("calculations change neither objects nor difficulty", list, d, e)
	a := osu.CalculateSingle(list, d)
	steps := osu.CalculateStep(list, d)
	peaks := osu.CalculateStrainPeaks(list, d)
	between, betweenPeaks := osu.CalculateSingleWithPeaks(list, e)
	osu.CalculateStepWithPeaks(list, e)
	osu.CalculateStrainPeaks(list, e)
	b := osu.CalculateSingle(list, d)
	steps2 := osu.CalculateStep(list, d)
	peaks2 := osu.CalculateStrainPeaks(list, d)
	sym.FrameEnd()
	sameAttributes(b, a, "repeated single")
	sym.AssertEqI(len(steps2), len(steps), "as many repeated steps")
	for i := range steps {
		sameAttributes(steps2[i], steps[i], "repeated step")
	}
	samePeaks(peaks2, peaks, "repeated")
	// the calculation in between is that of untouched objects
	alone, alonePeaks := osu.CalculateSingleWithPeaks(parse(text).HitObjects, e)
	sameAttributes(between, alone, "after other mods")
	samePeaks(betweenPeaks, alonePeaks, "after other mods")
}

// Only some mods matter.
//
//gosym:prop C25
//gosym:bound 4 objects of any kinds, circles anywhere on the playfield, 4 gap patterns, 10 mod sets with every combination of the other 24 mod flags, any circle size and overall difficulty
//gosym:cases mods 10 pattern 4
//gosym:merge all
//gosym:feas none
//gosym:sort net
//gosym:states 4000000
func StarModGating() {
	list := starList(4, sym.Choose("pattern", 4))
	m := starMods[sym.Choose("mods", 10)]
	d := starDiff(m)
	e := starDiff(m)
	const matter = hr | ez | dt | nc | ht | dc | fl | rx
	e.SetMods(difficulty.Modifier(m | sym.Int("others", 0, 1<<32-1)&^matter))
	sameAttributes(osu.CalculateSingle(list, e), osu.CalculateSingle(list, d), "other mods change nothing")
}

// Relax only drops the speed rating, Flashlight only adds its own.
//
//gosym:prop C25
//gosym:bound 4 objects of any kinds, circles anywhere on the playfield, 4 gap patterns, 6 mod sets, any circle size and overall difficulty
//gosym:cases mods 6 pattern 4
//gosym:merge all
//gosym:feas none
//gosym:sort net
//gosym:states 4000000
func StarRelaxFlashlight() {
	list := starList(4, sym.Choose("pattern", 4))
	m := []int{0, hr, ez, dt, ht, hr | nc | dt}[sym.Choose("mods", 6)]
	base := osu.CalculateSingle(list, starDiff(m))
	r := osu.CalculateSingle(list, starDiff(m|rx))
	f := osu.CalculateSingle(list, starDiff(m|fl))
	both := osu.CalculateSingle(list, starDiff(m|fl|rx))
	sym.AssertEqF(base.Flashlight, 0, "no flashlight rating without the mod")
	sym.AssertEqF(r.Speed, 0, "no speed rating with Relax")
	sym.AssertEqF(r.Aim, base.Aim, "Relax keeps aim")
	sym.AssertEqF(r.SliderFactor, base.SliderFactor, "Relax keeps the slider factor")
	sym.AssertEqF(r.Flashlight, 0, "Relax adds no flashlight rating")
	sym.AssertEqF(f.Aim, base.Aim, "Flashlight keeps aim")
	sym.AssertEqF(f.SliderFactor, base.SliderFactor, "Flashlight keeps the slider factor")
	sym.AssertEqF(f.Speed, base.Speed, "Flashlight keeps speed")
	sym.AssertEqF(both.Flashlight, f.Flashlight, "Relax keeps the flashlight rating")
	sym.AssertEqF(both.Speed, 0, "no speed rating with Relax and Flashlight")
	sym.AssertEqF(both.Aim, base.Aim, "Relax and Flashlight keep aim")
	total := func(a osu.Attributes, withFlash bool, l string) {
		sq := func(v float64) float64 { return v / 0.0675 * (v / 0.0675) }
		sym.AssertEqF(a.Total, starFormula(sq(a.Aim), sq(a.Speed), sq(a.Flashlight), withFlash), l)
	}
	_ = total
	sym.Observe("flashlight", f.Flashlight)
}
