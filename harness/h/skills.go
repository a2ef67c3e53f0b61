package h

import (
	"math"
	"sort"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"

	"vharness/sym"
)

type diffObject = preprocessing.DifficultyObject

const (
	aCircle = iota
	aSlider
	aSpinner
)

// strainRange limits strain times and jumps.
var strainRange = []float64{25, 10000, 1e-6, 2000}

// strainObject is an object of a kind with any metrics, at the place of the one
// before it or not.
func strainObject(n string, kind int, angle, still bool) *diffObject {
	o := &diffObject{
		StrainTime:   sym.F64In(n+".strain time", strainRange[0], strainRange[1]),
		MovementTime: sym.F64In(n+".movement time", 25, 10000),
		Angle:        math.NaN(),
	}
	if !still {
		o.JumpDistance = sym.F64In(n+".jump", strainRange[2], strainRange[3])
		o.MovementDistance = sym.F64In(n+".movement", 0, 2000)
	}
	if angle {
		o.Angle = sym.F64In(n+".angle", 0, math.Pi)
	}
	switch kind {
	case aCircle:
		o.BaseObject = objects.CreateObject([]string{"1", "2", "3", "1", "0"})
	case aSlider:
		o.BaseObject = &preprocessing.LazySlider{Slider: objects.CreateObject([]string{"1", "2", "3", "2", "0", "L|50:50", "1", "50"}).(*objects.Slider)}
	case aSpinner:
		o.BaseObject = objects.CreateObject([]string{"1", "2", "3", "8", "0", "50"})
	}
	return o
}

// afterSlider gives an object the travel of the slider before.
func afterSlider(o *diffObject, n string) {
	if sym.Choose(n+".travelled", 2) == 1 {
		o.TravelDistance = sym.F64In(n+".travel", 1e-6, 5000)
	}
	o.TravelTime = sym.F64In(n+".travel time", 25, 10000)
}

func wide(a float64) float64 {
	return math.Pow(math.Sin(3.0/4*(math.Min(5.0/6*math.Pi, math.Max(math.Pi/6, a))-math.Pi/6)), 2)
}

func sinSq(x float64) float64 { return math.Pow(math.Sin(math.Pi/2*x), 2) }

// aimRef is the aim strain of an object after p (last) and q (the one before).
func aimRef(o, p, q *diffObject, afterS, beforeS, sliders, angles bool) float64 {
	velocity := func(o *diffObject, s bool) float64 {
		v := o.JumpDistance / o.StrainTime
		if s && sliders {
			v = math.Max(v, o.MovementDistance/o.MovementTime+o.TravelDistance/o.TravelTime)
		}
		return v
	}
	now, before := velocity(o, afterS), velocity(p, beforeS)
	short, long := math.Min(o.StrainTime, p.StrainTime), math.Max(o.StrainTime, p.StrainTime)
	w, a := 0.0, 0.0
	if angles {
		same := long < 1.25*short
		base := math.Min(now, before)
		w0, wl, wll := wide(o.Angle), wide(p.Angle), wide(q.Angle)
		fast := (1 - w0) * ((1 - wl) * math.Min(base, 125/o.StrainTime) *
			sinSq(math.Min(1, (100-o.StrainTime)/25)) *
			math.Pow(math.Sin(math.Pi/2*(math.Min(100, math.Max(50, o.JumpDistance))-50)/50), 2))
		a0 := sym.IteF(o.StrainTime > 100, 0, fast)
		w = sym.IteF(same, w0*(base*(1-math.Min(w0, math.Pow(wl, 3)))), 0)
		a = sym.IteF(same, a0*(0.5+0.5*(1-math.Min(a0, math.Pow(1-wll, 3)))), 0)
	}
	x, y := (p.JumpDistance+p.TravelDistance)/p.StrainTime, (o.JumpDistance+o.TravelDistance)/o.StrainTime
	gap := math.Abs(x - y)
	ratio := math.Pow(math.Sin(math.Pi/2*gap/math.Max(x, y)), 2)
	overlap := math.Min(125/short, gap)
	apart := gap * sinSq(math.Min(1, math.Min(o.JumpDistance, p.JumpDistance)/100))
	change := sym.IteF(math.Max(before, now) != 0, math.Max(overlap, apart)*ratio*math.Pow(short/long, 2), 0)
	v := now + math.Max(a*2, w*1.5+change*0.75)
	if sliders && afterS {
		v += o.TravelDistance / o.TravelTime * 1.5
	}
	return v
}

// The aim strain of an object.
//
//gosym:prop C35
//gosym:bound any metrics (strain times 25..10000 ms, distances 0 or 1e-6..2000) of an object and the two before it, every combination of kinds, angles present or missing, with and without sliders
//gosym:cases kinds 12 sliders 2
//gosym:merge all
//gosym:feas lite
//gosym:draws 300
//gosym:noexact
func AimStrain() {
	k := sym.Choose("kinds", 12)
	still := sym.Choose("still", 4)
	sliders := sym.Choose("sliders", 2) == 1
	missing := sym.Choose("missing angle", 4)
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	aim := skills.NewAimSkill(d, sliders)
	sym.AssertEqF(aim.SkillMultiplier, 23.25, "aim multiplier")
	sym.AssertEqF(aim.StrainDecayBase, 0.15, "aim decay")
	strainRange = [][]float64{{25, 10000, 1e-6, 2000}, {25, 120, 40, 300}}[sym.Choose("fast", 2)]
	cur := strainObject("o", []int{aCircle, aSlider, aSpinner}[k%3], missing != 1, still&1 != 0)
	last, before := k/3%2, k/6%2
	p, q := strainObject("p", last, missing != 2, still&2 != 0), strainObject("q", before, missing != 3, false)
	if last == aSlider {
		afterSlider(cur, "o")
	}
	if before == aSlider {
		afterSlider(p, "p")
	}
	aim.Previous = []*diffObject{q, p}
	got := aim.StrainValueOf(cur)
	if k%3 == aSpinner {
		sym.Assert(got == 0, "no strain on a spinner")
		return
	}
	sym.AssertEqF(got, aimRef(cur, p, q, last == aSlider, before == aSlider, sliders, missing == 0), "aim strain")
	sym.Assert(got >= 0, "aim strain is a number and not negative")
	aim.Previous = []*diffObject{p}
	sym.Assert(aim.StrainValueOf(cur) == 0, "no aim strain on the second object")
	aim.Previous = []*diffObject{q, strainObject("s", aSpinner, false, true)}
	sym.Assert(aim.StrainValueOf(cur) == 0, "no aim strain after a spinner")
}

// The speed strain of an object.
//
//gosym:prop C35
//gosym:bound any metrics of an object and the one before it, any overall difficulty, 4 mod sets
//gosym:cases mods 4
//gosym:merge all
//gosym:feas lite
//gosym:draws 300
func SpeedStrain() {
	d := difficulty.NewDifficulty(5, 4, sym.F64In("od", 0, 10), 9)
	d.SetMods([]difficulty.Modifier{0, hr, dt, ez | ht}[sym.Choose("mods", 4)])
	s := skills.NewSpeedSkill(d)
	sym.AssertEqF(s.SkillMultiplier, 1375, "speed multiplier")
	sym.AssertEqF(s.StrainDecayBase, 0.3, "speed decay")
	cur := strainObject("o", sym.Choose("kind", 3), false, false)
	afterSlider(cur, "o")
	window := d.Hit300 / d.Speed * 2
	t := cur.StrainTime
	first := sym.Choose("first", 2) == 1
	if !first {
		p := strainObject("p", aCircle, false, false)
		s.Previous = []*diffObject{p}
		t = sym.IteF(sym.And(t < window, p.StrainTime > t), p.StrainTime+(t-p.StrainTime)*(t/window), t)
	}
	got := s.StrainValueOf(cur)
	if _, ok := cur.BaseObject.(*objects.Spinner); ok {
		sym.Assert(got == 0, "no strain on a spinner")
		return
	}
	t /= math.Min(1, math.Max(0.92, t/window/0.93))
	bonus := sym.IteF(t < 75, 1+0.75*math.Pow((75-t)/40, 2), 1)
	dist := math.Min(125, cur.TravelDistance+cur.JumpDistance)
	sym.AssertEqF(got, (bonus+bonus*math.Pow(dist/125, 3.5))/t, "speed strain")
	if first {
		sym.Assert(got >= 0, "speed strain is a number and not negative")
	}
}

// rhythmRef is the rhythm complexity after the given objects, oldest first;
// the newest is the current object.
func rhythmRef(o []*diffObject, slider []bool, now, window float64) float64 {
	n := len(o)
	sum, start := 0.0, 0.0
	island, prevIsland := 1, 0
	counting := false
	for k := 2; k < n; k++ {
		last, prev, cur := o[k-2].StrainTime, o[k-1].StrainTime, o[k].StrainTime
		age := math.Max(0, 5000-(now-o[k].StartTime)) / 5000
		if age == 0 {
			continue
		}
		weight := math.Min(float64(k)/float64(n), age)
		ratio := 1 + 6*math.Min(0.5, math.Pow(math.Sin(math.Pi/(math.Min(prev, cur)/math.Max(prev, cur))), 2))
		penalty := math.Min(1, math.Max(0, math.Abs(prev-cur)-window*0.6)/(window*0.6))
		ratio = math.Min(1, penalty) * ratio
		faster, slower := prev > 1.25*cur, prev*1.25 < cur
		if !counting {
			if faster {
				counting, start, island = true, ratio, 1
			}
			continue
		}
		if !faster && !slower {
			if island < 7 {
				island++
			}
			continue
		}
		if slider[k] {
			ratio *= 0.125
		}
		if slider[k-1] {
			ratio *= 0.25
		}
		if island == prevIsland {
			ratio *= 0.25
		}
		if island%2 == prevIsland%2 {
			ratio *= 0.5
		}
		if last > prev+10 && prev > cur+10 {
			ratio *= 0.125
		}
		sum += math.Sqrt(ratio*start) * weight * math.Sqrt(4+float64(island)) / 2 * math.Sqrt(4+float64(prevIsland)) / 2
		start = ratio
		prevIsland = island
		if slower {
			counting = false
		}
		island = 1
	}
	return math.Sqrt(4+sum*0.75) / 2
}

var rhythmPatterns = [][]float64{
	{200, 200, 100, 100, 100, 200, 200, 100, 100, 200},
	{300, 150, 75, 150, 300, 100, 50, 100, 50, 100},
	{100, 100, 100, 100, 100, 100, 100, 100, 100, 100},
	{333, 167, 167, 333, 111, 111, 111, 167, 83, 333},
	{25, 400, 26, 380, 52, 410, 90, 91, 4000, 30},
	{2000, 1000, 900, 500, 250, 240, 120, 60, 1500, 100},
}

// The rhythm bonus of an object.
//
//gosym:prop C35
//gosym:bound 6 rhythms of 10 objects with any three consecutive strain times replaced by any others (25..1000 ms), every fourth, third or no object a slider, any overall difficulty
//gosym:cases rhythm 6 at 4
//gosym:merge all
//gosym:feas lite
//gosym:draws 300
func RhythmBonus() {
	d := difficulty.NewDifficulty(5, 4, sym.F64In("od", 0, 10), 9)
	times := append([]float64{}, rhythmPatterns[sym.Choose("rhythm", 6)]...)
	at := sym.Choose("at", 4) * 2
	for i := 0; i < 3; i++ {
		times[at+i] = sym.F64In(objNames[i]+".strain time", 25, 1000)
	}
	every := []int{99, 4, 3}[sym.Choose("sliders", 3)]
	s := skills.NewSpeedSkill(d)
	now := 0.0
	var list []*diffObject
	var slider []bool
	for i, t := range times {
		now += t
		k := aCircle
		if i%every == every-1 {
			k = aSlider
		}
		o := &diffObject{StrainTime: t, StartTime: now}
		o.BaseObject = strainObjects[k]
		list = append(list, o)
		slider = append(slider, k == aSlider)
	}
	cur := &diffObject{StrainTime: 100, StartTime: now + 100, BaseObject: strainObjects[aCircle]}
	s.Previous = list
	got := s.StrainBonusOf(cur)
	sym.AssertEqF(got, rhythmRef(list, slider, now+100, d.Hit300/d.Speed), "rhythm bonus")
	sym.AssertEqF(s.CurrentRhythm, got, "the rhythm is kept")
	sym.Assert(got >= 1, "the bonus is at least one")
	sp := &diffObject{StrainTime: 100, StartTime: now + 100, BaseObject: strainObjects[aSpinner]}
	sym.Assert(s.StrainBonusOf(sp) == 0, "no bonus on a spinner")
	sym.Assert(s.CurrentRhythm == 0, "no rhythm on a spinner")
}

var strainObjects = []objects.IHitObject{
	objects.CreateObject([]string{"1", "2", "3", "1", "0"}),
	&preprocessing.LazySlider{Slider: objects.CreateObject([]string{"1", "2", "3", "2", "0", "L|50:50", "1", "50"}).(*objects.Slider)},
	objects.CreateObject([]string{"1", "2", "3", "8", "0", "50"}),
}

// The flashlight strain of an object.
//
//gosym:prop C35
//gosym:bound 2..5 objects of any kinds, circles anywhere on the playfield, 4 gap patterns, any circle size, 5 mod sets
//gosym:cases mods 5 pattern 4
//gosym:merge all
//gosym:feas lite
func FlashlightStrain() {
	n := 2 + sym.Choose("n", 2)*2
	list := starList(n, sym.Choose("pattern", 4))
	d := difficulty.NewDifficulty(5, sym.F64In("cs", 0, 10), 8, 9)
	d.SetMods(metricMods[sym.Choose("mods", 5)] | fl)
	s := skills.NewFlashlightSkill(d)
	sym.AssertEqF(s.SkillMultiplier, 0.15, "flashlight multiplier")
	sym.AssertEqF(s.StrainDecayBase, 0.15, "flashlight decay")
	objs := preprocessing.CreateDifficultyObjects(list, d)
	cur := objs[len(objs)-1]
	s.Previous = append(s.Previous, objs[:len(objs)-1]...)
	got := s.StrainValueOf(cur)
	if _, ok := cur.BaseObject.(*objects.Spinner); ok {
		sym.Assert(got == 0, "no strain on a spinner")
		return
	}
	scale := 52 / d.CircleRadius
	near, time, sum := 1.0, 0.0, 0.0
	for i := 0; i < len(objs)-1; i++ {
		p := objs[len(objs)-2-i]
		if _, ok := p.BaseObject.(*objects.Spinner); ok {
			continue
		}
		jump := float64(cur.BaseObject.GetStackedStartPositionMod(d.Mods).Dst(p.BaseObject.GetStackedEndPositionMod(d.Mods)))
		time += p.StrainTime
		if i == 0 {
			near = math.Min(1, jump/75)
		}
		sum += math.Pow(0.8, float64(i)) * math.Min(1, p.JumpDistance/scale/25) * scale * jump / time
	}
	sym.AssertEqF(got, math.Pow(near*sum, 2), "flashlight strain")
	sym.Assert(got >= 0, "flashlight strain is a number and not negative")
}

// strainPattern is where the sections of a list of start times lie.
var strainTimes = [][]float64{
	{401, 500, 800, 801, 1600},
	{0, 400, 400, 2001, 2002},
	{-950, -900, 0, 1, 399.5},
	{123, 3123, 3200, 3600, 3601},
}

// Strain decays between objects, adds up, and peaks once per section.
//
//gosym:prop C36
//gosym:bound 5 objects in 4 patterns of start times, any strain values and bonuses (0..1000) of each
//gosym:cases skill 4 pattern 4
//gosym:merge all
//gosym:feas lite
func StrainSections() {
	t := strainTimes[sym.Choose("pattern", 4)]
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	var s *skills.Skill
	multiplier, decay, history := 0.0, 0.0, 0
	kind := sym.Choose("skill", 4)
	var speed *skills.SpeedSkill
	switch kind {
	case 0, 1:
		s, multiplier, decay, history = skills.NewAimSkill(d, kind == 0).Skill, 23.25, 0.15, 2
	case 2:
		speed = skills.NewSpeedSkill(d)
		s, multiplier, decay, history = speed.Skill, 1375, 0.3, 32
	case 3:
		s, multiplier, decay, history = skills.NewFlashlightSkill(d).Skill, 0.15, 0.15, 10
	}
	var value, bonus []float64
	for i := range t {
		value = append(value, sym.F64In(objNames[i]+".value", 0, 1000))
		bonus = append(bonus, 1)
		if kind == 2 {
			bonus[i] = sym.F64In(objNames[i]+".bonus", 0, 1000)
		}
	}
	i := 0
	s.StrainValueOf = func(o *diffObject) float64 { return value[i] }
	if kind == 2 {
		s.StrainBonusOf = func(o *diffObject) float64 {
			speed.CurrentRhythm = bonus[i]
			return bonus[i]
		}
	}
	var want []float64
	strain, peak, end, rhythm := 0.0, 0.0, math.Ceil(t[0]/400)*400, 1.0
	for i = range t {
		o := &diffObject{StartTime: t[i], BaseObject: strainObjects[aCircle]}
		o.DeltaTime = 777
		if i > 0 {
			o.DeltaTime = t[i] - t[i-1]
		}
		for i > 0 && t[i] > end {
			want = append(want, peak)
			peak = strain * rhythm * math.Pow(decay, (end-t[i-1])/1000)
			end += 400
		}
		strain = strain*math.Pow(decay, o.DeltaTime/1000) + value[i]*multiplier
		rhythm = bonus[i]
		peak = math.Max(strain*rhythm, peak)
		s.Process(o)
		n := len(s.Previous)
		sym.Assert(n <= history+1, "no more history than needed")
		sym.Assert(n > i || n > history, "as much history as needed")
		sym.Assert(s.GetPrevious(0) == o, "the newest object is the previous one")
		sym.AssertEqF(s.CurrentStrain, strain, "strain decays and adds up")
	}
	want = append(want, peak)
	got := s.GetCurrentStrainPeaks()
	sym.AssertEqI(len(got), len(want), "one peak per section")
	for k := range got {
		if k < len(want) {
			sym.AssertEqF(got[k], want[k], "a peak is the largest strain of its section")
		}
		sym.Assert(got[k] >= 0, "peaks are numbers and not negative")
	}
}

// valueRef weighs peaks from the largest down after shrinking the top ones.
func valueRef(peaks []float64, reduced int, weight, factor float64) float64 {
	p := append([]float64{}, peaks...)
	down := func() { sort.Slice(p, func(i, j int) bool { return p[i] > p[j] }) }
	down()
	for i := range p {
		if i < reduced {
			scale := math.Log10(1 + 9*math.Min(1, math.Max(0, float64(i)/float64(reduced))))
			p[i] *= 0.75 + 0.25*scale
		}
	}
	down()
	sum, w := 0.0, 1.0
	for _, v := range p {
		sum += v * w
		w *= weight
	}
	return sum * factor
}

// The difficulty value of a skill's peaks.
//
//gosym:prop C36
//gosym:bound 1..3 peaks of any size (0..10000), or 12 of which two are any; aim, speed and flashlight
//gosym:cases skill 3 n 4
//gosym:merge all
//gosym:feas none
//gosym:sort net
func DifficultyValues() {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	var s *skills.Skill
	reduced, weight, factor := 10, 0.9, 1.06
	switch sym.Choose("skill", 3) {
	case 0:
		s = skills.NewAimSkill(d, true).Skill
	case 1:
		s, reduced, factor = skills.NewSpeedSkill(d).Skill, 5, 1.04
	case 2:
		s, weight = skills.NewFlashlightSkill(d).Skill, 1
	}
	s.SkillMultiplier, s.StrainDecayBase, s.StrainBonusOf = 1, 0, nil
	var peaks []float64
	if n := sym.Choose("n", 4); n < 3 {
		for i := 0; i <= n; i++ {
			peaks = append(peaks, sym.F64In(objNames[i]+".peak", 0, 10000))
		}
	} else {
		peaks = []float64{3, 900, 850, 20, 870, 869, 10, 700, 650, 655, 100, 640}
		for i := range peaks {
			peaks[i] += 0.125
		}
		peaks[3], peaks[8] = sym.F64In("4.peak", 0, 10000), sym.F64In("9.peak", 0, 10000)
	}
	i := 0
	s.StrainValueOf = func(*diffObject) float64 { return peaks[i] }
	s.CalculateInitialStrain = func(float64) float64 { return 0 }
	for i = range peaks {
		s.CurrentStrain = 0
		s.Process(&diffObject{StartTime: 400*float64(i) + 1, DeltaTime: 400, BaseObject: strainObjects[aCircle]})
	}
	got := s.GetCurrentStrainPeaks()
	sym.AssertEqI(len(got), len(peaks), "one peak per section")
	for i := range got {
		sym.AssertEqF(got[i], peaks[i], "each section has its own peak")
	}
	v := s.DifficultyValue()
	sym.AssertEqF(v, valueRef(got, reduced, weight, factor), "difficulty value")
	if len(peaks) < 12 {
		sym.Assert(v >= 0, "the value is not negative")
	}
}

// Ratings are made of the difficulty values of the skills.
//
//gosym:prop C36
//gosym:bound 4 objects (3 with Flashlight and long gaps) of any kinds, circles anywhere on the playfield, 7 gap patterns, 6 mod sets, any circle size and overall difficulty
//gosym:cases mods 6 pattern 7
//gosym:merge all
//gosym:feas none
//gosym:sort net
//gosym:states 4000000
//gosym:draws 200
func RatingsFromSkills() {
	pattern := sym.Choose("pattern", 7)
	m := []int{0, hr, ez | fl, dt | fl, ht | rx, rx | fl}[sym.Choose("mods", 6)]
	n := 4
	if m&fl != 0 && (pattern == 4 || pattern == 6) {
		n = 3 // many sections
	}
	list := starList(n, pattern)
	d := starDiff(m)
	a := osu.CalculateSingle(list, d)
	aim, plain, speed, flash := skills.NewAimSkill(d, true), skills.NewAimSkill(d, false), skills.NewSpeedSkill(d), skills.NewFlashlightSkill(d)
	for _, o := range preprocessing.CreateDifficultyObjects(list, d) {
		aim.Process(o)
		plain.Process(o)
		speed.Process(o)
		flash.Process(o)
	}
	rating := func(s *skills.Skill) float64 { return math.Sqrt(s.DifficultyValue()) * 0.0675 }
	ra, rp, rs, rf := rating(aim.Skill), rating(plain.Skill), rating(speed.Skill), 0.0
	if m&rx != 0 {
		rs = 0
	}
	if m&fl != 0 {
		rf = rating(flash.Skill)
	}
	sym.AssertEqF(a.Aim, ra, "aim rating")
	sym.AssertEqF(a.Speed, rs, "speed rating")
	sym.AssertEqF(a.Flashlight, rf, "flashlight rating")
	sym.AssertEqF(a.SliderFactor, sym.IteF(ra > 0.00001, rp/ra, 1), "slider factor")
	x, y, z := ppBaseRef(ra), ppBaseRef(rs), 0.0
	if m&fl != 0 {
		z = math.Pow(rf, 2) * 25
	}
	base := math.Pow(math.Pow(x, 1.1)+math.Pow(y, 1.1)+math.Pow(z, 1.1), 1/1.1)
	sym.AssertEqF(a.Total, sym.IteF(base > 0.00001, math.Cbrt(1.12)*0.027*(math.Cbrt(100000/math.Pow(2, 1/1.1)*base)+4), 0), "total rating")
}
