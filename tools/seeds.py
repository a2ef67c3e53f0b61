# Planted bugs: source edits and a demonstration test each (see seed.py).
HEAD = '''package test

import (
%s)

'''
MAP = '''
const demoHead = "osu file format v14\\n\\n[Metadata]\\nTitle:t\\nArtist:a\\nCreator:c\\n\\n"
const demoDiff = "[Difficulty]\\nHPDrainRate:5\\nCircleSize:4\\nOverallDifficulty:8\\nApproachRate:9\\nSliderMultiplier:1.4\\nSliderTickRate:1\\n\\n"
const demoPoints = "[TimingPoints]\\n0,500,4,1,1,100,1,0\\n\\n"

func demoMap(t *testing.T, text string) *beatmap.BeatMap {
	m, err := beatmap.ParseFromByte([]byte(text))
	if err != nil {
		t.Fatal(err)
	}
	return m
}
'''
R = 'github.com/Wieku/gosu-pp/'
def demo(imports, body, withmap=True):
    imps = ['testing'] + (([R + 'beatmap']) if withmap else []) + [i if '/' not in i or i == 'math/rand' else R + i for i in imports]
    imps = sorted(set(imps))
    return HEAD % ''.join('\t"%s"\n' % i for i in imps) + (MAP if withmap else '') + '\n' + body
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo))

seed('combo-spinner-skip', 'C05', 'a spinner line whose type has colour-skip bits',
 'a spinner\'s skipped colours advance the colour index although a spinner never starts a combo',
 [('beatmap/parser.go', '''			forceNewCombo = true
''', '''			forceNewCombo = true
			comboSetHax += iO.GetColorOffset()
''')],
 demo(['beatmap/objects'], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,5,0\\n256,192,2000,56,0,3000\\n100,100,4000,1,0\\n")
	c := m.HitObjects[2].(*objects.Circle)
	if c.ComboSetHax != 2 {
		t.Fatal("colour index", c.ComboSetHax)
	}
}
'''))

seed('old-stack-tail', 'C14', 'file version below 6, a slider and two circles under its tail, the second only within the stacking time of the first',
 'in old files the stacking window no longer moves on after an object stacked under a slider tail',
 [('beatmap/stackleniency.go', '''					objectN.SetStackIndex(objectN.GetStackIndex(modifiers)-sliderStack, modifiers)
					startTime = objectN.GetEndTime()
''', '''					objectN.SetStackIndex(objectN.GetStackIndex(modifiers)-sliderStack, modifiers)
''')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, "osu file format v5\\n\\n[General]\\nStackLeniency:0.7\\n"+demoHead[len("osu file format v14\\n\\n"):]+demoDiff+demoPoints+
		"[HitObjects]\\n100,100,1000,2,0,L|240:100,1,140\\n240,100,1800,1,0\\n240,100,2100,1,0\\n")
	if a, b := m.HitObjects[1].GetStackIndex(0), m.HitObjects[2].GetStackIndex(0); a != -1+1 && a != -1 || b != -2 {
		t.Fatal("heights", a, b)
	}
}
'''))

seed('peaks-alias', 'C22', 'asking for the peaks again after the difficulty value was computed, with spare capacity behind the recorded peaks',
 'the returned peaks share memory with the recorded ones, so computing a difficulty value reorders and scales them',
 [('performance/osu/skills/skill.go', '''	peaks := make([]float64, len(skill.strainPeaks)+1)
	copy(peaks, skill.strainPeaks)
	peaks[len(peaks)-1] = skill.currentSectionPeak

	return peaks
''', '''	return append(skill.strainPeaks, skill.currentSectionPeak)
''')],
 demo(['performance/osu', 'fmt'], '''func TestDemo(t *testing.T) {
	text := demoHead + demoDiff + demoPoints + "[HitObjects]\\n"
	for i := 0; i < 30; i++ {
		text += fmt.Sprintf("%d,%d,%d,1,0\\n", 50+(i*97)%400, 50+(i*61)%300, 1000+i*(100+i*3))
	}
	m := demoMap(t, text)
	want := osu.CalculateStrainPeaks(m.HitObjects, m.Difficulty)
	_, got := osu.CalculateSingleWithPeaks(m.HitObjects, m.Difficulty)
	for i := range want.Aim {
		if want.Aim[i] != got.Aim[i] {
			t.Fatal("peak", i, want.Aim[i], got.Aim[i])
		}
	}
}
'''))

seed('lazy-slider-cache', 'C23', 'two calculations over the same objects with mods that change slider positions or circle size',
 'the decorated slider of the first calculation is reused by later ones with other mods',
 [('performance/osu/preprocessing/lazyslider.go', '''func NewLazySlider(slider *objects.Slider, d *difficulty.Difficulty) *LazySlider {
''', '''var decoratedSliders = map[*objects.Slider]*LazySlider{}

func NewLazySlider(slider *objects.Slider, d *difficulty.Difficulty) *LazySlider {
	if known, ok := decoratedSliders[slider]; ok {
		return known
	}

'''), ('performance/osu/preprocessing/lazyslider.go', '''	decorated.calculateEndPosition()

''', '''	decorated.calculateEndPosition()
	decoratedSliders[slider] = decorated

''')],
 demo(['performance/osu', 'beatmap/difficulty', 'fmt'], '''func TestDemo(t *testing.T) {
	text := demoHead + demoDiff + demoPoints + "[HitObjects]\\n"
	for i := 0; i < 12; i++ {
		text += fmt.Sprintf("%d,%d,%d,2,0,L|%d:%d,1,180\\n", 50+(i*97)%400, 50+(i*61)%300, 1000+i*900, 250, 150+i)
	}
	m, n := demoMap(t, text), demoMap(t, text)
	hr := difficulty.NewDifficulty(5, 4, 8, 9)
	hr.SetMods(difficulty.HardRock)
	want := osu.CalculateSingle(m.HitObjects, hr)
	osu.CalculateSingle(n.HitObjects, n.Difficulty)
	if got := osu.CalculateSingle(n.HitObjects, hr); got != want {
		t.Fatal(got, want)
	}
}
'''))

seed('step-skips-spinner', 'C21', 'a spinner after objects of another strain section in the step calculation',
 'steps at spinners keep the previous ratings although a new section started and strains decayed',
 [('performance/osu/difficulty.go', '''		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''', '''		// spinners have no strain, ratings stay the same
		if attr.Spinners > stars[i].Spinners && i > 0 {
			stars = append(stars, attr)
			continue
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''')],
 demo(['performance/osu', 'fmt'], '''func TestDemo(t *testing.T) {
	text := demoHead + demoDiff + demoPoints + "[HitObjects]\\n"
	for i := 0; i < 12; i++ {
		text += fmt.Sprintf("%d,%d,%d,1,0\\n", 50+(i*97)%400, 50+(i*61)%300, 1000+i*150)
	}
	text += "256,192,3300,8,0,4000\\n"
	m := demoMap(t, text)
	steps := osu.CalculateStep(m.HitObjects, m.Difficulty)
	if want, got := osu.CalculateSingle(m.HitObjects, m.Difficulty), steps[len(steps)-1]; got != want {
		t.Fatal(got, want)
	}
}
'''))

seed('timing-unstable-sort', 'C08', 'more than twelve timing points with several at equal times',
 'points at equal times no longer keep file order, so an earlier line can win over a later one',
 [('beatmap/timing/timing.go', 'sort.SliceStable(tim.points', 'sort.Slice(tim.points')],
 demo(['beatmap/timing'], '''func TestDemo(t *testing.T) {
	tim := timing.NewTimings()
	for i := 0; i < 60; i++ {
		tim.AddPoint(float64((i%3)*1000), 500, 0, i, 1, 4, false, false, false)
	}
	tim.FinalizePoints()
	for i := 0; i < 3; i++ {
		if p := tim.GetPointAt(float64(i*1000) + 1); p.SampleIndex != 57+i {
			t.Fatal(i, p.SampleIndex)
		}
	}
}
''', False))

seed('tail-point-middle', 'C11', 'a slider with repeats whose spans are shorter than 72 ms',
 'the tail point is never earlier than the middle of the last span instead of the middle of the slider',
 [('beatmap/objects/slider.go', 'Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36)', 'Time: math.Max(spanStartTime+slider.spanDuration/2, slider.EndTime-36)')],
 demo(['beatmap/objects'], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,2,0,L|110:100,4,10\\n")
	s := m.HitObjects[0].(*objects.Slider)
	want := s.EndTime - 36
	found := false
	for _, p := range s.ScorePoints {
		found = found || p.Time > want-0.001 && p.Time < want+0.001
	}
	if !found {
		t.Fatal(want, s.ScorePoints)
	}
}
'''))

seed('catmull-extension', 'C12', 'a catmull slider longer than its control points',
 'catmull paths are cut but never extended to the requested length',
 [('math/curves/multicurve.go', 'for len(mCurve.lines) > 0 {', 'for len(mCurve.lines) > 0 && (typ != "C" || diff > 0) {')],
 demo(['math/curves', 'math/vector'], '''func TestDemo(t *testing.T) {
	c := curves.NewMultiCurveT("C", []vector.Vector2f{{X: 0, Y: 0}, {X: 50, Y: 20}, {X: 100, Y: 0}}, 200)
	if l := c.GetLength(); l < 199.9 || l > 200.1 {
		t.Fatal(l)
	}
}
''', False).replace('"math/', '"' + R + 'math/').replace(R + R, R))

seed('zero-piece-nan', 'C13', 'a path whose first piece has no length, as a bezier slider with a red anchor at its head, evaluated at its start',
 'the start of such a path is not a number',
 [('math/curves/multicurve.go', '''	if mCurve.sections[index+1]-mCurve.sections[index] == 0 {
		return mCurve.lines[index].Point1
	}

	return mCurve.lines[index].PointAt(''', '''	return mCurve.lines[index].PointAt(''')],
 demo(['math/curves', 'math/vector'], '''func TestDemo(t *testing.T) {
	c := curves.NewMultiCurve("B", []vector.Vector2f{{X: 10, Y: 20}, {X: 10, Y: 20}, {X: 50, Y: 90}, {X: 100, Y: 20}})
	if p := c.PointAt(0); p != (vector.Vector2f{X: 10, Y: 20}) {
		t.Fatal(p)
	}
}
''', False).replace('"math/', '"' + R + 'math/').replace(R + R, R))

seed('od-setter-stale', 'C16', 'changing the overall difficulty after mods or other settings were set, with no change after it',
 'hit windows stay those of the old overall difficulty until something else is set',
 [('beatmap/difficulty/difficulty.go', '''	diff.od = od
	diff.calculate()
}

func (diff *Difficulty) GetAR''', '''	diff.od = od
}

func (diff *Difficulty) GetAR''')],
 demo(['beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	d := difficulty.NewDifficulty(5, 5, 5, 5)
	d.SetMods(difficulty.DoubleTime)
	d.SetOD(9)
	if d.Hit300 != 26 {
		t.Fatal(d.Hit300)
	}
}
''', False))

seed('autopilot-speed', 'C25', 'stars under Autopilot',
 'Autopilot drops the speed rating like Relax does',
 [('performance/osu/difficulty.go', 'if diff.CheckModActive(difficulty.Relax) {', 'if diff.CheckModActive(difficulty.Relax | difficulty.Relax2) {')],
 demo(['performance/osu', 'beatmap/difficulty', 'fmt'], '''func TestDemo(t *testing.T) {
	text := demoHead + demoDiff + demoPoints + "[HitObjects]\\n"
	for i := 0; i < 12; i++ {
		text += fmt.Sprintf("%d,%d,%d,1,0\\n", 50+(i*97)%400, 50+(i*61)%300, 1000+i*150)
	}
	m := demoMap(t, text)
	want := osu.CalculateSingle(m.HitObjects, m.Difficulty)
	m.Difficulty.SetMods(difficulty.Relax2)
	if got := osu.CalculateSingle(m.HitObjects, m.Difficulty); got != want {
		t.Fatal(got, want)
	}
}
'''))

seed('accuracy-objects-sticky', 'C26', 'a calculator first used for one map and then for another without ScoreV2',
 'the number of objects with accuracy of the first calculation is kept for the next map',
 [('performance/osu/pp.go', '''	} else {
		pp.amountHitObjectsWithAccuracy = attribs.Circles
	}
''', '''	} else if pp.amountHitObjectsWithAccuracy == 0 {
		pp.amountHitObjectsWithAccuracy = attribs.Circles
	}
''')],
 demo(['performance/osu', 'beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Total: 5, Aim: 3, SliderFactor: 1, Speed: 2, ObjectCount: 300, Circles: 200, Sliders: 100, MaxCombo: 500}
	b := osu.Attributes{Total: 4, Aim: 2, SliderFactor: 1, Speed: 2, ObjectCount: 100, Circles: 90, Sliders: 10, MaxCombo: 120}
	want := (&osu.PPv2{}).PPv2x(b, -1, -1, 3, 0, 0, d)
	used := &osu.PPv2{}
	used.PPv2x(a, -1, -1, 0, 0, 0, d)
	if got := used.PPv2x(b, -1, -1, 3, 0, 0, d); got.Results != want.Results {
		t.Fatal(got.Results, want.Results)
	}
}
''', False))

seed('relax-miss-overflow', 'C27', 'Relax with a broken combo and more oks and mehs than leave room for the estimated misses',
 'the effective miss count exceeds the hits, so the miss penalty becomes not a number',
 [('performance/osu/pp.go', 'pp.effectiveMissCount = mutils.MinI(pp.effectiveMissCount+pp.countOk+pp.countMeh, pp.totalHits)', 'pp.effectiveMissCount += pp.countOk + pp.countMeh')],
 demo(['performance/osu', 'beatmap/difficulty', 'math'], '''func TestDemo(t *testing.T) {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.Relax)
	a := osu.Attributes{Total: 5, Aim: 3, SliderFactor: 1, Speed: 0, ObjectCount: 100, Circles: 50, Sliders: 50, MaxCombo: 200}
	r := (&osu.PPv2{}).PPv2x(a, 3, 40, 50, 10, 0, d)
	if math.IsNaN(r.Results.Total) {
		t.Fatal(r.Results)
	}
}
''', False).replace('"' + R + 'math"', '"math"'))

seed('ar-from-raw-od', 'C03', 'a file without an approach rate whose overall difficulty lies outside 0..10',
 'the approach rate taken from overall difficulty is not limited to 0..10',
 [('beatmap/parser.go', 'beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())', 'beatMap.Difficulty.SetAR(parsed)')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+"[Difficulty]\\nOverallDifficulty:11.5\\n\\n"+demoPoints)
	if m.Difficulty.GetAR() != 10 {
		t.Fatal(m.Difficulty.GetAR())
	}
}
'''))

seed('short-slider-travel', 'C32', 'a speed mod and a slider whose travel time before speed adjustment is below 37 ms',
 'the minimum travel time is applied before the speed adjustment',
 [('performance/osu/preprocessing/object.go', 'math.Max(lastSlider.LazyTravelTime/o.diff.Speed, MinDeltaTime)', 'math.Max(lastSlider.LazyTravelTime, MinDeltaTime)/o.diff.Speed')],
 demo(['performance/osu/preprocessing', 'beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,2,0,L|104:100,1,4\\n200,100,1300,1,0\\n")
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.DoubleTime)
	if o := preprocessing.CreateDifficultyObjects(m.HitObjects, d); o[0].TravelTime < 25 {
		t.Fatal(o[0].TravelTime)
	}
}
'''))

seed('easy-stack-offset', 'C15', 'a stacked object under Easy when the Easy and no-mod stacks differ',
 'positions under Easy use the no-mod stack offset',
 [('beatmap/objects/hitobject.go', 'return basePosition.Add(hitObject.StackOffsetEZ)', 'return basePosition.Add(hitObject.StackOffset)')],
 demo(['beatmap/difficulty', 'beatmap/objects'], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,1,0\\n100,100,1400,1,0\\n")
	c := m.HitObjects[0].(*objects.Circle)
	if p := c.GetStackedStartPositionMod(difficulty.Easy); p.X != 100+c.StackOffsetEZ.X {
		t.Fatal(p, c.StackOffsetEZ)
	}
}
'''))

seed('flashlight-long-map', 'C30', 'Flashlight on a map with more than 400 objects',
 'the flashlight length scaling keeps growing beyond 400 objects',
 [('performance/osu/pp.go', 'scale += 0.2 * math.Min(1.0, float64(pp.totalHits-200)/200.0)', 'scale += 0.2 * float64(pp.totalHits-200) / 200.0')],
 demo(['performance/osu', 'beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	d.SetMods(difficulty.Flashlight)
	f := func(n int) float64 {
		a := osu.Attributes{Total: 5, Aim: 3, SliderFactor: 1, Speed: 2, Flashlight: 2, ObjectCount: n, Circles: n, MaxCombo: n}
		return (&osu.PPv2{}).PPv2x(a, -1, -1, 0, 0, 0, d).Results.Flashlight
	}
	if f(400) != f(900) {
		t.Fatal(f(400), f(900))
	}
}
''', False))

seed('zero-combo-is-full', 'C29', 'a score with a combo of exactly zero',
 'a combo of zero counts as a full combo',
 [('performance/osu/pp.go', 'if combo < 0 {', 'if combo <= 0 {')],
 demo(['performance/osu', 'beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Total: 5, Aim: 3, SliderFactor: 1, Speed: 2, ObjectCount: 10, Circles: 10, MaxCombo: 10}
	if r := (&osu.PPv2{}).PPv2x(a, 0, 0, 0, 0, 10, d); r.Results.Aim != 0 {
		t.Fatal(r.Results)
	}
}
''', False))

seed('slider-after-end', 'C10', 'the position of a slider asked for after its end',
 'a slider keeps bouncing after its end instead of staying there',
 [('beatmap/objects/slider.go', 't1 := mutils.ClampF64(time, slider.StartTime, slider.EndTime)', 't1 := math.Max(time, slider.StartTime)')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,2,0,L|200:100,1,100\\n")
	o := m.HitObjects[0]
	if p := o.GetPositionAt(o.GetEndTime() + 100); p != o.GetEndPosition() {
		t.Fatal(p)
	}
}
'''))

seed('title-colon', 'C06', 'a metadata value that contains a colon',
 'metadata values are cut at their second colon',
 [('beatmap/parser.go', '''			if arr := tokenizeN(line, ":", 2); len(arr) > 1 {
				parseMetadata(arr, beatMap)''', '''			if arr := tokenize(line, ":"); len(arr) > 1 {
				parseMetadata(arr, beatMap)''')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, "osu file format v14\\n\\n[Metadata]\\nTitle:Re:Zero\\nArtist:a\\nCreator:c\\n\\n"+demoPoints)
	if m.Title != "Re:Zero" {
		t.Fatal(m.Title)
	}
}
'''))

seed('objects-unstable-sort', 'C04', 'more than twelve objects with several at equal times',
 'objects at equal times no longer keep file order',
 [('beatmap/parser.go', 'sort.SliceStable(beatMap.HitObjects', 'sort.Slice(beatMap.HitObjects')],
 demo(['fmt'], '''func TestDemo(t *testing.T) {
	text := demoHead + demoDiff + demoPoints + "[HitObjects]\\n"
	for i := 0; i < 60; i++ {
		text += fmt.Sprintf("%d,100,%d,1,0\\n", i, 1000+i%3*1000)
	}
	m := demoMap(t, text)
	for i := 1; i < 60; i++ {
		a, b := m.HitObjects[i-1], m.HitObjects[i]
		if a.GetStartTime() == b.GetStartTime() && a.GetStartPosition().X > b.GetStartPosition().X {
			t.Fatal(i)
		}
	}
}
'''))

seed('multiplier-v2-hr', 'C20', 'Hard Rock together with ScoreV2 and DoubleTime',
 'ScoreV2 changes the DoubleTime factor only without Hard Rock',
 [('beatmap/difficulty/mods.go', '''	if mods&DoubleTime > 0 {
		if mods&ScoreV2 > 0 {''', '''	if mods&DoubleTime > 0 {
		if mods&(ScoreV2|HardRock) == ScoreV2 {''')],
 demo(['beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	if f := (difficulty.HardRock | difficulty.DoubleTime | difficulty.ScoreV2).GetScoreMultiplier(); f < 1.319 || f > 1.321 {
		t.Fatal(f)
	}
}
''', False))

seed('hr-cs-cap', 'C17', 'Hard Rock on a circle size above 7.7',
 'Hard Rock raises the circle size beyond 10',
 [('beatmap/difficulty/difficulty.go', 'cs = math.Min(cs*1.3, 10)', 'cs *= 1.3')],
 demo(['beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	d := difficulty.NewDifficulty(5, 9, 5, 5)
	d.SetMods(difficulty.HardRock)
	if d.CircleRadius < 9.59 {
		t.Fatal(d.CircleRadius)
	}
}
''', False))

seed('omit-bar-bit', 'C07', 'effect bits with a value of 4 or more other than 8',
 'any bit above the third counts as omit-first-bar',
 [('beatmap/beatmap.go', 'omitFirstBarLine = (ki & 8) > 0', 'omitFirstBarLine = ki > 3')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+"[TimingPoints]\\n0,500,4,1,1,100,1,4\\n")
	if m.Timings.GetPointAt(0).OmitFirstBarLine {
		t.Fatal("bit 4")
	}
}
'''))

seed('slider-field-guard', 'C01', 'a slider line that ends after its repeat count',
 'the field-count guard of slider lines is one short',
 [('beatmap/objects/util.go', 'return len(data) > 7 && hasValidPath(data)', 'return len(data) > 6 && (len(data) == 7 || hasValidPath(data))')],
 demo([], '''func TestDemo(t *testing.T) {
	demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,2,0,L|200:100,1\\n")
}
'''))

seed('edge-sounds-count', 'C01', 'a slider line with more edge sounds than it has edges',
 'surplus edge sounds of a slider are written past the end of its sounds',
 [('beatmap/objects/slider.go', 'if i >= len(slider.sounds) {', 'if i > len(slider.sounds) {')],
 demo([], '''func TestDemo(t *testing.T) {
	demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,2,0,L|200:100,1,100,0|0|0\\n")
}
'''))

seed('late-read-error', 'C02', 'a reader that fails after the first hit object has been read',
 'a read error is ignored once hit objects were read',
 [('beatmap/parser.go', 'if err := scanner.Err(); err != nil {', 'if err := scanner.Err(); err != nil && currentSection != "HitObjects" {')],
 demo(['errors', 'io', 'strings'], '''type demoReader struct{}

func (demoReader) Read([]byte) (int, error) { return 0, errors.New("device") }

func TestDemo(t *testing.T) {
	text := demoHead + demoDiff + demoPoints + "[HitObjects]\\n100,100,1000,1,0\\n"
	if m, err := beatmap.ParseFromReader(io.MultiReader(strings.NewReader(text), demoReader{})); err == nil || m != nil {
		t.Fatal(m, err)
	}
}
'''))

seed('inherit-in-file-order', 'C09', 'an inherited point that stands in the file before the point it follows in time',
 'inherited points take the base tempo of the preceding line instead of the preceding time',
 [('beatmap/timing/timing.go', '''	tim.points = append(tim.points, point)
}''', '''	if l := len(tim.points); inherited && l > 0 {
		point.beatLengthBase = tim.points[l-1].beatLengthBase
	}

	tim.points = append(tim.points, point)
}'''),
  ('beatmap/timing/timing.go', '''			lastPoint := tim.points[i-1]
			point.beatLengthBase = lastPoint.beatLengthBase

			tim.points[i] = point
''', '''			tim.points[i] = point
''')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+"[TimingPoints]\\n0,500,4,1,1,100,1,0\\n2000,-50,4,1,1,100,0,0\\n1000,250,4,1,1,100,1,0\\n")
	if b := m.Timings.GetPointAt(2000).GetBaseBeatLength(); b != 250 {
		t.Fatal(b)
	}
}
'''))

seed('ratio-slow-clamp', 'C09', 'an inherited point slower than a tenth of the base velocity, that is with a beat length below -1000',
 'the slowest slider-velocity multiplier is not limited',
 [('beatmap/timing/timing.go', 'mutils.ClampF64(-t.beatLength, 10, 1000)', 'math.Max(-t.beatLength, 10)')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+"[TimingPoints]\\n0,500,4,1,1,100,1,0\\n1000,-2000,4,1,1,100,0,0\\n")
	if b := m.Timings.GetPointAt(2000).GetRatio(); b != 10 {
		t.Fatal(b)
	}
}
'''))

seed('mods-odd-text', 'C18', 'a mod text with an odd number of letters',
 'parsing mods panics on a trailing single letter',
 [('beatmap/difficulty/mods.go', 'make([]string, (len(mods)+1)/2)', 'make([]string, (len(mods)+1)/2, len(mods)+1)[:len(mods)/2]')],
 demo(['beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	if m := difficulty.ParseMods("HDD"); m != difficulty.Hidden {
		t.Fatal(m)
	}
}
''', False))

seed('full-names-daycore', 'C18', 'Daycore in the list of full names',
 'the full-name list of Daycore also names HalfTime',
 [('beatmap/difficulty/mods.go', '''	if mods.Active(Daycore) {
		mods &= ^HalfTime
	}

	if mods.Active(Perfect) {
		mods &= ^SuddenDeath
	}

	for i := 0; i < len(modsString); i++ {
		activated := mods&1 == 1
		if activated {
			s = append''', '''	if mods.Active(Daycore) && mods.Active(Nightcore) {
		mods &= ^HalfTime
	}

	if mods.Active(Perfect) {
		mods &= ^SuddenDeath
	}

	for i := 0; i < len(modsString); i++ {
		activated := mods&1 == 1
		if activated {
			s = append''')],
 demo(['beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	if m := (difficulty.Daycore | difficulty.HalfTime).StringFull(); len(m) != 1 {
		t.Fatal(m)
	}
}
''', False))

seed('autopilot-perfect', 'C19', 'Autopilot with Perfect but without SuddenDeath',
 'Autopilot with Perfect counts as compatible',
 [('beatmap/difficulty/mods.go', '''((mods.Active(Relax) || mods.Active(Relax2)) && (mods.Active(SuddenDeath) || mods.Active(Perfect) || mods.Active(Autoplay) || mods.Active(NoFail)))''',
   '''((mods.Active(Relax) || mods.Active(Relax2)) && mods.Active(SuddenDeath|Autoplay|NoFail)) ||
		(mods.Active(Relax) && mods.Active(Perfect))''')],
 demo(['beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	if (difficulty.Relax2 | difficulty.Perfect).Compatible() {
		t.Fatal("compatible")
	}
}
''', False))

seed('empty-list-capacity', 'C24', 'an empty list of objects',
 'star calculation panics on an empty list',
 [('performance/osu/preprocessing/objects.go', 'make([]*DifficultyObject, 0, len(objsB))', 'make([]*DifficultyObject, 0, len(objsB)-1)')],
 demo(['performance/osu', 'beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	osu.CalculateSingle(nil, difficulty.NewDifficulty(5, 4, 8, 9))
}
''', False))

seed('combo-first-slider', 'C24', 'a list that starts with a slider, in the step calculation',
 'the step calculation does not count the score points of the first object',
 [('performance/osu/difficulty.go', '''	stars := make([]Attributes, 1, len(objects))

	addObjectToAttribs(objects[0], &stars[0])
''', '''	stars := make([]Attributes, 1, len(objects))

	addObjectToAttribs(objects[0], &stars[0])
	stars[0].MaxCombo = 1
''')],
 demo(['performance/osu'], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,2,0,L|200:100,1,100\\n300,100,2000,1,0\\n")
	if s := osu.CalculateStep(m.HitObjects, m.Difficulty); s[1].MaxCombo != 3 {
		t.Fatal(s)
	}
}
'''))

seed('negative-accuracy', 'C28', 'a score with so few greats that its circle accuracy is below zero',
 'a negative circle accuracy is no longer cut to zero, and its even power grows with every lost great',
 [('performance/osu/pp.go', 'if betterAccuracyPercentage < 0 {', 'if betterAccuracyPercentage < -1 {')],
 demo(['performance/osu', 'beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Total: 5, Aim: 3, SliderFactor: 1, Speed: 2, ObjectCount: 20, Circles: 10, Sliders: 10, MaxCombo: 40}
	x := (&osu.PPv2{}).PPv2x(a, 5, 10, 0, 0, 10, d)
	y := (&osu.PPv2{}).PPv2x(a, 5, 5, 0, 0, 15, d)
	if y.Results.Acc > x.Results.Acc {
		t.Fatal(x.Results, y.Results)
	}
}
''', False))

seed('meh-scaling', 'C28', 'more than a five-hundredth of the hits being mehs',
 'few mehs are punished more than many',
 [('performance/osu/pp.go', '''		mehMult = float64(pp.countMeh) - float64(pp.totalHits)/500.0
''', '''		mehMult = math.Max(1, 20-float64(pp.countMeh)) * float64(pp.totalHits) / 500.0
''')],
 demo(['performance/osu', 'beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	d := difficulty.NewDifficulty(5, 4, 0, 9)
	a := osu.Attributes{Total: 5, Aim: 3, SliderFactor: 1, Speed: 2, ObjectCount: 2000, Circles: 2000, MaxCombo: 2000}
	x := (&osu.PPv2{}).PPv2x(a, 2000, 1995, 0, 5, 0, d)
	y := (&osu.PPv2{}).PPv2x(a, 2000, 1994, 0, 6, 0, d)
	if y.Results.Speed > x.Results.Speed {
		t.Fatal(x.Results, y.Results)
	}
}
''', False))

seed('rest-without-misses', 'C29', 'a negative great count together with misses',
 'misses are not subtracted from the remaining hits',
 [('performance/osu/pp.go', 'n300 = attribs.ObjectCount - n100 - n50 - nmiss', 'n300 = attribs.ObjectCount - n100 - n50')],
 demo(['performance/osu', 'beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Total: 5, Aim: 3, SliderFactor: 1, Speed: 2, ObjectCount: 20, Circles: 20, MaxCombo: 20}
	x := (&osu.PPv2{}).PPv2x(a, 5, -1, 0, 0, 5, d)
	y := (&osu.PPv2{}).PPv2x(a, 5, 15, 0, 0, 5, d)
	if y.Results != x.Results {
		t.Fatal(x.Results, y.Results)
	}
}
''', False))

seed('full-combo-from-raw', 'C29', 'a negative combo on attributes with a maximum combo of zero',
 'full combo is taken from the attributes before their maximum combo is raised to one',
 [('performance/osu/pp.go', '''	attribs.MaxCombo = mutils.MaxI(1, attribs.MaxCombo)

	if combo < 0 {
		combo = attribs.MaxCombo
	}
''', '''	if combo < 0 {
		combo = attribs.MaxCombo
	}

	attribs.MaxCombo = mutils.MaxI(1, attribs.MaxCombo)
''')],
 demo(['performance/osu', 'beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	a := osu.Attributes{Total: 5, Aim: 3, SliderFactor: 1, Speed: 2, ObjectCount: 20, Circles: 20}
	x := (&osu.PPv2{}).PPv2x(a, -1, 20, 0, 0, 0, d)
	y := (&osu.PPv2{}).PPv2x(a, 1, 20, 0, 0, 0, d)
	if y.Results != x.Results {
		t.Fatal(x.Results, y.Results)
	}
}
''', False))

seed('flatten-in-place', 'C31', 'a curve that needs subdividing',
 'flattening a curve overwrites its control points',
 [('math/curves/bezierapproximator.go', '''	nCP := make([]vector.Vector2f, len(approximator.controlPoints))

	copy(nCP, approximator.controlPoints)

	toFlatten.Push(nCP)
''', '''	toFlatten.Push(approximator.controlPoints)
''')],
 demo(['math/curves', 'math/vector'], '''func TestDemo(t *testing.T) {
	p := []vector.Vector2f{{X: 0, Y: 0}, {X: 100, Y: 200}, {X: 200, Y: 0}}
	q := append([]vector.Vector2f{}, p...)
	curves.NewBezierApproximator(p).CreateBezier()
	for i := range p {
		if p[i] != q[i] {
			t.Fatal(p)
		}
	}
}
''', False).replace('\t"github.com/Wieku/gosu-pp/math/curves"\n', '\t"github.com/Wieku/gosu-pp/math/curves"\n'))

seed('binomial-symmetry', 'C31', 'a binomial of even order at its middle',
 'the middle binomial coefficient of orders above 20 loses its last factor',
 [('math/curves/bezier.go', 'k = mutils.MinI64(k, n-k)', 'k = mutils.MinI64(mutils.MinI64(k, n-k), 10)')],
 demo(['math/curves'], '''func TestDemo(t *testing.T) {
	if c := curves.BinomialCoefficient(24, 12); c != 2704156 {
		t.Fatal(c)
	}
}
''', False))

seed('flat-first-bend', 'C31', 'a curve of four points bent only at its third',
 'only the first inner control point is tested for flatness',
 [('math/curves/bezierapproximator.go', 'for i := 1; i < len(controlPoints)-1; i++ {', 'for i := 1; i < len(controlPoints)-1 && i < 2; i++ {')],
 demo(['math/curves', 'math/vector'], '''func TestDemo(t *testing.T) {
	if curves.IsFlatEnough([]vector.Vector2f{{X: 0, Y: 0}, {X: 100, Y: 0}, {X: 200, Y: 0}, {X: 300, Y: 90}}) {
		t.Fatal("flat")
	}
}
''', False))

seed('first-section-late', 'C22', 'a first timed object that starts exactly on a section border',
 'the first section ends one section late when the object starts on its border',
 [('performance/osu/skills/skill.go', 'skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength', 'skill.currentSectionEnd = (math.Floor(startTime/sectionLength) + 1) * sectionLength')],
 demo(['performance/osu'], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,100,1,0\\n300,100,400,1,0\\n100,100,500,1,0\\n")
	if p := osu.CalculateStrainPeaks(m.HitObjects, m.Difficulty); len(p.Aim) != 2 {
		t.Fatal(p.Aim)
	}
}
'''))

seed('stack-slider-body', 'C14', 'a circle on the end of a slider after another circle stacked with it',
 'circles on a slider end are pushed down for the last circle only',
 [('beatmap/stackleniency.go', 'for j := n + 1; j <= i; j++ {', 'for j := i; j <= i; j++ {')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,2,0,L|200:100,1,100\\n200,100,1500,1,0\\n200,100,1700,1,0\\n")
	if a, b := m.HitObjects[1].GetStackIndex(0), m.HitObjects[2].GetStackIndex(0); a != -1 || b != -2 {
		t.Fatal(a, b)
	}
}
'''))

seed('easy-preempt-stack', 'C14', 'an Easy stack whose members are further apart than the plain approach time allows',
 'Easy stacks use the approach time without mods',
 [('beatmap/stackleniency.go', '	processStacking(b.HitObjects, b.FileVersion, diffEZ, b.StackLeniency)', '''	ez := *diffEZ
	ez.Preempt = math.Min(ez.Preempt, math.Max(diffNM.Preempt, 1000))
	processStacking(b.HitObjects, b.FileVersion, &ez, b.StackLeniency)''')],
 demo(['beatmap/difficulty'], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,1,0\\n100,100,1790,1,0\\n")
	if a := m.HitObjects[0].GetStackIndex(difficulty.Easy); a != 1 {
		t.Fatal(a)
	}
}
'''))

seed('hold-length', 'C04', 'a hold line that ends after the last object',
 'a hold line counts for the map length with its start',
 [('beatmap/parser.go', 'time = strings.Split(arr[5], ":")[0]', 'time = arr[2]')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,128,0,3000:0:0:0:0:\\n")
	if m.Length != 3000 {
		t.Fatal(m.Length)
	}
}
'''))

seed('lookup-before-first', 'C08', 'a query before the first timing point with more than one point',
 'a query before all points finds the last point',
 [('beatmap/timing/timing.go', '''		return time < tim.points[i].Time
	})

	return tim.points[mutils.MaxI(0, index-1)]''', '''		return time < tim.points[i].Time
	})

	return tim.points[(index+tLen-1)%tLen]''')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+"[TimingPoints]\\n100,500,4,1,1,100,1,0\\n1000,250,4,1,1,100,1,0\\n")
	if b := m.Timings.GetPointAt(0).Time; b != 100 {
		t.Fatal(b)
	}
}
'''))

SK = ['math', 'beatmap/difficulty', 'beatmap/objects', 'performance/osu/preprocessing', 'performance/osu/skills']
SKHEAD = '''func demoObject(start, delta, jump, angle float64) *preprocessing.DifficultyObject {
	return &preprocessing.DifficultyObject{StartTime: start, EndTime: start, DeltaTime: delta, StrainTime: math.Max(25, delta), JumpDistance: jump, Angle: angle, BaseObject: objects.CreateObject([]string{"1", "2", "3", "1", "0"})}
}

func demoDifficulty() *difficulty.Difficulty {
	return difficulty.NewDifficulty(5, 4, 8, 9)
}

'''
def sdemo(body, extra=[]):
    imps = [i for i in SK if i.split('/')[-1] + '.' in SKHEAD + body]
    return demo(imps + extra, SKHEAD + body, withmap=False)

seed('acute-repeat-last', 'C35', 'wiggles at 100 ms or less whose angles two and three objects ago differ',
 'the penalty for repeated acute angles looks at the last angle instead of the one before',
 [('performance/osu/skills/aim.go', 'math.Pow(calcAcuteAngleBonus(lastLastAngle), 3)', 'math.Pow(calcAcuteAngleBonus(math.Min(lastAngle, lastLastAngle)), 3)')],
 sdemo('''func TestDemo(t *testing.T) {
	a := skills.NewAimSkill(demoDifficulty(), false)
	a.Previous = []*preprocessing.DifficultyObject{demoObject(0, 75, 200, 3), demoObject(75, 75, 200, 0.5)}
	got := a.StrainValueOf(demoObject(150, 75, 200, 0.5))
	if v := 200. / 75; math.Abs(got-v-2*125./75) > 1e-3 {
		t.Fatal(got - v)
	}
}
'''))

seed('speed-bonus-raw-time', 'C35', 'objects whose capped strain time passes the speed bonus limit while the uncapped one does not',
 'the speed bonus looks at the time between objects before the hit window cap',
 [('performance/osu/skills/speed.go', '	if strainTime < minSpeedBonus {', '	if current.StrainTime < minSpeedBonus {')],
 sdemo('''func TestDemo(t *testing.T) {
	s := skills.NewSpeedSkill(difficulty.NewDifficulty(5, 4, 0, 9))
	got := s.StrainValueOf(demoObject(100, 70, 0, 1))
	x := 70 / 0.92
	if math.Abs(got-1/x) > 1e-9 {
		t.Fatal(got, 1/x)
	}
}
'''))

seed('flashlight-after-spinner', 'C35', 'an object right after a spinner, close to the object before the spinner',
 'the flashlight distance nerf uses the last object that is not a spinner',
 [('performance/osu/skills/flashlight.go', '		if i == 0 {\n', '		if cumulativeStrainTime == previous.StrainTime {\n')],
 demo(['math', 'beatmap/difficulty', 'beatmap/objects', 'performance/osu/preprocessing', 'performance/osu/skills'], '''func demoObject(line ...string) *preprocessing.DifficultyObject {
	o := objects.CreateObject(line)
	o.SetDifficulty(difficulty.NewDifficulty(5, 4, 8, 9))
	return &preprocessing.DifficultyObject{StrainTime: 100, JumpDistance: 100, BaseObject: o}
}

func TestDemo(t *testing.T) {
	d := difficulty.NewDifficulty(5, 4, 8, 9)
	s := skills.NewFlashlightSkill(d)
	s.Previous = []*preprocessing.DifficultyObject{demoObject("100", "100", "0", "1", "0"), demoObject("256", "192", "100", "8", "0", "200")}
	got := s.StrainValueOf(demoObject("115", "100", "300", "1", "0"))
	scale := 52 / d.CircleRadius
	if want := math.Pow(0.8*math.Min(1, 4/scale)*scale*15/100, 2); math.Abs(got-want) > 1e-6 {
		t.Fatal(got, want)
	}
}
''', withmap=False))

seed('decay-strain-time', 'C36', 'two objects less than 25 ms apart',
 'strain decays for at least 25 ms between two objects',
 [('performance/osu/skills/skill.go', 'skill.strainDecay(current.DeltaTime)', 'skill.strainDecay(math.Max(current.DeltaTime, 25))')],
 sdemo('''func TestDemo(t *testing.T) {
	s := skills.NewSpeedSkill(demoDifficulty())
	s.Process(demoObject(1000, 1000, 100, 1))
	s.CurrentStrain = 100
	o := demoObject(1001, 1, 100, 1)
	o.BaseObject = objects.CreateObject([]string{"1", "2", "3", "8", "0", "5"})
	s.Process(o)
	if s.CurrentStrain < 99 {
		t.Fatal(s.CurrentStrain)
	}
}
'''))

seed('reduced-short-map', 'C36', 'a map of fewer sections than the reduced count',
 'on short maps the reduction of the largest peaks is spread over the sections there are',
 [('performance/osu/skills/skill.go', 'float64(i)/float64(skill.ReducedSectionCount), 0, 1', 'float64(i)/float64(numReduced), 0, 1')],
 sdemo('''func TestDemo(t *testing.T) {
	s := skills.NewAimSkill(demoDifficulty(), false)
	s.StrainValueOf = func(*preprocessing.DifficultyObject) float64 { return 1 }
	s.SkillMultiplier, s.StrainDecayBase = 100, 1e-300
	s.Process(demoObject(100, 100, 100, 1))
	s.Process(demoObject(1000, 900, 100, 1))
	s.Process(demoObject(2000, 1000, 100, 1))
	want := 0.0
	for i := 0; i < 3; i++ {
		want += 100 * math.Pow(0.9, float64(2-i)) * (0.75 + 0.25*math.Log10(1+9*float64(i)/10)) * 1.06
	}
	if got := s.DifficultyValue(); math.Abs(got-want) > 1e-6 {
		t.Fatal(got, want)
	}
}
'''))

seed('bg-outer-quotes', 'C37', 'a background line with a quote inside the name',
 'only quotes around the background name are removed',
 [('beatmap/parser.go', 'strings.Replace(line[2], "\\"", "", -1)', 'strings.Trim(line[2], "\\"")')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+"[Events]\\n0,0,\\"a\\"b.jpg\\",0,0\\n\\n"+demoPoints+"[HitObjects]\\n100,100,1000,1,0\\n")
	if m.Bg != "ab.jpg" {
		t.Fatal(m.Bg)
	}
}
'''))

seed('break-overlap', 'C37', 'two break lines where the second starts before the first ends',
 'a break that overlaps the one before is merged into it',
 [('beatmap/parser.go', '		beatMap.Pauses = append(beatMap.Pauses, NewPause(line))', '''		p := NewPause(line)
		if n := len(beatMap.Pauses); n > 0 && p.StartTime >= beatMap.Pauses[n-1].StartTime && p.StartTime < beatMap.Pauses[n-1].EndTime && p.EndTime > beatMap.Pauses[n-1].EndTime {
			beatMap.Pauses[n-1].EndTime = p.EndTime
			return
		}

		beatMap.Pauses = append(beatMap.Pauses, p)''')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+"[Events]\\n2,100,500\\n2,400,900\\n\\n"+demoPoints+"[HitObjects]\\n100,100,1000,1,0\\n")
	if len(m.Pauses) != 2 || m.Pauses[0].EndTime != 500 {
		t.Fatal(len(m.Pauses))
	}
}
'''))

seed('break-whole-times', 'C37', 'a break line with fractional times',
 'break times with a fraction read as zero',
 [('beatmap/pause.go', '	pause.StartTime, _ = strconv.ParseFloat(data[1], 64)\n	pause.EndTime, _ = strconv.ParseFloat(data[2], 64)', '	pause.StartTime, _ = strconv.ParseFloat(data[1], 64)\n	end, _ := strconv.ParseInt(data[2], 10, 64)\n	pause.EndTime = float64(end)')],
 demo([], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+"[Events]\\n2,100,500.5\\n\\n"+demoPoints+"[HitObjects]\\n100,100,1000,1,0\\n")
	if m.Pauses[0].EndTime != 500.5 {
		t.Fatal(m.Pauses[0].EndTime)
	}
}
'''))

seed('slider-factor-low-aim', 'C36', 'a map with little aim and sliders',
 'the slider factor is one on maps with an aim rating below a quarter of a star',
 [('performance/osu/difficulty.go', 'if aimRating > 0.00001 {', 'if aimRating > 0.25 {')],
 demo(['beatmap/difficulty', 'performance/osu'], '''func TestDemo(t *testing.T) {
	m := demoMap(t, demoHead+demoDiff+demoPoints+"[HitObjects]\\n100,100,1000,1,0\\n100,100,3000,1,0\\n100,100,5000,2,0,L|400:100,1,160\\n104,100,12000,1,0\\n")
	a := osu.CalculateSingle(m.HitObjects, difficulty.NewDifficulty(5, 4, 8, 9))
	if a.Aim < 0.0001 || a.Aim > 0.25 || a.SliderFactor == 1 {
		t.Fatal(a.Aim, a.SliderFactor)
	}
}
'''))
