package h

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"

	"vharness/sym"
)

const ppMods = nf | ez | td | hd | hr | sd | dt | rx | ht | nc | fl | so | ap | pf | v2

// attributes are any finite attributes of a map with n objects.
func attributes(p string) (a osu.Attributes, n int) {
	a.Aim = sym.F64In(p+"aim", 0, 1000)
	a.Speed = sym.F64In(p+"speed", 0, 1000)
	a.Flashlight = sym.F64In(p+"flashlight", 0, 1000)
	a.SliderFactor = sym.F64In(p+"slider factor", 0, 1)
	a.Total = sym.F64In(p+"total", 0, 1000)
	a.Circles = sym.Int(p+"circles", 0, 20000)
	a.Sliders = sym.Int(p+"sliders", 0, 20000)
	a.Spinners = sym.Int(p+"spinners", 0, 20000)
	a.ObjectCount = a.Circles + a.Sliders + a.Spinners
	a.MaxCombo = sym.Int(p+"max combo", 0, 1000000)
	sym.Assume(a.MaxCombo >= a.ObjectCount)
	return a, a.ObjectCount
}

type score struct{ combo, great, ok, meh, miss int }

// validScore is any score with one result per object, and the attributes of
// its map.
func validScore(p string) (a osu.Attributes, s score) {
	a.Aim = sym.F64In(p+"aim", 0, 1000)
	a.Speed = sym.F64In(p+"speed", 0, 1000)
	a.Flashlight = sym.F64In(p+"flashlight", 0, 1000)
	a.SliderFactor = sym.F64In(p+"slider factor", 0, 1)
	a.Total = sym.F64In(p+"total", 0, 1000)
	s.great = sym.Int(p+"great", 0, 60000)
	s.ok = sym.Int(p+"ok", 0, 60000)
	s.meh = sym.Int(p+"meh", 0, 60000)
	s.miss = sym.Int(p+"miss", 0, 60000)
	a.ObjectCount = s.great + s.ok + s.meh + s.miss
	a.Sliders = sym.Int(p+"sliders", 0, 20000)
	a.Spinners = sym.Int(p+"spinners", 0, 20000)
	a.Circles = a.ObjectCount - a.Sliders - a.Spinners
	sym.Assume(a.Circles >= 0 && a.ObjectCount <= 60000)
	a.MaxCombo = sym.Int(p+"max combo", 0, 1000000)
	s.combo = sym.Int(p+"combo", 0, 1000000)
	sym.Assume(a.MaxCombo >= a.ObjectCount)
	sym.Assume(s.combo <= a.MaxCombo)
	return
}

func anyDiff(p string, mods int) *difficulty.Difficulty {
	d := difficulty.NewDifficulty(stat(p+"hp"), stat(p+"cs"), stat(p+"od"), stat(p+"ar"))
	d.SetMods(difficulty.Modifier(mods))
	return d
}

func calc(a osu.Attributes, s score, d *difficulty.Difficulty) osu.PPv2Results {
	pp := &osu.PPv2{}
	return pp.PPv2x(a, s.combo, s.great, s.ok, s.meh, s.miss, d).Results
}

func eqResults(a, b osu.PPv2Results, l string) {
	sym.AssertEqF(a.Aim, b.Aim, l+": aim")
	sym.AssertEqF(a.Speed, b.Speed, l+": speed")
	sym.AssertEqF(a.Acc, b.Acc, l+": accuracy")
	sym.AssertEqF(a.Flashlight, b.Flashlight, l+": flashlight")
	sym.AssertEqF(a.Total, b.Total, l+": total")
}

// A calculator gives the results of a fresh one whatever it computed before.
//
//gosym:prop C26
//gosym:bound any two consecutive calculations with any attributes, counts (each 0..20000, combo -1..10^6) and mods
//gosym:merge all
//gosym:feas none
func PPHistory() {
	a0, _ := attributes("0.")
	d0 := anyDiff("0.", sym.Int("0.mods", 0, 1<<32-1)&ppMods)
	a1, _ := attributes("1.")
	m1 := sym.Int("1.mods", 0, 1<<32-1) & ppMods
	d1 := anyDiff("1.", m1)
	s := score{sym.Int("1.combo", -1, 1000000), sym.Int("1.great", -1, 20000), sym.Int("1.ok", 0, 20000), sym.Int("1.meh", 0, 20000), sym.Int("1.miss", 0, 20000)}
	fresh := calc(a1, s, d1)
	pp := &osu.PPv2{}
	pp.PPv2x(a0, sym.Int("0.combo", -1, 1000000), sym.Int("0.great", -1, 20000), sym.Int("0.ok", 0, 20000), sym.Int("0.meh", 0, 20000), sym.Int("0.miss", 0, 20000), d0)
	sym.FrameBegin("inputs are not modified", d1)
	r := pp.PPv2x(a1, s.combo, s.great, s.ok, s.meh, s.miss, d1)
	sym.FrameEnd()
	sym.Assert(d1.Mods == difficulty.Modifier(m1), "mods are kept")
	eqResults(r.Results, fresh, "a used calculator gives the results of a fresh one")
	eqResults(r.Results, pp.Results, "returned and stored results agree")
	again := pp.PPv2x(a1, s.combo, s.great, s.ok, s.meh, s.miss, d1)
	eqResults(again.Results, fresh, "repeating a calculation gives the same results")
}

// Negative combo and great counts stand for the full combo and the rest.
//
//gosym:prop C29
//gosym:bound any attributes, counts up to 20000, negative values down to -10^6
//gosym:cases attributes 2
//gosym:merge all
//gosym:feas lite
func PPDefaults() {
	a, _ := attributes("")
	if sym.Choose("attributes", 2) == 1 {
		// with any combo, even none
		a.MaxCombo = sym.Int("any max combo", 0, 1000000)
	}
	d := anyDiff("", sym.Int("mods", 0, 1<<32-1)&ppMods)
	ok, meh, miss := sym.Int("ok", 0, 20000), sym.Int("meh", 0, 20000), sym.Int("miss", 0, 20000)
	great := sym.Int("great", 0, 20000)
	combo := sym.Int("combo", 0, 1000000)
	negc, negg := sym.Int("negative combo", -1000000, -1), sym.Int("negative great", -1000000, -1)
	full := sym.IteI(a.MaxCombo < 1, 1, a.MaxCombo)
	rest := a.ObjectCount - ok - meh - miss
	given := calc(a, score{combo, great, ok, meh, miss}, d)
	_ = given
	x := calc(a, score{negc, great, ok, meh, miss}, d)
	eqResults(x, calc(a, score{full, great, ok, meh, miss}, d), "negative combo is the full combo")
	sym.Assume(rest >= 0)
	x = calc(a, score{combo, negg, ok, meh, miss}, d)
	eqResults(x, calc(a, score{combo, rest, ok, meh, miss}, d), "negative great count is the remaining hits")
	x = calc(a, score{negc, negg, ok, meh, miss}, d)
	eqResults(x, calc(a, score{full, rest, ok, meh, miss}, d), "both negative")
}

// Every component of a valid score is a finite number, at least zero.
//
//gosym:prop C27
//gosym:bound valid scores on up to 60000 objects, ratings up to 1000, settings in 0..10, any mods
//gosym:merge all
//gosym:feas lite
//gosym:cases part 4
//gosym:lemmas
//gosym:perobl 60
//gosym:sec 300
func PPFinite() {
	m := sym.Int("mods", 0, 1<<32-1) & ppMods
	// relaxing and flashlight are settled by the case
	m &^= rx | fl
	part := sym.Choose("part", 4)
	if part&1 != 0 {
		m |= rx
	}
	if part&2 != 0 {
		m |= fl
	}
	d := anyDiff("", m)
	a, s := validScore("")
	r := calc(a, s, d)
	for i, v := range []float64{r.Aim, r.Speed, r.Acc, r.Flashlight, r.Total} {
		n := []string{"aim", "speed", "accuracy", "flashlight", "total"}[i]
		sym.Assert(v >= 0, n+" is a number and not negative")
		sym.Assert(v < math.MaxFloat64, n+" is finite")
	}
	if m&rx != 0 {
		sym.AssertEqF(r.Acc, 0, "no accuracy value with Relax")
	}
	if m&fl == 0 {
		sym.AssertEqF(r.Flashlight, 0, "no flashlight value without Flashlight")
	}
	sym.Observe("total", r.Total)
}

// worse changes one thing for the worse.
func leResults(a, b osu.PPv2Results, l string) {
	sym.AssertLeF(a.Aim, b.Aim, l+": aim")
	sym.AssertLeF(a.Speed, b.Speed, l+": speed")
	sym.AssertLeF(a.Acc, b.Acc, l+": accuracy")
	sym.AssertLeF(a.Flashlight, b.Flashlight, l+": flashlight")
	sym.AssertLeF(a.Total, b.Total, l+": total")
}

// A larger combo, or a great instead of an ok, meh or miss, never loses.
//
//gosym:prop C28
//gosym:bound valid scores on up to 60000 objects, ratings up to 1000, settings in 0..10, any mods
//gosym:merge all
//gosym:feas lite
//gosym:cases change 4 part 4
//gosym:lemmas
//gosym:draws 6000
//gosym:perobl 140
//gosym:sec 260
func PPMonotone() {
	m := sym.Int("mods", 0, 1<<32-1) & ppMods
	m &^= rx | fl
	c := sym.Choose("change", 4)
	part := sym.Choose("part", 4)
	if part&1 != 0 {
		m |= rx
	}
	if part&2 != 0 {
		m |= fl
	}
	d := anyDiff("", m)
	a, s := validScore("")
	w := s
	var l string
	switch c {
	case 0:
		w.combo = sym.Int("smaller combo", 0, 1000000)
		sym.Assume(w.combo <= s.combo)
		l = "a larger combo is not worse"
	case 1:
		w.great--
		w.ok++
		l = "a great is not worse than an ok"
	case 2:
		w.great--
		w.meh++
		l = "a great is not worse than a meh"
	case 3:
		w.great--
		w.miss++
		l = "a great is not worse than a miss"
	}
	sym.Assume(w.great >= 0)
	leResults(calc(a, w, d), calc(a, s, d), l)
}
