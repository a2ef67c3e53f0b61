package h

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"

	"vharness/sym"
)

// The formulas of the November 2021 revision, written independently of the
// code under test.

type ppIn struct {
	a                           osu.Attributes
	combo, great, ok, meh, miss int
	mods                        int
	ar, od                      float64 // adjusted for speed
}

func (p ppIn) hits() float64 { return float64(p.great + p.ok + p.meh + p.miss) }

func baseRef(stars float64) float64 {
	return math.Pow(5*math.Max(1, stars/0.0675)-4, 3) / 100000
}

func (p ppIn) missesRef() int {
	byCombo := 0.0
	if p.a.Sliders > 0 {
		full := float64(p.a.MaxCombo) - 0.1*float64(p.a.Sliders)
		if float64(p.combo) < full {
			byCombo = full / math.Max(1, float64(p.combo))
		}
	}
	byCombo = math.Min(byCombo, p.hits())
	n := int(math.Floor(byCombo))
	return sym.IteI(p.miss > n, p.miss, n)
}

func (p ppIn) lengthRef() float64 {
	l := 0.95 + 0.4*math.Min(1, p.hits()/2000)
	if p.hits() > 2000 {
		l += math.Log10(p.hits()/2000) * 0.5
	}
	return l
}

func (p ppIn) comboRef() float64 {
	return math.Min(math.Pow(float64(p.combo), 0.8)/math.Pow(float64(p.a.MaxCombo), 0.8), 1)
}

func (p ppIn) missShare(misses int) float64 {
	return 1 - math.Pow(float64(misses)/p.hits(), 0.775)
}

func (p ppIn) accRef() float64 {
	if p.great+p.ok+p.meh+p.miss == 0 {
		return 0
	}
	return clamp01((float64(p.meh)*50 + float64(p.ok)*100 + float64(p.great)*300) / (p.hits() * 300))
}

func clamp01(v float64) float64 { return math.Min(1, math.Max(0, v)) }

func (p ppIn) aimRef(misses int) float64 {
	raw := p.a.Aim
	if has(p.mods, td) {
		raw = math.Pow(raw, 0.8)
	}
	l := p.lengthRef()
	v := baseRef(raw) * l
	if misses > 0 {
		v *= 0.97 * math.Pow(p.missShare(misses), float64(misses))
	}
	v *= p.comboRef()
	arf := 0.0
	if p.ar > 10.33 {
		arf = 0.3 * (p.ar - 10.33)
	} else if p.ar < 8 {
		arf = 0.1 * (8 - p.ar)
	}
	v *= 1 + arf*l
	if has(p.mods, hd) {
		v *= 1 + 0.04*(12-p.ar)
	}
	if p.a.Sliders > 0 {
		hard := float64(p.a.Sliders) * 0.15
		bad := p.ok + p.meh + p.miss
		lost := p.a.MaxCombo - p.combo
		drop := math.Min(hard, math.Max(0, float64(sym.IteI(bad < lost, bad, lost))))
		v *= (1-p.a.SliderFactor)*math.Pow(1-drop/hard, 3) + p.a.SliderFactor
	}
	v *= p.accRef()
	return v * (0.98 + math.Pow(p.od, 2)/2500)
}

func (p ppIn) speedRef(misses int) float64 {
	l := p.lengthRef()
	v := baseRef(p.a.Speed) * l
	if misses > 0 {
		v *= 0.97 * math.Pow(p.missShare(misses), math.Pow(float64(misses), 0.875))
	}
	v *= p.comboRef()
	arf := 0.0
	if p.ar > 10.33 {
		arf = 0.3 * (p.ar - 10.33)
	}
	v *= 1 + arf*l
	if has(p.mods, hd) {
		v *= 1 + 0.04*(12-p.ar)
	}
	v *= (0.95 + math.Pow(p.od, 2)/750) * math.Pow(p.accRef(), (14.5-math.Max(p.od, 8))/2)
	extra := 0.0
	if float64(p.meh) >= p.hits()/500 {
		extra = float64(p.meh) - p.hits()/500
	}
	return v * math.Pow(0.98, extra)
}

func (p ppIn) accuracyRef() float64 {
	if has(p.mods, rx) {
		return 0
	}
	n := p.a.Circles
	if has(p.mods, v2) {
		n = p.a.ObjectCount
	}
	better := 0.0
	if n > 0 {
		total := p.great + p.ok + p.meh + p.miss
		better = float64((p.great-(total-n))*6+p.ok*2+p.meh) / (float64(n) * 6)
	}
	if better < 0 {
		better = 0
	}
	v := math.Pow(1.52163, p.od) * math.Pow(better, 24) * 2.83
	v *= math.Min(1.15, math.Pow(float64(n)/1000, 0.3))
	if has(p.mods, hd) {
		v *= 1.08
	}
	if has(p.mods, fl) {
		v *= 1.02
	}
	return v
}

func (p ppIn) flashlightRef(misses int) float64 {
	if !has(p.mods, fl) {
		return 0
	}
	raw := p.a.Flashlight
	if has(p.mods, td) {
		raw = math.Pow(raw, 0.8)
	}
	v := math.Pow(raw, 2) * 25
	if has(p.mods, hd) {
		v *= 1.3
	}
	if misses > 0 {
		v *= 0.97 * math.Pow(p.missShare(misses), math.Pow(float64(misses), 0.875))
	}
	v *= p.comboRef()
	scale := 0.7 + 0.1*math.Min(1, p.hits()/200)
	if p.hits() > 200 {
		scale += 0.2 * math.Min(1, float64(p.great+p.ok+p.meh+p.miss-200)/200)
	}
	v *= scale
	v *= 0.5 + p.accRef()/2
	return v * (0.98 + math.Pow(p.od, 2)/2500)
}

func (p ppIn) ref() (r osu.PPv2Results) {
	misses := p.missesRef()
	mult := 1.12
	if has(p.mods, nf) {
		mult *= math.Max(0.9, 1-0.02*float64(misses))
	}
	if has(p.mods, so) {
		if p.great+p.ok+p.meh+p.miss > 0 {
			mult *= 1 - math.Pow(float64(p.a.Spinners)/p.hits(), 0.85)
		}
	}
	if has(p.mods, rx) {
		n := misses + p.ok + p.meh
		t := p.great + p.ok + p.meh + p.miss
		misses = sym.IteI(n < t, n, t)
		mult *= 0.6
	}
	r.Aim = p.aimRef(misses)
	r.Speed = p.speedRef(misses)
	r.Acc = p.accuracyRef()
	r.Flashlight = p.flashlightRef(misses)
	r.Total = math.Pow(math.Pow(r.Aim, 1.1)+math.Pow(r.Speed, 1.1)+math.Pow(r.Acc, 1.1)+math.Pow(r.Flashlight, 1.1), 1/1.1) * mult
	return
}

// Each component equals the published formula.
//
//gosym:prop C30
//gosym:bound any attributes (ratings up to 1000, up to 60000 objects), counts up to 20000 each whether or not they add up, any mods and settings in 0..10
//gosym:merge all
//gosym:feas none
//gosym:cases part 4
func PPFormula() {
	a, _ := attributes("")
	sym.Assume(a.MaxCombo >= 1)
	m := sym.Int("mods", 0, 1<<32-1)
	m &^= rx | fl
	part := sym.Choose("part", 4)
	if part&1 != 0 {
		m |= rx
	}
	if part&2 != 0 {
		m |= fl
	}
	d := difficulty.NewDifficulty(stat("hp"), stat("cs"), stat("od"), stat("ar"))
	d.SetMods(difficulty.Modifier(m))
	s := score{sym.Int("combo", 0, 1000000), sym.Int("great", 0, 20000), sym.Int("ok", 0, 20000), sym.Int("meh", 0, 20000), sym.Int("miss", 0, 20000)}
	got := calc(a, s, d)
	want := ppIn{a, s.combo, s.great, s.ok, s.meh, s.miss, m, d.ARReal, d.ODReal}.ref()
	eqResults(got, want, "follows the formula")
	sym.Observe("total", got.Total)
}
