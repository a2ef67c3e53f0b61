package h

import (
	"github.com/Wieku/gosu-pp/beatmap/difficulty"

	"vharness/sym"
)

const (
	nf = 1 << iota
	ez
	td
	hd
	hr
	sd
	dt
	rx
	ht
	nc
	fl
	at
	so
	ap
	pf
)

const (
	target = 1 << 23
	v2     = 1 << 29
	dc     = 1 << 31
)

// has reports whether any flag of f is in m, without branching.
func has(m, f int) bool { return m&f != 0 }

func pair(m, a, b int) bool { return sym.And(has(m, a), has(m, b)) }

func compatRef(m int) bool {
	bad := has(m, target)
	bad = sym.Or(bad, pair(m, hr, ez))
	bad = sym.Or(bad, pair(m, nc|dt, ht|dc))
	bad = sym.Or(bad, pair(m, pf|sd, nf))
	bad = sym.Or(bad, pair(m, rx, ap))
	bad = sym.Or(bad, pair(m, rx|ap, sd|pf|at|nf))
	bad = sym.Or(bad, pair(m, ap, so))
	return !bad
}

// Compatible is decided by the documented exclusions for every 32-bit
// combination of mods, and removing mods never makes a combination
// incompatible.
//
//gosym:prop C19
//gosym:bound every combination of the 32 mod flags
func Compatible() {
	m := sym.Int("mods", 0, 1<<32-1)
	got := difficulty.Modifier(m).Compatible()
	sym.Assert(got == compatRef(m), "combination is accepted exactly when no exclusion applies")
	sub := m & sym.Int("keep", 0, 1<<32-1)
	if got {
		sym.Assert(difficulty.Modifier(sub).Compatible(), "part of a compatible combination is compatible")
	}
}

// The score multiplier is the product of the factors of the active mods.
//
//gosym:prop C20
//gosym:bound every combination of the 32 mod flags
func ScoreMultiplier() {
	m := sym.Int("mods", 0, 1<<32-1)
	got := difficulty.Modifier(m).GetScoreMultiplier()
	r := 1.0
	r = sym.IteF(sym.And(has(m, nf), !has(m, v2)), r*0.5, r)
	r = sym.IteF(has(m, ez), r*0.5, r)
	r = sym.IteF(has(m, ht), r*0.3, r)
	r = sym.IteF(has(m, hd), r*1.06, r)
	r = sym.IteF(has(m, hr), sym.IteF(has(m, v2), r*1.10, r*1.06), r)
	r = sym.IteF(has(m, dt), sym.IteF(has(m, v2), r*1.20, r*1.12), r)
	r = sym.IteF(has(m, fl), r*1.12, r)
	r = sym.IteF(has(m, rx|ap), 0, r)
	r = sym.IteF(has(m, so), r*0.9, r)
	sym.Observe("multiplier", got)
	sym.AssertEqF(got, r, "multiplier is the product of the active mods' factors")
	sym.Assert(got >= 0, "multiplier is not negative")
	sym.Assert(got <= 2, "multiplier is bounded")
	if has(m, rx|ap) {
		sym.Assert(got == 0, "relax and autopilot score nothing")
	}
	irrelevant := m &^ (nf | ez | ht | hd | hr | dt | fl | rx | ap | so | v2)
	sym.AssertEqF(difficulty.Modifier(m&^irrelevant).GetScoreMultiplier(), got, "other mods do not change the multiplier")
}

type settings struct {
	hp, cs, od, ar, speed float64
	mods                  int
}

func sameDiff(a, b *difficulty.Difficulty, l string) {
	sym.AssertEqF(a.Preempt, b.Preempt, l+": preempt")
	sym.AssertEqF(a.CircleRadius, b.CircleRadius, l+": radius")
	sym.AssertEqF(a.Hit50, b.Hit50, l+": window 50")
	sym.AssertEqF(a.Hit100, b.Hit100, l+": window 100")
	sym.AssertEqF(a.Hit300, b.Hit300, l+": window 300")
	sym.AssertEqF(a.HPMod, b.HPMod, l+": drain")
	sym.AssertEqF(a.SpinnerRatio, b.SpinnerRatio, l+": spinner ratio")
	sym.AssertEqF(a.Speed, b.Speed, l+": speed")
	sym.AssertEqF(a.ARReal, b.ARReal, l+": effective AR")
	sym.AssertEqF(a.ODReal, b.ODReal, l+": effective OD")
	sym.AssertEqF(a.GetModifiedTime(1234), b.GetModifiedTime(1234), l+": modified time")
}

func stat(n string) float64 { return sym.F64In(n, 0, 10) }

// Whatever sequence of setters led to the current settings, every derived
// value equals that of a fresh difficulty with these settings.
//
//gosym:prop C16
//gosym:bound up to 3 setter calls (thorough 5) in any order after construction
//gosym:feas none
//gosym:cases op0 6
func SetterHistory() {
	s := settings{stat("hp"), stat("cs"), stat("od"), stat("ar"), 1, 0}
	d := difficulty.NewDifficulty(s.hp, s.cs, s.od, s.ar)
	n := 3
	if sym.Thorough() {
		n = 4
	}
	names := []string{"op0", "op1", "op2", "op3"}
	for i := 0; i < n; i++ {
		k := names[i]
		switch sym.Choose(k, 6) {
		case 0:
			s.hp = stat(k + ".hp")
			d.SetHP(s.hp)
		case 1:
			s.cs = stat(k + ".cs")
			d.SetCS(s.cs)
		case 2:
			s.od = stat(k + ".od")
			d.SetOD(s.od)
		case 3:
			s.ar = stat(k + ".ar")
			d.SetAR(s.ar)
		case 4:
			s.mods = modSet(k + ".mods")
			d.SetMods(difficulty.Modifier(s.mods))
		case 5:
			s.speed = sym.F64In(k+".speed", 0.1, 10)
			d.SetCustomSpeed(s.speed)
		}
	}
	f := difficulty.NewDifficulty(s.hp, s.cs, s.od, s.ar)
	f.SetMods(difficulty.Modifier(s.mods))
	f.SetCustomSpeed(s.speed)
	sameDiff(d, f, "history does not matter")
	sym.AssertEqF(d.GetHP(), s.hp, "base HP is kept")
	sym.AssertEqF(d.GetCS(), s.cs, "base CS is kept")
	sym.AssertEqF(d.GetOD(), s.od, "base OD is kept")
	sym.AssertEqF(d.GetAR(), s.ar, "base AR is kept")
	sym.Assert(int(d.Mods) == s.mods, "mods are kept")
	sym.Observe("preempt", d.Preempt)
	sym.Observe("speed", d.Speed)
	sym.Observe("odreal", d.ODReal)
}

// modSet is any combination of the mods that influence the settings.
func modSet(n string) int {
	return sym.Int(n, 0, 1<<32-1) & (ez | hr | dt | ht | nc | fl | hd | rx)
}

func rateRef(v, min, mid, max float64) float64 {
	hi := mid + (max-mid)*(v-5)/5
	lo := mid - (mid-min)*(5-v)/5
	return sym.IteF(v > 5, hi, sym.IteF(v < 5, lo, mid))
}

func unrateRef(v, min, mid, max float64) float64 {
	a := -(v - min) / ((min - mid) / 5)
	b := 5.0 - (v-mid)/((mid-max)/5)
	return sym.IteF(v > mid, a, b)
}

// The derived values follow the documented formulas of the settings.
//
//gosym:prop C17
//gosym:bound stats in [0,10], custom speed in [0.1,10], every combination of EZ HR DT HT NC FL HD RX
func DerivedFormulas() {
	hp, cs, od, ar := stat("hp"), stat("cs"), stat("od"), stat("ar")
	m := modSet("mods")
	sp := sym.F64In("speed", 0.1, 10)
	d := difficulty.NewDifficulty(hp, cs, od, ar)
	d.SetMods(difficulty.Modifier(m))
	d.SetCustomSpeed(sp)
	adj := func(v, f float64) float64 {
		v = sym.IteF(has(m, hr), minRef(v*f, 10), v)
		return sym.IteF(has(m, ez), v/2, v)
	}
	hp, cs, od, ar = adj(hp, 1.4), adj(cs, 1.3), adj(od, 1.4), adj(ar, 1.4)
	sym.AssertEqF(d.HPMod, hp, "drain")
	sym.AssertEqF(d.CircleRadius, rateRef(cs, 54.4, 32, 9.6), "radius")
	sym.AssertEqF(d.Preempt, rateRef(ar, 1800, 1200, 450), "preempt")
	sym.AssertEqF(d.Hit50, rateRef(od, 200, 150, 100), "window 50")
	sym.AssertEqF(d.Hit100, rateRef(od, 140, 100, 60), "window 100")
	sym.AssertEqF(d.Hit300, rateRef(od, 80, 50, 20), "window 300")
	sym.AssertEqF(d.SpinnerRatio, rateRef(od, 3, 5, 7.5), "spinner ratio")
	tm := func(t float64) float64 {
		return sym.IteF(has(m, dt), t/(1.5*sp), sym.IteF(has(m, ht), t/(0.75*sp), t/sp))
	}
	sym.AssertEqF(d.Speed, 1/tm(1), "speed")
	sym.AssertEqF(d.ARReal, unrateRef(tm(d.Preempt), 1800, 1200, 450), "effective AR")
	sym.AssertEqF(d.ODReal, unrateRef(tm(d.Hit300), 80, 50, 20), "effective OD")
	sym.Observe("preempt", d.Preempt)
	sym.Observe("radius", d.CircleRadius)
	sym.Observe("h300", d.Hit300)
	sym.Observe("arreal", d.ARReal)
	q := sym.Int("query", 0, 1<<32-1)
	sym.Assert(d.CheckModActive(difficulty.Modifier(q)) == has(m, q), "active mods are reported")
}

func minRef(a, b float64) float64 { return sym.IteF(a < b, a, b) }

// Windows, preempt time and radius stay in the game's ranges and are ordered.
//
//gosym:prop C17
//gosym:bound stats in [0,10], every combination of EZ HR DT HT NC FL HD RX
//gosym:perobl 60
func WindowRanges() {
	d := difficulty.NewDifficulty(stat("hp"), stat("cs"), stat("od"), stat("ar"))
	d.SetMods(difficulty.Modifier(modSet("mods")))
	in := func(v, lo, hi float64, l string) {
		sym.Assert(v >= lo, l+" lower limit")
		sym.Assert(v <= hi, l+" upper limit")
	}
	in(d.Hit300, 20, 80, "window 300")
	in(d.Hit100, 60, 140, "window 100")
	in(d.Hit50, 100, 200, "window 50")
	in(d.Preempt, 450, 1800, "preempt")
	in(d.CircleRadius, 9.59, 54.41, "radius")
	in(d.HPMod, 0, 10, "drain")
	in(d.Speed, 0.74, 1.51, "speed")
	sym.Assert(d.Hit300 < d.Hit100, "300 window is tighter than 100")
	sym.Assert(d.Hit100 < d.Hit50, "100 window is tighter than 50")
}

// Hard Rock never makes a map easier and Easy never harder.
//
//gosym:prop C17
//gosym:bound stats in [0,10]
//gosym:perobl 60
func HarderEasier() {
	hp, cs, od, ar := stat("hp"), stat("cs"), stat("od"), stat("ar")
	base := difficulty.NewDifficulty(hp, cs, od, ar)
	h := difficulty.NewDifficulty(hp, cs, od, ar)
	h.SetMods(difficulty.HardRock)
	e := difficulty.NewDifficulty(hp, cs, od, ar)
	e.SetMods(difficulty.Easy)
	sym.Assert(h.Hit300 <= base.Hit300, "HR tightens 300")
	sym.Assert(h.Hit50 <= base.Hit50, "HR tightens 50")
	sym.Assert(h.Preempt <= base.Preempt, "HR shortens preempt")
	sym.Assert(h.CircleRadius <= base.CircleRadius, "HR shrinks circles")
	sym.Assert(h.HPMod >= base.HPMod, "HR drains more")
	sym.Assert(e.Hit300 >= base.Hit300, "EZ widens 300")
	sym.Assert(e.Hit50 >= base.Hit50, "EZ widens 50")
	sym.Assert(e.Preempt >= base.Preempt, "EZ lengthens preempt")
	sym.Assert(e.CircleRadius >= base.CircleRadius, "EZ enlarges circles")
	sym.Assert(e.HPMod <= base.HPMod, "EZ drains less")
}
