package h

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/vector"

	"vharness/sym"
)

// hit is an object as the stacking rules see it.
type hit struct {
	kind       int // 0 circle, 1 slider, 2 spinner
	start, end float64
	pos, tail  vector.Vector2f
}

func near(a, b vector.Vector2f) bool {
	x, y := a.X-b.X, a.Y-b.Y
	return math.Sqrt(float64(x*x+y*y)) < 3
}

// stacksNew are the heights by the rules of file version 6 and later.
func stacksNew(o []hit, threshold float64) []int {
	h := make([]int, len(o))
	for i := len(o) - 1; i > 0; i-- {
		if h[i] != 0 || o[i].kind == 2 {
			continue
		}
		top := i
		for n := i - 1; n >= 0; n-- {
			if o[n].kind == 2 {
				continue
			}
			if o[i].kind == 1 {
				if o[top].start-o[n].start > threshold {
					break
				}
				if near(o[n].tail, o[top].pos) {
					h[n] = h[top] + 1
					top = n
				}
				continue
			}
			if o[top].start-o[n].end > threshold {
				break
			}
			if o[n].kind == 1 && near(o[n].tail, o[top].pos) {
				lift := h[top] - h[n] + 1
				for j := n + 1; j <= i; j++ {
					if near(o[n].tail, o[j].pos) {
						h[j] -= lift
					}
				}
				break
			}
			if near(o[n].pos, o[top].pos) {
				h[n] = h[top] + 1
				top = n
			}
		}
	}
	return h
}

// stacksOld are the heights by the rules of older files.
func stacksOld(o []hit, threshold float64) []int {
	h := make([]int, len(o))
	for i := range o {
		if h[i] != 0 && o[i].kind != 1 {
			continue
		}
		last, under := o[i].end, 0
		for n := i + 1; n < len(o); n++ {
			if o[n].start-threshold > last {
				break
			}
			if near(o[n].pos, o[i].pos) {
				h[i]++
				last = o[n].end
			} else if near(o[n].pos, o[i].tail) {
				under++
				h[n] -= under
				last = o[n].end
			}
		}
	}
	return h
}

var stackMods = []difficulty.Modifier{difficulty.None, difficulty.Easy, difficulty.HardRock}

func checkStacks(list []objects.IHitObject, ar, leniency float64, old bool) {
	hits := []hit{}
	for _, o := range list {
		x := hit{0, o.GetStartTime(), o.GetEndTime(), o.GetStartPosition(), o.GetEndPosition()}
		switch o.(type) {
		case *objects.Slider:
			x.kind = 1
		case *objects.Spinner:
			x.kind = 2
		}
		hits = append(hits, x)
	}
	names := []string{"no mod", "Easy", "Hard Rock"}
	for k, m := range stackMods {
		d := difficulty.NewDifficulty(5, 5, 5, ar)
		d.SetMods(m)
		t := math.Floor(d.Preempt * leniency)
		var want []int
		if old {
			want = stacksOld(hits, t)
		} else {
			want = stacksNew(hits, t)
		}
		for i, o := range list {
			if hits[i].kind == 2 {
				want[i] = 0
			}
			sym.AssertEqI(o.GetStackIndex(m), want[i], names[k]+": stack height")
		}
	}
}

// stackMap is a map of n objects on a line; a slider ends at, near or far from
// where it starts.
func stackMap(version string, n int, ar, leniency string, times []string, ends []string) []objects.IHitObject {
	text := "osu file format v" + version + "\n\n[General]\nStackLeniency:" + leniency + "\n" + meta +
		"[Difficulty]\nSliderMultiplier:1.4\nSliderTickRate:1\nApproachRate:" + ar + "\n\n" + points + "[HitObjects]\n"
	for i := 0; i < n; i++ {
		x := []string{"100", "102", "220", "104"}
		at := 0
		if i > 0 {
			if sym.Thorough() {
				at = sym.Choose(objNames[i]+".x", 4)
			} else {
				at = sym.Choose(objNames[i]+".x", 3)
			}
		}
		switch sym.Choose(objNames[i]+".kind", 3) {
		case 0:
			text += x[at] + ",80," + times[i] + ",1,0\n"
		case 1:
			to := []string{"220:80,1,120", "220:80,2,119"}[sym.Choose(objNames[i]+".to", 2)]
			text += x[at] + ",80," + times[i] + ",2,0,L|" + to + "\n"
		case 2:
			text += x[at] + ",80," + times[i] + ",8,0," + ends[i] + "\n"
		}
	}
	return parse(text).HitObjects
}

// Heights of every list of objects under every leniency.
//
//gosym:prop C14
//gosym:bound 3 objects of any kinds on 3 (thorough 4) places, sliders with 2 shapes, any stack leniency in 0..2, gaps of 200 and 800 ms, approach rate 9.3 (thorough also 5), versions 5 and 6 (thorough also 3 and 14)
//gosym:cases version 2 o0.kind 3 o1.kind 3
//gosym:thorough-cases version 4 o0.kind 3 o1.kind 3
//gosym:thorough-states 80000000
//gosym:merge none
//gosym:feas lite
//gosym:states 8000000
func StackLeniency() {
	v := []string{"5", "6", "3", "14"}[sym.Choose("version", 4)]
	l := sym.F64In("leniency", 0, 2)
	ar := 9.3
	if sym.Thorough() {
		ar = []float64{9.3, 5}[sym.Choose("ar", 2)]
	}
	list := stackMap(v, 3, sym.FloatText(ar), sym.FloatText(l), []string{"1000", "1200", "2000"}, []string{"1150", "1900", "2100"})
	checkStacks(list, ar, l, v == "3" || v == "5")
	sym.Observe("stack", float64(list[0].GetStackIndex(0)))
}

// Positions under mods: stack offset of the mod asked for, mirrored under Hard
// Rock.
//
//gosym:prop C15
//gosym:bound 3 objects of any kinds, the first anywhere in [-1000,1000], the others on it or away; any circle size; all combinations of mods without both Easy and Hard Rock
//gosym:cases o0.kind 3 o1.kind 3 mods 3
//gosym:merge none
//gosym:feas none
//gosym:states 4000000
func StackedPosition() {
	cs := sym.F64In("cs", 0, 10)
	x, y := sym.F32In("x", -1000, 1000), sym.F32In("y", -1000, 1000)
	text := head + "[General]\nStackLeniency:1\n" + meta + "[Difficulty]\nSliderMultiplier:1.4\nSliderTickRate:1\nCircleSize:" +
		sym.FloatText(cs) + "\nApproachRate:9\n\n" + points + "[HitObjects]\n"
	times, ends := []string{"1000", "1400", "1900"}, []string{"1150", "1500", "2100"}
	for i := 0; i < 3; i++ {
		at := "10,20,"
		if i == 0 {
			at = sym.Float32Text(x) + "," + sym.Float32Text(y) + ","
		} else if sym.Choose(objNames[i]+".away", 2) == 1 {
			at = "300,200,"
		}
		switch sym.Choose(objNames[i]+".kind", 3) {
		case 0:
			text += at + times[i] + ",1,0\n"
		case 1:
			if i == 0 {
				at = "10,20,"
			}
			text += at + times[i] + ",2,0,L|300:200,1,80\n"
		case 2:
			text += at + times[i] + ",8,0," + ends[i] + "\n"
		}
	}
	bm := parse(text)
	list := bm.HitObjects
	which := sym.Choose("mods", 3)
	m := stackMods[which] | difficulty.Modifier(sym.Int("others", 0, 1<<32-1)&^(hr|ez))
	d := difficulty.NewDifficulty(5, bm.Difficulty.GetCS(), 5, 9)
	d.SetMods(stackMods[which])
	for _, o := range list {
		off := -float32(o.GetStackIndex(m)) * float32(d.CircleRadius) / 10
		if _, spin := o.(*objects.Spinner); spin {
			off = 0
			sym.AssertEqI(o.GetStackIndex(m), 0, "spinners never stack")
		}
		same := func(got, raw vector.Vector2f, l string) {
			if which == 2 {
				raw.Y = 384 - raw.Y
			}
			sym.AssertEqF32(got.X, raw.X+off, l+": x")
			sym.AssertEqF32(got.Y, raw.Y+off, l+": y")
		}
		same(o.GetStackedStartPositionMod(m), o.GetStartPosition(), "start")
		same(o.GetStackedEndPositionMod(m), o.GetEndPosition(), "end")
		t := o.GetStartTime() + 40
		same(o.GetStackedPositionAtMod(t, m), o.GetPositionAt(t), "timed")
		same(o.GetStackedPositionAtMod(o.GetStartTime(), m), o.GetStartPosition(), "timed at the start")
		same(o.GetStackedPositionAtMod(o.GetEndTime(), m), o.GetEndPosition(), "timed at the end")
		if which == 0 {
			same(o.GetStackedStartPosition(), o.GetStartPosition(), "start without mods")
			same(o.GetStackedEndPosition(), o.GetEndPosition(), "end without mods")
			same(o.GetStackedPositionAt(t), o.GetPositionAt(t), "timed without mods")
		}
	}
	if _, plain := list[0].(*objects.Circle); plain {
		sym.AssertEqF32(list[0].GetStartPosition().X, x, "raw x is kept")
		sym.AssertEqF32(list[0].GetEndPosition().Y, y, "raw y is kept")
	}
}

// Offsets and heights of one mod do not touch those of another.
//
//gosym:prop C15
//gosym:bound any offsets, heights, position and mod combination without both Easy and Hard Rock
//gosym:merge none
func StackSlots() {
	o := objects.CreateObject([]string{sym.Float32Text(sym.F32In("x", -1000, 1000)), sym.Float32Text(sym.F32In("y", -1000, 1000)), "0", "1", "0"})
	var off [3]float32
	var idx [3]int
	names := []string{"none", "easy", "hr"}
	for i, m := range stackMods {
		off[i] = sym.F32In("offset "+names[i], -100, 100)
		idx[i] = sym.Int("height "+names[i], -10, 10)
		o.SetStackOffset(off[i], m)
		o.SetStackIndex(idx[i], m)
	}
	k := sym.Choose("mods", 3)
	m := stackMods[k] | difficulty.Modifier(sym.Int("others", 0, 1<<32-1)&^(hr|ez))
	sym.AssertEqI(o.GetStackIndex(m), idx[k], "height of the mod asked for")
	want := o.GetStartPosition()
	if k == 2 {
		want.Y = 384 - want.Y
	}
	for i, p := range []vector.Vector2f{o.GetStackedStartPositionMod(m), o.GetStackedEndPositionMod(m), o.GetStackedPositionAtMod(5, m)} {
		l := []string{"start", "end", "timed"}[i]
		sym.AssertEqF32(p.X, want.X+off[k], l+": x uses the offset of the mod asked for")
		sym.AssertEqF32(p.Y, want.Y+off[k], l+": y uses the offset of the mod asked for")
	}
	sym.AssertEqF32(o.GetStackedStartPosition().X, o.GetStartPosition().X+off[0], "unmodified: x")
	sym.AssertEqF32(o.GetStackedEndPosition().Y, o.GetStartPosition().Y+off[0], "unmodified: y")
	sym.AssertEqF32(o.GetStackedPositionAt(3).X, o.GetStartPosition().X+off[0], "unmodified timed: x")
}
