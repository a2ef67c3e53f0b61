package h

import (
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"

	"vharness/sym"
)

const (
	head   = "osu file format v14\n\n"
	meta   = "[Metadata]\nTitle:t\nArtist:a\nCreator:c\n\n"
	diffs  = "[Difficulty]\nSliderMultiplier:1.4\nSliderTickRate:1\n\n"
	points = "[TimingPoints]\n0,500,4,1,1,100,1,0\n\n"
)

func parse(text string) *beatmap.BeatMap {
	m, err := beatmap.ParseFromReader(&sym.Reader{Text: text})
	sym.Assert(err == nil, "a well-formed map is accepted")
	sym.Assume(err == nil)
	return m
}

// numText is the text of a difficulty value in one of the ways a file can
// spell it; ok is false when the text is not a number.
func numText(n string) (text string, v float64) {
	switch sym.Choose(n+".kind", 3) {
	case 0:
		f := sym.F64(n)
		return sym.FloatText(f), f
	case 1:
		i := sym.Int(n+".int", -1000, 1000)
		return sym.IntText(i), float64(i)
	}
	return "abc", 0
}

func clampRef(v float64) float64 {
	v = sym.IteF(v > 10, 10, v)
	return sym.IteF(v > 0, v, 0)
}

// Difficulty values of any spelling and order end up in [0, 10].
//
//gosym:prop C03
//gosym:bound up to 3 lines (thorough 4) of the Difficulty section in any order, each any float64 or integer in [-1000,1000] or not a number
//gosym:cases l0 5
//gosym:feas none
func DifficultySection() {
	keys := []string{"HPDrainRate", "CircleSize", "OverallDifficulty", "ApproachRate"}
	want := [4]float64{5, 5, 5, 5}
	arGiven := false
	text := head + meta + "[Difficulty]\n"
	n := 2
	if sym.Thorough() {
		n = 3
	}
	names := []string{"l0", "l1", "l2"}
	for i := 0; i < n; i++ {
		k := sym.Choose(names[i], 5)
		if k == 4 {
			text += "SliderTickRate:2\n"
			continue
		}
		t, v := numText("v" + names[i])
		text += keys[k] + ":" + t + "\n"
		want[k] = clampRef(v)
		if k == 3 {
			arGiven = true
		}
		if k == 2 && !arGiven {
			want[3] = want[2]
		}
	}
	m := parse(text + points)
	got := [4]float64{m.Difficulty.GetHP(), m.Difficulty.GetCS(), m.Difficulty.GetOD(), m.Difficulty.GetAR()}
	for i := 0; i < 4; i++ {
		sym.Assert(sym.And(got[i] >= 0, got[i] <= 10), keys[i]+" is within 0..10")
		sym.AssertEqF(got[i], want[i], keys[i]+" is the clamped value of the file")
	}
	sym.Observe("od", m.Difficulty.GetOD())
	sym.Observe("ar", m.Difficulty.GetAR())
	f := difficulty.NewDifficulty(got[0], got[1], got[2], got[3])
	sym.AssertEqF(m.Difficulty.Preempt, f.Preempt, "derived values belong to the settings: preempt")
	sym.AssertEqF(m.Difficulty.CircleRadius, f.CircleRadius, "derived values belong to the settings: radius")
	sym.AssertEqF(m.Difficulty.Hit300, f.Hit300, "derived values belong to the settings: window 300")
}

// Approach rate follows overall difficulty exactly when the file has no
// approach rate, whatever the order of the lines.
//
//gosym:prop C03
//gosym:bound OD and AR lines in both orders, each at most twice, values in [0,10]
func ApproachDefault() {
	od, ar := stat("od"), stat("ar")
	odl := "OverallDifficulty:" + sym.FloatText(od) + "\n"
	arl := "ApproachRate:" + sym.FloatText(ar) + "\n"
	text := head + meta + "[Difficulty]\n"
	withAR := true
	switch sym.Choose("order", 5) {
	case 0:
		text += odl + arl
	case 1:
		text += arl + odl
	case 2:
		text += odl
		withAR = false
	case 3:
		text += odl + arl + odl
	case 4:
		text += "CircleSize:4\n" + arl + "HPDrainRate:3\n" + odl
	}
	m := parse(text + points)
	sym.AssertEqF(m.Difficulty.GetOD(), od, "OD is the value of the file")
	if withAR {
		sym.AssertEqF(m.Difficulty.GetAR(), ar, "AR given in the file is used")
	} else {
		sym.AssertEqF(m.Difficulty.GetAR(), od, "AR defaults to OD")
	}
}

func trimRef(s string) string { return strings.TrimSpace(s) }

// Every metadata line fills its own field with everything after the first
// colon, trimmed, and nothing else.
//
//gosym:prop C06
//gosym:bound values of up to 4 (thorough 6) printable characters, any of the metadata keys, optional blanks around the key
//gosym:cases key 8
func Metadata() {
	keys := []string{"Title", "TitleUnicode", "Artist", "ArtistUnicode", "Creator", "FileVersion", "Source", "Tags"}
	k := sym.Choose("key", 8)
	n := 4
	if sym.Thorough() {
		n = 6
	}
	val := sym.Bytes("value", n)
	l := keys[k]
	switch sym.Choose("blank", 3) {
	case 1:
		l = " " + l + "\t"
	case 2:
		l = l + " "
	}
	m := parse(head + meta + "[Metadata]\n" + l + ":" + val + "\nUnknownKey:zzz\n\n[General]\nTitle:other\n\n" + points)
	got := []string{m.Title, m.TitleUnicode, m.Artist, m.ArtistUnicode, m.Creator, m.Version, m.Source, m.Tags}
	want := []string{"t", "", "a", "", "c", "", "", ""}
	want[k] = trimRef(val)
	for i := range got {
		sym.AssertEqS(got[i], want[i], keys[i]+" is filled from its own line only")
	}
}

// Identifiers and the General section are read as numbers.
//
//gosym:prop C06
//gosym:bound identifiers of up to 18 digits, all values of the numeric General keys
func Identifiers() {
	a := sym.Int("map", -999999999999, 999999999999)
	b := sym.Int("set", -999999999999, 999999999999)
	mode := sym.Int("mode", 0, 3)
	pv := sym.Int("preview", -1, 100000000)
	sl := sym.F64("leniency")
	ver := sym.Int("version", 1, 200)
	audio := sym.Bytes("audio", 3)
	m := parse("osu file format v" + sym.IntText(ver) + "\n\n[General]\nMode: " + sym.IntText(mode) + "\nPreviewTime:" + sym.IntText(pv) + "\nStackLeniency: " + sym.FloatText(sl) + "\nAudioFilename: " + audio + "\n\n" + meta + "[Metadata]\nBeatmapID:" + sym.IntText(a) + "\nBeatmapSetID: " + sym.IntText(b) + "\n\n[Events]\n0,0,\"bg.jpg\",0,0\n2,100,200\n\n" + points)
	sym.AssertEqI(int(m.MapID), a, "map identifier")
	sym.AssertEqI(int(m.SetID), b, "set identifier")
	sym.AssertEqI(m.Mode, mode, "mode")
	sym.AssertEqI(int(m.PreviewTime), pv, "preview time")
	sym.AssertEqI(m.FileVersion, ver, "file version")
	sym.AssertEqF(m.StackLeniency, sym.IteF(sl != sl, 0, sl), "stack leniency")
	sym.AssertEqS(m.Audio, trimRef(audio), "audio file")
	sym.AssertEqS(m.Bg, "bg.jpg", "background file")
	sym.Assert(len(m.Pauses) == 1, "one break")
	sym.AssertEqF(m.Pauses[0].GetStartTime(), 100, "break start")
	sym.AssertEqF(m.Pauses[0].GetEndTime(), 200, "break end")
	sym.AssertEqF(m.Pauses[0].Length(), 100, "break length")
}

// Breaks and the background come from their lines in the Events section.
//
//gosym:prop C37
//gosym:bound 3 event lines of any of 10 kinds in any order, any break times, file names of up to 3 printable characters, also with a quote inside
//gosym:cases first 10
func Events() {
	type span struct{ a, b float64 }
	var want []span
	bg := ""
	text := "[Events]\n//Background and Video events\n"
	for i := 0; i < 3; i++ {
		k := 0
		if i == 0 {
			k = sym.Choose("first", 10)
		} else {
			k = sym.Choose(objNames[i]+".kind", 10)
		}
		a, b := sym.F64(objNames[i]+".start"), sym.F64(objNames[i]+".end")
		name := sym.Bytes(objNames[i]+".file", 3)
		for j := 0; j < len(name); j++ {
			sym.Assume(sym.And(name[j] != ',', sym.And(name[j] != '"', name[j] != ' ')))
		}
		at, bt := sym.FloatText(a), sym.FloatText(b)
		switch k {
		case 0:
			text += "2," + at + "," + bt + "\n"
			want = append(want, span{a, b})
		case 1:
			text += "Break, " + at + " ," + bt + ",extra\n"
			want = append(want, span{a, b})
		case 2:
			text += "0,0,\"" + name + "\",0,0\n"
			bg = name
		case 3:
			text += "Background, 0 , " + name + "\n"
			bg = name
		case 4:
			text += "2," + at + "\n"
		case 5:
			text += "Video,12,\"" + name + "\"\n"
		case 6:
			text += "//2," + at + "," + bt + "\n"
		case 7:
			text += "3," + at + ",1,2,3\n"
		case 9:
			text += "0,0,\"" + name + "\"x\".jpg\",0,0\n"
			bg = name + "x.jpg"
		case 8:
			text += "\n[General]\n2," + at + "," + bt + "\n0,0,\"" + name + "\"\n\n[Events]\n"
		}
	}
	m := parse(head + meta + text + "\n" + points)
	sym.AssertEqI(len(m.Pauses), len(want), "one pause per break line")
	for i, p := range m.Pauses {
		if i < len(want) {
			sym.AssertEqF(p.GetStartTime(), want[i].a, "start of a break")
			sym.AssertEqF(p.GetEndTime(), want[i].b, "end of a break")
			sym.AssertEqF(p.Length(), want[i].b-want[i].a, "length of a break")
		}
	}
	sym.AssertEqS(m.Bg, bg, "the last background line gives the file")
	sym.AssertEqI(len(m.HitObjects), 0, "events make no objects")
	sym.AssertEqS(m.Title, "t", "events change no metadata")
}

// A byte order mark, comment lines, blank lines and CR LF line ends do not
// change what is read.
//
//gosym:prop C06
//gosym:bound every combination of mark, line end, comments; values of 3 printable characters
func Layout() {
	val := sym.Bytes("value", 3)
	nl := "\n"
	if sym.Choose("crlf", 2) == 1 {
		nl = "\r\n"
	}
	c := ""
	switch sym.Choose("noise", 3) {
	case 1:
		c = "//Title:wrong" + nl + nl
	case 2:
		c = nl + "no separator" + nl
	}
	pre := ""
	if sym.Choose("bom", 2) == 1 {
		pre = "\xef\xbb\xbf"
	}
	m := parse(pre + "osu file format v9" + nl + c + "[Metadata]" + nl + c + "Title:t" + nl + "Creator:" + val + nl + c + "[TimingPoints]" + nl + c + "10,500" + nl)
	sym.AssertEqI(m.FileVersion, 9, "file version is read")
	sym.AssertEqS(m.Title, "t", "title is read")
	sym.AssertEqS(m.Creator, trimRef(val), "creator is read")
	sym.AssertEqF(m.Timings.GetPointAt(0).Time, 10, "timing point is read")
}

// Files without metadata or without timing points are refused.
//
//gosym:prop C06
//gosym:bound presence of title, artist, creator and timing points in every combination
func Corrupted() {
	text := head + "[Metadata]\nSource:s\nTags:x\n"
	some := false
	for _, k := range []string{"Title", "Artist", "Creator"} {
		if sym.Choose(k, 2) == 1 {
			text += k + ":v\n"
			some = true
		}
	}
	tp := sym.Choose("points", 2) == 1
	if tp {
		text += "[TimingPoints]\n0,500\n"
	}
	m, err := beatmap.ParseFromByte([]byte(text))
	sym.Assert((err == nil) == (some && tp), "refused exactly without metadata or timing points")
	sym.Assert((m != nil) == (err == nil), "either a map or an error")
}

const (
	kCircle = iota
	kSlider
	kSpinner
	kHold
)

// object returns one hit-object line; geometry is concrete.
func objectLine(i, kind int, time, typ string, dur int) string {
	x := 40 + 100*i
	pos := sym.IntText(x) + "," + sym.IntText(50+i)
	switch kind {
	case kCircle:
		return pos + "," + time + "," + typ + ",0,0:0:0:0:\n"
	case kSlider:
		return pos + "," + time + "," + typ + ",0,L|" + sym.IntText(x) + ":" + sym.IntText(150+i) + ",1,80\n"
	case kSpinner:
		return pos + "," + time + "," + typ + ",0," + sym.IntText(dur) + "\n"
	}
	return pos + "," + time + "," + typ + ",0," + sym.IntText(dur) + ":0:0:0:0:\n"
}

// Each hit-object line gives one object of its kind, in stable time order,
// numbered from zero, and the kinds are counted.
//
//gosym:prop C04
//gosym:bound 3 (thorough 4) object lines of any kind with any finite times in any order; fixed distinct positions
//gosym:cases k0 4 k1 4
//gosym:feas lite
func ObjectOrder() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	names := []string{"k0", "k1", "k2", "k3"}
	text := head + meta + diffs + points + "[HitObjects]\n"
	kinds := make([]int, n)
	times := make([]float64, n)
	ends := make([]int, n)
	flags := []int{1, 2, 8, 128}
	cnt := [4]int{}
	for i := 0; i < n; i++ {
		kinds[i] = sym.Choose(names[i], 4)
		times[i] = sym.F64In(names[i]+".t", -1e9, 1e9)
		ends[i] = sym.Int(names[i]+".e", -100000, 10000000)
		text += objectLine(i, kinds[i], sym.FloatText(times[i]), sym.IntText(flags[kinds[i]]), ends[i])
		cnt[kinds[i]]++
	}
	// the expected order, chosen first so that each path has one order
	rest := []int{}
	for i := 0; i < n; i++ {
		if kinds[i] != kHold {
			rest = append(rest, i)
		}
	}
	var perm []int
	for i := 0; len(rest) > 0; i++ {
		c := sym.Choose([]string{"p0", "p1", "p2", "p3"}[i], len(rest))
		x := rest[c]
		rest = append(append([]int{}, rest[:c]...), rest[c+1:]...)
		for _, y := range rest {
			if y < x {
				sym.Assume(times[x] < times[y])
			} else {
				sym.Assume(times[x] <= times[y])
			}
		}
		perm = append(perm, x)
	}
	m := parse(text)
	sym.AssertEqI(m.Circles, cnt[kCircle], "number of circles")
	sym.AssertEqI(m.Spinners, cnt[kSpinner], "number of spinners")
	sym.AssertEqI(m.Sliders, cnt[kSlider]+cnt[kHold], "number of sliders")
	sym.AssertEqI(len(m.HitObjects), len(perm), "one object per line")
	sym.Assume(len(m.HitObjects) == len(perm))
	types := []objects.Type{objects.CIRCLE, objects.SLIDER, objects.SPINNER}
	for i, o := range m.HitObjects {
		j := perm[i]
		sym.AssertEqI(o.GetID(), i, "objects are numbered in order")
		sym.AssertEqF(o.GetStartTime(), times[j], "objects are in stable time order")
		sym.Assert(o.GetType() == types[kinds[j]], "kind of the line")
		sym.AssertEqF32(o.GetStartPosition().X, float32(40+100*j), "x position of the line")
		sym.AssertEqF32(o.GetStartPosition().Y, float32(50+j), "y position of the line")
		if kinds[j] == kSpinner {
			sym.AssertEqF(o.GetEndTime(), float64(ends[j]), "spinner end time of the line")
		}
		if kinds[j] == kCircle {
			sym.AssertEqF(o.GetEndTime(), times[j], "circle ends when it starts")
		}
		sym.AssertEqF(o.GetDuration(), o.GetEndTime()-o.GetStartTime(), "duration is end minus start")
	}
}

// The length of a map is the latest object time, never below zero.
//
//gosym:prop C04
//gosym:bound 2 (thorough 3) object lines of any kind with any integer times in [-100000, 10000000] in file order
//gosym:cases k0 4
//gosym:feas lite
func MapLength() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	names := []string{"k0", "k1", "k2"}
	text := head + meta + diffs + points + "[HitObjects]\n"
	flags := []int{1, 2, 8, 128}
	length := 0
	prev := -100000
	for i := 0; i < n; i++ {
		k := sym.Choose(names[i], 4)
		t := sym.Int(names[i]+".t", -100000, 10000000)
		sym.Assume(t >= prev)
		prev = t
		e := sym.Int(names[i]+".e", -100000, 10000000)
		typ := sym.Int(names[i]+".typ", 0, 255)
		sym.Assume(typ&(1|2|8|128) == flags[k])
		text += objectLine(i, k, sym.IntText(t), sym.IntText(typ), e)
		l := t
		if k == kSpinner || k == kHold {
			l = e
		}
		length = sym.IteI(l > length, l, length)
	}
	m := parse(text)
	sym.AssertEqI(m.Length, length, "length is the last object time")
	sym.Observe("length", float64(m.Length))
}

// Positions and sounds of a line are kept for any coordinates.
//
//gosym:prop C04
//gosym:bound one circle, any finite coordinates, any type with the circle bit, any sound number
func CircleFields() {
	x, y := sym.F32("x"), sym.F32("y")
	t := sym.F64("t")
	typ := sym.Int("typ", 0, 1<<20)
	sym.Assume(typ&1 == 1)
	snd := sym.Int("sound", 0, 15)
	o := objects.CreateObject([]string{sym.Float32Text(x), sym.Float32Text(y), sym.FloatText(t), sym.IntText(typ), sym.IntText(snd), "0:0:0:0:"})
	sym.Assert(o != nil, "a circle is created")
	sym.Assert(o.GetType() == objects.CIRCLE, "circle bit wins over the others")
	sym.AssertEqF32(o.GetStartPosition().X, x, "x")
	sym.AssertEqF32(o.GetStartPosition().Y, y, "y")
	sym.AssertEqF32(o.GetEndPosition().X, x, "end x")
	sym.AssertEqF32(o.GetEndPosition().Y, y, "end y")
	sym.AssertEqF(o.GetStartTime(), t, "start time")
	sym.AssertEqF(o.GetEndTime(), t, "end time")
	sym.Assert(o.IsNewCombo() == (typ&4 != 0), "new combo bit")
	sym.AssertEqI(o.GetColorOffset(), (typ>>4)&7, "colour offset")
	sym.AssertEqI(len(o.GetSounds()), 1, "one sound")
	sym.AssertEqI(int(o.GetSounds()[0]), snd, "sound number")
	sym.AssertEqI(o.GetID(), -1, "not numbered yet")
}

// New-combo flags split the objects into combos.
//
//gosym:prop C05
//gosym:bound 4 (thorough 5) circles, sliders or spinners in time order with every combination of flag bits
//gosym:cases k0 3 k1 3
//gosym:merge all
//gosym:feas none
func Combos() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	names := []string{"k0", "k1", "k2", "k3"}
	text := head + meta + diffs + points + "[HitObjects]\n"
	kinds := []int{}
	typs := []int{}
	flags := []int{1, 2, 8}
	for i := 0; i < n; i++ {
		k := sym.Choose(names[i], 3)
		f := sym.Int(names[i]+".flags", 0, 127)
		typ := f&(4|16|32|64) | flags[k]
		kinds = append(kinds, k)
		typs = append(typs, typ)
		text += objectLine(i, k, sym.IntText(1000*i), sym.IntText(typ), 1000*i+500)
	}
	m := parse(text)
	sym.Assume(len(m.HitObjects) == n)
	num, set, hax := 1, 0, 0
	force := false
	for i, o := range m.HitObjects {
		nc := typs[i]&4 != 0
		start := nc
		if kinds[i] == kSpinner {
			start = false
			force = true
		} else {
			start = sym.Or(nc, force)
			force = false
		}
		set = sym.IteI(start, set+1, set)
		hax = sym.IteI(start, hax+1+(typs[i]>>4)&7, hax)
		num = sym.IteI(start, 1, num)
		sym.AssertEqI(comboNumber(o), num, "combo number counts from the start of the combo")
		sym.AssertEqI(o.GetComboSet(), set, "combo set counts the combos")
		sym.AssertEqI(o.GetComboSetHax(), hax, "skipped colours are added")
		sym.Assert(o.IsNewCombo() == sym.Or(nc, start), "an object starting a combo is marked")
		sym.AssertEqI(o.GetColorOffset(), (typs[i]>>4)&7, "colour offset of the line")
		num++
	}
}

func comboNumber(o objects.IHitObject) int {
	switch x := o.(type) {
	case *objects.Circle:
		return x.ComboNumber
	case *objects.Slider:
		return x.ComboNumber
	case *objects.Spinner:
		return x.ComboNumber
	}
	return -1
}

// A timing-point line with 2 to 8 columns: missing columns take defaults.
//
//gosym:prop C07
//gosym:bound integer time in [-1e9,1e9], any float64 beat length, all columns any integer in [-1e6, 1e6]
//gosym:cases cols 7
func PointColumns() {
	c := sym.Choose("cols", 7) + 2
	b := beatmap.NewBeatMap()
	t := sym.Int("time", -1000000000, 1000000000)
	bl := sym.F64("beat")
	if sym.Choose("beatint", 2) == 1 {
		i := sym.Int("ibeat", -10000, 100000)
		sym.Assume(bl == float64(i))
	}
	v := [8]int{}
	names := []string{"", "", "sig", "set", "idx", "vol", "uninh", "eff"}
	line := sym.IntText(t) + "," + sym.FloatText(bl)
	for i := 2; i < c; i++ {
		v[i] = sym.Int(names[i], -1000000, 1000000)
		line += "," + sym.IntText(v[i])
	}
	b.ParsePoint(line)
	p := b.Timings.GetPointAt(0)
	sym.Assert(b.Timings.HasPoints(), "point is stored")
	sym.AssertEqF(p.Time, float64(t), "time")
	sym.AssertEqF(p.GetRawBeatLength(), bl, "beat length")
	sym.AssertEqF(p.GetBaseBeatLength(), bl, "base beat length")
	sig, set, idx, vol := 4, 0, 1, 1.0
	inh, kiai, omit := false, false, false
	if c > 2 {
		sig = sym.IteI(v[2] == 0, 4, v[2])
	}
	if c > 3 {
		set = v[3]
	}
	if c > 4 {
		idx = v[4]
	}
	if c > 5 {
		vol = float64(v[5]) / 100
	}
	if c > 6 {
		inh = v[6] == 0
	}
	if c > 7 {
		kiai = v[7]&1 != 0
		omit = v[7]&8 != 0
	}
	sym.AssertEqI(p.Signature, sig, "signature")
	sym.AssertEqI(p.SampleSet, set, "sample set")
	sym.AssertEqI(p.SampleIndex, idx, "sample index")
	sym.AssertEqF(p.SampleVolume, vol, "volume")
	sym.Assert(p.Inherited == inh, "inherited")
	sym.Assert(p.Kiai == kiai, "kiai")
	sym.Assert(p.OmitFirstBarLine == omit, "first bar line")
}

// The BPM range covers exactly the uninherited points.
//
//gosym:prop C07
//gosym:bound 3 points with any beat length
func BPMRange() {
	b := beatmap.NewBeatMap()
	names := []string{"b0", "b1", "b2"}
	var bl [3]float64
	for i, n := range names {
		bl[i] = sym.F64(n)
		b.ParsePoint("0," + sym.FloatText(bl[i]))
	}
	any := false
	ismin, ismax := false, false
	for i := range bl {
		v := bl[i] >= 0
		any = sym.Or(any, v)
		bpm := 60000 / bl[i]
		sym.Assert(sym.Implies(v, b.MinBPM <= bpm || bpm < 0), "no point is below the minimum BPM")
		sym.Assert(sym.Implies(v, b.MaxBPM >= bpm), "no point is above the maximum BPM")
		ismin = sym.Or(ismin, sym.And(v, b.MinBPM == bpm))
		ismax = sym.Or(ismax, sym.And(v, b.MaxBPM == bpm))
	}
	sym.Assert(sym.Implies(any, ismin), "minimum BPM belongs to a point")
	sym.Assert(sym.Implies(any, sym.Or(ismax, b.MaxBPM == 0)), "maximum BPM belongs to a point")
	sym.Assert(sym.Implies(!any, sym.And(b.MinBPM > 1e300, b.MaxBPM == 0)), "without uninherited points the range is empty")
}
