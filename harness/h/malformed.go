package h

import (
	"github.com/Wieku/gosu-pp/beatmap"

	"vharness/sym"
)

// good is a circle that every malformed-line harness also puts into the file.
const good = "77,88,1000,1,0,0:0:0:0:\n"

func eitherMapOrError(text string) *beatmap.BeatMap {
	m, err := beatmap.ParseFromReader(&sym.Reader{Text: text})
	sym.Assert((m != nil) == (err == nil), "either a map or an error")
	sym.Assert(err == nil, "a malformed line does not make the file unreadable")
	sym.Assume(m != nil && err == nil)
	return m
}

// keepsGood checks that the well-formed circle was read.
func keepsGood(m *beatmap.BeatMap) {
	n := 0
	for i, o := range m.HitObjects {
		sym.AssertEqI(o.GetID(), i, "objects are numbered")
		n += sym.IteI(sym.And(sym.And(o.GetStartTime() == 1000, o.GetStartPosition().X == 77), o.GetStartPosition().Y == 88), 1, 0)
	}
	sym.Assert(n >= 1, "well-formed lines are still read")
}

// badPaths are control-point texts that are incomplete or strange.
var badPaths = []string{"", "L|x:y", "L|5", "L", "B|300:60|300:60|200:90", "P|90:90", "P|90:90|50:50", "C|10:10", "Z|1:1", "|", "L||:", "L|1:2:3|4", "L|NaN:5", "B|1:1|2:2|1e30:4", "P|1:2|-1e20:9"}

// A hit-object line with any number of fields, any numbers and strange text in
// up to two of them never crashes and does not disturb the others.
//
//gosym:prop C01
//gosym:bound one hit-object line of each kind (or no kind) with 1..10 fields; x, time any float64 (fixed for sliders), length one of 250.5, 0, -60, 1; flag bits any; repeat count any integer in [-3,3]; one (thorough two) fields empty, not numeric, out of range or of an odd shape; before or after a well-formed line
//gosym:cases fields 10 kind 5
//gosym:unroll 400
//gosym:feas lite
//gosym:states 20000000
func MalformedObject() {
	nf := sym.Choose("fields", 10) + 1
	kind := sym.Choose("kind", 5)
	bad1 := sym.Choose("bad field", nf+1)
	bad2 := bad1
	if sym.Thorough() {
		bad2 = sym.Choose("bad field 2", nf+1)
	}
	flags := []int{1, 2, 8, 128, 0}[kind]
	field := func(i int) string {
		bad := i == bad1 || i == bad2
		switch i {
		case 0:
			if bad {
				return []string{"", "x"}[sym.Choose("bad x", 2)]
			}
			if kind == kSlider {
				return "100"
			}
			return sym.FloatText(sym.F64("x"))
		case 1:
			if bad {
				return []string{"", "NaN", "1e60"}[sym.Choose("bad y", 3)]
			}
			return "50"
		case 2:
			if bad {
				return []string{"", "x", "Inf", "12:30"}[sym.Choose("bad time", 4)]
			}
			if kind == kSlider {
				return "2000"
			}
			return sym.FloatText(sym.F64("time"))
		case 3:
			if bad {
				return []string{"", "x", "1.5", "-1", "99999999999999999999"}[sym.Choose("bad type", 5)]
			}
			return sym.IntText(sym.Int("type", 0, 127)&(4|16|32|64) | flags)
		case 4:
			if bad {
				return []string{"", "x", "-4"}[sym.Choose("bad sound", 3)]
			}
			return "2"
		case 5:
			if kind == kSlider {
				if bad {
					return badPaths[sym.Choose("bad path", len(badPaths))]
				}
				return "L|300:100"
			}
			if bad {
				return []string{"", "x", "Inf", ":", "NaN:5"}[sym.Choose("bad end", 5)]
			}
			return sym.FloatText(sym.F64("end"))
		case 6:
			if bad {
				return []string{"", "x", "2.5", "99999999999999999999", "-9223372036854775808"}[sym.Choose("bad repeats", 5)]
			}
			return sym.IntText(sym.Choose("repeat count", 7) - 3)
		case 7:
			if bad {
				return []string{"", "x", "NaN", "Inf", "1e30"}[sym.Choose("bad length", 5)]
			}
			return []string{"250.5", "0", "-60", "1"}[sym.Choose("length", 4)]
		case 8:
			if bad {
				return []string{"", "1", "1|2|3|4|5|6", "x|"}[sym.Choose("bad edges", 4)]
			}
			return "1|2"
		}
		return "0:0:0:0:"
	}
	line := ""
	for i := 0; i < nf; i++ {
		if i > 0 {
			line += ","
		}
		line += field(i)
	}
	text := head + meta + diffs + points + "[HitObjects]\n" + good + line + "\n"
	keepsGood(eitherMapOrError(text))
}

// Event lines with any number of fields never crash; breaks need both times.
//
//gosym:prop C01
//gosym:bound one event line of each kind with 2..5 fields, times any float64, empty or text
//gosym:feas lite
//gosym:states 20000000
func MalformedEvent() {
	nf := sym.Choose("fields", 4) + 2
	line := []string{"0", "Background", "2", "Break", "Sprite", ""}[sym.Choose("event", 6)]
	names := []string{"", "f1", "f2", "f3", "f4"}
	for i := 1; i < nf; i++ {
		switch sym.Choose(names[i], 3) {
		case 0:
			line += "," + sym.FloatText(sym.F64(names[i]+".v"))
		case 1:
			line += ",x"
		case 2:
			line += ","
		}
	}
	text := head + meta + diffs + "[Events]\n" + line + "\n2,100,200\n" + points + "[HitObjects]\n" + good
	m := eitherMapOrError(text)
	keepsGood(m)
	n := len(m.Pauses)
	sym.Assert(n >= 1 && m.Pauses[n-1].GetStartTime() == 100 && m.Pauses[n-1].GetEndTime() == 200, "well-formed breaks are still read")
}

// Timing-point lines with any number of fields and any text never crash.
//
//gosym:prop C01
//gosym:bound one timing-point line with 2..10 fields, each any number, empty or text, before a well-formed point and a slider
//gosym:cases fields 9
//gosym:feas lite
//gosym:states 1000000
func MalformedPoint() {
	nf := sym.Choose("fields", 9) + 2
	bad := sym.Choose("bad field", nf+1)
	line := ""
	names := []string{"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9"}
	for i := 0; i < nf; i++ {
		if i > 0 {
			line += ","
		}
		switch {
		case i == bad:
			line += []string{"", "x", "99999999999999999999", "NaN"}[sym.Choose("bad", 4)]
		case i == 1:
			line += sym.FloatText(sym.F64("beat"))
		default:
			line += sym.IntText(sym.Int(names[i], -1000000, 1000000))
		}
	}
	text := head + meta + diffs + "[TimingPoints]\n" + line + "\n5,300\n[HitObjects]\n" + good
	m := eitherMapOrError(text)
	keepsGood(m)
	sym.Assert(m.Timings.HasPoints(), "well-formed points are still read")
}

// Difficulty settings that are missing, zero, negative, huge or not numbers
// never crash or hang the reading of sliders.
//
//gosym:prop C01
//gosym:bound any two values of slider multiplier and tick rate (any float64, missing, text), beat lengths of any value, one slider of length 1.2 and 1 or 2 spans, up to 4 ticks per span
//gosym:cases mult 3 rate 3
//gosym:unroll 40
//gosym:symunroll 4
//gosym:sec 40
//gosym:feas lite
//gosym:states 1000000
func MalformedSpeed() {
	text := head + meta + "[Difficulty]\n"
	switch sym.Choose("mult", 3) {
	case 0:
		text += "SliderMultiplier:" + sym.FloatText(sym.F64("sm")) + "\n"
	case 1:
		text += "SliderMultiplier:x\n"
	}
	switch sym.Choose("rate", 3) {
	case 0:
		text += "SliderTickRate:" + sym.FloatText(sym.F64("tr")) + "\n"
	case 1:
		text += "SliderTickRate:x\n"
	}
	text += "[TimingPoints]\n0," + sym.FloatText(sym.F64("beat")) + ",4,1,1,100," + []string{"1", "0"}[sym.Choose("inherited", 2)] + "\n[HitObjects]\n" + good
	text += "10,10,2000,2,0,L|20:10," + []string{"1", "2"}[sym.Choose("spans", 2)] + ",1.2\n"
	keepsGood(eitherMapOrError(text))
}

// Any short line in any section is survived.
//
//gosym:prop C01
//gosym:bound one line of 3 (thorough 5) printable characters in each section, before the first section and in an unknown one
//gosym:cases section 8
//gosym:feas lite
//gosym:states 1000000
func AnyLine() {
	n := 3
	if sym.Thorough() {
		n = 5
	}
	line := sym.Bytes("line", n)
	text := head
	for i, s := range []string{"", "General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects", "Colours"} {
		if s != "" {
			text += "[" + s + "]\n"
		}
		if i == sym.Choose("section", 8) {
			text += line + "\n"
		}
	}
	text += meta + diffs + points + "[HitObjects]\n" + good
	keepsGood(eitherMapOrError(text))
}

// Incomplete files are refused with an error.
//
//gosym:prop C01
//gosym:bound files of 0..12 (thorough 20) printable characters, alone or after a section header
func TinyFile() {
	n := sym.Choose("n", 13)
	text := sym.Bytes("text", n)
	if sym.Choose("header", 2) == 1 {
		text = "[Metadata]\n" + text
	}
	m, err := beatmap.ParseFromByte([]byte(text))
	sym.Assert((m != nil) == (err == nil), "either a map or an error")
	sym.Assert(m == nil, "a file without timing points is refused")
}
