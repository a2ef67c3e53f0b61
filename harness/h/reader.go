package h

import (
	"github.com/Wieku/gosu-pp/beatmap"

	"vharness/sym"
)

const wholeMap = head + meta + diffs + points + "[Events]\n2,10,20\n[HitObjects]\n" + good + "10,20,2000,2,0,L|100:20,1,80\n30,40,3000,8,0,4000\n"

// A source that fails is reported wherever it fails.
//
//gosym:prop C02
//gosym:bound a complete map with the failure after each of its bytes, and after the last one
//gosym:states 20000000
//gosym:unroll 1000
func FailingReader() {
	n := sym.Choose("position", len(wholeMap)+1)
	m, err := beatmap.ParseFromReader(&sym.Reader{Text: wholeMap[:n], Err: sym.ErrDevice})
	sym.Assert(err != nil, "a read failure is an error")
	sym.Assert(m == nil, "no map is built from a part of the file")
}

// The same with symbolic content before the failure.
//
//gosym:prop C02
//gosym:bound any 4 (thorough 7) printable characters before the failure, in any section of an otherwise complete map
//gosym:cases section 6
//gosym:feas lite
//gosym:states 1000000
func FailingReaderText() {
	n := 4
	if sym.Thorough() {
		n = 7
	}
	s := []string{"General", "Metadata", "Difficulty", "Events", "TimingPoints", "HitObjects"}[sym.Choose("section", 6)]
	text := wholeMap + "[" + s + "]\n" + sym.Bytes("text", n)
	if sym.Choose("line end", 2) == 1 {
		text += "\n"
	}
	m, err := beatmap.ParseFromReader(&sym.Reader{Text: text, Err: sym.ErrDevice})
	sym.Assert(err != nil, "a read failure is an error")
	sym.Assert(m == nil, "no map is built from a part of the file")
}

// A line too long to be read is an error or is read completely, never the end
// of the map.
//
//gosym:prop C02
//gosym:bound one line of 1000, 70000 or 11000000 characters at any place between the sections
//gosym:cases length 3
//gosym:unroll 1000
func LongLine() {
	l := []int{1000, 70000, 11000000}[sym.Choose("length", 3)]
	parts := []string{head, meta, diffs, points, "[HitObjects]\n", good, "10,20,2000,2,0,L|100:20,1,80\n", "30,40,3000,8,0,4000\n"}
	at := sym.Choose("place", len(parts)+1)
	text := ""
	for i := 0; i <= len(parts); i++ {
		if i == at {
			text += "//" + sym.Long(l) + "\n"
		}
		if i < len(parts) {
			text += parts[i]
		}
	}
	m, err := beatmap.ParseFromReader(&sym.Reader{Text: text})
	sym.Assert((m != nil) == (err == nil), "either a map or an error")
	if m != nil {
		sym.AssertEqI(len(m.HitObjects), 3, "nothing after the line is lost")
		sym.AssertEqS(m.Creator, "c", "nothing after the line is lost")
	}
	if l < 100000 {
		sym.Assert(err == nil, "lines of ordinary length are read")
	}
}

// What is read does not depend on the size of the pieces the source delivers.
//
//gosym:prop C02
//gosym:bound a map with symbolic title (3 characters) and object time, delivered from memory and from a source that returns short reads
//gosym:feas lite
func ShortReads() {
	title := sym.Bytes("title", 3)
	t := sym.F64("time")
	text := head + "[Metadata]\nTitle:" + title + "\nArtist:a\nCreator:c\n" + diffs + points + "[HitObjects]\n10,20," + sym.FloatText(t) + ",1,0\n"
	a, err := beatmap.ParseFromByte([]byte(text))
	sym.Assert(err == nil, "map is read from memory")
	b, err := beatmap.ParseFromReader(&sym.Reader{Text: text})
	sym.Assert(err == nil, "map is read from a source with short reads")
	sym.Assume(a != nil && b != nil)
	sym.AssertEqS(a.Title, b.Title, "same title")
	sym.AssertEqI(len(a.HitObjects), 1, "one object")
	sym.AssertEqI(len(b.HitObjects), 1, "one object")
	sym.AssertEqF(a.HitObjects[0].GetStartTime(), t, "time of the line")
	sym.AssertEqF(b.HitObjects[0].GetStartTime(), t, "time of the line")
}
