package h

import (
	"github.com/Wieku/gosu-pp/beatmap/difficulty"

	"vharness/sym"
)

type modName struct {
	mod         difficulty.Modifier
	short, full string
}

// modNames lists every mod in the order of its flag.
var modNames = []modName{
	{difficulty.NoFail, "NF", "NoFail"},
	{difficulty.Easy, "EZ", "Easy"},
	{difficulty.TouchDevice, "TD", "TouchDevice"},
	{difficulty.Hidden, "HD", "Hidden"},
	{difficulty.HardRock, "HR", "HardRock"},
	{difficulty.SuddenDeath, "SD", "SuddenDeath"},
	{difficulty.DoubleTime, "DT", "DoubleTime"},
	{difficulty.Relax, "RX", "Relax"},
	{difficulty.HalfTime, "HT", "HalfTime"},
	{difficulty.Nightcore, "NC", "Nightcore"},
	{difficulty.Flashlight, "FL", "Flashlight"},
	{difficulty.Autoplay, "AT", "Autoplay"},
	{difficulty.SpunOut, "SO", "SpunOut"},
	{difficulty.Relax2, "AP", "Relax2"},
	{difficulty.Perfect, "PF", "Perfect"},
	{difficulty.Key4, "K4", "Key4"},
	{difficulty.Key5, "K5", "Key5"},
	{difficulty.Key6, "K6", "Key6"},
	{difficulty.Key7, "K7", "Key7"},
	{difficulty.Key8, "K8", "Key8"},
	{difficulty.FadeIn, "FI", "FadeIn"},
	{difficulty.Random, "RN", "Random"},
	{difficulty.Cinema, "CN", "Cinema"},
	{difficulty.Target, "TG", "Target"},
	{difficulty.Key9, "K9", "Key9"},
	{difficulty.KeyCoop, "K0", "KeyCoop"},
	{difficulty.Key1, "K1", "Key1"},
	{difficulty.Key3, "K3", "Key3"},
	{difficulty.Key2, "K2", "Key2"},
	{difficulty.ScoreV2, "V2", "ScoreV2"},
	{difficulty.LastMod, "LM", "LastMod"},
	{difficulty.Daycore, "DC", "Daycore"},
}

// impliedRef adds the mods that come with others.
func impliedRef(m int) int {
	m |= sym.IteI(has(m, nc), dt, 0)
	m |= sym.IteI(has(m, pf), sd, 0)
	m |= sym.IteI(has(m, dc), ht, 0)
	return m
}

// listed says whether mod i of m is written: a mod that another one implies
// is left out.
func listed(m, i int) bool {
	b := 1 << i
	switch b {
	case dt:
		return m&b != 0 && m&nc == 0
	case sd:
		return m&b != 0 && m&pf == 0
	case ht:
		return m&b != 0 && m&dc == 0
	}
	return m&b != 0
}

func modText(m int) {
	s := difficulty.Modifier(m).String()
	sym.AssertEqI(int(difficulty.ParseMods(s)), impliedRef(m), "writing and parsing gives the same mods")
	want := ""
	full := []string{}
	for i, n := range modNames {
		if listed(m, i) {
			want += n.short
			full = append(full, n.full)
		}
	}
	sym.AssertEqS(s, want, "acronyms of the active mods in flag order")
	got := difficulty.Modifier(m).StringFull()
	sym.AssertEqI(len(got), len(full), "one full name per acronym")
	for i := range full {
		if i < len(got) {
			sym.AssertEqS(got[i], full[i], "full names in the order of the acronyms")
		}
	}
}

// Writing a combination and parsing it back gives the combination.
//
//gosym:prop C18
//gosym:bound every combination within each window of 8 (thorough 10) consecutive mod flags
//gosym:cases window 6
//gosym:sec 300
//gosym:states 1000000
//gosym:merge none
func ModWindows() {
	n := 8
	if sym.Thorough() {
		n = 10
	}
	w := sym.Choose("window", 6)
	at := []int{0, 6, 12, 18, 24, 20}[w]
	if at+n > 32 {
		at = 32 - n
	}
	modText(sym.Int("bits", 0, 1<<n-1) << at)
}

// Mods that imply others round-trip together with any further mod.
//
//gosym:prop C18
//gosym:bound every combination of SuddenDeath, DoubleTime, HalfTime, Nightcore, Perfect and Daycore with any one further flag
//gosym:cases other 32
func ModImplied() {
	m := 1 << sym.Choose("other", 32)
	m |= sym.Int("implied", 0, 1<<32-1) & (sd | dt | ht | nc | pf | dc)
	modText(m)
}

// Parsing text gives the mods of its two-character pieces and never fails.
//
//gosym:prop C18
//gosym:bound every text of up to 3 pieces (thorough 4) with any ASCII characters, one of them cut to one character
//gosym:cases n 6 a 3
//gosym:merge all
//gosym:sec 300
func ModParse() {
	n := sym.Choose("n", 6)
	s := sym.Bytes("text", n)
	// texts around a known acronym
	switch sym.Choose("a", 3) {
	case 1:
		s = "HD" + s
	case 2:
		s = s + "NC"
	}
	got := difficulty.ParseMods(s)
	want := 0
	for i := 0; i+1 < len(s); i += 2 {
		for _, k := range modNames {
			want |= sym.IteI(sym.And(s[i] == k.short[0], s[i+1] == k.short[1]), int(k.mod), 0)
		}
	}
	sym.AssertEqI(int(got), impliedRef(want), "mods of the known acronyms, others ignored")
}

// Text that is not ASCII is ignored and does not fail.
//
//gosym:prop C18
//gosym:bound characters of 1 to 4 bytes, invalid bytes and any ASCII character in all orders of 3
//gosym:cases c0 7
func ModUnicode() {
	parts := []string{"é", "漢", "😀", "\xff", "\xe2\x82", "", "H"}
	s := ""
	for _, n := range []string{"c0", "c1", "c2"} {
		c := sym.Choose(n, 7)
		s += parts[c]
		if c == 6 {
			s += sym.Bytes(n+".b", 1)
		}
	}
	m := difficulty.ParseMods(s)
	sym.Assert(int64(m) >= 0 && int64(m) < 1<<32, "only known mods")
	t := difficulty.ParseMods(s + s)
	sym.Assert(int64(t) >= 0, "only known mods")
}
