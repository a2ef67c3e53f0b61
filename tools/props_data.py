BASE_NOTE = ("Every value of the symbolic inputs within the bounds printed in the evidence is covered by solver verdicts over the real code's SSA; "
  "counterexamples are reported only after they fail natively. Trusts go/ssa, the library models, and the solvers; "
  "queries left open or cut short are listed in the evidence and outside the claim.")
NOT_YET = []
NA = {
 "C33": "decoding happens inside golang.org/x/text (transform.Reader over state machines and lookup tables), which is outside /repo; the encoding treats it as a model, so a solver verdict would be about the model and not about the decoder.",
 "C34": "the reference is the official osu! implementation (and its published values), which is not available here and is not part of /repo: there is nothing to assert against symbolically.",
}

prop("C01", "Parsing arbitrary text never crashes or hangs",
 "Parsing any byte sequence as a beatmap terminates and returns either a beatmap or an error, never both and never a crash, however short, malformed or out of range the lines of any section are. Lines that cannot be understood are skipped or read with default values.",
 INP, "every text: lines of every section with any number of fields, any numeric field values (negative, zero, huge, NaN), any control-point text",
 FEW + "no test contains a malformed line, so no field-count, repeat-count or number-format guard is exercised.",
 [PARSER, "beatmap/objects/util.go", "beatmap/objects/slider.go", "beatmap/pause.go", "beatmap/beatmap.go"],
 [("section dispatch and field tokenizer", "beatmap/parser.go:ParseFromReader"), ("object construction", "beatmap/objects/hitobject.go:CreateObject")], ["ParseFromByte", "ParseFromReader"])

prop("C02", "A failing reader is reported, never read as a shorter map",
 "If the source fails part-way, or contains a line too long to be read, parsing returns an error; it never returns a beatmap built from the part that was read. When reading succeeds the result does not depend on how the source splits its data into chunks.",
 ["inputs", "fault_sequences"], "every position in the text at which the reader can fail, and over-long lines at every position",
 FEW + "no test uses a failing reader.",
 [PARSER, "files/utf.go"], [("scan loop", "beatmap/parser.go:ParseFromReader"), ("line buffer", "files/utf.go:NewScannerBuf")])

prop("C03", "Difficulty settings are clamped to 0..10 and AR defaults to OD",
 "After parsing, drain, circle size, overall difficulty and approach rate each equal the file's value clamped to 0..10 (not-a-number counts as 0, a missing line as 5), for lines in any order. Approach rate equals overall difficulty exactly when the file has no approach-rate line.",
 INP, "any order, repetition and omission of the four lines, any float64 or non-numeric values",
 FEW + "both maps have all four lines, in one order, with values inside the range.",
 [PARSER, "beatmap/difficulty/difficulty.go"], [("difficulty section", "beatmap/parser.go:parseDifficulty")])

prop("C04", "One hit object per object line, in stable time order",
 "Every circle, slider and spinner line yields exactly one object of that kind with the line's position, time and (for spinners) end time; hold lines yield none but count as sliders. Objects are ordered by start time, equal times keep file order, and are numbered consecutively from zero. The circle/slider/spinner counts and the map length (the latest object time in the file, spinners and holds by their end) match the lines.",
 INP, "any number of object lines of any kind and type bits in any time order, any times and coordinates",
 FEW + "object order, ids, counts and length are not asserted, and both maps are already in order.",
 [PARSER, "beatmap/objects/hitobject.go", "beatmap/objects/util.go"], [("object collection and sort", "beatmap/parser.go:ParseFromReader"), ("kind dispatch", "beatmap/objects/hitobject.go:CreateObject")])

prop("C05", "Combos: new-combo flags, spinners and colour skips",
 "A new combo starts at every non-spinner object that carries the new-combo flag or is the first non-spinner after a spinner; such an object is marked as new combo, restarts the combo number at 1, advances the combo index by one and the colour index by one plus its skipped colours. All other objects, spinners included, continue the current combo with the next number.",
 ["inputs", "histories"], "every sequence of object kinds and flag bits",
 "No test looks at combo data at all.",
 [PARSER], [("combo pass", "beatmap/parser.go:ParseFromReader")])

prop("C06", "Metadata and general fields are routed, split and trimmed correctly",
 "Each metadata or general line sets its own field only, to everything after the first colon with surrounding blanks removed, and only inside its own section; unknown keys, comment lines, lines without a separator, a byte order mark and CRLF line ends change nothing. A file with no title, artist and creator, or without timing points, is refused with an error and no map.",
 INP, "any key with any value text, any combination of line ends, comments and byte order mark",
 "Two tests compare four fields of one map; no value contains a colon or blanks, and no file is refused.",
 [PARSER], [("key/value split", "beatmap/parser.go:tokenizeN"), ("metadata routing", "beatmap/parser.go:parseMetadata")])

prop("C07", "Timing-point lines: column defaults, effect bits and BPM range",
 "A timing-point line sets time, beat length, signature (4 when absent or zero), sample set, sample index (1 when absent), volume (percent, 1 when absent), inherited (only when the column is present and zero) and the kiai and omit-first-bar bits from its columns. The map's minimum and maximum BPM are those of the points whose beat length is a non-negative number.",
 INP, "lines with 2 to 8 columns and any numbers in them",
 "No test looks at timing points except through star ratings.",
 ["beatmap/beatmap.go"], [("column parsing", "beatmap/beatmap.go:ParsePoint")])

prop("C08", "The active timing point is the last one that has started",
 "Looking up a time returns the last point, in stable time order, whose time is not after the queried time, or the first point when the query lies before all of them, regardless of the order in which points were added.",
 ["inputs", "histories"], "every order of adding points, equal times included, and every query time",
 "No test queries the timing table.",
 ["beatmap/timing/timing.go"], [("stable sort and binary search", "beatmap/timing/timing.go:GetPointAt")])

prop("C09", "Inherited points keep the base tempo and clamp their multiplier",
 "An inherited point uses the base beat length of the preceding point (in time order) and a slider-velocity ratio that is its negated beat length divided by 100 and clamped to 0.1..10; points with a non-negative or not-a-number beat length have ratio 1. Its effective beat length is base times ratio, and slider velocity and tick spacing derive from the slider multiplier, tick rate and that beat length alone.",
 INP, "every sequence of inherited and uninherited points with any beat lengths, slider multipliers and tick rates",
 "Only seen through star ratings of two maps.",
 ["beatmap/timing/timing.go"], [("inheritance pass", "beatmap/timing/timing.go:FinalizePoints"), ("ratio clamp", "beatmap/timing/timing.go:GetRatio"), ("velocity", "beatmap/timing/timing.go:GetVelocity")])

prop("C10", "Slider time span and position over repeats",
 "A slider lasts its path length times its number of spans divided by the velocity of the timing point active at its start. Its position is the path start at the start time, stays at the ends outside its time span, runs forward on even spans and backward on odd ones, and its end position is the path end for an odd and the path start for an even number of spans.",
 INP, "every start time, span count, timing point and query time",
 "Only seen through star ratings of two maps.",
 ["beatmap/objects/slider.go"], [("timing", "beatmap/objects/slider.go:SetTiming"), ("position", "beatmap/objects/slider.go:PositionAt")])

prop("C11", "Slider score points: ticks, repeats and tail",
 "A slider with n spans has n-1 repeat points at the span boundaries, one tail point at the later of the slider's middle and 36 ms before its end, and on every span the same ticks, one per tick distance along the path measured from the path start, leaving out those within 10 ms of the path's end. Score points are in time order and lie within the slider's time span; a timing point whose beat length is not a number has no ticks.",
 INP, "every tick rate, slider multiplier, velocity ratio, span count, path length and start time",
 "Only the total combo of the star-rating maps depends on it, and it is not asserted.",
 ["beatmap/objects/slider.go", "beatmap/timing/timing.go"], [("tick generation", "beatmap/objects/slider.go:SetTiming")])

prop("C12", "A slider path is connected, starts at the head and has the given length",
 "The path built from any control points starts at the first control point, its consecutive pieces join without gaps, it passes through the ends of its segments, and for every curve type it is cut or extended along its last piece so that its length is the requested pixel length (unless the control points span no length, which gives an empty path).",
 INP, "every curve type, control-point list and requested length",
 "Only seen through star ratings of two maps.",
 ["math/curves/multicurve.go", "math/curves/approximation.go", "math/curves/bezierapproximator.go", "math/curves/cirarc.go", "math/curves/catmull.go"],
 [("path construction", "math/curves/multicurve.go:NewMultiCurve"), ("trimming", "math/curves/multicurve.go:NewMultiCurveT")])

prop("C13", "Points on a path: endpoints, clamping and arc length",
 "Evaluating a path at 0 or below gives its start and at 1 or above its end; in between it gives the point at that fraction of the path's length, so it always lies on a piece of the path. Evaluation never crashes, for any parameter including not-a-number and for empty paths.",
 INP, "every polyline path and every parameter",
 "Only seen through star ratings of two maps.",
 ["math/curves/multicurve.go", "math/curves/linear.go", "math/vector/vector2f.go"], [("arc-length lookup", "math/curves/multicurve.go:PointAt")])

prop("C14", "Stack heights follow the stacking rules of the file version",
 "Stack heights are computed for no mod, Easy and Hard Rock independently, each with that difficulty's approach time times the stack leniency, by the backwards stacking pass for file version 6 and later and by the forwards pass for older files. Spinners never stack.",
 INP, "every sequence of objects, positions, times, leniency, approach rate and file version",
 "Only seen through star ratings of two maps, both of version 6 or later.",
 ["beatmap/stackleniency.go"], [("new stacking", "beatmap/stackleniency.go:applyNewStacking"), ("old stacking", "beatmap/stackleniency.go:applyOldStacking")])

prop("C15", "Stacked positions: offset by height, mirrored under Hard Rock",
 "An object's stacked position is its position shifted up-left on both axes by a tenth of the circle radius per stack level, using the stack height of the mods asked for; under Hard Rock the vertical coordinate is mirrored about the playfield first. Asking for one mod never uses another mod's stack, and start, end and timed positions agree.",
 INP, "every position, stack height, circle size and mod combination",
 "Only seen through star ratings with one mod set at a time.",
 ["beatmap/objects/baseobject.go", "beatmap/objects/hitobject.go", "beatmap/stackleniency.go"], [("position modification", "beatmap/objects/baseobject.go:modifyPosition"), ("stack offset", "beatmap/stackleniency.go:processStacking")])

prop("C16", "Difficulty state depends only on its settings, not on their history",
 "After any sequence of changes to settings, mods and custom speed, a difficulty object is identical to a fresh one given the final settings; setting mods or speed never changes the stored base settings.",
 ["histories", "inputs"], "every sequence of setter calls with any values",
 "Tests set mods once on a parsed difficulty.",
 ["beatmap/difficulty/difficulty.go"], [("recalculation", "beatmap/difficulty/difficulty.go:calculate")])

prop("C17", "Derived difficulty values follow the game's formulas and are monotone",
 "Circle radius, approach time, hit windows, spinner ratio, speed and the speed-adjusted approach rate and overall difficulty follow the piecewise-linear game formulas, with Easy halving and Hard Rock raising the settings (capped at 10) before the formulas and time mods dividing durations. Higher settings never give larger windows, radius or approach time, and the 300 window never exceeds the 100 window, which never exceeds the 50 window.",
 INP, "all settings in 0..10, all mod combinations, all positive custom speeds",
 "Tests compare star and pp values for three mod settings of one map.",
 ["beatmap/difficulty/difficulty.go"], [("formulas", "beatmap/difficulty/difficulty.go:calculate"), ("piecewise rate", "beatmap/difficulty/difficulty.go:DifficultyRate")])

prop("C18", "Mod acronyms round-trip and parsing them never crashes",
 "Writing a mod combination as acronyms and parsing the text back gives the same combination (with the implied mods Nightcore+DoubleTime, Daycore+HalfTime and Perfect+SuddenDeath completed), each acronym parses to its own mod, unknown acronyms are ignored, and parsing never crashes for any text. The full-name list names the same mods in the same order as the acronym text.",
 INP, "all subsets of the 32 mods and all texts",
 "No test parses or prints mods.",
 ["beatmap/difficulty/mods.go"], [("printing", "beatmap/difficulty/mods.go:String"), ("parsing", "beatmap/difficulty/mods.go:ParseMods")])

prop("C19", "Mod compatibility rejects exactly the contradictory combinations",
 "A combination is rejected exactly when it has Target, both Easy and Hard Rock, a speed-up with a slow-down, NoFail with SuddenDeath or Perfect, Relax with Autopilot, Relax or Autopilot with SuddenDeath, Perfect, Autoplay or NoFail, or Autopilot with SpunOut.",
 INP, "all combinations of mod bits",
 "No test calls it.", ["beatmap/difficulty/mods.go"], [("compatibility rules", "beatmap/difficulty/mods.go:Compatible")])

prop("C20", "Score multiplier is the product of the active mods' factors",
 "The score multiplier is the product of the factors of the active mods (NoFail 0.5 except with ScoreV2, Easy 0.5, HalfTime 0.3, Hidden 1.06, Hard Rock 1.06 or 1.10 with ScoreV2, DoubleTime 1.12 or 1.20 with ScoreV2, Flashlight 1.12, SpunOut 0.9) and zero with Relax or Autopilot; other mods do not change it.",
 INP, "all combinations of mod bits",
 "No test calls it.", ["beatmap/difficulty/mods.go"], [("multiplier", "beatmap/difficulty/mods.go:GetScoreMultiplier")])

prop("C21", "Step-by-step star ratings equal the ratings of every prefix",
 "The list of successive attributes has one entry per object, entry i equals the attributes computed for the first i+1 objects alone (from the second entry on; the first has only its object counts), and the last entry equals the attributes of the whole list. The variants with peaks return the same attributes as those without.",
 ["inputs", "histories"], "every list of objects, mods and settings",
 "Tests call only the whole-map calculation; the step calculation is only benchmarked.",
 ["performance/osu/difficulty.go", "performance/osu/skills/skill.go"], [("step loop", "performance/osu/difficulty.go:calculateStep"), ("running skill state", "performance/osu/skills/skill.go:Process")])

prop("C22", "Strain peaks have one entry per section and agree between entry points",
 "The peaks from the peak calculation equal those returned with the single and with the step calculation; aim, speed, total and (with Flashlight) flashlight peaks have equal lengths, one per started 400 ms section from the second object on, no peak is negative, and computing a difficulty value never changes the recorded peaks.",
 ["inputs", "histories"], "every list of objects, mods and settings",
 "No test asks for peaks.",
 ["performance/osu/difficulty.go", "performance/osu/skills/skill.go"], [("peak collection", "performance/osu/difficulty.go:getPeaks"), ("sections", "performance/osu/skills/skill.go:processInternal")])

prop("C23", "Star calculation is pure and repeatable",
 "Star, step and peak calculations never modify the objects, the difficulty or any shared state, so repeating a calculation, or interleaving calculations with different mods over the same objects, always gives the same results.",
 ["inputs", "histories"], "every list of objects, every sequence of calculations with any mods",
 "Each test parses its own map and calculates once.",
 ["performance/osu/difficulty.go", "performance/osu/preprocessing/lazyslider.go", "performance/osu/preprocessing/objects.go"], [("slider decoration", "performance/osu/preprocessing/lazyslider.go:NewLazySlider")])

prop("C24", "Star calculation is total; object counts and combo are right",
 "Star, step and peak calculations never crash for any parsed list of objects, the empty list included, which gives zero attributes. Circle, slider, spinner and object counts equal those of the list and the maximum combo is one per object plus one per slider score point.",
 INP, "every list of objects, mods and settings",
 "Tests use two maps with hundreds of objects and assert no counts.",
 ["performance/osu/difficulty.go"], [("counting", "performance/osu/difficulty.go:addObjectToAttribs")])

prop("C25", "Only difficulty-changing mods influence the star rating",
 "Mods outside Hard Rock, Easy, DoubleTime, Nightcore, HalfTime, Daycore, Flashlight and Relax never change the attributes. Relax gives zero speed rating and changes nothing else but the total; without Flashlight the flashlight rating is zero, and with it only the flashlight rating and the total change.",
 ["inputs", "configurations"], "every list of objects and every combination of mods",
 "Tests calculate stars for no mod, DoubleTime and Hard Rock only.",
 ["performance/osu/difficulty.go", "beatmap/difficulty/mods.go"], [("rating combination", "performance/osu/difficulty.go:getStarsFromRawValues")])

prop("C26", "Performance values do not depend on the calculator's history",
 "A performance calculation gives the same results on a fresh calculator and on one used before with any other score, attributes and mods; the attributes and difficulty passed in are not modified and the returned value equals the calculator's stored results.",
 ["histories", "inputs"], "every pair of consecutive calculations",
 "Every test uses a fresh calculator once.",
 ["performance/osu/pp.go"], [("state set-up", "performance/osu/pp.go:PPv2x")])

prop("C27", "Performance values of valid scores are finite and not negative",
 "For every valid score (non-negative hit counts adding up to the object count, combo between 0 and the maximum) on finite non-negative attributes with a slider factor of at most 1, all performance components are finite and not negative, Relax gives zero accuracy value, and without Flashlight the flashlight value is zero.",
 INP, "all hit counts, combos, attributes, mods and settings of a valid score",
 "Tests use full-combo perfect scores only.",
 ["performance/osu/pp.go"], [("components", "performance/osu/pp.go:computeAimValue")])

prop("C28", "A better score never gives less performance",
 "With everything else equal, on a valid score with a slider factor of at most 1, a larger combo never lowers any performance component or the total, and turning a great into an ok, a meh or a miss never raises any of them.",
 INP, "all valid scores and all such single changes",
 "Tests use full-combo perfect scores only.",
 ["performance/osu/pp.go"], [("miss penalty", "performance/osu/pp.go:calculateEffectiveMissCount"), ("combo scaling", "performance/osu/pp.go:computeAimValue")])

prop("C29", "Negative combo or great count mean full combo and the remaining hits",
 "A negative combo gives the same result as the attributes' maximum combo (at least 1), and a negative great count the same as the object count minus the other hits; a given combo and great count are used as they are.",
 INP, "all attributes, counts and mods",
 "One test passes -1 for both, on a perfect score.",
 ["performance/osu/pp.go"], [("defaults", "performance/osu/pp.go:PPv2x")])

prop("C30", "Performance components follow the published formulas",
 "Aim, speed, accuracy and flashlight values and the total follow the pp formulas of the supported revision (length bonus, miss and combo penalties, approach-rate and Hidden bonuses, slider nerf, accuracy and overall-difficulty scaling, and the NoFail, SpunOut, Relax, TouchDevice, ScoreV2 and Flashlight effects) for every score.",
 INP, "all attributes, hit counts, combos, settings and mods",
 "Tests compare three full-combo perfect scores with no mod, DoubleTime and Hard Rock.",
 ["performance/osu/pp.go"], [("components", "performance/osu/pp.go:PPv2x")])

prop("C31", "Bezier building blocks: binomials and curve approximation",
 "Binomial coefficients are exact for every order whose result is representable; a Bezier curve starts at its first and ends at its last control point; flattening a Bezier curve never changes its control points, starts and ends at their ends and keeps subdividing until every piece is flat within the tolerance.",
 INP, "all orders up to the bound, all control points",
 "No test touches the curve package directly.",
 ["math/curves/bezier.go", "math/curves/bezierapproximator.go"], [("binomials", "math/curves/bezier.go:BinomialCoefficient"), ("flattening", "math/curves/bezierapproximator.go:CreateBezier")])

prop("C32", "Per-object difficulty metrics follow their definitions",
 "For consecutive objects, the speed-adjusted delta time, strain time (at least 25 ms), times and normalised jump distance (zero next to a spinner, with the small-circle bonus below radius 30) follow their definitions, movement equals the jump after a circle, travel values come from the preceding slider, and the angle is the one at the middle object of three, within 0..pi, and absent without two non-spinner predecessors.",
 INP, "all triples of objects, positions, times, mods and circle sizes",
 "Only seen through star ratings of two maps.",
 ["performance/osu/preprocessing/object.go", "performance/osu/preprocessing/lazyslider.go", "performance/osu/preprocessing/objects.go"], [("metrics", "performance/osu/preprocessing/object.go:NewDifficultyObject"), ("lazy slider end", "performance/osu/preprocessing/lazyslider.go:calculateEndPosition")])

prop("C33", "UTF-16 and UTF-8 files give the same beatmap",
 "A beatmap text encoded as UTF-16 (either byte order, with byte order mark) gives the same beatmap as the same text in UTF-8.",
 INP, "every text", "One map is tested in both encodings.", ["files/utf.go"], [("decoder", "files/utf.go:NewUnicodeReader")])

prop("C34", "Star ratings and pp agree with the official game",
 "Star rating and performance values agree with those of the official osu! implementation of the supported revision.",
 INP, "every map and score", "Tests compare two maps with values produced by this program itself (see their TODO).", ["performance/osu/difficulty.go", "performance/osu/pp.go"], [("calculation", "performance/osu/difficulty.go:calculateSingle")])

SKILLS = ["performance/osu/skills/aim.go", "performance/osu/skills/speed.go", "performance/osu/skills/flashlight.go"]
prop("C35", "Strain of an object follows the skill formulas",
 "Aim, speed and flashlight strain of an object, and the speed skill's rhythm bonus, follow the formulas of the supported revision (velocities with and without sliders, angle, velocity-change and slider bonuses; capped strain time, speed bonus and spacing; stack, distance and history weighting; rhythm islands) for any metrics of the object and its predecessors. Strains are numbers, never negative, and zero on spinners; aim strain is zero on the second object and after a spinner; the rhythm bonus is at least 1.",
 INP, "every combination of times, distances, angles and kinds of an object and its predecessors",
 "Only seen through star ratings of two maps, to which most branches contribute nothing.",
 SKILLS, [("aim strain", "performance/osu/skills/aim.go:aimStrainValue"), ("speed strain and rhythm", "performance/osu/skills/speed.go:speedStrainBonus"), ("flashlight strain", "performance/osu/skills/flashlight.go:flashlightStrainValue")])

prop("C36", "Strain sections, difficulty value and ratings",
 "Within a skill, strain decays exponentially with the time between objects and grows by each object's strain times the skill's multiplier; each section's peak is the largest strain reached in it or carried over decayed from the section before, and is never negative; only as many previous objects as the skill looks at are kept. The difficulty value is the sum of the peaks, largest first after shrinking the largest, each weighted by the skill's decay weight, times its factor. Ratings are the scaled square roots of the difficulty values, the slider factor is the ratio of aim without to aim with sliders, and the total combines the ratings by the star formula.",
 INP, "every sequence of strain values over every placement of objects in sections",
 "Only seen through star ratings of two maps; no test has known peaks.",
 ["performance/osu/skills/skill.go", "performance/osu/difficulty.go"], [("strain accumulation", "performance/osu/skills/skill.go:processInternal"), ("difficulty value", "performance/osu/skills/skill.go:DifficultyValue"), ("ratings", "performance/osu/difficulty.go:getStarsFromRawValues")])

prop("C37", "Breaks and background come from their event lines",
 "Each break line of the Events section gives one pause with its start time, end time and length, in file order, and the last background line gives the background file name without quotes; comments, other event kinds, too short lines and lines of other sections give nothing, and events change nothing else of the beatmap.",
 INP, "any sequence of event lines with any times and file names",
 "No test looks at pauses or the background.",
 [PARSER, "beatmap/pause.go"], [("events section", "beatmap/parser.go:parseEvents"), ("break", "beatmap/pause.go:NewPause")])
