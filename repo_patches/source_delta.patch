From 67a12fbec1b722baeb939546f6f6ebd684ac8d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 01/13] fix: treat NaN difficulty settings as 0 so they stay
 within 0..10

---
 beatmap/parser.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 7d394c3..d5bd084 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -68,25 +68,35 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 	}
 }
 
+// parseSetting parses a difficulty setting, anything that isn't a number counts as 0
+func parseSetting(value string) float64 {
+	parsed, _ := strconv.ParseFloat(value, 64)
+	if math.IsNaN(parsed) {
+		return 0
+	}
+
+	return parsed
+}
+
 func parseDifficulty(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "SliderMultiplier":
 		beatMap.SliderMultiplier, _ = strconv.ParseFloat(line[1], 64)
 		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
 	case "ApproachRate":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
+		parsed := parseSetting(line[1])
 		beatMap.Difficulty.SetAR(mutils.ClampF64(parsed, 0, 10))
 		beatMap.arSpecified = true
 	case "CircleSize":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
+		parsed := parseSetting(line[1])
 		beatMap.Difficulty.SetCS(mutils.ClampF64(parsed, 0, 10))
 	case "SliderTickRate":
 		beatMap.Timings.TickRate, _ = strconv.ParseFloat(line[1], 64)
 	case "HPDrainRate":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
+		parsed := parseSetting(line[1])
 		beatMap.Difficulty.SetHP(mutils.ClampF64(parsed, 0, 10))
 	case "OverallDifficulty":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
+		parsed := parseSetting(line[1])
 		beatMap.Difficulty.SetOD(mutils.ClampF64(parsed, 0, 10))
 
 		if !beatMap.arSpecified {
-- 
2.43.0


From 57605573c47b2ddc0dc9b10a022dfa419f8a24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:40 +0000
Subject: [PATCH 02/13] fix: parsing mod acronyms of odd length no longer
 panics

---
 beatmap/difficulty/mods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/difficulty/mods.go b/beatmap/difficulty/mods.go
index 229656a..ede6d60 100644
--- a/beatmap/difficulty/mods.go
+++ b/beatmap/difficulty/mods.go
@@ -210,7 +210,7 @@ func (mods Modifier) StringFull() (s []string) {
 }
 
 func ParseMods(mods string) (m Modifier) {
-	modsSl := make([]string, len(mods)/2)
+	modsSl := make([]string, (len(mods)+1)/2)
 	for n, modPart := range mods {
 		modsSl[n/2] += string(modPart)
 	}
-- 
2.43.0


From 9a6f5eb07b88886546e72a167c4fb930f5ba38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:58 +0000
Subject: [PATCH 03/13] fix: hit object lines with missing fields are skipped
 instead of panicking

---
 beatmap/objects/util.go | 26 ++++++++++++++++++++++++++
 beatmap/parser.go       |  2 +-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/beatmap/objects/util.go b/beatmap/objects/util.go
index c045af7..a7d7a4c 100644
--- a/beatmap/objects/util.go
+++ b/beatmap/objects/util.go
@@ -2,7 +2,33 @@ package objects
 
 import "strconv"
 
+// IsComplete tells if the line has every field that is needed to create the object it describes
+func IsComplete(data []string) bool {
+	if len(data) < 5 {
+		return false
+	}
+
+	objTypeI, _ := strconv.Atoi(data[3])
+	objType := Type(objTypeI)
+
+	if (objType & CIRCLE) > 0 {
+		return true
+	} else if (objType & SPINNER) > 0 {
+		return len(data) > 5
+	} else if (objType & SLIDER) > 0 {
+		return len(data) > 7
+	} else if (objType & LONGNOTE) > 0 {
+		return len(data) > 5
+	}
+
+	return true
+}
+
 func CreateObject(data []string) IHitObject {
+	if !IsComplete(data) {
+		return nil
+	}
+
 	objTypeI, _ := strconv.Atoi(data[3])
 	objType := Type(objTypeI)
 
diff --git a/beatmap/parser.go b/beatmap/parser.go
index d5bd084..e1710c5 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -199,7 +199,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				counter++
 			}
 		case "HitObjects":
-			if arr := tokenize(line, ","); arr != nil {
+			if arr := tokenize(line, ","); objects.IsComplete(arr) {
 				var time string
 
 				objTypeI, _ := strconv.Atoi(arr[3])
-- 
2.43.0


From e55d96407968523331c7e7cd39c11aba0154fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 04/13] fix: slider repeat counts out of range no longer panic

---
 beatmap/objects/slider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 0513d24..0535496 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -13,6 +13,9 @@ import (
 	"strings"
 )
 
+// maxRepeatCount is the highest repeat count that osu! accepts
+const maxRepeatCount = 9000
+
 type TickPoint struct {
 	Time      float64
 	IsReverse bool
@@ -45,6 +48,7 @@ func NewSlider(data []string) *Slider {
 
 	slider.pixelLength, _ = strconv.ParseFloat(data[7], 64)
 	slider.RepeatCount, _ = strconv.ParseInt(data[6], 10, 64)
+	slider.RepeatCount = mutils.ClampI64(slider.RepeatCount, 1, maxRepeatCount)
 
 	list := strings.Split(data[5], "|")
 	points := []vector.Vector2f{slider.StartPosRaw}
-- 
2.43.0


From ec5077f42af53c1cabc296f2ee59f64a7f39993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 05/13] fix: surplus slider edge sounds no longer panic

---
 beatmap/objects/slider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 0535496..09c2c51 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -76,6 +76,10 @@ func NewSlider(data []string) *Slider {
 	if len(data) > 8 {
 		subData := strings.Split(data[8], "|")
 		for i, v := range subData {
+			if i >= len(slider.sounds) {
+				break
+			}
+
 			sound, _ := strconv.Atoi(v)
 			slider.sounds[i] = audio.HitSound(sound)
 		}
-- 
2.43.0


From ad0011069c3678241ae0d1412c568fee67f31e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 06/13] fix: slider control points without a separator no
 longer panic

---
 beatmap/objects/slider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 09c2c51..e659768 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -55,6 +55,10 @@ func NewSlider(data []string) *Slider {
 
 	for i := 1; i < len(list); i++ {
 		list2 := strings.Split(list[i], ":")
+		if len(list2) < 2 {
+			continue
+		}
+
 		x, _ := strconv.ParseFloat(list2[0], 32)
 		y, _ := strconv.ParseFloat(list2[1], 32)
 		points = append(points, vector.NewVec2f(float32(x), float32(y)))
-- 
2.43.0


From 643da5ec6b497a947f49619bc51f5a2dba16a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 07/13] fix: sliders with coordinates or lengths out of range
 are skipped instead of hanging

---
 beatmap/objects/util.go | 40 +++++++++++++++++++++++++++++++++++-----
 beatmap/parser.go       |  2 +-
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/beatmap/objects/util.go b/beatmap/objects/util.go
index a7d7a4c..68ea3e5 100644
--- a/beatmap/objects/util.go
+++ b/beatmap/objects/util.go
@@ -1,9 +1,16 @@
 package objects
 
-import "strconv"
+import (
+	"math"
+	"strconv"
+	"strings"
+)
+
+// maxCoordinate is the biggest coordinate or length that osu! accepts
+const maxCoordinate = 131072
 
-// IsComplete tells if the line has every field that is needed to create the object it describes
-func IsComplete(data []string) bool {
+// IsValidLine tells if the line has every field that is needed to create the object it describes
+func IsValidLine(data []string) bool {
 	if len(data) < 5 {
 		return false
 	}
@@ -16,7 +23,7 @@ func IsComplete(data []string) bool {
 	} else if (objType & SPINNER) > 0 {
 		return len(data) > 5
 	} else if (objType & SLIDER) > 0 {
-		return len(data) > 7
+		return len(data) > 7 && hasValidPath(data)
 	} else if (objType & LONGNOTE) > 0 {
 		return len(data) > 5
 	}
@@ -24,8 +31,31 @@ func IsComplete(data []string) bool {
 	return true
 }
 
+// hasValidPath tells if all coordinates and the length of a slider are within the range that osu! accepts
+func hasValidPath(data []string) bool {
+	if !isInRange(data[0]) || !isInRange(data[1]) || !isInRange(data[7]) {
+		return false
+	}
+
+	for _, point := range strings.Split(data[5], "|") {
+		for _, coordinate := range strings.Split(point, ":") {
+			if !isInRange(coordinate) {
+				return false
+			}
+		}
+	}
+
+	return true
+}
+
+// isInRange is also false for NaN, anything that isn't a number counts as 0
+func isInRange(value string) bool {
+	parsed, _ := strconv.ParseFloat(value, 64)
+	return math.Abs(parsed) <= maxCoordinate
+}
+
 func CreateObject(data []string) IHitObject {
-	if !IsComplete(data) {
+	if !IsValidLine(data) {
 		return nil
 	}
 
diff --git a/beatmap/parser.go b/beatmap/parser.go
index e1710c5..48f735b 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -199,7 +199,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				counter++
 			}
 		case "HitObjects":
-			if arr := tokenize(line, ","); objects.IsComplete(arr) {
+			if arr := tokenize(line, ","); objects.IsValidLine(arr) {
 				var time string
 
 				objTypeI, _ := strconv.Atoi(arr[3])
-- 
2.43.0


From 2a91b967926a3225c70b3cc1ff71d4f0d5978aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 08/13] fix: degenerate circular arcs fall back to straight
 lines

---
 math/curves/approximation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/math/curves/approximation.go b/math/curves/approximation.go
index 79ad53e..5f6fe4f 100644
--- a/math/curves/approximation.go
+++ b/math/curves/approximation.go
@@ -4,6 +4,8 @@ import (
 	"github.com/Wieku/gosu-pp/math/vector"
 )
 
+const maxArcSegments = 100000
+
 func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Linear {
 	arc := NewCirArc(pt1, pt2, pt3)
 
@@ -13,6 +15,11 @@ func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Lin
 
 	segments := int(arc.r * arc.totalAngle * detail)
 
+	// Arc is too short, or points are so close to a straight line that the circle can't be calculated reliably
+	if segments < 1 || segments > maxArcSegments {
+		return []Linear{NewLinear(pt1, pt2), NewLinear(pt2, pt3)}
+	}
+
 	lines := make([]Linear, segments)
 
 	for i := 0; i < segments; i++ {
-- 
2.43.0


From 1dae1e41769fa281fa1ffd74235e1bdd05198a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 09/13] fix: event lines with missing fields no longer panic

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 48f735b..ee51243 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -190,7 +190,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				parseDifficulty(arr, beatMap)
 			}
 		case "Events":
-			if arr := tokenize(line, ","); len(arr) > 1 {
+			if arr := tokenize(line, ","); len(arr) > 2 {
 				parseEvents(arr, beatMap)
 			}
 		case "TimingPoints":
-- 
2.43.0


From dd19b1273c5b62b78c9e0e8783b18ce461675aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 10/13] fix: missing, zero or huge slider speed settings no
 longer hang the parser

---
 beatmap/beatmap.go       | 9 ++++++---
 beatmap/parser.go        | 5 +++--
 beatmap/timing/timing.go | 2 ++
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 78c5a7f..1eb189f 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -58,9 +58,12 @@ type BeatMap struct {
 
 func NewBeatMap() *BeatMap {
 	return &BeatMap{
-		Timings:       timing.NewTimings(),
-		StackLeniency: 0.7,
-		Difficulty:    difficulty.NewDifficulty(5, 5, 5, 5),
+		Timings: timing.NewTimings(),
+
+		SliderMultiplier: 1.4,
+		StackLeniency:    0.7,
+
+		Difficulty: difficulty.NewDifficulty(5, 5, 5, 5),
 
 		MinBPM: math.Inf(0),
 		MaxBPM: 0,
diff --git a/beatmap/parser.go b/beatmap/parser.go
index ee51243..514744a 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -81,7 +81,8 @@ func parseSetting(value string) float64 {
 func parseDifficulty(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "SliderMultiplier":
-		beatMap.SliderMultiplier, _ = strconv.ParseFloat(line[1], 64)
+		// osu! limits both to these ranges, values outside of them can make sliders with endless amount of ticks
+		beatMap.SliderMultiplier = mutils.ClampF64(parseSetting(line[1]), 0.4, 3.6)
 		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
 	case "ApproachRate":
 		parsed := parseSetting(line[1])
@@ -91,7 +92,7 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 		parsed := parseSetting(line[1])
 		beatMap.Difficulty.SetCS(mutils.ClampF64(parsed, 0, 10))
 	case "SliderTickRate":
-		beatMap.Timings.TickRate, _ = strconv.ParseFloat(line[1], 64)
+		beatMap.Timings.TickRate = mutils.ClampF64(parseSetting(line[1]), 0.5, 8)
 	case "HPDrainRate":
 		parsed := parseSetting(line[1])
 		beatMap.Difficulty.SetHP(mutils.ClampF64(parsed, 0, 10))
diff --git a/beatmap/timing/timing.go b/beatmap/timing/timing.go
index 0d0c704..78730e8 100644
--- a/beatmap/timing/timing.go
+++ b/beatmap/timing/timing.go
@@ -56,6 +56,8 @@ type Timings struct {
 
 func NewTimings() *Timings {
 	return &Timings{
+		SliderMult: 1.4,
+		TickRate:   1,
 		defaultTimingPoint: ControlPoint{
 			Time:             0,
 			beatLengthBase:   60000 / 60,
-- 
2.43.0


From 916fb3df7ff6b31c7d2bc4af9381f1d88b5e4694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 11/13] fix: read errors and too long lines are reported
 instead of returning a partial map

---
 beatmap/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 514744a..78fdc15 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -227,6 +227,10 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+
 	beatMap.FinalizePoints()
 
 	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || counter == 0 {
-- 
2.43.0


From 09c0d0c0024f60654b813ab01c8f3bdc04d88e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 12/13] fix: star calculations of an empty object list no
 longer panic

---
 performance/osu/difficulty.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index e551640..ca23dfb 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -168,6 +168,10 @@ func calculateSingle(objects []objects.IHitObject, diff *difficulty.Difficulty)
 
 	attr := Attributes{}
 
+	if len(objects) == 0 {
+		return attr, aimSkill, speedSkill, flashlightSkill
+	}
+
 	addObjectToAttribs(objects[0], &attr)
 
 	for i, o := range diffObjects {
@@ -211,6 +215,10 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 		flashlightSkill = skills.NewFlashlightSkill(diff)
 	}
 
+	if len(objects) == 0 {
+		return []Attributes{}, aimSkill, speedSkill, flashlightSkill
+	}
+
 	stars := make([]Attributes, 1, len(objects))
 
 	addObjectToAttribs(objects[0], &stars[0])
-- 
2.43.0


From 2c06a598fafcaab749b097fd0a5cd389a3802c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 13/13] fix: binomial coefficients are exact

---
 math/curves/bezier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/curves/bezier.go b/math/curves/bezier.go
index dc70393..d40cdcc 100644
--- a/math/curves/bezier.go
+++ b/math/curves/bezier.go
@@ -90,7 +90,8 @@ func BinomialCoefficient(n, k int64) int64 {
 
 	c := int64(1)
 	for i := int64(1); i <= k; i++ {
-		c *= (n + 1 - i) / (i)
+		// c*(n+1-i)/i, dividing first so that only the result has to fit
+		c = c/i*(n+1-i) + c%i*(n+1-i)/i
 	}
 
 	return c
-- 
2.43.0

