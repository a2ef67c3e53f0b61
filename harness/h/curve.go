package h

import (
	"math"

	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"

	"vharness/sym"
)

type vec = vector.Vector2f

// pascal holds the binomial coefficients that fit 64 bits.
var pascal = func() (t [67][67]int) {
	for n := range t {
		t[n][0], t[n][n] = 1, 1
		for k := 1; k < n; k++ {
			t[n][k] = t[n-1][k-1] + t[n-1][k]
		}
	}
	return
}()

// Binomial coefficients are those of Pascal's triangle.
//
//gosym:prop C31
//gosym:bound every order up to 66 and every index, also outside the triangle
//gosym:cases decade 7
//gosym:merge all
//gosym:feas none
//gosym:unroll 80
func Binomials() {
	from := sym.Choose("decade", 7) * 10
	for n := from; n < from+10 && n < len(pascal); n++ {
		k := sym.Int("k", -70, 140)
		want := 0
		for i := 0; i <= n; i++ {
			want = sym.IteI(k == i, pascal[n][i], want)
		}
		sym.AssertEqI(int(curves.BinomialCoefficient(int64(n), int64(k))), want, "binomial coefficient")
	}
}

var pointNames = []string{"a", "b", "c", "d", "e", "f", "g"}

func anyPoint(n string, lim float32) vec {
	return vec{X: sym.F32In(n+".x", -lim, lim), Y: sym.F32In(n+".y", -lim, lim)}
}

func anyPoints(n int, lim float32) (l []vec) {
	for i := 0; i < n; i++ {
		l = append(l, anyPoint(pointNames[i], lim))
	}
	return
}

func samePoint(a, b vec, l string) {
	sym.AssertEqF32(a.X, b.X, l+": x")
	sym.AssertEqF32(a.Y, b.Y, l+": y")
}

func closePoint(a, b vec, lim float32, l string) {
	sym.AssertEqF32(a.X+lim, b.X+lim, l+": x")
	sym.AssertEqF32(a.Y+lim, b.Y+lim, l+": y")
}

// A Bezier curve runs from its first to its last control point and follows the
// Bernstein form in between.
//
//gosym:prop C31
//gosym:bound 2..7 control points anywhere in [-10000,10000], any parameter in 0..1
//gosym:cases points 6
//gosym:feas none
//gosym:merge all
func BezierForm() {
	n := sym.Choose("points", 6) + 2
	p := anyPoints(n, 10000)
	sym.FrameBegin("control points", p)
	b := curves.NewBezierNA(p)
	samePoint(b.PointAt(0), p[0], "starts at the first control point")
	samePoint(b.PointAt(1), p[n-1], "ends at the last control point")
	t := sym.F32In("t", 0, 1)
	var want vec
	for i := range p {
		w := float32(pascal[n-1][i]) * float32(math.Pow(float64(t), float64(i))) * float32(math.Pow(float64(1-t), float64(n-1-i)))
		want.X += p[i].X * w
		want.Y += p[i].Y * w
	}
	got := b.PointAt(t)
	samePoint(got, want, "Bernstein form")
	sym.FrameEnd()
	sym.Observe("x", float64(got.X))
}

func flat(p []vec) bool {
	for i := 1; i < len(p)-1; i++ {
		x := p[i-1].X - p[i].X*2 + p[i+1].X
		y := p[i-1].Y - p[i].Y*2 + p[i+1].Y
		if x*x+y*y > 0.25 {
			return false
		}
	}
	return true
}

func half(a, b vec) vec { return vec{X: (a.X + b.X) * 0.5, Y: (a.Y + b.Y) * 0.5} }

// halves splits a Bezier curve in the middle.
func halves(p []vec) (l, r []vec) {
	m := append([]vec(nil), p...)
	r = make([]vec, len(p))
	for k := len(m); k > 0; k-- {
		l = append(l, m[0])
		r[k-1] = m[k-1]
		for j := 0; j+1 < k; j++ {
			m[j] = half(m[j], m[j+1])
		}
	}
	return
}

// strip is the polyline of a flat curve, without its last point.
func strip(p []vec) []vec {
	l, r := halves(p)
	all := append(l, r[1:]...)
	out := []vec{p[0]}
	for i := 1; i < len(p)-1; i++ {
		a, b, c := all[2*i-1], all[2*i], all[2*i+1]
		out = append(out, vec{X: (a.X + b.X*2 + c.X) * 0.25, Y: (a.Y + b.Y*2 + c.Y) * 0.25})
	}
	return out
}

func flatten(p []vec, deep int) []vec {
	f := flat(p)
	if deep == 0 {
		sym.Assume(f)
	}
	if f {
		return strip(p)
	}
	l, r := halves(p)
	return append(flatten(l, deep-1), flatten(r, deep-1)...)
}

// Flattening halves a curve until every part is flat, from left to right.
//
//gosym:prop C31
//gosym:bound 1..5 control points anywhere in [-1000,1000] whose curve is flat after at most 3 halvings (2 for 4 and 5 points, thorough 3)
//gosym:cases points 5 spread 2
//gosym:feas none
//gosym:merge none
//gosym:states 2000000
func BezierFlattening() {
	n := sym.Choose("points", 5) + 1
	p := anyPoints(n, []float32{3, 1000}[sym.Choose("spread", 2)])
	deep := 2
	if n < 4 || sym.Thorough() {
		deep = 3
	}
	want := append(flatten(p, deep), p[n-1])
	sym.FrameBegin("control points", p)
	got := curves.NewBezierApproximator(p).CreateBezier()
	sym.FrameEnd()
	if n == 1 {
		samePoint(got[0], p[0], "single point")
	}
	sym.AssertEqI(len(got), len(want), "as many points as flat parts need")
	for i := range want {
		if i < len(got) {
			samePoint(got[i], want[i], "flattened point")
		}
	}
	samePoint(got[0], p[0], "first point")
	samePoint(got[len(got)-1], p[n-1], "last point")
	for i := 0; i+1 < len(got); i++ {
		sym.Observe("x", float64(got[i].X))
	}
}

func ends(l []curves.Linear, label string) {
	for i := 0; i+1 < len(l); i++ {
		sym.Assert(l[i].Point2 == l[i+1].Point1, label+": pieces join")
	}
}

func dist(a, b vec) float32 {
	x, y := b.X-a.X, b.Y-a.Y
	return float32(math.Sqrt(float64(x*x + y*y)))
}

// corners are the points of a straight path without immediate repeats.
func corners(p []vec) (out []vec) {
	for i, v := range p {
		if i == 0 || v != p[i-1] {
			out = append(out, v)
		}
	}
	return
}

// checkCut compares a path of a requested length with the uncut one.
func checkCut(raw, cut []curves.Linear, length float64) {
	lens := make([]float64, len(raw))
	total := float32(0)
	for i, l := range raw {
		d := dist(l.Point1, l.Point2)
		lens[i] = float64(d)
		total += d
	}
	if total == 0 {
		sym.AssertEqI(len(cut), len(raw), "a path of no length is left alone")
		return
	}
	over := float64(total) - length
	k := len(raw)
	for k > 0 && !(lens[k-1] > over+0.0001) {
		over -= lens[k-1]
		k--
	}
	sym.AssertEqI(len(cut), k, "as many pieces as the length needs")
	if len(cut) != k {
		return
	}
	for i := 0; i < k; i++ {
		samePoint(cut[i].Point1, raw[i].Point1, "pieces keep their start")
		if i < k-1 {
			samePoint(cut[i].Point2, raw[i].Point2, "pieces before the last are whole")
		}
	}
	if k > 0 && raw[k-1].Point1 != raw[k-1].Point2 {
		d := float32(lens[k-1])
		t := (d - float32(over)) / d
		a, b := raw[k-1].Point1, raw[k-1].Point2
		samePoint(cut[k-1].Point2, vec{X: (b.X-a.X)*t + a.X, Y: (b.Y-a.Y)*t + a.Y}, "the last piece is cut or extended")
	}
}

// A straight path passes through its control points and is cut or extended to
// the requested length.
//
//gosym:prop C12
//gosym:bound 1..4 control points anywhere in [-10000,10000], equal or not; any requested length in -100..100000
//gosym:cases points 4
//gosym:feas none
//gosym:merge none
//gosym:states 4000000
func LinearPath() {
	n := sym.Choose("points", 4) + 1
	p := anyPoints(n, 10000)
	length := sym.F64In("length", -100, 100000)
	c := corners(p)
	sym.FrameBegin("control points", p)
	whole := curves.NewMultiCurve("L", p)
	m := curves.NewMultiCurveT("L", p, length)
	sym.FrameEnd()
	sym.Assume(m.GetLength() < 1e6)
	raw := whole.GetLines()
	sym.AssertEqI(len(raw), len(c)-1, "one piece between distinct neighbours")
	if len(raw) != len(c)-1 {
		return
	}
	sum := float32(0)
	for i, l := range raw {
		samePoint(l.Point1, c[i], "piece starts at a control point")
		samePoint(l.Point2, c[i+1], "piece ends at the next control point")
		sum += dist(c[i], c[i+1])
	}
	sym.AssertEqF32(whole.GetLength(), sum, "length is the sum of the pieces")
	lines := m.GetLines()
	checkCut(raw, lines, length)
	sum = 0
	for _, l := range lines {
		sum += dist(l.Point1, l.Point2)
	}
	sym.AssertEqF32(m.GetLength(), sum, "length is the sum of the pieces")
	ends(lines, "cut")
	if len(lines) > 0 {
		sym.Assert(lines[0].Point1 == p[0], "first piece starts at the first control point")
	} else {
		samePoint(m.PointAt(0), p[0], "an empty path is at the first control point")
	}
}

// The parts of a Bezier path between repeated points are flattened on their
// own, in order.
//
//gosym:prop C12
//gosym:bound 7 layouts of up to 7 control points with repeated points, anywhere in [-1000,1000] with parts flat after at most one halving; any requested length in -100..100000
//gosym:cases layout 7 spread 2
//gosym:feas lite
//gosym:merge none
//gosym:states 4000000
func BezierPath() {
	k := sym.Choose("layout", 7)
	parts := [][]int{{2}, {3}, {4}, {2, 2}, {3, 2}, {2, 3}, {2, 2, 2}}[k]
	lim := float32(1000)
	if sym.Choose("spread", 2) == 0 {
		lim = 2
	}
	var p []vec
	var want []vec
	at := 0
	for i, n := range parts {
		var q []vec
		if i > 0 {
			q = append(q, p[len(p)-1])
		}
		for len(q) < n {
			q = append(q, anyPoint(pointNames[at], lim))
			at++
		}
		// only the repeated points repeat
		for j := 1; j < n; j++ {
			sym.Assume(q[j-1] != q[j])
		}
		p = append(p, q...)
		if n == 2 {
			want = append(want, q[0])
		} else {
			want = append(want, flatten(q, 1)...)
		}
	}
	want = append(want, p[len(p)-1])
	length := sym.F64In("length", -100, 100000)
	sym.FrameBegin("control points", p)
	raw := curves.NewMultiCurve("B", p).GetLines()
	m := curves.NewMultiCurveT("B", p, length)
	sym.FrameEnd()
	sym.Assume(m.GetLength() < 1e6)
	sym.AssertEqI(len(raw), len(want)-1, "pieces of all parts")
	if len(raw) != len(want)-1 {
		return
	}
	for i, l := range raw {
		samePoint(l.Point1, want[i], "piece starts where the part goes on")
		samePoint(l.Point2, want[i+1], "piece ends where the part goes on")
	}
	ends(raw, "whole")
	checkCut(raw, m.GetLines(), length)
	ends(m.GetLines(), "cut")
	if len(m.GetLines()) > 0 {
		sym.Assert(m.GetLines()[0].Point1 == p[0], "first piece starts at the first control point")
	}
}

// The path has the requested length.
//
//gosym:prop C12
//gosym:bound 8 concrete shapes of every curve type; any requested length in 0.01..1000
//gosym:cases shape 8
//gosym:feas lite
//gosym:merge none
//gosym:perobl 2
//gosym:sec 12
//gosym:unroll 130
func PathLength() {
	k := sym.Choose("shape", 8)
	typ := []string{"L", "L", "L", "B", "P", "P", "C", "C"}[k]
	p := [][]vec{
		{{X: 10, Y: 20}, {X: 110, Y: 20}},
		{{X: 10, Y: 20}, {X: 40, Y: 60}, {X: 40, Y: 60}, {X: 40, Y: 100}},
		{{X: 0, Y: 0}, {X: 0, Y: 10}, {X: 0, Y: 0}},
		{{X: 0, Y: 0}, {X: 3, Y: 4}, {X: 9, Y: 4}},
		{{X: 0, Y: 0}, {X: 10, Y: 10}, {X: 20, Y: 0}},
		{{X: 0, Y: 0}, {X: 10, Y: 0}, {X: 30, Y: 0}},
		{{X: 0, Y: 0}, {X: 20, Y: 0}},
		{{X: 0, Y: 0}, {X: 20, Y: 10}, {X: 40, Y: 0}},
	}[k]
	length := sym.F64In("length", 0.01, 1000)
	through := p
	if typ == "B" || typ == "P" {
		through = []vec{p[0], p[len(p)-1]}
	}
	raw := curves.NewMultiCurve(typ, p).GetLines()
	j := 0
	for _, c := range through {
		for j < len(raw) && dist(raw[j].Point1, c) > 0.7 && dist(raw[j].Point2, c) > 0.7 {
			j++
		}
		sym.Assert(j < len(raw), "passes its control points in order")
	}
	sym.Assert(dist(raw[len(raw)-1].Point2, p[len(p)-1]) < 0.001, "ends at the last control point before it is cut")
	m := curves.NewMultiCurveT(typ, p, length)
	join := true
	for i, l := range m.GetLines() {
		if i == 0 {
			closePoint(l.Point1, p[0], 1000, "starts at the first control point")
		} else {
			join = sym.And(join, l.Point1 == m.GetLines()[i-1].Point2)
		}
	}
	sym.Assert(join, "cut: pieces join")
	sum := float32(0)
	for _, l := range m.GetLines() {
		sum += dist(l.Point1, l.Point2)
	}
	sym.AssertEqF32(m.GetLength(), sum, "length is the sum of the pieces")
	sym.Assert(math.Abs(float64(m.GetLength())-length) < 0.001, "has the requested length")
	sym.Observe("length", float64(m.GetLength()))
}

// walk finds the point at a distance along a path by walking it.
func walk(l []curves.Linear, lens []float32, d float32) vec {
	var before, after float32
	k := 0
	for {
		after = before + lens[k]
		if k == len(l)-1 || after >= d {
			break
		}
		before = after
		k++
	}
	if after-before == 0 {
		return l[k].Point1
	}
	t := (d - before) / (after - before)
	a, b := l[k].Point1, l[k].Point2
	return vec{X: (b.X-a.X)*t + a.X, Y: (b.Y-a.Y)*t + a.Y}
}

// Points on a path are found by arc length, from the start to the end.
//
//gosym:prop C13
//gosym:bound 1..3 (thorough 4) control points anywhere in [-10000,10000], equal or not, on a polyline or on a bezier path of distinct points, all but the last doubled (so it starts with a piece of no length); any parameter, also infinite or not a number (three bezier points in the thorough tier only)
//gosym:cases points 3 red 2 part 4
//gosym:thorough-cases points 4 red 2 part 4
//gosym:feas lite
//gosym:merge none
//gosym:perobl 8
//gosym:real
//gosym:states 4000000
func PathPoint() {
	n := sym.Choose("points", 4) + 1
	p := anyPoints(n, 10000)
	m := curves.NewMultiCurve("L", p)
	if sym.Choose("red", 2) == 1 {
		if n > 2 && !sym.Thorough() {
			return
		}
		var q []vector.Vector2f
		for i, v := range p {
			q = append(q, v)
			if i < n-1 {
				q = append(q, v)
				sym.Assume(sym.Or(v.X != p[i+1].X, v.Y != p[i+1].Y))
			}
		}
		m = curves.NewMultiCurve("B", q)
	}
	lines := m.GetLines()
	lens := make([]float32, len(lines))
	sum := float32(0)
	for i, l := range lines {
		lens[i] = dist(l.Point1, l.Point2)
		sum += lens[i]
	}
	sym.FrameBegin("path", m)
	switch sym.Choose("part", 4) {
	case 0:
		// anything at all
		t := sym.F32("t")
		got := m.PointAt(t)
		if len(lines) == 0 || sum == 0 {
			samePoint(got, p[0], "a path of no length is one point")
			return
		}
		if t <= 0 {
			samePoint(got, p[0], "starts at the first control point")
		} else if t >= 1 {
			samePoint(got, walk(lines, lens, sum), "stays at the end")
		} else if t == t {
			samePoint(got, walk(lines, lens, sum*t), "point at a part of the length")
		}
	case 1:
		// bends are passed at their distance
		if len(lines) == 0 || sum == 0 {
			return
		}
		t := sym.F32In("t", 0, 1)
		d := sum * t
		q := m.PointAt(t)
		lo, hi := float32(0), float32(0)
		on := false
		for i, l := range lines {
			hi = lo + lens[i]
			box := func(v, a, b float32) bool {
				s, e := float32(math.Min(float64(a), float64(b))), float32(math.Max(float64(a), float64(b)))
				return sym.And(v >= s-0.05, v <= e+0.05)
			}
			here := sym.And(box(q.X, l.Point1.X, l.Point2.X), box(q.Y, l.Point1.Y, l.Point2.Y))
			on = sym.Or(on, sym.And(here, sym.And(d >= lo-0.05, d <= hi+0.05)))
			lo = hi
		}
		sym.Assert(on, "lies on the piece that spans its distance")
	case 3:
		if len(lines) == 0 || sum == 0 {
			return
		}
		got := m.PointAt(sym.F32In("t", 1, math.MaxFloat32))
		sym.Assert(sym.And(math.Abs(float64(got.X-p[n-1].X)) < 0.05, math.Abs(float64(got.Y-p[n-1].Y)) < 0.05), "ends at the last control point")
	case 2:
		sym.AssertEqF32(m.GetLength(), sum, "length is the sum of the pieces")
		m.PointAt(float32(math.NaN()))
		sym.Reach("not a number")
		q := curves.NewMultiCurve("", p)
		samePoint(q.PointAt(sym.F32("t")), p[0], "an empty path is one point")
		samePoint(curves.NewMultiCurveT("", p, sym.F64("length")).PointAt(sym.F32("t")), p[0], "an empty path is one point")
	}
	sym.FrameEnd()
}
