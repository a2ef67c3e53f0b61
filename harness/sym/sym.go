// Package sym is the interface between harnesses and the symbolic executor.
// Executed natively, every input is read from a recorded assignment and the
// assertions are checked on the real code; executed by the engine, every
// function marked "intercepted" is replaced by its symbolic counterpart.
package sym

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// HostErr is the dynamic type of errors made by modelled library calls.
type HostErr struct{ Msg string }

func (e *HostErr) Error() string { return e.Msg }

// ---- native state

// In holds the recorded input bits by name (floats as bits).
var In = map[string]uint64{}

// Draw, when set, gives the inputs that are not recorded.
var Draw *rand.Rand

func drawInt(lo, hi int) int {
	clip := func(v int) int {
		if v < lo {
			return lo
		}
		if v > hi {
			return hi
		}
		return v
	}
	switch Draw.Intn(6) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return clip(Draw.Intn(20) - 4)
	case 3:
		n := 32
		for n > 1 && hi>>uint(n-1) == 0 {
			n--
		}
		return clip(1<<uint(Draw.Intn(n)) + Draw.Intn(3) - 1)
	}
	if hi-lo < 0 || hi-lo == math.MaxInt64 {
		return clip(int(Draw.Uint64()))
	}
	return lo + Draw.Intn(hi-lo+1)
}

func drawAny() float64 {
	switch Draw.Intn(8) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(Draw.Intn(2)*2 - 1)
	case 2:
		return math.Float64frombits(Draw.Uint64())
	case 3:
		return float64(Draw.Intn(21) - 10)
	}
	return drawIn(-5000, 5000)
}

func drawIn(lo, hi float64) float64 {
	f := lo + (hi-lo)*Draw.Float64()
	switch Draw.Intn(8) {
	case 0:
		f = lo
	case 1:
		f = hi
	case 2:
		f = math.Round(f)
	case 3:
		f = lo + (hi-lo)*math.Pow(Draw.Float64(), 4)
	case 4:
		if f = float64(Draw.Intn(9) - 2); f < lo || f > hi {
			f = lo + (hi-lo)*Draw.Float64()
		}
	}
	if !(f >= lo) {
		f = lo
	}
	if !(f <= hi) {
		f = hi
	}
	return f
}

type Failure struct{ Kind, Label, Detail string }

var Failures []Failure
var Observed = map[string][]float64{}
var Reached = map[string]int{}

// Abandoned is thrown when an assumption does not hold.
type Abandoned struct{}

func fail(kind, label, detail string) {
	Failures = append(Failures, Failure{kind, label, detail})
}

// ---- inputs (intercepted)

func Int(name string, lo, hi int) int {
	v, ok := In[name]
	if !ok && Draw != nil {
		v, ok = uint64(int64(drawInt(lo, hi))), true
		In[name] = v
	}
	if !ok {
		if lo <= 0 && 0 <= hi {
			return 0
		}
		return lo
	}
	Assume(int(int64(v)) >= lo && int(int64(v)) <= hi)
	return int(int64(v))
}

func Bool(name string) bool {
	if _, ok := In[name]; !ok && Draw != nil {
		In[name] = uint64(Draw.Intn(2))
	}
	return In[name] != 0
}

// F64 is any float64, including NaN and the infinities.
func F64(name string) float64 {
	if _, ok := In[name]; !ok && Draw != nil {
		In[name] = math.Float64bits(drawAny())
	}
	return math.Float64frombits(In[name])
}

// F64In is any float64 in [lo, hi].
func F64In(name string, lo, hi float64) float64 {
	if _, ok := In[name]; !ok && Draw != nil {
		In[name] = math.Float64bits(drawIn(lo, hi))
	}
	if _, ok := In[name]; !ok && !(lo <= 0 && 0 <= hi) {
		return lo
	}
	f := F64(name)
	Assume(f >= lo && f <= hi)
	return f
}

// F64Fin is any finite float64.
func F64Fin(name string) float64 { return F64In(name, -math.MaxFloat64, math.MaxFloat64) }

func F32(name string) float32 {
	if _, ok := In[name]; !ok && Draw != nil {
		In[name] = uint64(math.Float32bits(float32(drawAny())))
	}
	return math.Float32frombits(uint32(In[name]))
}

func F32In(name string, lo, hi float32) float32 {
	if _, ok := In[name]; !ok && Draw != nil {
		f := float32(drawIn(float64(lo), float64(hi)))
		if f < lo {
			f = lo
		}
		if f > hi {
			f = hi
		}
		In[name] = uint64(math.Float32bits(f))
	}
	if _, ok := In[name]; !ok && !(lo <= 0 && 0 <= hi) {
		return lo
	}
	f := F32(name)
	Assume(f >= lo && f <= hi)
	return f
}

// Choose forks execution over 0..n-1.
func Choose(name string, n int) int {
	if _, ok := In[name]; !ok && Draw != nil {
		In[name] = uint64(Draw.Intn(n))
	}
	v := int(int64(In[name]))
	Assume(v >= 0 && v < n)
	return v
}

// Bytes is a string of exactly n bytes in 0x20..0x7e.
func Bytes(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		k := name + "." + strconv.Itoa(i)
		if _, ok := In[k]; !ok && Draw != nil {
			In[k] = uint64(0x20 + Draw.Intn(0x5f))
		}
		b[i] = byte(In[k])
		if b[i] == 0 {
			b[i] = ' '
		}
		Assume(b[i] >= 0x20 && b[i] < 0x7f)
	}
	return string(b)
}

// ---- text of numbers (intercepted)

// IntText is the decimal text of n.
func IntText(n int) string { return strconv.Itoa(n) }

// FloatText is text that parses back to f and is never an integer literal.
func FloatText(f float64) string { return strconv.FormatFloat(f, 'e', -1, 64) }

// Float32Text is text that parses back to f at 32 bits.
func Float32Text(f float32) string { return strconv.FormatFloat(float64(f), 'e', -1, 32) }

// ---- obligations (intercepted)

func Assume(c bool) {
	if !c {
		panic(Abandoned{})
	}
}

func Assert(c bool, label string) {
	Reached[label]++
	if !c {
		fail("assert", label, "")
	}
}

// AssertEqF requires the same float64 value (all NaNs are the same value,
// the zeros too). Natively a relative error of 1e-9 is accepted.
func AssertEqF(a, b float64, label string) {
	Reached[label]++
	if !closeF(a, b, 1e-9) {
		fail("assert", label, fmt.Sprintf("%v != %v", a, b))
	}
}

func closeF(a, b, eps float64) bool {
	if a == b || (a != a && b != b) {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) || a != a || b != b {
		return false
	}
	return math.Abs(a-b) <= eps*math.Max(1e-6, math.Max(math.Abs(a), math.Abs(b)))
}

func AssertEqF32(a, b float32, label string) {
	Reached[label]++
	if !closeF(float64(a), float64(b), 1e-6) {
		fail("assert", label, fmt.Sprintf("%v != %v", a, b))
	}
}

// AssertLeF requires a <= b in the real-number reading; natively rounding
// noise of 1e-9 is accepted.
func AssertLeF(a, b float64, label string) {
	Reached[label]++
	if a <= b || closeF(a, b, 1e-9) && a == a {
		return
	}
	fail("assert", label, fmt.Sprintf("%v > %v", a, b))
}

func AssertEqI(a, b int, label string) {
	Reached[label]++
	if a != b {
		fail("assert", label, fmt.Sprintf("%d != %d", a, b))
	}
}

func AssertEqS(a, b string, label string) {
	Reached[label]++
	if a != b {
		fail("assert", label, fmt.Sprintf("%q != %q", a, b))
	}
}

// Observe records a value for comparing the real code with the encoding.
func Observe(label string, v float64) { Observed[label] = append(Observed[label], v) }

// Reach marks a point that some input must reach.
func Reach(label string) { Reached[label]++ }

// Thorough reports whether the thorough bounds are in force.
func Thorough() bool { return In["thorough"] != 0 }

// ---- frames (intercepted)

type snap struct {
	label string
	roots []interface{}
	sum   string
}

var frames []snap

// FrameBegin forbids writes to any object that exists now, until FrameEnd.
// Natively the objects reachable from roots are compared.
func FrameBegin(label string, roots ...interface{}) {
	frames = append(frames, snap{label, roots, fingerprint(roots)})
}

func FrameEnd() {
	s := frames[len(frames)-1]
	frames = frames[:len(frames)-1]
	Reached[s.label]++
	if x := fingerprint(s.roots); x != s.sum {
		fail("frame", s.label, "a shared object was modified")
	}
}

func fingerprint(roots []interface{}) string {
	var b strings.Builder
	seen := map[uintptr]int{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil;")
				return
			}
			if k, ok := seen[v.Pointer()]; ok {
				fmt.Fprintf(&b, "@%d;", k)
				return
			}
			seen[v.Pointer()] = len(seen)
			walk(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil;")
				return
			}
			b.WriteString(v.Elem().Type().String())
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			// the whole backing array is shared state
			fmt.Fprintf(&b, "[%d/%d:", v.Len(), v.Cap())
			w := v
			if v.Cap() > v.Len() {
				w = v.Slice(0, v.Cap())
			}
			for i := 0; i < w.Len(); i++ {
				walk(w.Index(i))
			}
			b.WriteString("]")
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
			for _, k := range ks {
				walk(k)
				walk(v.MapIndex(k))
			}
		case reflect.Float32, reflect.Float64:
			fmt.Fprintf(&b, "%x;", math.Float64bits(v.Float()))
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(&b, "%d;", v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			fmt.Fprintf(&b, "%d;", v.Uint())
		case reflect.Bool:
			fmt.Fprintf(&b, "%v;", v.Bool())
		case reflect.String:
			fmt.Fprintf(&b, "%q;", v.String())
		}
	}
	for _, r := range roots {
		walk(reflect.ValueOf(r))
	}
	return b.String()
}

// ---- readers

// Reader delivers Text and then fails with Err (io.EOF when nil).
type Reader struct {
	Text string
	Err  error
	pos  int
}

func (r *Reader) Read(p []byte) (int, error) {
	if r.pos >= len(r.Text) {
		if r.Err != nil {
			return 0, r.Err
		}
		return 0, io.EOF
	}
	n := copy(p, r.Text[r.pos:])
	if n > 37 && len(r.Text) < 100000 {
		n = 37 // exercise short reads
	}
	r.pos += n
	return n, nil
}

// ErrDevice is the failure a faulty reader reports.
var ErrDevice = errors.New("device failure")

// Long is a line of n 'x' characters (intercepted).
func Long(n int) string { return strings.Repeat("x", n) }

// IsFinite reports whether f is neither NaN nor infinite.
func IsFinite(f float64) bool { return f-f == 0 }

// And, Or and Implies combine conditions without branching.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

// IteF, IteF32 and IteI select without branching.
func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func IteF32(c bool, a, b float32) float32 {
	if c {
		return a
	}
	return b
}
func IteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
