// Package exec symbolically executes Go SSA.
package exec

import (
	"fmt"
	"go/types"
	"strings"

	"gosym/smt"

	"golang.org/x/tools/go/ssa"
)

type Term = smt.Term

// Value is one of: *Term, Ptr, Slice, Str, Iface, *StructV, *ArrayV, *FuncV,
// TupleV, MapV, Host.
type Value interface{}

// PE is a path element: a concrete field/index or a symbolic index.
type PE struct {
	I int
	T *Term
}

type Ptr struct {
	Obj  int
	Path []PE
}

type Slice struct {
	Obj           int // 0: nil
	Path          []PE
	Off, Len, Cap int
}

type Iface struct {
	T types.Type
	V Value
}

type StructV struct{ F []Value }

type ArrayV struct {
	N     int
	Elems []Value // populated prefix; the rest is Zero
	Zero  Value
}

func (a *ArrayV) Get(i int) Value {
	if i < len(a.Elems) {
		return a.Elems[i]
	}
	return a.Zero
}
func (a *ArrayV) Set(i int, v Value) *ArrayV {
	n := len(a.Elems)
	if i >= n {
		n = i + 1
	}
	e := make([]Value, n)
	copy(e, a.Elems)
	for j := len(a.Elems); j < n; j++ {
		e[j] = a.Zero
	}
	e[i] = v
	return &ArrayV{a.N, e, a.Zero}
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	Bi   *ssa.Builtin
}

type TupleV []Value

type MapV struct{ Obj int }

// MapObj is the heap content of a map.
type MapObj struct {
	K, V []Value
}

// Host is the heap content of an intrinsic object.
type Host struct {
	Kind string
	F    []Value
	S    string
	N    int
}

// ---- strings

type PartKind uint8

const (
	PLit   PartKind = iota
	PInt            // decimal text of T (bv64)
	PF64            // text of the float64 T in %e form
	PF32            // text of the float32 T in %e form
	PBytes          // symbolic bytes B, length Len (nil: len(B))
)

type Part struct {
	K   PartKind
	L   string
	T   *Term
	B   []*Term
	Len *Term
}

type Str struct{ P []Part }

func Lit(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{[]Part{{K: PLit, L: s}}}
}

func (s Str) IsLit() (string, bool) {
	switch len(s.P) {
	case 0:
		return "", true
	case 1:
		if s.P[0].K == PLit {
			return s.P[0].L, true
		}
	}
	return "", false
}

func mkStr(ps []Part) Str {
	var out []Part
	for _, p := range ps {
		if p.K == PLit && p.L == "" {
			continue
		}
		if p.K == PBytes && len(p.B) == 0 {
			continue
		}
		if n := len(out); n > 0 && p.K == PLit && out[n-1].K == PLit {
			out[n-1] = Part{K: PLit, L: out[n-1].L + p.L}
			continue
		}
		out = append(out, p)
	}
	return Str{out}
}

func Concat(a, b Str) Str {
	ps := append(append([]Part(nil), a.P...), b.P...)
	bytesOnly := false
	for _, p := range ps {
		if p.K == PBytes {
			bytesOnly = true
		}
	}
	if bytesOnly {
		if x, ok := a.bytes(); ok {
			if y, ok := b.bytes(); ok {
				return concatBytes(x, y)
			}
		}
	}
	return mkStr(ps)
}

// bstr is a byte-level view: bytes with a length term (nil = concrete).
type bstr struct {
	B   []*Term
	Len *Term
}

func (b bstr) lenT() *Term {
	if b.Len != nil {
		return b.Len
	}
	return smt.IntC(int64(len(b.B)))
}

// bytes views s as symbolic bytes if it has no numeric atoms.
func (s Str) bytes() (bstr, bool) {
	var out bstr
	for i, p := range s.P {
		switch p.K {
		case PLit:
			if out.Len != nil {
				return out, false
			}
			for k := 0; k < len(p.L); k++ {
				out.B = append(out.B, smt.BVC(8, uint64(p.L[k])))
			}
		case PBytes:
			if out.Len != nil {
				return out, false
			}
			out.B = append(out.B, p.B...)
			if p.Len != nil {
				if i != 0 || len(s.P) != 1 {
					return out, false
				}
				out.Len = p.Len
			}
		default:
			return out, false
		}
	}
	return out, true
}

func fromB(b bstr) Str {
	if b.Len != nil && b.Len.IsConst() {
		b.B = b.B[:b.Len.Int()]
		b.Len = nil
	}
	if b.Len == nil {
		all := true
		for _, x := range b.B {
			if !x.IsConst() {
				all = false
				break
			}
		}
		if all {
			bs := make([]byte, len(b.B))
			for i, x := range b.B {
				bs[i] = byte(x.K)
			}
			return Lit(string(bs))
		}
	}
	if len(b.B) == 0 {
		return Str{}
	}
	return Str{[]Part{{K: PBytes, B: b.B, Len: b.Len}}}
}

func concatBytes(x, y bstr) Str {
	if x.Len == nil {
		r := bstr{B: append(append([]*Term(nil), x.B...), y.B...)}
		if y.Len != nil {
			r.Len = smt.Bin(smt.OAdd, y.Len, smt.IntC(int64(len(x.B))))
		}
		return fromB(r)
	}
	// x has symbolic length
	n := len(x.B) + len(y.B)
	out := make([]*Term, n)
	zero := smt.BVC(8, 0)
	for i := range out {
		cur := zero
		if i < len(x.B) {
			cur = x.B[i]
		}
		// y starts at x.Len = s for s in 0..len(x.B)
		for k := range y.B {
			s := i - k
			if s < 0 || s > len(x.B) {
				continue
			}
			cur = smt.Ite(smt.Eq(x.Len, smt.IntC(int64(s))), y.B[k], cur)
		}
		out[i] = cur
	}
	return fromB(bstr{B: out, Len: smt.Bin(smt.OAdd, x.Len, y.lenT())})
}

func (s Str) String() string {
	var b strings.Builder
	for _, p := range s.P {
		switch p.K {
		case PLit:
			b.WriteString(p.L)
		case PBytes:
			fmt.Fprintf(&b, "<bytes:%d>", len(p.B))
		default:
			fmt.Fprintf(&b, "<%d:%v>", p.K, p.T)
		}
	}
	return b.String()
}

// StrEq returns the condition under which a and b are equal, ok=false if it
// cannot be decided.
func StrEq(a, b Str) (*Term, bool) {
	la, oka := a.IsLit()
	lb, okb := b.IsLit()
	if oka && okb {
		return smt.BoolC(la == lb), true
	}
	if x, ok := a.bytes(); ok {
		if y, ok := b.bytes(); ok {
			c := smt.Eq(x.lenT(), y.lenT())
			n := len(x.B)
			if len(y.B) > n {
				n = len(y.B)
			}
			for i := 0; i < n; i++ {
				if i >= len(x.B) {
					c = smt.And(c, smt.Cmp(smt.OSle, y.lenT(), smt.IntC(int64(i))))
					break
				}
				if i >= len(y.B) {
					c = smt.And(c, smt.Cmp(smt.OSle, x.lenT(), smt.IntC(int64(i))))
					break
				}
				e := smt.Eq(x.B[i], y.B[i])
				if x.Len != nil || y.Len != nil {
					e = smt.Or(smt.Cmp(smt.OSle, x.lenT(), smt.IntC(int64(i))), e)
				}
				c = smt.And(c, e)
			}
			return c, true
		}
	}
	// identical shapes
	if len(a.P) == len(b.P) {
		c := smt.True
		same := true
		for i := range a.P {
			p, q := a.P[i], b.P[i]
			if p.K != q.K {
				same = false
				break
			}
			switch p.K {
			case PLit:
				if p.L != q.L {
					same = false
				}
			case PBytes:
				same = false
			default:
				if len(a.P) > 1 && p.T != q.T {
					same = false // adjacent digits could realign
					break
				}
				c = smt.And(c, smt.Eq(p.T, q.T))
			}
		}
		if same {
			return c, true
		}
	}
	// one atom against a literal
	if okb {
		a, b = b, a
		la, oka = lb, okb
	}
	if l, ok := a.IsLit(); ok {
		if l == "" {
			// an atom is never empty
			for _, p := range b.P {
				if p.K != PBytes {
					return smt.False, true
				}
			}
		}
		if len(b.P) == 1 && b.P[0].K == PInt {
			var n int64
			if _, err := fmt.Sscanf(l, "%d", &n); err == nil && fmt.Sprint(n) == l {
				return smt.Eq(b.P[0].T, smt.IntC(n)), true
			}
			return smt.False, true
		}
		if len(b.P) == 1 && (b.P[0].K == PF64 || b.P[0].K == PF32) {
			if !strings.ContainsAny(l, "eN") && l != "+Inf" && l != "-Inf" {
				return smt.False, true
			}
		}
		// contains a character no atom can produce and literals lack
		for _, p := range b.P {
			if p.K == PLit && !strings.Contains(l, p.L) {
				return smt.False, true
			}
		}
		for _, r := range l {
			in := strings.ContainsRune("-+0123456789.eNaInf", r)
			if in {
				continue
			}
			found := false
			for _, p := range b.P {
				if p.K == PBytes || (p.K == PLit && strings.ContainsRune(p.L, r)) {
					found = true
				}
			}
			if !found {
				return smt.False, true
			}
		}
	}
	return nil, false
}

// ---- persistent heap

type hnode struct {
	kids [16]*hnode
	vals [16]Value
}

type Heap struct {
	root *hnode
}

const hlevels = 6 // 16^6 = 16M objects

func (h Heap) Get(id int) Value {
	n := h.root
	for l := hlevels - 1; l > 0 && n != nil; l-- {
		n = n.kids[(id>>(4*l))&15]
	}
	if n == nil {
		return nil
	}
	return n.vals[id&15]
}

func hset(n *hnode, l, id int, v Value) *hnode {
	var c hnode
	if n != nil {
		c = *n
	}
	if l == 0 {
		c.vals[id&15] = v
	} else {
		k := (id >> (4 * l)) & 15
		c.kids[k] = hset(c.kids[k], l-1, id, v)
	}
	return &c
}

func (h Heap) Set(id int, v Value) Heap { return Heap{hset(h.root, hlevels-1, id, v)} }

// diff calls f for every id whose content pointer differs.
func hdiff(a, b *hnode, l, base int, f func(id int, x, y Value) bool) bool {
	if a == b {
		return true
	}
	for k := 0; k < 16; k++ {
		if l == 0 {
			var x, y Value
			if a != nil {
				x = a.vals[k]
			}
			if b != nil {
				y = b.vals[k]
			}
			if x == nil && y == nil {
				continue
			}
			if !f(base|k, x, y) {
				return false
			}
			continue
		}
		var x, y *hnode
		if a != nil {
			x = a.kids[k]
		}
		if b != nil {
			y = b.kids[k]
		}
		if !hdiff(x, y, l-1, base|k<<(4*l), f) {
			return false
		}
	}
	return true
}
