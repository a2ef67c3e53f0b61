package exec

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"gosym/smt"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	Unroll    int
	SortNet   bool // sorts run as a network of compare-and-swaps
	SymUnroll int // iterations of a loop decided by a symbolic condition, 0: no limit
	Feas      string // "none", "bits", "uf", "fp"
	FeasMs    int
	Merge     string // "all", "noint", "none"
	MaxStates int    // upper bound on processed block states
	Deadline  time.Time
	Exact     bool // feasibility uses exact FP
	// Decide decides a condition on a path without a solver: 1 true, 0 false.
	Decide func(pc []*Term, c *Term) int
	Thorough  bool
	Fix       map[string]int64
}

type State struct {
	pc     []*Term
	heap   Heap
	tag    string
	frames []frameRec
}

func (s *State) clone() *State { c := *s; return &c }

func (s *State) add(c *Term) *State {
	if c.IsTrue() {
		return s
	}
	n := s.clone()
	n.pc = append(s.pc[:len(s.pc):len(s.pc)], c)
	return n
}

type Outcome struct {
	St  *State
	Ret Value
}

// Obligation: the formula And(PC) && Bad must be unsatisfiable.
type Obligation struct {
	Kind  string // assert, panic, unwind, frame
	Label string
	Pos   string
	PC    []*Term
	Bad   *Term
	// equality assertion operands, when known (for diagnostics)
	Sites int
	Fn    string // function whose loop exceeded the bound (unwind)
}

type Engine struct {
	Prog    *ssa.Program
	Cfg     Config
	RepoPfx string
	HarnPfx string

	Obls        []*Obligation
	Reached     map[string]int
	ReachPC     map[string][]*Term
	Unsupported map[string]int
	Funcs       map[string]int
	Blocks      int
	Edges       int
	Forks       int
	Merges      int
	MergeFails  int
	FeasQ       int
	RangeN      int // branch conditions decided by ranges
	Asserts     int
	Notes       map[string]int
	PrunedN     int
	DoneStates  int
	Infeasible  int
	Incomplete  bool
	Inputs      []*Term
	InputKind   map[string]string
	Observed    map[string][]ObsT

	globals   map[*ssa.Global]int
	nextObj   int
	objName   map[int]string
	fnInfos   map[*ssa.Function]*fnInfo
	sess      *smt.Session
	absMemo   map[*Term]bool
	csess     *smt.Session
	models    []*smt.Evaluator
	depth     int
	errT      types.Type
	inited    map[*ssa.Function]bool
	heap0     Heap
	curFn     []*ssa.Function
	mergeTick int
	goalSeq   int
}

type ObsT struct {
	PC []*Term
	V  *Term
}

type frameRec struct {
	label  string
	limit  int // objects with id < limit are protected
	only   map[int]bool // when set: just these objects and the globals
}

type unsupported struct{ msg string }
type pathEnd struct{}

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func New(prog *ssa.Program, cfg Config) *Engine {
	e := &Engine{Prog: prog, Cfg: cfg, Notes: map[string]int{}, Reached: map[string]int{}, ReachPC: map[string][]*Term{}, Unsupported: map[string]int{}, Funcs: map[string]int{},
		globals: map[*ssa.Global]int{}, nextObj: 1, objName: map[int]string{}, fnInfos: map[*ssa.Function]*fnInfo{}, InputKind: map[string]string{}, inited: map[*ssa.Function]bool{}, Observed: map[string][]ObsT{}}
	if cfg.Feas != "none" {
		m := smt.ModeBits
		if cfg.Feas == "uf" {
			m = smt.ModeUF
		}
		if cfg.Feas == "fp" {
			m = smt.ModeFP
		}
		ms := cfg.FeasMs
		if ms == 0 {
			ms = 300
		}
		e.sess = smt.NewSession("z3-new", m, ms)
	}
	return e
}

func (e *Engine) Close() {
	if e.csess != nil {
		e.csess.Close()
	}
	if e.sess != nil {
		e.sess.Close()
	}
}

// ---- function metadata

type fnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	pos   []int   // block index -> order position
	live  [][]int // block index -> env slots live at entry (incl. phis)
	build bool
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.fnInfos[fn]; ok {
		return fi
	}
	if len(fn.Blocks) == 0 && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	e.fnInfos[fn] = fi
	nb := len(fn.Blocks)
	if nb == 0 {
		return fi
	}
	// Bourdoncle weak topological order
	dfn := make([]int, nb)
	num := 0
	const inf = 1 << 30
	var stack []int
	var visit func(v int, part *[]int) int
	var component func(v int) []int
	component = func(v int) []int {
		var part []int
		for _, s := range fn.Blocks[v].Succs {
			if dfn[s.Index] == 0 {
				visit(s.Index, &part)
			}
		}
		return append([]int{v}, part...)
	}
	visit = func(v int, part *[]int) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range fn.Blocks[v].Succs {
			var m int
			if dfn[s.Index] == 0 {
				m = visit(s.Index, part)
			} else {
				m = dfn[s.Index]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append(component(v), *part...)
			} else {
				*part = append([]int{v}, *part...)
			}
		}
		return head
	}
	var order []int
	visit(0, &order)
	fi.pos = make([]int, nb)
	for i := range fi.pos {
		fi.pos[i] = inf
	}
	for i, b := range order {
		fi.pos[b] = i
	}
	// liveness
	livein := make([]map[int]bool, nb)
	for i := range livein {
		livein[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := map[int]bool{}
			for _, s := range b.Succs {
				for k := range livein[s.Index] {
					l[k] = true
				}
				// remove s's phis, add this edge's operands
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
						for _, in := range s.Instrs {
							ph, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							if x, ok := fi.idx[ph.Edges[pi]]; ok {
								l[x] = true
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(l, fi.idx[v])
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if x, ok := fi.idx[*op]; ok {
						l[x] = true
					}
				}
			}
			if len(l) != len(livein[i]) {
				changed = true
			} else {
				for k := range l {
					if !livein[i][k] {
						changed = true
						break
					}
				}
			}
			livein[i] = l
		}
	}
	fi.live = make([][]int, nb)
	for i, b := range fn.Blocks {
		m := livein[i]
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				if refs := ph.Referrers(); refs != nil && len(*refs) > 0 {
					m[fi.idx[ph]] = true
				}
			}
		}
		for k := range m {
			fi.live[i] = append(fi.live[i], k)
		}
		sort.Ints(fi.live[i])
	}
	return fi
}

// ---- allocation, zero values

func (e *Engine) alloc(st *State, v Value, name string) int {
	id := e.nextObj
	e.nextObj++
	if name != "" {
		e.objName[id] = name
	}
	st.heap = st.heap.Set(id, v)
	return id
}

func sortOf(t types.Type) (smt.Sort, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return smt.Sort{}, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return smt.Bool, true
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return smt.BV64, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return smt.BV32, true
	case types.Int16, types.Uint16:
		return smt.BV(16), true
	case types.Int8, types.Uint8:
		return smt.BV8, true
	case types.Float32:
		return smt.F32, true
	case types.Float64, types.UntypedFloat:
		return smt.F64, true
	}
	return smt.Sort{}, false
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (e *Engine) zero(t types.Type) Value {
	if s, ok := sortOf(t); ok {
		return smt.Const(s, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String || u.Kind() == types.UntypedString {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return Ptr{}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		return &ArrayV{N: int(u.Len()), Zero: e.zero(u.Elem())}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = e.zero(u.At(i).Type())
		}
		return tv
	}
	unsup("zero of %v", t)
	return nil
}

// ---- merging

type merger struct {
	e      *Engine
	sel    *Term
	h1, h2 Heap
	m21    map[int]int // fresh objects of state 2 -> state 1
	m12    map[int]int
	work   [][2]int
}

func (m *merger) obj(a, b int) bool {
	if a == b {
		return a == 0 || (m.h1.Get(a) != nil && m.h2.Get(b) != nil)
	}
	if a == 0 || b == 0 {
		return false
	}
	if x, ok := m.m21[b]; ok {
		return x == a
	}
	if _, ok := m.m12[a]; ok {
		return false
	}
	if m.h2.Get(a) != nil || m.h1.Get(b) != nil {
		return false // pre-existing: identity is fixed
	}
	m.m21[b], m.m12[a] = a, b
	m.work = append(m.work, [2]int{a, b})
	return true
}

func isIdxConst(t *Term) bool { return t.IsConst() && t.S.K == smt.KBV && t.S.W == 64 }

func (m *merger) merge(a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.S != y.S {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if m.e.Cfg.Merge == "noint" && x.S.K == smt.KBV && isIdxConst(x) && isIdxConst(y) {
			return nil, false
		}
		return smt.Ite(m.sel, x, y), true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || len(x.Path) != len(y.Path) || !m.obj(x.Obj, y.Obj) {
			return nil, false
		}
		p, ok := m.path(x.Path, y.Path)
		return Ptr{x.Obj, p}, ok
	case Slice:
		y, ok := b.(Slice)
		if !ok || x.Off != y.Off || x.Len != y.Len || x.Cap != y.Cap || len(x.Path) != len(y.Path) || !m.obj(x.Obj, y.Obj) {
			return nil, false
		}
		p, ok := m.path(x.Path, y.Path)
		return Slice{x.Obj, p, x.Off, x.Len, x.Cap}, ok
	case Str:
		y, ok := b.(Str)
		if !ok {
			return nil, false
		}
		return m.str(x, y)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.T == nil && y.T == nil {
			return x, true
		}
		if x.T == nil || y.T == nil || !types.Identical(x.T, y.T) {
			return nil, false
		}
		v, ok := m.merge(x.V, y.V)
		return Iface{x.T, v}, ok
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		if x == y && len(m.m21) == 0 {
			return x, true
		}
		f := make([]Value, len(x.F))
		same := true
		for i := range f {
			if f[i], ok = m.merge(x.F[i], y.F[i]); !ok {
				return nil, false
			}
			if same && !sameVal(f[i], x.F[i]) {
				same = false
			}
		}
		if same {
			return x, true
		}
		return &StructV{f}, true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || x.N != y.N {
			return nil, false
		}
		if x == y {
			return x, true
		}
		n := len(x.Elems)
		if len(y.Elems) > n {
			n = len(y.Elems)
		}
		el := make([]Value, n)
		for i := range el {
			if el[i], ok = m.merge(x.Get(i), y.Get(i)); !ok {
				return nil, false
			}
		}
		return &ArrayV{x.N, el, x.Zero}, true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return nil, false
		}
		if x == nil || y == nil {
			return x, x == nil && y == nil
		}
		if x.Fn != y.Fn || x.Bi != y.Bi || len(x.Bind) != len(y.Bind) {
			return nil, false
		}
		bd := make([]Value, len(x.Bind))
		for i := range bd {
			if bd[i], ok = m.merge(x.Bind[i], y.Bind[i]); !ok {
				return nil, false
			}
		}
		return &FuncV{x.Fn, bd, x.Bi}, true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		f := make(TupleV, len(x))
		for i := range f {
			if f[i], ok = m.merge(x[i], y[i]); !ok {
				return nil, false
			}
		}
		return f, true
	case MapV:
		y, ok := b.(MapV)
		if !ok || !m.obj(x.Obj, y.Obj) {
			return nil, false
		}
		return x, true
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok || len(x.K) != len(y.K) {
			return nil, false
		}
		r := &MapObj{}
		for i := range x.K {
			k, ok := m.merge(x.K[i], y.K[i])
			if !ok {
				return nil, false
			}
			v, ok := m.merge(x.V[i], y.V[i])
			if !ok {
				return nil, false
			}
			r.K, r.V = append(r.K, k), append(r.V, v)
		}
		return r, true
	case *Host:
		y, ok := b.(*Host)
		if !ok || x.Kind != y.Kind || x.S != y.S || x.N != y.N || len(x.F) != len(y.F) {
			return nil, false
		}
		r := &Host{Kind: x.Kind, S: x.S, N: x.N}
		for i := range x.F {
			v, ok := m.merge(x.F[i], y.F[i])
			if !ok {
				return nil, false
			}
			r.F = append(r.F, v)
		}
		return r, true
	case nil:
		return nil, b == nil
	}
	return nil, false
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *StructV:
		y, ok := b.(*StructV)
		return ok && x == y
	case *ArrayV:
		y, ok := b.(*ArrayV)
		return ok && x == y
	}
	return false
}

func (m *merger) path(a, b []PE) ([]PE, bool) {
	var out []PE
	for i := range a {
		if a[i] == b[i] {
			out = append(out, a[i])
			continue
		}
		// differing indices: merge symbolically when allowed
		if m.e.Cfg.Merge == "noint" {
			return nil, false
		}
		ta, tb := a[i].T, b[i].T
		if ta == nil && tb == nil {
			return nil, false
		}
		if ta == nil {
			ta = smt.IntC(int64(a[i].I))
		}
		if tb == nil {
			tb = smt.IntC(int64(b[i].I))
		}
		out = append(out, PE{T: smt.Ite(m.sel, ta, tb)})
	}
	return out, true
}

func (m *merger) str(a, b Str) (Value, bool) {
	la, oka := a.IsLit()
	lb, okb := b.IsLit()
	if oka && okb && la == lb {
		return a, true
	}
	if len(a.P) == len(b.P) {
		ps := make([]Part, len(a.P))
		ok := true
		for i := range a.P {
			p, q := a.P[i], b.P[i]
			if p.K != q.K || p.K == PBytes || (p.K == PLit && p.L != q.L) {
				ok = false
				break
			}
			ps[i] = p
			if p.K != PLit {
				ps[i].T = smt.Ite(m.sel, p.T, q.T)
			}
		}
		if ok {
			return mkStr(ps), true
		}
	}
	if m.e.Cfg.Merge != "all" {
		return nil, false
	}
	x, ok1 := a.bytes()
	y, ok2 := b.bytes()
	if !ok1 || !ok2 || len(x.B) > 96 || len(y.B) > 96 {
		return nil, false
	}
	n := len(x.B)
	if len(y.B) > n {
		n = len(y.B)
	}
	out := make([]*Term, n)
	z := smt.BVC(8, 0)
	for i := range out {
		p, q := z, z
		if i < len(x.B) {
			p = x.B[i]
		} else if i < len(y.B) {
			p = y.B[i]
		}
		if i < len(y.B) {
			q = y.B[i]
		} else {
			q = p
		}
		out[i] = smt.Ite(m.sel, p, q)
	}
	return fromB(bstr{B: out, Len: smt.Ite(m.sel, x.lenT(), y.lenT())}), true
}

// mergeStates merges s2 into s1; vals are parallel root values.
func (e *Engine) mergeStates(s1, s2 *State, v1, v2 []Value) (*State, []Value, bool) {
	if e.Cfg.Merge == "none" || s1.tag != s2.tag || len(s1.frames) != len(s2.frames) {
		return nil, nil, false
	}
	k := 0
	for k < len(s1.pc) && k < len(s2.pc) && s1.pc[k] == s2.pc[k] {
		k++
	}
	r1, r2 := s1.pc[k:], s2.pc[k:]
	if len(r1) == 0 || len(r2) == 0 {
		return nil, nil, false // not a disjoint fork
	}
	c1, c2 := smt.AndAll(r1...), smt.AndAll(r2...)
	sel := c1
	if smt.Not(r1[0]) == r2[0] {
		sel = r1[0]
	}
	m := &merger{e: e, sel: sel, h1: s1.heap, h2: s2.heap, m21: map[int]int{}, m12: map[int]int{}}
	out := make([]Value, len(v1))
	for i := range v1 {
		if v1[i] == nil && v2[i] == nil {
			continue
		}
		v, ok := m.merge(v1[i], v2[i])
		if !ok {
			e.MergeFails++
			return nil, nil, false
		}
		out[i] = v
	}
	h := s1.heap
	okAll := hdiff(s1.heap.root, s2.heap.root, hlevels-1, 0, func(id int, x, y Value) bool {
		if x == nil || y == nil {
			return true
		}
		v, ok := m.merge(x, y)
		if !ok {
			return false
		}
		h = h.Set(id, v)
		return true
	})
	if !okAll {
		e.MergeFails++
		return nil, nil, false
	}
	for len(m.work) > 0 {
		w := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		v, ok := m.merge(s1.heap.Get(w[0]), s2.heap.Get(w[1]))
		if !ok {
			e.MergeFails++
			return nil, nil, false
		}
		h = h.Set(w[0], v)
	}
	n := s1.clone()
	n.heap = h
	n.pc = append([]*Term(nil), s1.pc[:k]...)
	if c := smt.Or(c1, c2); !c.IsTrue() {
		n.pc = append(n.pc, c)
	}
	e.Merges++
	return n, out, true
}

// ---- feasibility

// contained looks for c (or its negation) as a literal of the path condition.
func known(pc []*Term, c *Term) (bool, bool) {
	n := smt.Not(c)
	for i := len(pc) - 1; i >= 0; i-- {
		if pc[i] == c {
			return true, true
		}
		if pc[i] == n {
			return false, true
		}
	}
	return false, false
}

func (e *Engine) modelSat(pc []*Term, c *Term) bool {
outer:
	for i := len(e.models) - 1; i >= 0; i-- {
		ev := e.models[i]
		if c != nil && !ev.Bool(c) {
			continue
		}
		for k := len(pc) - 1; k >= 0; k-- {
			if !ev.Bool(pc[k]) {
				continue outer
			}
		}
		if i != len(e.models)-1 {
			e.models[i], e.models[len(e.models)-1] = e.models[len(e.models)-1], e.models[i]
		}
		return true
	}
	return false
}

// AddModel registers a concrete assignment for quick feasibility answers.
func (e *Engine) AddModel(m smt.Model) {
	e.models = append(e.models, smt.NewEval(m))
	if len(e.models) > 24 {
		e.models = e.models[1:]
	}
}

// feasible reports whether pc && c may hold (over-approximate).
func (e *Engine) feasible(pc []*Term, c *Term) bool {
	if c.IsConst() {
		return c.K != 0
	}
	if v, ok := known(pc, c); ok {
		return v
	}
	if e.Cfg.Decide != nil {
		switch e.Cfg.Decide(pc, c) {
		case 0:
			e.RangeN++
			return false
		case 1:
			e.RangeN++
			return true
		}
	}
	if e.sess == nil {
		return true
	}
	if e.Cfg.Feas == "lite" && e.abstract(c) {
		return true
	}
	if e.modelSat(pc, c) {
		return true
	}
	e.FeasQ++
	q := append(append([]*Term(nil), relevant(pc, c)...), c)
	v, m := e.sess.Check(q, true)
	if v == smt.Sat && m != nil {
		e.AddModel(m)
	}
	if v == smt.Unsat {
		e.PrunedN++
	}
	return v != smt.Unsat
}

// abstract reports whether c depends on an operation that is uninterpreted in
// the feasibility queries, which then rarely refute it.
func (e *Engine) abstract(c *Term) bool {
	if v, ok := e.absMemo[c]; ok {
		return v
	}
	r := false
	smt.Walk(func(t *Term) {
		if smt.ModeBits.Abstract(t) {
			r = true
		}
	}, c)
	if e.absMemo == nil {
		e.absMemo = map[*Term]bool{}
	}
	e.absMemo[c] = r
	return r
}

// relevant keeps the conjuncts sharing variables (transitively) with c.
func relevant(pc []*Term, c *Term) []*Term {
	if len(pc) < 6 {
		return pc
	}
	vs := map[*Term]bool{}
	for _, v := range smt.Vars(c) {
		vs[v] = true
	}
	used := make([]bool, len(pc))
	pv := make([][]*Term, len(pc))
	for i, p := range pc {
		pv[i] = varsOf(p)
	}
	for ch := true; ch; {
		ch = false
		for i := range pc {
			if used[i] {
				continue
			}
			for _, v := range pv[i] {
				if vs[v] {
					used[i] = true
					ch = true
					for _, w := range pv[i] {
						vs[w] = true
					}
					break
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return out
}

var varsMemo = map[int][]*Term{}

func varsOf(t *Term) []*Term {
	if v, ok := varsMemo[t.ID]; ok {
		return v
	}
	v := smt.Vars(t)
	varsMemo[t.ID] = v
	return v
}

// ---- obligations

func (e *Engine) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func (e *Engine) oblige(st *State, kind, label, pos string, bad *Term) {
	if bad.IsFalse() {
		return
	}
	if v, ok := known(st.pc, bad); ok && !v {
		return
	}
	e.Obls = append(e.Obls, &Obligation{Kind: kind, Label: label, Pos: pos, PC: st.pc, Bad: bad})
}

// check emits a panic obligation for bad and continues on the good side.
// It returns nil when the good side is impossible.
func (e *Engine) guard(st *State, bad *Term, what string, pos token.Pos) *State {
	if bad.IsFalse() {
		return st
	}
	if v, ok := known(st.pc, bad); ok && !v {
		return st
	}
	e.oblige(st, "panic", what, e.posOf(pos), bad)
	if bad.IsTrue() {
		return nil
	}
	return st.add(smt.Not(bad))
}

// ---- memory access

func (e *Engine) loadPath(v Value, path []PE) Value {
	for i, p := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[p.I]
		case *ArrayV:
			if p.T == nil {
				v = x.Get(p.I)
				continue
			}
			var res Value
			m := &merger{e: &Engine{Cfg: Config{Merge: "all"}}, m21: map[int]int{}, m12: map[int]int{}}
			for k := x.N - 1; k >= 0; k-- {
				cur := e.loadPath(x.Get(k), path[i+1:])
				if res == nil {
					res = cur
					continue
				}
				m.sel = smt.Eq(p.T, smt.IntC(int64(k)))
				if m.sel.IsFalse() {
					continue
				}
				r, ok := m.merge(cur, res)
				if !ok {
					return nil
				}
				res = r
			}
			return res
		default:
			unsup("loadPath through %T", v)
		}
	}
	return v
}

func (e *Engine) storePath(v Value, path []PE, nv Value, cond *Term) (Value, bool) {
	if len(path) == 0 {
		if cond == nil {
			return nv, true
		}
		m := &merger{e: &Engine{Cfg: Config{Merge: "all"}}, sel: cond, m21: map[int]int{}, m12: map[int]int{}}
		return m.merge(nv, v)
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		f := append([]Value(nil), x.F...)
		r, ok := e.storePath(f[p.I], path[1:], nv, cond)
		f[p.I] = r
		return &StructV{f}, ok
	case *ArrayV:
		if p.T == nil {
			r, ok := e.storePath(x.Get(p.I), path[1:], nv, cond)
			if !ok {
				return nil, false
			}
			return x.Set(p.I, r), true
		}
		out := x
		for k := 0; k < x.N; k++ {
			c := smt.Eq(p.T, smt.IntC(int64(k)))
			if c.IsFalse() {
				continue
			}
			if cond != nil {
				c = smt.And(c, cond)
			}
			r, ok := e.storePath(x.Get(k), path[1:], nv, c)
			if !ok {
				return nil, false
			}
			out = out.Set(k, r)
		}
		return out, true
	}
	unsup("storePath through %T", v)
	return nil, false
}

// concretize forks st over the feasible concrete values of the symbolic path
// elements (or a term), used when values cannot be merged.
func (e *Engine) splitTerm(st *State, t *Term, limit int) []struct {
	St *State
	V  int64
} {
	type R = struct {
		St *State
		V  int64
	}
	var out []R
	if t.IsConst() {
		return []R{{st, t.Int()}}
	}
	cur := st
	// candidate values from ite leaves first
	cand := map[int64]bool{}
	var leaves func(x *Term, d int)
	leaves = func(x *Term, d int) {
		if d == 0 {
			return
		}
		if x.IsConst() {
			cand[x.Int()] = true
		} else if x.Op == smt.OIte {
			leaves(x.Args[1], d-1)
			leaves(x.Args[2], d-1)
		}
	}
	leaves(t, 64)
	if e.sess == nil {
		// a session of its own: forks stay unchecked
		if e.csess == nil {
			e.csess = smt.NewSession("z3-new", smt.ModeBits, 1000)
		}
		e.sess = e.csess
		defer func() { e.sess = nil }()
	}
	var cs []int64
	for c := range cand {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	for _, c := range cs {
		q := smt.Eq(t, smt.IntC(c))
		if e.feasible(cur.pc, q) {
			out = append(out, R{cur.add(q), c})
		}
		cur = cur.add(smt.Not(q))
	}
	for len(out) < limit {
		v, m := e.sess.Check(cur.pc, true)
		if v == smt.Unsat {
			return out
		}
		if v != smt.Sat || m == nil {
			break
		}
		for _, x := range smt.Vars(t) {
			if _, ok := m[x.Name]; !ok {
				m[x.Name] = 0
			}
		}
		// the model may be spurious for abstracted operations; only pin
		// terms that are pure bit-vector
		val := smt.NewEval(m).Eval(t)
		q := smt.Eq(t, smt.Const(t.S, val))
		if q.IsFalse() {
			break
		}
		out = append(out, R{cur.add(q), smt.Const(t.S, val).Int()})
		cur = cur.add(smt.Not(q))
	}
	e.Unsupported["value split limit reached"]++
	e.Obls = append(e.Obls, &Obligation{Kind: "unwind", Label: "value split limit", PC: cur.pc, Bad: smt.True})
	return out
}

func symPE(path []PE) int {
	for i, p := range path {
		if p.T != nil {
			return i
		}
	}
	return -1
}

type ldRes struct {
	St *State
	V  Value
}

func (e *Engine) load(st *State, p Ptr, pos token.Pos) []ldRes {
	if p.Obj == 0 {
		e.oblige(st, "panic", "nil pointer dereference", e.posOf(pos), smt.True)
		return nil
	}
	root := st.heap.Get(p.Obj)
	if root == nil {
		unsup("load of missing object %d", p.Obj)
	}
	v := e.loadPath(root, p.Path)
	if v != nil {
		return []ldRes{{st, v}}
	}
	// cannot merge: split on the index
	k := symPE(p.Path)
	var out []ldRes
	for _, r := range e.splitTerm(st, p.Path[k].T, 64) {
		np := append([]PE(nil), p.Path...)
		np[k] = PE{I: int(r.V)}
		out = append(out, e.load(r.St, Ptr{p.Obj, np}, pos)...)
	}
	return out
}

func (e *Engine) store(st *State, p Ptr, v Value, pos token.Pos) []*State {
	if p.Obj == 0 {
		e.oblige(st, "panic", "nil pointer dereference", e.posOf(pos), smt.True)
		return nil
	}
	root := st.heap.Get(p.Obj)
	if root == nil {
		unsup("store to missing object %d", p.Obj)
	}
	for _, f := range st.frames {
		if e.protected(f, p.Obj) {
			// writing an identical value is still a write
			e.oblige(st, "frame", f.label+": write to shared object "+e.objName[p.Obj], e.posOf(pos), smt.True)
		}
	}
	nv, ok := e.storePath(root, p.Path, v, nil)
	if ok {
		n := st.clone()
		n.heap = st.heap.Set(p.Obj, nv)
		return []*State{n}
	}
	k := symPE(p.Path)
	var out []*State
	for _, r := range e.splitTerm(st, p.Path[k].T, 64) {
		np := append([]PE(nil), p.Path...)
		np[k] = PE{I: int(r.V)}
		out = append(out, e.store(r.St, Ptr{p.Obj, np}, v, pos)...)
	}
	return out
}

// SliceGet reads element i of s.
func (e *Engine) sliceGet(st *State, s Slice, i int) Value {
	arr := e.loadPath(st.heap.Get(s.Obj), s.Path).(*ArrayV)
	return arr.Get(s.Off + i)
}

func (e *Engine) sliceVals(st *State, s Slice) []Value {
	out := make([]Value, s.Len)
	if s.Len == 0 {
		return out
	}
	arr := e.loadPath(st.heap.Get(s.Obj), s.Path).(*ArrayV)
	for i := range out {
		out[i] = arr.Get(s.Off + i)
	}
	return out
}

func (e *Engine) newSlice(st *State, vals []Value, zero Value) Slice {
	id := e.alloc(st, &ArrayV{N: len(vals), Elems: append([]Value(nil), vals...), Zero: zero}, "")
	return Slice{Obj: id, Len: len(vals), Cap: len(vals)}
}

// ---- constants

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if s, ok := sortOf(t); ok {
		switch s.K {
		case smt.KBool:
			return smt.BoolC(constant.BoolVal(c.Value))
		case smt.KBV:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return smt.Const(s, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return smt.Const(s, u)
		case smt.KF64:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return smt.F64C(f)
		case smt.KF32:
			f, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return smt.F32C(f)
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.String {
			return Lit(constant.StringVal(c.Value))
		}
	}
	unsup("constant %v", c)
	return nil
}

func (e *Engine) globalObj(st *State, g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		if st.heap.Get(id) == nil {
			// allocated in another branch of execution: give the same initial value
			st.heap = st.heap.Set(id, e.globalInit(st, g))
		}
		return id
	}
	id := e.nextObj
	e.nextObj++
	e.objName[id] = "global " + g.String()
	e.globals[g] = id
	st.heap = st.heap.Set(id, e.globalInit(st, g))
	return id
}

func (e *Engine) globalInit(st *State, g *ssa.Global) Value {
	t := g.Type().(*types.Pointer).Elem()
	if g.Pkg != nil {
		switch g.Pkg.Pkg.Path() + "." + g.Name() {
		case "io.EOF", "io.ErrUnexpectedEOF", "bufio.ErrTooLong", "strconv.ErrSyntax", "strconv.ErrRange":
			return e.hostErr(st, g.Name())
		case "math.Pi":
			return smt.F64C(math.Pi)
		}
	}
	if g.Pkg != nil && !e.inScope(g.Pkg.Pkg.Path()) {
		switch g.Pkg.Pkg.Path() + "." + g.Name() {
		case "golang.org/x/text/encoding/unicode.UTF8":
			er := e.hostErr(st, "").(Iface)
			id := e.alloc(st, &Host{Kind: "utf8"}, "")
			return Iface{er.T, Ptr{Obj: id}}
		}
		unsup("library global %s", g)
	}
	return e.zero(t)
}

func (e *Engine) hostErr(st *State, msg string) Value {
	if e.errT == nil {
		for _, p := range e.Prog.AllPackages() {
			if strings.HasSuffix(p.Pkg.Path(), "vharness/sym") {
				e.errT = types.NewPointer(p.Type("HostErr").Type())
			}
		}
		if e.errT == nil {
			unsup("no HostErr type")
		}
	}
	id := e.alloc(st, &StructV{[]Value{Lit(msg)}}, "")
	return Iface{e.errT, Ptr{Obj: id}}
}

var Debug = os.Getenv("GOSYM_DEBUG") != ""
