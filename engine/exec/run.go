package exec

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"
	"unicode/utf8"

	"gosym/smt"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 80

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type fstate struct {
	st     *State
	env    []Value
	cnt    []int
	blk    *ssa.BasicBlock
	defers []deferred
}

func (f *fstate) fork(st *State) *fstate {
	n := &fstate{st: st, env: append([]Value(nil), f.env...), cnt: f.cnt, blk: f.blk, defers: f.defers[:len(f.defers):len(f.defers)]}
	return n
}

type frame struct {
	e    *Engine
	fn   *ssa.Function
	fi   *fnInfo
	outs []Outcome
	work []*fstate
	keep map[*ssa.BasicBlock]int
}

// Call executes fn from st and returns its (merged where possible) outcomes.
func (e *Engine) Call(st *State, fn *ssa.Function, args []Value, bind []Value) []Outcome {
	if e.depth >= maxDepth {
		e.unwind(st, "recursion depth", fn.String(), e.posOf(fn.Pos()))
		return nil
	}
	e.depth++
	e.curFn = append(e.curFn, fn)
	defer func() { e.depth--; e.curFn = e.curFn[:len(e.curFn)-1] }()
	fi := e.info(fn)
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	e.Funcs[fn.String()]++
	env := make([]Value, fi.n)
	copy(env, args)
	copy(env[len(fn.Params):], bind)
	f := &frame{e: e, fn: fn, fi: fi}
	f.work = []*fstate{{st: st, env: env, blk: fn.Blocks[0], cnt: make([]int, 2*len(fn.Blocks))}}
	for len(f.work) > 0 {
		e.checkDeadline()
		// least WTO position first
		best := 0
		for i, w := range f.work {
			if f.fi.pos[w.blk.Index] < f.fi.pos[f.work[best].blk.Index] {
				best = i
			}
		}
		w := f.work[best]
		f.work[best] = f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		e.Blocks++
		f.safe(w.st, func() { f.block(w, 0) })
	}
	return e.mergeOuts(f.outs)
}

type deadline struct{}

func (e *Engine) checkDeadline() {
	if !e.Cfg.Deadline.IsZero() && time.Now().After(e.Cfg.Deadline) {
		panic(deadline{})
	}
	if e.Cfg.MaxStates > 0 && e.Blocks > e.Cfg.MaxStates {
		panic(deadline{})
	}
}

// safe runs g, turning unsupported constructs into the end of the path.
func (f *frame) safe(st *State, g func()) {
	e := f.e
	d, cf := e.depth, len(e.curFn)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			e.depth, e.curFn = d, e.curFn[:cf]
			msg := u.msg + " in " + f.fn.String()
			e.Unsupported[msg]++
			if Debug {
				fmt.Fprintln(os.Stderr, "UNSUPPORTED", msg)
			}
			e.Obls = append(e.Obls, &Obligation{Kind: "unsupported", Label: msg, PC: st.pc, Bad: smt.True})
		}
	}()
	g()
}

func (e *Engine) unwind(st *State, what, fn, pos string) {
	e.Obls = append(e.Obls, &Obligation{Kind: "unwind", Label: what + " in " + fn, Pos: pos, PC: st.pc, Bad: smt.True, Fn: fn})
}

func (e *Engine) mergeOuts(outs []Outcome) []Outcome {
	if len(outs) < 2 || e.Cfg.Merge == "none" {
		return outs
	}
	var res []Outcome
	for _, o := range outs {
		done := false
		for i := len(res) - 1; i >= 0 && i >= len(res)-8; i-- {
			if st, v, ok := e.mergeStates(res[i].St, o.St, []Value{res[i].Ret}, []Value{o.Ret}); ok {
				res[i] = Outcome{st, v[0]}
				done = true
				break
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

func (f *frame) get(fs *fstate, v ssa.Value) Value {
	if i, ok := f.fi.idx[v]; ok {
		return fs.env[i]
	}
	switch x := v.(type) {
	case *ssa.Const:
		return f.e.constVal(x)
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return &FuncV{Bi: x}
	case *ssa.Global:
		return Ptr{Obj: f.e.globalObj(fs.st, x)}
	}
	unsup("value %T", v)
	return nil
}

// edge moves fs along from -> to.
func (f *frame) edge(fs *fstate, from, to *ssa.BasicBlock, dup bool) {
	e := f.e
	e.Edges++
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	env := fs.env
	if dup {
		env = append([]Value(nil), env...)
	}
	var vals []Value
	var slots []int
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, f.get(fs, ph.Edges[pi]))
		slots = append(slots, f.fi.idx[ph])
	}
	for i, s := range slots {
		env[s] = vals[i]
	}
	cnt := fs.cnt
	if f.fi.pos[to.Index] <= f.fi.pos[from.Index] { // back edge
		c := append([]int(nil), cnt...)
		c[to.Index]++
		// leaving to an outer head resets counts of inner heads
		nb := len(c) / 2
		for b := 0; b < nb; b++ {
			if b != to.Index && f.fi.pos[b] > f.fi.pos[to.Index] && f.fi.pos[b] <= f.fi.pos[from.Index] {
				c[b] = 0
				c[nb+b] = 0
			}
		}
		cnt = c
		if c[to.Index] > e.Cfg.Unroll {
			e.unwind(fs.st, fmt.Sprintf("loop bound %d", e.Cfg.Unroll), f.fn.String(), e.posOf(blockPos(to)))
			return
		}
	}
	n := &fstate{st: fs.st, env: env, cnt: cnt, blk: to, defers: fs.defers}
	if e.Cfg.Merge != "none" {
		tries := 0
		for i := len(f.work) - 1; i >= 0; i-- {
			w := f.work[i]
			if w.blk != to || len(w.defers) != len(n.defers) {
				continue
			}
			tries++
			if tries > 6 {
				break
			}
			live := f.fi.live[to.Index]
			v1 := make([]Value, len(live))
			v2 := make([]Value, len(live))
			for k, s := range live {
				v1[k], v2[k] = w.env[s], n.env[s]
			}
			st, vs, ok := e.mergeStates(w.st, n.st, v1, v2)
			if !ok {
				continue
			}
			env := make([]Value, len(n.env))
			for k, s := range live {
				env[s] = vs[k]
			}
			c := append([]int(nil), w.cnt...)
			for k := range c {
				if n.cnt[k] > c[k] {
					c[k] = n.cnt[k]
				}
			}
			f.work[i] = &fstate{st: st, env: env, cnt: c, blk: to, defers: w.defers}
			return
		}
	}
	f.work = append(f.work, n)
}

// ForkSites counts forks by position when GOSYM_FORKS is set.
var ForkSites map[string]int

func init() {
	if os.Getenv("GOSYM_FORKS") != "" {
		ForkSites = map[string]int{}
	}
}

func blockPosIf(b *ssa.BasicBlock, x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	return blockPos(b)
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	if len(b.Succs) > 0 {
		for _, in := range b.Succs[0].Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// block executes fs.blk from instruction k.
func (f *frame) block(fs *fstate, k int) {
	e := f.e
	b := fs.blk
	for ; k < len(b.Instrs); k++ {
		in := b.Instrs[k]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			f.edge(fs, b, b.Succs[0], false)
			return
		case *ssa.If:
			c := f.get(fs, x.Cond).(*Term)
			if c.IsConst() {
				if c.K != 0 {
					f.edgeTo(fs, b, 0)
				} else {
					f.edgeTo(fs, b, 1)
				}
				return
			}
			nc := smt.Not(c)
			t := e.feasible(fs.st.pc, c)
			fl := true
			if t {
				fl = e.feasible(fs.st.pc, nc)
			}
			if t && fl {
				e.Forks++
				if e.Cfg.SymUnroll > 0 {
					// bound the iterations decided by a symbolic condition
					c := append([]int(nil), fs.cnt...)
					k := len(c)/2 + b.Index
					c[k]++
					if c[k] > e.Cfg.SymUnroll {
						e.unwind(fs.st, fmt.Sprintf("symbolic loop bound %d", e.Cfg.SymUnroll), f.fn.String(), e.posOf(blockPos(b)))
						return
					}
					fs.cnt = c
				}
				if ForkSites != nil {
					ForkSites[e.posOf(blockPosIf(b, x))]++
				}
				s2 := fs.fork(fs.st.add(nc))
				fs.st = fs.st.add(c)
				f.edgeTo(fs, b, 0)
				f.edgeTo(s2, b, 1)
			} else if t {
				f.edgeTo(fs, b, 0)
			} else {
				f.edgeTo(fs, b, 1)
			}
			return
		case *ssa.Return:
			var ret Value
			switch len(x.Results) {
			case 0:
			case 1:
				ret = f.get(fs, x.Results[0])
			default:
				tv := make(TupleV, len(x.Results))
				for i, r := range x.Results {
					tv[i] = f.get(fs, r)
				}
				ret = tv
			}
			f.outs = append(f.outs, Outcome{fs.st, ret})
			return
		case *ssa.Panic:
			e.oblige(fs.st, "panic", "explicit panic", e.posOf(x.Pos()), smt.True)
			return
		case *ssa.Store:
			p := f.get(fs, x.Addr).(Ptr)
			v := f.get(fs, x.Val)
			sts := e.store(fs.st, p, v, x.Pos())
			if len(sts) == 1 {
				fs.st = sts[0]
				continue
			}
			for _, s := range sts {
				f.resume(fs.fork(s), k+1)
			}
			return
		case *ssa.RunDefers:
			sts := []*State{fs.st}
			for i := len(fs.defers) - 1; i >= 0; i-- {
				d := fs.defers[i]
				var nx []*State
				for _, s := range sts {
					for _, o := range e.callValue(s, d.call, d.fn, d.args, x.Pos()) {
						nx = append(nx, o.St)
					}
				}
				sts = nx
			}
			if len(sts) == 1 {
				fs.st = sts[0]
				continue
			}
			for _, s := range sts {
				f.resume(fs.fork(s), k+1)
			}
			return
		case *ssa.Defer:
			fn, args := f.prepare(fs, &x.Call)
			fs.defers = append(fs.defers[:len(fs.defers):len(fs.defers)], deferred{fn, args, &x.Call})
			continue
		case *ssa.MapUpdate:
			f.mapUpdate(fs, x)
			continue
		}
		v, ok := in.(ssa.Value)
		if !ok {
			unsup("instruction %T", in)
		}
		slot := f.fi.idx[v]
		res := f.eval(fs, v)
		if len(res) == 1 {
			fs.st = res[0].St
			fs.env[slot] = res[0].Ret
			continue
		}
		for _, r := range res {
			n := fs.fork(r.St)
			n.env[slot] = r.Ret
			f.resume(n, k+1)
		}
		return
	}
}

func (f *frame) resume(fs *fstate, k int) {
	f.safe(fs.st, func() { f.block(fs, k) })
}

func (f *frame) edgeTo(fs *fstate, b *ssa.BasicBlock, i int) { f.edge(fs, b, b.Succs[i], false) }

func one(st *State, v Value) []Outcome { return []Outcome{{st, v}} }

func (f *frame) eval(fs *fstate, v ssa.Value) []Outcome {
	e := f.e
	st := fs.st
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		id := e.alloc(st0(&st), e.zero(t), "")
		return one(st, Ptr{Obj: id})
	case *ssa.BinOp:
		return e.binop(st, x.Op, f.get(fs, x.X), f.get(fs, x.Y), x.X.Type(), x.Y.Type(), x.Pos())
	case *ssa.UnOp:
		a := f.get(fs, x.X)
		switch x.Op {
		case token.MUL:
			p, ok := a.(Ptr)
			if !ok {
				unsup("deref of %T", a)
			}
			var out []Outcome
			for _, r := range e.load(st, p, x.Pos()) {
				out = append(out, Outcome{r.St, r.V})
			}
			return out
		case token.NOT:
			return one(st, smt.Not(a.(*Term)))
		case token.SUB:
			t := a.(*Term)
			if t.S.IsFloat() {
				return one(st, smt.FNeg(t))
			}
			return one(st, smt.Bin(smt.OSub, smt.Const(t.S, 0), t))
		case token.XOR:
			return one(st, smt.BNot(a.(*Term)))
		}
		unsup("unop %v", x.Op)
	case *ssa.Call:
		fn, args := f.prepare(fs, &x.Call)
		return e.callValue(st, &x.Call, fn, args, x.Pos())
	case *ssa.ChangeType:
		return one(st, f.get(fs, x.X))
	case *ssa.ChangeInterface:
		return one(st, f.get(fs, x.X))
	case *ssa.Convert:
		return e.convert(st, f.get(fs, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		return one(st, Iface{x.X.Type(), f.get(fs, x.X)})
	case *ssa.MakeClosure:
		bind := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			bind[i] = f.get(fs, b)
		}
		return one(st, &FuncV{Fn: x.Fn.(*ssa.Function), Bind: bind})
	case *ssa.MakeMap:
		s := st.clone()
		return one(s, MapV{e.alloc(s, &MapObj{}, "")})
	case *ssa.MakeSlice:
		ln := e.asInt(f.get(fs, x.Len))
		cp := e.asInt(f.get(fs, x.Cap))
		el := x.Type().Underlying().(*types.Slice).Elem()
		var out []Outcome
		bad := smt.Or(smt.Cmp(smt.OSlt, ln, smt.IntC(0)), smt.Cmp(smt.OSlt, cp, ln))
		s := e.guard(st, bad, "makeslice: len out of range", x.Pos())
		if s == nil {
			return nil
		}
		const lim = 4096
		big := smt.Cmp(smt.OSlt, smt.IntC(lim), cp)
		if cp.IsConst() && cp.Int() <= 64<<20 {
			big = smt.False
		}
		if e.feasible(s.pc, big) {
			e.unwind(s.add(big), "allocation larger than modelled", f.fn.String(), e.posOf(x.Pos()))
			if big.IsTrue() {
				return nil
			}
			s = s.add(smt.Not(big))
		}
		for _, r := range e.splitTerm(s, cp, 16) {
			lt := ln
			if ln == cp {
				lt = smt.IntC(r.V)
			}
			for _, q := range e.splitTerm(r.St, lt, 16) {
				n := q.St.clone()
				id := e.alloc(n, &ArrayV{N: int(r.V), Zero: e.zero(el)}, "")
				out = append(out, Outcome{n, Slice{Obj: id, Len: int(q.V), Cap: int(r.V)}})
			}
		}
		return out
	case *ssa.FieldAddr:
		p, ok := f.get(fs, x.X).(Ptr)
		if !ok || p.Obj == 0 {
			e.oblige(st, "panic", "nil pointer dereference", e.posOf(x.Pos()), smt.True)
			return nil
		}
		return one(st, Ptr{p.Obj, appendPE(p.Path, PE{I: x.Field})})
	case *ssa.Field:
		return one(st, f.get(fs, x.X).(*StructV).F[x.Field])
	case *ssa.IndexAddr:
		return e.indexAddr(st, f.get(fs, x.X), x.X.Type(), e.asIntT(f.get(fs, x.Index), x.Index.Type()), x.Pos())
	case *ssa.Index:
		return e.index(st, f.get(fs, x.X), x.X.Type(), e.asIntT(f.get(fs, x.Index), x.Index.Type()), x.Pos())
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return e.mapLookup(st, f.get(fs, x.X), f.get(fs, x.Index), x)
		}
		return e.index(st, f.get(fs, x.X), x.X.Type(), e.asIntT(f.get(fs, x.Index), x.Index.Type()), x.Pos())
	case *ssa.Extract:
		return one(st, f.get(fs, x.Tuple).(TupleV)[x.Index])
	case *ssa.Slice:
		return f.slice(fs, x)
	case *ssa.TypeAssert:
		return e.typeAssert(st, f.get(fs, x.X).(Iface), x)
	case *ssa.Range:
		s := st.clone()
		switch c := f.get(fs, x.X).(type) {
		case Str:
			return one(s, Ptr{Obj: e.alloc(s, &Host{Kind: "striter", F: []Value{c}}, "")})
		case MapV:
			h := &Host{Kind: "mapiter", F: []Value{c}}
			return one(s, Ptr{Obj: e.alloc(s, h, "")})
		}
		unsup("range")
	case *ssa.Next:
		return e.next(st, f.get(fs, x.Iter).(Ptr), x)
	}
	unsup("%T", v)
	return nil
}

func st0(st **State) *State { *st = (*st).clone(); return *st }

func appendPE(p []PE, x PE) []PE { return append(p[:len(p):len(p)], x) }

func (e *Engine) asInt(v Value) *Term { return e.asIntT(v, nil) }

func (e *Engine) asIntT(v Value, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		unsup("index %T", v)
	}
	if x.S.W == 64 {
		return x
	}
	if t != nil && isUnsigned(t) {
		return smt.ZExt(x, 64)
	}
	return smt.SExt(x, 64)
}

// ---- calls

func (f *frame) prepare(fs *fstate, c *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(c.Args)+1)
	var fn Value
	if c.IsInvoke() {
		fn = f.get(fs, c.Value)
	} else {
		fn = f.get(fs, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, f.get(fs, a))
	}
	return fn, args
}

func (e *Engine) callValue(st *State, c *ssa.CallCommon, fn Value, args []Value, pos token.Pos) []Outcome {
	if c != nil && c.IsInvoke() {
		i, ok := fn.(Iface)
		if !ok {
			unsup("invoke on %T", fn)
		}
		if i.T == nil {
			e.oblige(st, "panic", "nil interface method call", e.posOf(pos), smt.True)
			return nil
		}
		if p, ok := i.V.(Ptr); ok && len(p.Path) == 0 {
			if h, ok := st.heap.Get(p.Obj).(*Host); ok {
				return e.hostInvoke(st, h, i, c.Method, args)
			}
		}
		m := e.Prog.LookupMethod(i.T, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			unsup("no method %s on %v", c.Method.Name(), i.T)
		}
		return e.callFn(st, m, append([]Value{i.V}, args...), nil, pos)
	}
	fv, ok := fn.(*FuncV)
	if !ok {
		unsup("call of %T", fn)
	}
	if fv == nil {
		e.oblige(st, "panic", "nil function call", e.posOf(pos), smt.True)
		return nil
	}
	if fv.Bi != nil {
		var ts []types.Type
		if c != nil {
			for _, a := range c.Args {
				ts = append(ts, a.Type())
			}
		}
		return e.builtin(st, fv.Bi.Name(), args, ts, pos)
	}
	return e.callFn(st, fv.Fn, args, fv.Bind, pos)
}

func (e *Engine) callFn(st *State, fn *ssa.Function, args, bind []Value, pos token.Pos) []Outcome {
	if fn == nil {
		// host closure (see sortSwap)
		unsup("nil fn")
	}
	name := fn.String()
	if e.Cfg.SortNet {
		switch name {
		case "sort.Sort", "sort.Stable":
			return e.Call(st, e.symFunc("modelSortI"), args, nil)
		case "sort.Float64s":
			return e.Call(st, e.symFunc("modelSortF64"), args, nil)
		}
	}
	if h, ok := intrinsics[name]; ok {
		return h(e, st, args, pos)
	}
	if name == "vharness/sym.modelSwap" {
		sl := bind[0].(Slice)
		i, j := int(args[0].(*Term).Int()), int(args[1].(*Term).Int())
		if !args[0].(*Term).IsConst() || !args[1].(*Term).IsConst() {
			unsup("symbolic swap")
		}
		vi, vj := e.sliceGet(st, sl, i), e.sliceGet(st, sl, j)
		p := func(k int) Ptr { return Ptr{sl.Obj, appendPE(sl.Path, PE{I: sl.Off + k})} }
		s := e.store(st, p(i), vj, pos)[0]
		return one(e.store(s, p(j), vi, pos)[0], nil)
	}
	if m, ok := models[name]; ok {
		mf := e.symFunc(m)
		return e.Call(st, mf, args, nil)
	}
	pk := fn.Package()
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Package()
	}
	if fn.Name() == "init" && fn.Synthetic != "" && pk != nil && !e.inScope(pk.Pkg.Path()) {
		return one(st, nil)
	}
	return e.Call(st, fn, args, bind)
}

func (e *Engine) inScope(path string) bool {
	return strings.HasPrefix(path, e.RepoPfx) || strings.HasPrefix(path, e.HarnPfx)
}

func (e *Engine) symFunc(name string) *ssa.Function {
	for _, p := range e.Prog.AllPackages() {
		if strings.HasSuffix(p.Pkg.Path(), "vharness/sym") {
			if f := p.Func(name); f != nil {
				return f
			}
		}
	}
	unsup("no model %s", name)
	return nil
}

func (e *Engine) builtin(st *State, name string, args []Value, ts []types.Type, pos token.Pos) []Outcome {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			if name == "cap" {
				return one(st, smt.IntC(int64(x.Cap)))
			}
			return one(st, smt.IntC(int64(x.Len)))
		case Str:
			return one(st, e.strLen(x))
		case MapV:
			if x.Obj == 0 {
				return one(st, smt.IntC(0))
			}
			return one(st, smt.IntC(int64(len(st.heap.Get(x.Obj).(*MapObj).K))))
		case *ArrayV:
			return one(st, smt.IntC(int64(x.N)))
		case Ptr:
			if a, ok := ts[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return one(st, smt.IntC(a.Len()))
			}
		}
		unsup("len of %T", args[0])
	case "append":
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = e.sliceVals(st, y)
		case Str:
			b, ok := y.bytes()
			if !ok || b.Len != nil {
				unsup("append string")
			}
			for _, t := range b.B {
				add = append(add, t)
			}
		}
		el := ts[0].Underlying().(*types.Slice).Elem()
		n := st.clone()
		return one(n, e.appendVals(n, s, add, e.zero(el), pos))
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = e.sliceVals(st, y)
		case Str:
			b, ok := y.bytes()
			if !ok || b.Len != nil {
				unsup("copy string")
			}
			for _, t := range b.B {
				src = append(src, t)
			}
		}
		k := len(src)
		if d.Len < k {
			k = d.Len
		}
		cur := st
		for i := 0; i < k; i++ {
			ss := e.store(cur, Ptr{d.Obj, appendPE(d.Path, PE{I: d.Off + i})}, src[i], pos)
			if len(ss) != 1 {
				unsup("copy split")
			}
			cur = ss[0]
		}
		return one(cur, smt.IntC(int64(k)))
	case "delete":
		m := args[0].(MapV)
		if m.Obj == 0 {
			return one(st, nil)
		}
		mo := st.heap.Get(m.Obj).(*MapObj)
		i, ok := e.mapFind(mo, args[1])
		if !ok {
			unsup("delete with symbolic key")
		}
		n := st.clone()
		if i >= 0 {
			r := &MapObj{}
			r.K = append(append(r.K, mo.K[:i]...), mo.K[i+1:]...)
			r.V = append(append(r.V, mo.V[:i]...), mo.V[i+1:]...)
			n.heap = n.heap.Set(m.Obj, r)
		}
		return one(n, nil)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := r.(*Term), a.(*Term)
			if x.S.IsFloat() {
				op := smt.OFMin
				if name == "max" {
					op = smt.OFMax
				}
				r = smt.FBin(op, x, y)
				continue
			}
			lt := smt.OSlt
			if isUnsigned(ts[0]) {
				lt = smt.OUlt
			}
			c := smt.Cmp(lt, x, y)
			if name == "max" {
				c = smt.Cmp(lt, y, x)
			}
			r = smt.Ite(c, x, y)
		}
		return one(st, r)
	case "print", "println":
		return one(st, nil)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.Obj == 0 {
			e.oblige(st, "panic", "nil receiver", e.posOf(pos), smt.True)
			return nil
		}
		return one(st, args[0])
	case "recover":
		return one(st, Iface{})
	}
	unsup("builtin %s", name)
	return nil
}

func (e *Engine) appendVals(st *State, s Slice, add []Value, zero Value, pos token.Pos) Slice {
	if len(add) == 0 {
		return s
	}
	if s.Len+len(add) <= s.Cap {
		for i, v := range add {
			ss := e.store(st, Ptr{s.Obj, appendPE(s.Path, PE{I: s.Off + s.Len + i})}, v, pos)
			if len(ss) != 1 {
				unsup("append split")
			}
			*st = *ss[0]
		}
		return Slice{s.Obj, s.Path, s.Off, s.Len + len(add), s.Cap}
	}
	vals := append(e.sliceVals(st, s), add...)
	// Go growth: double below 256 elements
	c := 2 * s.Cap
	if s.Cap >= 256 {
		c = s.Cap + (s.Cap+768)/4
	}
	if c < len(vals) {
		c = len(vals)
	}
	if zero == nil {
		unsup("append without element type")
	}
	id := e.alloc(st, &ArrayV{N: c, Elems: vals, Zero: zero}, "")
	return Slice{Obj: id, Len: len(vals), Cap: c}
}

func (e *Engine) strLen(s Str) *Term {
	if b, ok := s.bytes(); ok {
		return b.lenT()
	}
	unsup("len of numeric text")
	return nil
}

// ---- operators

func (e *Engine) binop(st *State, op token.Token, a, b Value, ta, tb types.Type, pos token.Pos) []Outcome {
	switch op {
	case token.EQL, token.NEQ:
		c := e.equal(st, a, b)
		if op == token.NEQ {
			c = smt.Not(c)
		}
		return one(st, c)
	}
	if x, ok := a.(Str); ok {
		y := b.(Str)
		switch op {
		case token.ADD:
			return one(st, Concat(x, y))
		}
		lx, ok1 := x.IsLit()
		ly, ok2 := y.IsLit()
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return one(st, smt.BoolC(lx < ly))
			case token.GTR:
				return one(st, smt.BoolC(lx > ly))
			case token.LEQ:
				return one(st, smt.BoolC(lx <= ly))
			case token.GEQ:
				return one(st, smt.BoolC(lx >= ly))
			}
		}
		unsup("string %v", op)
	}
	x, ok := a.(*Term)
	if !ok {
		unsup("binop on %T", a)
	}
	y := b.(*Term)
	if x.S.IsFloat() {
		switch op {
		case token.ADD:
			return one(st, smt.FBin(smt.OFAdd, x, y))
		case token.SUB:
			return one(st, smt.FBin(smt.OFSub, x, y))
		case token.MUL:
			return one(st, smt.FBin(smt.OFMul, x, y))
		case token.QUO:
			return one(st, smt.FBin(smt.OFDiv, x, y))
		case token.LSS:
			return one(st, smt.FCmp(smt.OFLt, x, y))
		case token.GTR:
			return one(st, smt.FCmp(smt.OFLt, y, x))
		case token.LEQ:
			return one(st, smt.FCmp(smt.OFLe, x, y))
		case token.GEQ:
			return one(st, smt.FCmp(smt.OFLe, y, x))
		}
		unsup("float %v", op)
	}
	if x.S == smt.Bool {
		switch op {
		case token.AND, token.LAND:
			return one(st, smt.And(x, y))
		case token.OR, token.LOR:
			return one(st, smt.Or(x, y))
		}
		unsup("bool %v", op)
	}
	uns := isUnsigned(ta)
	lt := smt.OSlt
	le := smt.OSle
	if uns {
		lt, le = smt.OUlt, smt.OUle
	}
	switch op {
	case token.ADD:
		return one(st, smt.Bin(smt.OAdd, x, y))
	case token.SUB:
		return one(st, smt.Bin(smt.OSub, x, y))
	case token.MUL:
		return one(st, smt.Bin(smt.OMul, x, y))
	case token.QUO, token.REM:
		s := e.guard(st, smt.Eq(y, smt.Const(y.S, 0)), "integer divide by zero", pos)
		if s == nil {
			return nil
		}
		o := smt.OSDiv
		switch {
		case op == token.QUO && uns:
			o = smt.OUDiv
		case op == token.REM && uns:
			o = smt.OURem
		case op == token.REM:
			o = smt.OSRem
		}
		return one(s, smt.Bin(o, x, y))
	case token.AND:
		return one(st, smt.Bin(smt.OBAnd, x, y))
	case token.OR:
		return one(st, smt.Bin(smt.OBOr, x, y))
	case token.XOR:
		return one(st, smt.Bin(smt.OBXor, x, y))
	case token.AND_NOT:
		return one(st, smt.Bin(smt.OBAnd, x, smt.BNot(y)))
	case token.LSS:
		return one(st, smt.Cmp(lt, x, y))
	case token.GTR:
		return one(st, smt.Cmp(lt, y, x))
	case token.LEQ:
		return one(st, smt.Cmp(le, x, y))
	case token.GEQ:
		return one(st, smt.Cmp(le, y, x))
	case token.SHL, token.SHR:
		s := st
		if !isUnsigned(tb) {
			s = e.guard(st, smt.Cmp(smt.OSlt, y, smt.Const(y.S, 0)), "negative shift amount", pos)
			if s == nil {
				return nil
			}
		}
		w, cw := int(x.S.W), int(y.S.W)
		o := smt.OShl
		if op == token.SHR {
			o = smt.OAShr
			if uns {
				o = smt.OLShr
			}
		}
		if w >= cw {
			return one(s, smt.Bin(o, x, smt.ZExt(y, w)))
		}
		var wide *Term
		if op == token.SHR && !uns {
			wide = smt.SExt(x, cw)
		} else {
			wide = smt.ZExt(x, cw)
		}
		return one(s, smt.Trunc(smt.Bin(o, wide, y), w))
	}
	unsup("binop %v", op)
	return nil
}

func (e *Engine) equal(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.S.IsFloat() {
			return smt.FCmp(smt.OFEq, x, y)
		}
		return smt.Eq(x, y)
	case Str:
		c, ok := StrEq(x, b.(Str))
		if !ok {
			unsup("string comparison %v / %v", x, b)
		}
		return c
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			unsup("ptr eq %T", b)
		}
		if x.Obj != y.Obj {
			return smt.False
		}
		if len(x.Path) != len(y.Path) {
			return smt.False
		}
		c := smt.True
		for i := range x.Path {
			p, q := x.Path[i], y.Path[i]
			if p == q {
				continue
			}
			pt, qt := p.T, q.T
			if pt == nil {
				pt = smt.IntC(int64(p.I))
			}
			if qt == nil {
				qt = smt.IntC(int64(q.I))
			}
			c = smt.And(c, smt.Eq(pt, qt))
		}
		return c
	case Slice:
		y := b.(Slice)
		if x.Obj == 0 || y.Obj == 0 {
			return smt.BoolC(x.Obj == y.Obj)
		}
		unsup("slice eq")
	case MapV:
		y := b.(MapV)
		return smt.BoolC(x.Obj == y.Obj)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("iface eq %T", b)
		}
		if x.T == nil || y.T == nil {
			return smt.BoolC(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return smt.False
		}
		return e.equal(st, x.V, y.V)
	case *StructV:
		y := b.(*StructV)
		c := smt.True
		for i := range x.F {
			c = smt.And(c, e.equal(st, x.F[i], y.F[i]))
		}
		return c
	case *ArrayV:
		y := b.(*ArrayV)
		c := smt.True
		for i := 0; i < x.N; i++ {
			c = smt.And(c, e.equal(st, x.Get(i), y.Get(i)))
		}
		return c
	case *FuncV:
		y, ok := b.(*FuncV)
		if ok && (x == nil || y == nil) {
			return smt.BoolC(x == nil && y == nil)
		}
	}
	unsup("equality of %T and %T", a, b)
	return nil
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) []Outcome {
	fs, ok1 := sortOf(from)
	tsrt, ok2 := sortOf(to)
	if ok1 && ok2 {
		x := v.(*Term)
		switch {
		case fs.K == smt.KBV && tsrt.K == smt.KBV:
			if tsrt.W <= fs.W {
				return one(st, smt.Trunc(x, int(tsrt.W)))
			}
			if isUnsigned(from) {
				return one(st, smt.ZExt(x, int(tsrt.W)))
			}
			return one(st, smt.SExt(x, int(tsrt.W)))
		case fs.K == smt.KBV && tsrt.IsFloat():
			if isUnsigned(from) {
				if fs.W < 64 {
					return one(st, smt.SToF(smt.ZExt(x, 64), tsrt))
				}
				return one(st, smt.UToF(x, tsrt))
			}
			if fs.W < 64 {
				x = smt.SExt(x, 64)
			}
			return one(st, smt.SToF(x, tsrt))
		case fs.IsFloat() && tsrt.IsFloat():
			return one(st, smt.FConv(x, tsrt))
		case fs.IsFloat() && tsrt.K == smt.KBV:
			if fs.K == smt.KF32 {
				x = smt.FConv(x, smt.F64)
			}
			if isUnsigned(to) && tsrt.W == 64 {
				unsup("float to uint64")
			}
			return one(st, smt.Trunc(smt.FToS(x), int(tsrt.W)))
		case fs == tsrt:
			return one(st, x)
		}
	}
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	if isStr(to) {
		switch x := v.(type) {
		case Str:
			return one(st, x)
		case Slice: // []byte or []rune
			el := from.Underlying().(*types.Slice).Elem()
			if es, _ := sortOf(el); es.W == 8 {
				if x.Len == 0 {
					return one(st, Str{})
				}
				if h, ok := st.heap.Get(x.Obj).(*Host); ok && h.Kind == "bytes" {
					return one(st, h.F[0])
				}
				var b bstr
				for _, t := range e.sliceVals(st, x) {
					b.B = append(b.B, t.(*Term))
				}
				return one(st, fromB(b))
			}
			var sb strings.Builder
			var b bstr
			sym := false
			for _, t := range e.sliceVals(st, x) {
				r := t.(*Term)
				if !r.IsConst() {
					sym = true
					b.B = append(b.B, smt.Trunc(r, 8))
					continue
				}
				sb.WriteRune(rune(r.Int()))
				for _, c := range []byte(string(rune(r.Int()))) {
					b.B = append(b.B, smt.BVC(8, uint64(c)))
				}
			}
			if sym {
				return one(st, fromB(b)) // ASCII assumption was made when decoding
			}
			return one(st, Lit(sb.String()))
		case *Term:
			if x.IsConst() {
				return one(st, Lit(string(rune(x.Int()))))
			}
			if x.Op == smt.OZExt && x.Args[0].S.W == 8 {
				return one(st, fromB(bstr{B: []*Term{x.Args[0]}}))
			}
			// ASCII range only
			n := st.add(smt.And(smt.Cmp(smt.OSle, smt.Const(x.S, 0), x), smt.Cmp(smt.OSlt, x, smt.Const(x.S, 128))))
			return one(n, fromB(bstr{B: []*Term{smt.Trunc(x, 8)}}))
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isStr(from) {
		es, _ := sortOf(sl.Elem())
		s := v.(Str)
		n := st.clone()
		if es.W == 8 {
			b, ok := s.bytes()
			if !ok || b.Len != nil {
				// opaque byte view of a rope
				id := e.alloc(n, &Host{Kind: "bytes", F: []Value{s}}, "")
				return one(n, Slice{Obj: id, Len: 1, Cap: 1})
			}
			vals := make([]Value, len(b.B))
			for i, t := range b.B {
				vals[i] = t
			}
			if len(vals) == 0 {
				return one(n, Slice{Obj: e.alloc(n, &ArrayV{Zero: smt.BVC(8, 0)}, "")})
			}
			if len(vals) > 8192 {
				id := e.alloc(n, &Host{Kind: "bytes", F: []Value{s}}, "")
				return one(n, Slice{Obj: id, Len: len(vals), Cap: len(vals)})
			}
			return one(n, e.newSlice(n, vals, smt.BVC(8, 0)))
		}
		l, ok := s.IsLit()
		if ok {
			var vals []Value
			for _, r := range l {
				vals = append(vals, smt.Const(smt.BV32, uint64(uint32(r))))
			}
			return one(n, e.newSlice(n, vals, smt.Const(smt.BV32, 0)))
		}
		b, ok := s.bytes()
		if ok && b.Len == nil {
			var vals []Value
			for _, t := range b.B {
				n = n.add(smt.Cmp(smt.OUlt, t, smt.BVC(8, 128)))
				vals = append(vals, smt.ZExt(t, 32))
			}
			return one(n, e.newSlice(n, vals, smt.Const(smt.BV32, 0)))
		}
	}
	if _, ok := v.(Ptr); ok {
		return one(st, v)
	}
	unsup("convert %v to %v", from, to)
	return nil
}

// ---- indexing

func (e *Engine) boundsGuard(st *State, idx *Term, n *Term, pos token.Pos) *State {
	bad := smt.Or(smt.Cmp(smt.OSlt, idx, smt.IntC(0)), smt.Cmp(smt.OSle, n, idx))
	return e.guard(st, bad, "index out of range", pos)
}

func (e *Engine) indexAddr(st *State, base Value, bt types.Type, idx *Term, pos token.Pos) []Outcome {
	switch x := base.(type) {
	case Slice:
		s := e.boundsGuard(st, idx, smt.IntC(int64(x.Len)), pos)
		if s == nil || x.Len == 0 {
			return nil
		}
		if idx.IsConst() {
			return one(s, Ptr{x.Obj, appendPE(x.Path, PE{I: x.Off + int(idx.Int())})})
		}
		if x.Len == 1 {
			return one(s, Ptr{x.Obj, appendPE(x.Path, PE{I: x.Off})})
		}
		return one(s, Ptr{x.Obj, appendPE(x.Path, PE{T: smt.Bin(smt.OAdd, idx, smt.IntC(int64(x.Off)))})})
	case Ptr:
		n := bt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if x.Obj == 0 {
			e.oblige(st, "panic", "nil pointer dereference", e.posOf(pos), smt.True)
			return nil
		}
		s := e.boundsGuard(st, idx, smt.IntC(n), pos)
		if s == nil {
			return nil
		}
		if idx.IsConst() {
			return one(s, Ptr{x.Obj, appendPE(x.Path, PE{I: int(idx.Int())})})
		}
		return one(s, Ptr{x.Obj, appendPE(x.Path, PE{T: idx})})
	}
	unsup("indexaddr %T", base)
	return nil
}

func (e *Engine) index(st *State, base Value, bt types.Type, idx *Term, pos token.Pos) []Outcome {
	switch x := base.(type) {
	case *ArrayV:
		s := e.boundsGuard(st, idx, smt.IntC(int64(x.N)), pos)
		if s == nil {
			return nil
		}
		if idx.IsConst() {
			return one(s, x.Get(int(idx.Int())))
		}
		v := e.loadPath(x, []PE{{T: idx}})
		if v != nil {
			return one(s, v)
		}
		var out []Outcome
		for _, r := range e.splitTerm(s, idx, 64) {
			out = append(out, Outcome{r.St, x.Get(int(r.V))})
		}
		return out
	case Str:
		b, ok := x.bytes()
		if !ok {
			// leading literal part
			if idx.IsConst() && len(x.P) > 0 && x.P[0].K == PLit && int(idx.Int()) < len(x.P[0].L) && idx.Int() >= 0 {
				return one(st, smt.BVC(8, uint64(x.P[0].L[idx.Int()])))
			}
			unsup("index of numeric text")
		}
		s := e.boundsGuard(st, idx, b.lenT(), pos)
		if s == nil || len(b.B) == 0 {
			return nil
		}
		if idx.IsConst() {
			if int(idx.Int()) >= len(b.B) {
				return nil
			}
			return one(s, b.B[idx.Int()])
		}
		r := b.B[len(b.B)-1]
		for k := len(b.B) - 2; k >= 0; k-- {
			r = smt.Ite(smt.Eq(idx, smt.IntC(int64(k))), b.B[k], r)
		}
		return one(s, r)
	}
	unsup("index %T", base)
	return nil
}

func (f *frame) slice(fs *fstate, x *ssa.Slice) []Outcome {
	e := f.e
	base := f.get(fs, x.X)
	st := fs.st
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = e.asIntT(f.get(fs, x.Low), x.Low.Type())
	} else {
		lo = smt.IntC(0)
	}
	if x.High != nil {
		hi = e.asIntT(f.get(fs, x.High), x.High.Type())
	}
	if x.Max != nil {
		mx = e.asIntT(f.get(fs, x.Max), x.Max.Type())
	}
	var obj, off, capn, ln int
	var path []PE
	switch b := base.(type) {
	case Str:
		return e.substr(st, b, lo, hi, x.Pos())
	case Slice:
		obj, path, off, capn, ln = b.Obj, b.Path, b.Off, b.Cap, b.Len
	case Ptr:
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		obj, path, capn, ln = b.Obj, b.Path, n, n
	default:
		unsup("slice of %T", base)
	}
	if hi == nil {
		hi = smt.IntC(int64(ln))
	}
	if mx == nil {
		mx = smt.IntC(int64(capn))
	}
	bad := smt.Or(smt.Or(smt.Cmp(smt.OSlt, lo, smt.IntC(0)), smt.Cmp(smt.OSlt, hi, lo)), smt.Or(smt.Cmp(smt.OSlt, mx, hi), smt.Cmp(smt.OSlt, smt.IntC(int64(capn)), mx)))
	s := e.guard(st, bad, "slice bounds out of range", x.Pos())
	if s == nil {
		return nil
	}
	var out []Outcome
	for _, l := range e.splitTerm(s, lo, 64) {
		for _, h := range e.splitTerm(l.St, hi, 64) {
			for _, m := range e.splitTerm(h.St, mx, 64) {
				if l.V < 0 || h.V < l.V || m.V < h.V || m.V > int64(capn) {
					continue
				}
				out = append(out, Outcome{m.St, Slice{obj, path, off + int(l.V), int(h.V - l.V), int(m.V - l.V)}})
			}
		}
	}
	return out
}

func (e *Engine) substr(st *State, s Str, lo, hi *Term, pos token.Pos) []Outcome {
	b, ok := s.bytes()
	if !ok {
		// a constant prefix can be cut from any rope
		if lo.IsConst() && hi == nil && len(s.P) > 0 && s.P[0].K == PLit && int(lo.Int()) <= len(s.P[0].L) && lo.Int() >= 0 {
			ps := append([]Part{{K: PLit, L: s.P[0].L[lo.Int():]}}, s.P[1:]...)
			return one(st, mkStr(ps))
		}
		unsup("slice of numeric text")
	}
	if hi == nil {
		hi = b.lenT()
	}
	bad := smt.Or(smt.Cmp(smt.OSlt, lo, smt.IntC(0)), smt.Or(smt.Cmp(smt.OSlt, hi, lo), smt.Cmp(smt.OSlt, b.lenT(), hi)))
	n := e.guard(st, bad, "slice bounds out of range", pos)
	if n == nil {
		return nil
	}
	if lo.IsConst() && hi.IsConst() {
		if lo.Int() < 0 || hi.Int() < lo.Int() || int(hi.Int()) > len(b.B) {
			return nil
		}
		return one(n, fromB(bstr{B: b.B[lo.Int():hi.Int()]}))
	}
	if lo.IsConst() {
		if int(lo.Int()) > len(b.B) || lo.Int() < 0 {
			return nil
		}
		return one(n, fromB(bstr{B: b.B[lo.Int():], Len: smt.Bin(smt.OSub, hi, lo)}))
	}
	// symbolic start: select bytes
	out := make([]*Term, len(b.B))
	z := smt.BVC(8, 0)
	for i := range out {
		cur := z
		for k := i; k < len(b.B); k++ {
			cur = smt.Ite(smt.Eq(lo, smt.IntC(int64(k-i))), b.B[k], cur)
		}
		out[i] = cur
	}
	return one(n, fromB(bstr{B: out, Len: smt.Bin(smt.OSub, hi, lo)}))
}

// ---- types, maps, iteration

func (e *Engine) typeAssert(st *State, i Iface, x *ssa.TypeAssert) []Outcome {
	ok := false
	if i.T != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(i.T, it)
		} else {
			ok = types.Identical(i.T, x.AssertedType)
		}
	}
	var v Value
	if ok {
		v = i.V
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			v = i
		}
	}
	if x.CommaOk {
		if !ok {
			v = e.zero(x.AssertedType)
		}
		return one(st, TupleV{v, smt.BoolC(ok)})
	}
	if !ok {
		e.oblige(st, "panic", "failed type assertion", e.posOf(x.Pos()), smt.True)
		return nil
	}
	return one(st, v)
}

func (e *Engine) mapFind(m *MapObj, k Value) (int, bool) {
	for i := len(m.K) - 1; i >= 0; i-- {
		c := e.equal(nil, m.K[i], k)
		if c.IsTrue() {
			return i, true
		}
		if !c.IsFalse() {
			return -1, false
		}
	}
	return -1, true
}

func (f *frame) mapUpdate(fs *fstate, x *ssa.MapUpdate) {
	e := f.e
	m := f.get(fs, x.Map).(MapV)
	if m.Obj == 0 {
		e.oblige(fs.st, "panic", "assignment to nil map", e.posOf(x.Pos()), smt.True)
		unsup("nil map")
	}
	for _, fr := range fs.st.frames {
		if e.protected(fr, m.Obj) {
			e.oblige(fs.st, "frame", fr.label+": write to shared map "+e.objName[m.Obj], e.posOf(x.Pos()), smt.True)
		}
	}
	mo := fs.st.heap.Get(m.Obj).(*MapObj)
	k, v := f.get(fs, x.Key), f.get(fs, x.Value)
	i, ok := e.mapFind(mo, k)
	if !ok {
		unsup("map update with symbolic key")
	}
	r := &MapObj{K: append([]Value(nil), mo.K...), V: append([]Value(nil), mo.V...)}
	if i >= 0 {
		r.V[i] = v
	} else {
		r.K, r.V = append(r.K, k), append(r.V, v)
	}
	fs.st = fs.st.clone()
	fs.st.heap = fs.st.heap.Set(m.Obj, r)
}

func (e *Engine) mapLookup(st *State, mv, k Value, x *ssa.Lookup) []Outcome {
	m := mv.(MapV)
	zt := x.X.Type().Underlying().(*types.Map).Elem()
	wrap := func(v Value, ok bool) Value {
		if x.CommaOk {
			return TupleV{v, smt.BoolC(ok)}
		}
		return v
	}
	if m.Obj == 0 {
		return one(st, wrap(e.zero(zt), false))
	}
	mo := st.heap.Get(m.Obj).(*MapObj)
	var out []Outcome
	cur := st
	for i := range mo.K {
		c := e.equal(nil, mo.K[i], k)
		if c.IsTrue() {
			return append(out, Outcome{cur, wrap(mo.V[i], true)})
		}
		if c.IsFalse() || !e.feasible(cur.pc, c) {
			continue
		}
		out = append(out, Outcome{cur.add(c), wrap(mo.V[i], true)})
		cur = cur.add(smt.Not(c))
	}
	return append(out, Outcome{cur, wrap(e.zero(zt), false)})
}

func (e *Engine) next(st *State, it Ptr, x *ssa.Next) []Outcome {
	h := st.heap.Get(it.Obj).(*Host)
	n := st.clone()
	set := func(s *State, pos int) {
		s.heap = s.heap.Set(it.Obj, &Host{Kind: h.Kind, F: h.F, S: h.S, N: pos})
	}
	if h.Kind == "mapiter" {
		m := h.F[0].(MapV)
		tt := x.Type().(*types.Tuple)
		zk := func(i int) Value {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return e.zero(tt.At(i).Type())
		}
		if m.Obj == 0 || h.N >= len(st.heap.Get(m.Obj).(*MapObj).K) {
			return one(n, TupleV{smt.False, zk(1), zk(2)})
		}
		mo := st.heap.Get(m.Obj).(*MapObj)
		set(n, h.N+1)
		return one(n, TupleV{smt.True, mo.K[h.N], mo.V[h.N]})
	}
	s := h.F[0].(Str)
	zr := smt.Const(smt.BV32, 0)
	if l, ok := s.IsLit(); ok {
		if h.N >= len(l) {
			return one(n, TupleV{smt.False, smt.IntC(0), zr})
		}
		r, w := utf8.DecodeRuneInString(l[h.N:])
		set(n, h.N+w)
		return one(n, TupleV{smt.True, smt.IntC(int64(h.N)), smt.Const(smt.BV32, uint64(uint32(r)))})
	}
	b, ok := s.bytes()
	if !ok {
		unsup("range over numeric text")
	}
	end := smt.Cmp(smt.OSle, b.lenT(), smt.IntC(int64(h.N)))
	var out []Outcome
	if h.N >= len(b.B) {
		end = smt.True
	}
	if e.feasible(st.pc, end) {
		out = append(out, Outcome{n.add(end), TupleV{smt.False, smt.IntC(0), zr}})
	}
	if !end.IsTrue() && e.feasible(st.pc, smt.Not(end)) {
		m := st.add(smt.Not(end)).add(smt.Cmp(smt.OUlt, b.B[h.N], smt.BVC(8, 128)))
		m = m.clone()
		set(m, h.N+1)
		out = append(out, Outcome{m, TupleV{smt.True, smt.IntC(int64(h.N)), smt.ZExt(b.B[h.N], 32)}})
	}
	return out
}

func (e *Engine) protected(fr frameRec, obj int) bool {
	if strings.HasPrefix(e.objName[obj], "global ") {
		return true
	}
	if fr.only != nil {
		return fr.only[obj]
	}
	return obj < fr.limit
}

// reach adds every object reachable from v.
func (e *Engine) reach(st *State, v Value, seen map[int]bool) {
	obj := func(o int) {
		if o == 0 || seen[o] {
			return
		}
		seen[o] = true
		if x := st.heap.Get(o); x != nil {
			e.reach(st, x, seen)
		}
	}
	switch x := v.(type) {
	case Ptr:
		obj(x.Obj)
	case Slice:
		obj(x.Obj)
	case MapV:
		obj(x.Obj)
	case Iface:
		e.reach(st, x.V, seen)
	case *StructV:
		for _, f := range x.F {
			e.reach(st, f, seen)
		}
	case *ArrayV:
		for _, f := range x.Elems {
			e.reach(st, f, seen)
		}
		e.reach(st, x.Zero, seen)
	case *FuncV:
		if x != nil {
			for _, f := range x.Bind {
				e.reach(st, f, seen)
			}
		}
	case TupleV:
		for _, f := range x {
			e.reach(st, f, seen)
		}
	case *MapObj:
		for i := range x.K {
			e.reach(st, x.K[i], seen)
			e.reach(st, x.V[i], seen)
		}
	case *Host:
		for _, f := range x.F {
			e.reach(st, f, seen)
		}
	}
}

func (e *Engine) hostInvoke(st *State, h *Host, i Iface, m *types.Func, args []Value) []Outcome {
	switch h.Kind + "." + m.Name() {
	case "utf8.NewDecoder":
		n := st.clone()
		id := e.alloc(n, &Host{Kind: "utf8dec"}, "")
		return one(n, Ptr{Obj: id})
	}
	unsup("method %s of %s", m.Name(), h.Kind)
	return nil
}

// RunMain executes init and then fn; it returns a reason when exploration was
// cut short.
func (e *Engine) RunMain(init, fn *ssa.Function) (incomplete string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case deadline:
				incomplete = "exploration budget exhausted"
			case unsupported:
				incomplete = "unsupported: " + x.msg
			default:
				panic(r)
			}
			e.Incomplete = true
		}
	}()
	sts := []*State{{}}
	if init != nil {
		dl := e.Cfg.Unroll
		if e.Cfg.Unroll < 100000 {
			e.Cfg.Unroll = 100000
		}
		var n []*State
		for _, o := range e.Call(sts[0], init, nil, nil) {
			n = append(n, o.St)
		}
		e.Cfg.Unroll = dl
		sts = n
	}
	for _, s := range sts {
		outs := e.Call(s, fn, nil, nil)
		e.DoneStates += len(outs)
	}
	return ""
}
