// Symbolic execution of SSA, path by path; loops are cut (loops.go), calls
// are replaced by contracts or expanded (calls.go).
package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pathStop struct{}

func posStr(f *ssa.Function, p token.Pos) string {
	if !p.IsValid() {
		p = f.Pos()
	}
	ps := f.Prog.Fset.Position(p)
	n := ps.Filename
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return fmt.Sprintf("%s:%d", n, ps.Line)
}

func (e *Engine) where(st *State, in ssa.Instruction) string {
	f := in.Parent()
	s := posStr(f, in.Pos())
	if f != e.root {
		s += " (in " + funcKey(f) + ")"
	}
	return s
}

var globals = map[string]int64{}

func (e *Engine) constSVal(c *types.Const) (SVal, bool) {
	v := c.Val()
	switch v.Kind() {
	case constant.Int:
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return SVal{Lit: n, V: tv(IB(n))}, true
	case constant.String:
		return SVal{V: tv(e.strLit(constant.StringVal(v))), T: types.Typ[types.String]}, true
	case constant.Bool:
		if constant.BoolVal(v) {
			return SVal{V: tv(True)}, true
		}
		return SVal{V: tv(False)}, true
	}
	return SVal{}, false
}

func globalRef(pkg *types.Package, name string) *Term {
	k := pkg.Path() + "." + name
	if globals[k] == 0 {
		globals[k] = int64(len(globals) + 1)
	}
	return Obj(I(-globals[k]))
}

func (e *Engine) globalLoc(pkg *types.Package, name string, t types.Type) (Loc, bool) {
	r := globalRef(pkg, name)
	if isScalar(t, e.mode) {
		return Loc{cellHeap(t), r, nil, t}, true
	}
	return Loc{"", r, nil, t}, true
}

// errConst: package-level error variables are constants.
func (e *Engine) errConst(pkg *types.Package, name string) *Term {
	k := "val:" + pkg.Path() + "." + name
	if globals[k] == 0 {
		globals[k] = int64(len(globals) + 1)
	}
	return mkIface(I(int64(e.tagOf(types.NewPointer(types.Typ[types.Invalid])))), Obj(I(-globals[k])))
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zeroVal(t)
	}
	if isFloat(t) {
		f := constant.ToFloat(c.Value)
		n, d := constant.Num(f), constant.Denom(f)
		ns, ds := n.ExactString(), d.ExactString()
		nn, _ := new(big.Int).SetString(ns, 10)
		if nn == nil || strings.ContainsAny(ds, "/.e") {
			return tv(Fresh("float", SReal))
		}
		if ds == "1" {
			return tv(realLit(nn))
		}
		dn, _ := new(big.Int).SetString(ds, 10)
		return tv(mk("/", SReal, realLit(nn), realLit(dn)))
	}
	switch c.Value.Kind() {
	case constant.Int:
		n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		ii, ok := intOf(t)
		if !ok {
			unsup("constant of type " + typeStr(t))
		}
		if e.mode == ModeBV {
			return tv(BVL(n, ii.w))
		}
		return tv(IB(n))
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return tv(True)
		}
		return tv(False)
	case constant.String:
		return tv(e.strLit(constant.StringVal(c.Value)))
	}
	unsup("constant " + c.String())
	return Val{}
}

func (e *Engine) get(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		t := deref(v.Type())
		l, _ := e.globalLoc(v.Pkg.Pkg, v.Name(), t)
		if l.Heap != "" {
			return Val{Loc: &l}
		}
		return tv(l.Ref)
	case *ssa.Function:
		return Val{Clo: &Closure{Fn: v}}
	case *ssa.FreeVar:
		fr := st.top()
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.free[i]
			}
		}
	}
	if r, ok := st.top().env[v]; ok {
		return r
	}
	unsup(fmt.Sprintf("value %s of %s not available", v.Name(), st.top().fn.Name()))
	return Val{}
}

func (e *Engine) term(st *State, v ssa.Value) *Term {
	return e.scalar(st, e.get(st, v), v.Type())
}

func (e *Engine) setv(st *State, v ssa.Value, x Val) { st.top().env[v] = x }

// safety emits a run-time-safety obligation.
func (e *Engine) safety(st *State, goal *Term, what string, in ssa.Instruction) {
	if goal == True {
		return
	}
	if e.con != nil && e.con.MayPanic {
		e.assume(st, goal)
		return
	}
	e.prove(st, goal, what+" @"+e.where(st, in), "safety")
}

func nonNilVal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.MakeInterface, *ssa.MakeMap, *ssa.MakeChan, *ssa.FreeVar:
		return true
	}
	return false
}

func (e *Engine) nilCheck(st *State, v ssa.Value, r *Term, in ssa.Instruction) {
	if nonNilVal(v) || r == nil {
		return
	}
	e.safety(st, Not(Eq(r, Null)), "nil pointer", in)
}

// run executes block b from instruction i on.
func (e *Engine) run(st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if dead(st) {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			e.branch(st, b, in)
			return
		case *ssa.Next:
			s2 := st.clone()
			e.next(st, in, true)
			if !dead(st) && e.feasible(st, 300) {
				e.run(st, b, i+1)
			}
			e.next(s2, in, false)
			if !dead(s2) && e.feasible(s2, 300) {
				e.run(s2, b, i+1)
			}
			return
		case *ssa.Jump:
			e.jump(st, b, b.Succs[0])
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, e.get(st, r))
			}
			e.doReturn(st, rs)
			return
		case *ssa.Panic:
			e.doPanic(st, in)
			return
		case *ssa.RunDefers:
			ds := st.top().defers
			if len(ds) == 0 {
				continue
			}
			d := ds[len(ds)-1]
			st.top().defers = ds[: len(ds)-1 : len(ds)-1]
			bb, ii := b, i
			if _, ok := e.callSync(st, d.call.Common(), d.fnv, d.args, in); ok {
				i-- // RunDefers again
				continue
			}
			e.callInline(st, d.call.Common(), d.fnv, d.args, in, func(st *State, _ []Val) {
				e.run(st, bb, ii)
			})
			return
		case *ssa.Defer:
			d := deferred{call: in}
			cc := in.Common()
			if !cc.IsInvoke() {
				if _, ok := cc.Value.(*ssa.Builtin); !ok {
					d.fnv = e.get(st, cc.Value)
				}
			} else {
				d.fnv = e.get(st, cc.Value)
			}
			for _, a := range cc.Args {
				d.args = append(d.args, e.get(st, a))
			}
			fr := st.top()
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
			continue
		case *ssa.Go:
			cc := in.Common()
			var fnv Val
			if _, ok := cc.Value.(*ssa.Builtin); !ok {
				fnv = e.get(st, cc.Value)
			}
			var args []Val
			for _, a := range cc.Args {
				args = append(args, e.get(st, a))
			}
			if e.goSync(st, cc, fnv, args, in) {
				continue
			}
			bb, ii := b, i
			e.callInline(st, cc, fnv, args, in, func(s2 *State, _ []Val) {
				e.run(s2, bb, ii+1)
			})
			return
		case *ssa.Call:
			cc := in.Common()
			var fnv Val
			if _, ok := cc.Value.(*ssa.Builtin); !ok {
				fnv = e.get(st, cc.Value)
			}
			var args []Val
			for _, a := range cc.Args {
				args = append(args, e.get(st, a))
			}
			bb, ii, v := b, i, in
			setRes := func(st *State, rs []Val) {
				switch len(rs) {
				case 0:
				case 1:
					e.setv(st, v, rs[0])
				default:
					e.setv(st, v, Val{Fs: rs})
				}
			}
			if rs, ok := e.callSync(st, cc, fnv, args, in); ok {
				setRes(st, rs)
				continue
			}
			e.callInline(st, cc, fnv, args, in, func(s2 *State, rs []Val) {
				setRes(s2, rs)
				e.run(s2, bb, ii+1)
			})
			return
		default:
			e.instr(st, in)
		}
	}
}

func (e *Engine) doReturn(st *State, rs []Val) {
	fr := st.top()
	for _, l := range fr.loops {
		if l.stopExit {
			return
		}
	}
	st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
	st.last = fr
	fr.ret(st, rs)
}

func (e *Engine) doPanic(st *State, in ssa.Instruction) {
	e.safety(st, False, "panic", in)
}

func (e *Engine) branch(st *State, b *ssa.BasicBlock, in *ssa.If) {
	c := e.term(st, in.Cond)
	if c == True {
		e.jump(st, b, b.Succs[0])
		return
	}
	if c == False {
		e.jump(st, b, b.Succs[1])
		return
	}
	for k := 0; k < 2; k++ {
		s2 := st
		if k == 0 {
			s2 = st.clone()
		}
		g := c
		if k == 1 {
			g = Not(c)
		}
		if !e.assume(s2, g) {
			continue
		}
		if e.tooMany() {
			e.undecided(s2, "path or time budget used up")
			return
		}
		if e.feasible(s2, 400) {
			e.jump(s2, b, b.Succs[k])
		}
	}
}

func (e *Engine) tooMany() bool {
	if e.dry > 0 {
		e.dryPaths++
		return false
	}
	e.paths++
	return e.paths > e.maxPath || !e.timeLeft()
}

func (e *Engine) jump(st *State, from, to *ssa.BasicBlock) {
	fr := st.top()
	if e.dry > 0 && e.dryPaths > 400 {
		e.dryCut = true
		return
	}
	// leave loops
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.body[to] {
			break
		}
		if l.stopExit {
			return
		}
		fr.loops = fr.loops[: len(fr.loops)-1 : len(fr.loops)-1]
	}
	// phis
	var vals []Val
	var phis []*ssa.Phi
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.get(st, p.Edges[pi]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	if len(fr.loops) > 0 {
		if l := fr.loops[len(fr.loops)-1]; l.header == to {
			l.onBack(st, from)
			return
		}
	}
	if li := loopOf(to); li != nil {
		e.enterLoop(st, li)
		return
	}
	e.run(st, to, len(phis))
}

func (e *Engine) instr(st *State, in ssa.Instruction) {
	m := e.mode
	switch in := in.(type) {
	case *ssa.Alloc:
		r := e.alloc(st)
		t := deref(in.Type())
		e.initZero(st, t, r)
		e.setv(st, in, tv(r))
	case *ssa.Store:
		e.doStore(st, in)
	case *ssa.UnOp:
		e.setv(st, in, e.unop(st, in))
	case *ssa.BinOp:
		e.setv(st, in, e.binop(st, in))
	case *ssa.Convert:
		e.setv(st, in, e.convert(st, in))
	case *ssa.ChangeType:
		e.setv(st, in, e.get(st, in.X))
	case *ssa.ChangeInterface:
		e.setv(st, in, e.get(st, in.X))
	case *ssa.MakeInterface:
		e.setv(st, in, tv(e.makeIface(st, e.get(st, in.X), in.X.Type())))
	case *ssa.MakeClosure:
		c := &Closure{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.Bind = append(c.Bind, e.get(st, b))
		}
		e.setv(st, in, Val{Clo: c})
	case *ssa.MakeSlice:
		n := e.toIdx(st, in.Len)
		c := e.toIdx(st, in.Cap)
		e.safety(st, And(e.leIdx(e.idx(0), n), e.leIdx(n, c), e.leIdx(c, IdxMax(e))), "make slice size", in)
		et := in.Type().Underlying().(*types.Slice).Elem()
		r := e.alloc(st)
		e.newElems(st, et, r)
		e.setv(st, in, tv(mkSlice(r, e.idx(0), n, c)))
	case *ssa.MakeMap:
		r := e.alloc(st)
		u := in.Type().Underlying().(*types.Map)
		has, _ := e.mapHeaps(u)
		h := e.H(st, has)
		st.heap[has] = Store(h, r, ConstArr(h.Sort.Elt, False))
		e.setv(st, in, tv(r))
	case *ssa.MakeChan:
		e.setv(st, in, tv(e.alloc(st)))
	case *ssa.FieldAddr:
		b := e.get(st, in.X)
		stt := deref(in.X.Type())
		ref := e.scalar(st, b, in.X.Type())
		e.nilCheck(st, in.X, ref, in)
		fd := structOf(stt).Field(in.Field)
		if isScalar(fd.Type(), m) {
			e.setv(st, in, Val{Loc: &Loc{fieldHeap(stt, fd.Name()), ref, nil, fd.Type()}})
		} else {
			e.setv(st, in, tv(Fld(ref, int64(in.Field))))
		}
	case *ssa.Field:
		b := e.get(st, in.X)
		if b.Fs == nil {
			unsup("field of opaque struct")
		}
		e.setv(st, in, b.Fs[in.Field])
	case *ssa.IndexAddr:
		e.setv(st, in, e.indexAddr(st, in))
	case *ssa.Index:
		b := e.get(st, in.X)
		ix := e.toIdx(st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			e.safety(st, And(e.leIdx(e.idx(0), ix), e.ltIdx(ix, e.idx(u.Len()))), "index out of range", in)
			v := Select(b.T, ix)
			e.learn(st, v, u.Elem())
			e.setv(st, in, tv(v))
		default: // string
			e.safety(st, And(e.leIdx(e.idx(0), ix), e.ltIdx(ix, e.strLen(b.T))), "index out of range", in)
			v := e.strAt(b.T, ix)
			e.learn(st, v, in.Type())
			e.setv(st, in, tv(v))
		}
	case *ssa.Slice:
		e.setv(st, in, e.slice(st, in))
	case *ssa.Lookup:
		if isString(in.X.Type()) {
			b := e.get(st, in.X)
			ix := e.toIdx(st, in.Index)
			e.safety(st, And(e.leIdx(e.idx(0), ix), e.ltIdx(ix, e.strLen(b.T))), "index out of range", in)
			v := e.strAt(b.T, ix)
			e.learn(st, v, in.Type())
			e.setv(st, in, tv(v))
			return
		}
		u := in.X.Type().Underlying().(*types.Map)
		has, val := e.mapHeaps(u)
		mm := e.term(st, in.X)
		k := e.mapKey(st, e.get(st, in.Index), u.Key())
		ok := And(Not(Eq(mm, Null)), Select(Select(e.H(st, has), mm), k))
		v := Select(Select(e.H(st, val), mm), k)
		e.learn(st, v, u.Elem())
		v = Ite(ok, v, e.zero(u.Elem()))
		if in.CommaOk {
			e.setv(st, in, Val{Fs: []Val{tv(v), tv(ok)}})
		} else {
			e.setv(st, in, tv(v))
		}
	case *ssa.MapUpdate:
		u := in.Map.Type().Underlying().(*types.Map)
		has, val := e.mapHeaps(u)
		mm := e.term(st, in.Map)
		if !nonNilVal(in.Map) {
			e.safety(st, Not(Eq(mm, Null)), "assignment to nil map", in)
		}
		k := e.mapKey(st, e.get(st, in.Key), u.Key())
		v := e.term(st, in.Value)
		h := e.H(st, has)
		e.setElems(st, has, mm, Store(Select(h, mm), k, True), e.where(st, in))
		h = e.H(st, val)
		e.setElems(st, val, mm, Store(Select(h, mm), k, v), e.where(st, in))
	case *ssa.Extract:
		b := e.get(st, in.Tuple)
		if b.Fs == nil {
			unsup("tuple value missing")
		}
		e.setv(st, in, b.Fs[in.Index])
	case *ssa.TypeAssert:
		e.typeAssert(st, in)
	case *ssa.Range:
		if !isString(in.X.Type()) {
			// map iteration: any order, keys present in the map
			e.setv(st, in, Val{T: e.term(st, in.X), It: &Iter{ID: -1}})
			return
		}
		e.iterN++
		it := &Iter{Str: e.term(st, in.X), ID: e.iterN}
		st.iters[it.ID] = e.idx(0)
		e.setv(st, in, Val{It: it})
	case *ssa.Send:
		e.chanSend(st, in)
	default:
		unsup(fmt.Sprintf("instruction %T at %s", in, e.where(st, in)))
	}
}

func IdxMax(e *Engine) *Term {
	if e.mode == ModeBV {
		return BVL(pow2(61), 64)
	}
	return IB(pow2(61))
}

// newElems: zero elements of a new array at r
func (e *Engine) newElems(st *State, et types.Type, r *Term) {
	if isScalar(et, e.mode) {
		n := elemHeap(et)
		e.heapOf(n, et, true)
		z := e.zero(et)
		st.heap[n] = Store(e.H(st, n), r, ConstArr(SArr(idxSort(e.mode), z.Sort), z))
	} else {
		e.initZeroElems(st, et, r, nil, nil)
	}
}

func (e *Engine) mapKey(st *State, v Val, t types.Type) *Term { return e.scalar(st, v, t) }

// toIdx converts an integer value to the index sort.
func (e *Engine) toIdx(st *State, v ssa.Value) *Term {
	t := e.term(st, v)
	if e.mode == ModeBV {
		ii, _ := intOf(v.Type())
		return bvResize(t, 64, ii.signed)
	}
	return t
}

func (e *Engine) doStore(st *State, in *ssa.Store) {
	p := e.get(st, in.Addr)
	v := e.get(st, in.Val)
	t := deref(in.Addr.Type())
	w := e.where(st, in)
	if p.Loc != nil {
		e.store(st, *p.Loc, e.scalar(st, v, t), w)
		return
	}
	e.nilCheck(st, in.Addr, p.T, in)
	e.storeVal(st, t, p.T, v, w)
}

func (e *Engine) unop(st *State, in *ssa.UnOp) Val {
	m := e.mode
	switch in.Op {
	case token.MUL:
		t := deref(in.X.Type())
		if g, ok := in.X.(*ssa.Global); ok && isErrorType(t) {
			return tv(e.errConst(g.Pkg.Pkg, g.Name()))
		}
		p := e.get(st, in.X)
		if p.Loc != nil {
			x := e.load(st, *p.Loc)
			e.learn(st, x, t)
			return e.reVal(x)
		}
		e.nilCheck(st, in.X, p.T, in)
		v := e.loadVal(st, t, p.T)
		if v.T != nil {
			return e.reVal(v.T)
		}
		return v
	case token.NOT:
		return tv(Not(e.term(st, in.X)))
	case token.SUB:
		x := e.term(st, in.X)
		if isFloat(in.Type()) {
			return tv(mk("-", SReal, x))
		}
		if m == ModeBV {
			return tv(mk("bvneg", x.Sort, x))
		}
		return tv(e.wrap(st, Sub(I(0), x), in.Type()))
	case token.XOR:
		x := e.term(st, in.X)
		if m == ModeBV {
			return tv(mk("bvnot", x.Sort, x))
		}
		ii, _ := intOf(in.Type())
		if ii.signed {
			return tv(Sub(I(-1), x))
		}
		return tv(Sub(IB(ii.hi()), x))
	case token.ARROW:
		return e.chanRecv(st, in)
	}
	unsup("unary " + in.Op.String())
	return Val{}
}

// reVal recognises function values kept in the heap.
func (e *Engine) reVal(x *Term) Val {
	if x.Sort == SFn {
		if c := cloTab[x.ID]; c != nil {
			return Val{Clo: c, T: x}
		}
	}
	return tv(x)
}

func (e *Engine) indexAddr(st *State, in *ssa.IndexAddr) Val {
	ix := e.toIdx(st, in.Index)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := e.term(st, in.X)
		e.safety(st, And(e.leIdx(e.idx(0), ix), e.ltIdx(ix, slLen(s, e.mode))), "index out of range", in)
		o := e.addIdx(slOff(s, e.mode), ix)
		if isScalar(u.Elem(), e.mode) {
			return Val{Loc: &Loc{elemHeap(u.Elem()), slBase(s), o, u.Elem()}}
		}
		return tv(Elm(slBase(s), o))
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := e.term(st, in.X)
		e.nilCheck(st, in.X, p, in)
		e.safety(st, And(e.leIdx(e.idx(0), ix), e.ltIdx(ix, e.idx(a.Len()))), "index out of range", in)
		if isScalar(a.Elem(), e.mode) {
			return Val{Loc: &Loc{elemHeap(a.Elem()), p, ix, a.Elem()}}
		}
		return tv(Elm(p, ix))
	}
	unsup("index address")
	return Val{}
}

func (e *Engine) slice(st *State, in *ssa.Slice) Val {
	m := e.mode
	var lo, hi, mx *Term = e.idx(0), nil, nil
	if in.Low != nil {
		lo = e.toIdx(st, in.Low)
	}
	if in.High != nil {
		hi = e.toIdx(st, in.High)
	}
	if in.Max != nil {
		mx = e.toIdx(st, in.Max)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := e.term(st, in.X)
		if hi == nil {
			hi = slLen(s, m)
		}
		c := slCap(s, m)
		if mx == nil {
			mx = c
		}
		e.safety(st, And(e.leIdx(e.idx(0), lo), e.leIdx(lo, hi), e.leIdx(hi, mx), e.leIdx(mx, c)), "slice bounds", in)
		return tv(mkSlice(slBase(s), e.addIdx(slOff(s, m), lo), e.subIdx(hi, lo), e.subIdx(mx, lo)))
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := e.term(st, in.X)
		e.nilCheck(st, in.X, p, in)
		n := e.idx(a.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.safety(st, And(e.leIdx(e.idx(0), lo), e.leIdx(lo, hi), e.leIdx(hi, mx), e.leIdx(mx, n)), "slice bounds", in)
		return tv(mkSlice(p, lo, e.subIdx(hi, lo), e.subIdx(mx, lo)))
	case *types.Basic:
		s := e.term(st, in.X)
		n := e.strLen(s)
		if hi == nil {
			hi = n
		}
		e.safety(st, And(e.leIdx(e.idx(0), lo), e.leIdx(lo, hi), e.leIdx(hi, n)), "slice bounds", in)
		if s.Op == "str.of" {
			return tv(e.strOf(s.Args[0], e.addIdx(s.Args[1], lo), e.subIdx(hi, lo)))
		}
		return tv(e.strOf(e.strArr(s), lo, e.subIdx(hi, lo)))
	}
	unsup("slice of " + typeStr(in.X.Type()))
	return Val{}
}

func (e *Engine) strArr(s *Term) *Term {
	so := SArr(idxSort(e.mode), sortOf(types.Typ[types.Uint8], e.mode))
	declFun("str.arr", so, SStr)
	return mk("str.arr", so, s)
}

// ---- interfaces

func (e *Engine) makeIface(st *State, v Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.T
	}
	tag := I(int64(e.tagOf(t)))
	if sortOf(t, e.mode) == SRef && v.Loc == nil {
		return mkIface(tag, v.T)
	}
	if v.Loc != nil {
		return mkIface(tag, e.alloc(st)) // address kept opaque
	}
	if v.T != nil && (isString(t) || isBool(t)) || isIntT(t) {
		// boxed scalars: a reference determined by the value
		n := "box." + typeStr(t)
		declFun(n, SRef, v.T.Sort)
		un := "un" + n
		declFun(un, v.T.Sort, SRef)
		b := mk(n, SRef, v.T)
		e.limOf[b.ID] = limit{e.al0, 0}
		e.assume(st, And(Eq(mk(un, v.T.Sort, b), v.T), mk("<", SBool, rootid(b), I(0))))
		return mkIface(tag, b)
	}
	r := e.alloc(st)
	if v.Clo != nil {
		return mkIface(tag, r)
	}
	e.initZero(st, t, r)
	e.quietly(func() { e.storeVal(st, t, r, v, "box") })
	return mkIface(tag, r)
}

func isIntT(t types.Type) bool { _, ok := intOf(t); return ok }

func (e *Engine) quietly(f func()) {
	e.noFrame++
	f()
	e.noFrame--
}

func (e *Engine) unbox(st *State, x *Term, t types.Type) Val {
	if sortOf(t, e.mode) == SRef {
		r := ifRef(x)
		e.learn(st, r, t)
		return tv(r)
	}
	if isString(t) || isBool(t) || isIntT(t) {
		so := sortOf(t, e.mode)
		n := "unbox." + typeStr(t)
		declFun(n, so, SRef)
		v := mk(n, so, ifRef(x))
		if d := ifRef(x); d.Op == "box."+typeStr(t) {
			v = d.Args[0]
		}
		e.learn(st, v, t)
		return tv(v)
	}
	return e.loadVal(st, t, ifRef(x))
}

func (e *Engine) typeAssert(st *State, in *ssa.TypeAssert) {
	x := e.term(st, in.X)
	t := in.AssertedType
	var ok *Term
	var v Val
	if _, isI := t.Underlying().(*types.Interface); isI {
		var alts []*Term
		if types.IsInterface(in.X.Type()) && types.Implements(in.X.Type(), t.Underlying().(*types.Interface)) {
			ok = Not(Eq(ifTag(x), I(0)))
		} else {
			declFun("implements", SBool, SInt, SInt)
			ok = And(Not(Eq(ifTag(x), I(0))), mk("implements", SBool, ifTag(x), I(int64(e.tagOf(t)))))
		}
		_ = alts
		v = tv(x)
	} else {
		ok = Eq(ifTag(x), I(int64(e.tagOf(t))))
		v = e.unbox(st, x, t)
	}
	if !in.CommaOk {
		e.safety(st, ok, "type assertion", in)
		e.setv(st, in, v)
		return
	}
	if v.T != nil {
		v = tv(Ite(ok, v.T, e.scalar(st, e.zeroVal(t), t)))
	}
	e.setv(st, in, Val{Fs: []Val{v, tv(ok)}})
}

// ---- range over strings and maps

func (e *Engine) next(st *State, in *ssa.Next, more bool) {
	it := e.get(st, in.Iter)
	okT := False
	if more {
		okT = True
	}
	if !in.IsString {
		r := in.Iter.(*ssa.Range)
		u := r.X.Type().Underlying().(*types.Map)
		has, val := e.mapHeaps(u)
		k := Fresh("key", sortOf(u.Key(), e.mode))
		e.assume(st, e.typeFact(k, u.Key(), e.lim(st)))
		v := Select(Select(e.H(st, val), it.T), k)
		if more {
			e.assume(st, Select(Select(e.H(st, has), it.T), k))
			e.learn(st, v, u.Elem())
		}
		e.setv(st, in, Val{Fs: []Val{tv(okT), tv(k), tv(v)}})
		return
	}
	p := st.iters[it.It.ID]
	s := it.It.Str
	r, w := e.runeAt(s, p), e.runeW(s, p)
	if more {
		e.assume(st, e.ltIdx(p, e.strLen(s)))
		e.assume(st, And(e.leIdx(e.idx(1), w), e.leIdx(e.addIdx(p, w), e.strLen(s)), e.leIdx(w, e.idx(4))))
		if e.mode == ModeInt {
			e.assume(st, And(Le(I(0), r), Le(r, I(0x10ffff))))
		}
		st.iters[it.It.ID] = e.addIdx(p, w)
	} else {
		e.assume(st, e.leIdx(e.strLen(s), p))
	}
	e.setv(st, in, Val{Fs: []Val{tv(okT), tv(p), tv(r)}})
}
