// Calls: contracts, expansion, built-ins and trusted models of library calls.
package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleeOf resolves the function a call runs, if known.
func (e *Engine) calleeOf(st *State, cc *ssa.CallCommon, fnv Val, args []Val) (*ssa.Function, []Val, []Val) {
	if cc.IsInvoke() {
		d := ifTag(fnv.T)
		if d.IVal == nil && e.specs.Contracts[e.ifaceKey(cc)] == nil {
			// known by a requirement or a test?
			var tags []int
			for k, t := range e.tagType {
				if p, ok := t.Underlying().(*types.Pointer); ok && p.Elem() == types.Typ[types.Invalid] {
					continue
				}
				if P.prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name()) != nil {
					tags = append(tags, k)
				}
			}
			sort.Ints(tags)
			for _, k := range tags {
				if e.holds(st, Eq(d, I(int64(k))), 500) {
					d = I(int64(k))
					break
				}
			}
		}
		if d.IVal != nil && d.IVal.IsInt64() {
			if t := e.tagType[int(d.IVal.Int64())]; t != nil {
				if _, bad := t.Underlying().(*types.Pointer); bad && deref(t) == types.Typ[types.Invalid] {
					return nil, nil, nil
				}
				ms := P.prog.MethodSets.MethodSet(t)
				sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name())
				if sel != nil {
					f := P.prog.MethodValue(sel)
					return f, append([]Val{e.unbox(st, fnv.T, t)}, args...), nil
				}
			}
		}
		return nil, nil, nil
	}
	if fnv.Clo != nil {
		return fnv.Clo.Fn, args, fnv.Clo.Bind
	}
	if fnv.T != nil && e.specs.Contracts["func "+typeStr(cc.Value.Type())] == nil {
		// known by a requirement or a test?
		var cs []*Closure
		for _, c := range cloTab {
			if len(c.Bind) == 0 && types.Identical(c.Fn.Signature, cc.Signature()) {
				cs = append(cs, c)
			}
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].Fn.String() < cs[j].Fn.String() })
		for _, c := range cs {
			if e.holds(st, Eq(fnv.T, Sym("func:"+c.Fn.String(), SFn)), 500) {
				return c.Fn, args, nil
			}
		}
	}
	return nil, args, nil
}

func (e *Engine) contractFor(f *ssa.Function) *Contract {
	c := e.specs.Contracts[funcKey(f)]
	if c == nil || c.Inline {
		return nil
	}
	if e.con != nil && e.con.AlwaysInl[funcKey(f)] {
		return nil
	}
	return c
}

func (e *Engine) ifaceKey(cc *ssa.CallCommon) string {
	return "(" + typeStr(cc.Value.Type()) + ")." + cc.Method.Name()
}

// callSync handles calls that do not fork; false: use callInline.
func (e *Engine) callSync(st *State, cc *ssa.CallCommon, fnv Val, args []Val, in ssa.Instruction) ([]Val, bool) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return nil, false
		}
		return e.builtin(st, b, cc, args, in), true
	}
	if cc.IsInvoke() {
		e.safety(st, Not(Eq(ifTag(fnv.T), I(0))), "call on nil interface", in)
	}
	f, as, _ := e.calleeOf(st, cc, fnv, args)
	if f == nil {
		if cc.IsInvoke() {
			k := e.ifaceKey(cc)
			if c := e.specs.Contracts[k]; c != nil {
				return e.applyContract(st, c, cc.Signature(), true, append([]Val{fnv}, args...), append([]types.Type{cc.Value.Type()}, sigParams(cc.Signature())...), in), true
			}
			if k == "(error).Error" {
				s := Fresh("errtext", SStr)
				e.assume(st, e.strFact(s))
				return []Val{tv(s)}, true
			}
			unsup("call of interface method " + k + " without contract at " + e.where(st, in))
		}
		if c := e.specs.Contracts["func "+typeStr(cc.Value.Type())]; c != nil {
			return e.applyContract(st, c, cc.Signature(), false, append([]Val{fnv}, args...), append([]types.Type{cc.Value.Type()}, sigParams(cc.Signature())...), in), true
		}
		unsup("call of an unknown function value at " + e.where(st, in))
	}
	if funcKey(f) == "sort.Slice" && e.mode == ModeInt {
		e.sortSlice(st, cc, as, in)
		return nil, true
	}
	if rs, ok := e.model(st, f, as, cc, in); ok {
		return rs, true
	}
	if c := e.contractFor(f); c != nil {
		var ts []types.Type
		for _, p := range f.Params {
			ts = append(ts, p.Type())
		}
		if len(ts) == 0 {
			if r := f.Signature.Recv(); r != nil {
				ts = append(ts, r.Type())
			}
			ts = append(ts, sigParams(f.Signature)...)
		}
		return e.applyContract(st, c, f.Signature, false, as, ts, in), true
	}
	return nil, false
}

func sigParams(s *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < s.Params().Len(); i++ {
		ts = append(ts, s.Params().At(i).Type())
	}
	return ts
}

var inlineStd = map[string]bool{"sort": true, "io": true, "binary": true}

func (e *Engine) callInline(st *State, cc *ssa.CallCommon, fnv Val, args []Val, in ssa.Instruction, cont func(*State, []Val)) {
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		e.doAppend(st, cc, args, in, cont)
		return
	}
	f, as, bind := e.calleeOf(st, cc, fnv, args)
	if f == nil {
		unsup("call at " + e.where(st, in))
	}
	e.inline(st, f, as, bind, in, cont)
}

func (e *Engine) inline(st *State, f *ssa.Function, as, bind []Val, in ssa.Instruction, cont func(*State, []Val)) {
	key := funcKey(f)
	if len(f.Blocks) == 0 {
		unsup("call of " + key + " (no body, no contract) at " + e.where(st, in))
	}
	okPkg := f.Pkg == nil || P.inRepo[f.Pkg] || e.inlStd[key]
	if f.Pkg == nil && f.Object() != nil && f.Object().Pkg() != nil && !strings.Contains(f.Object().Pkg().Path(), "dupi") && f.Synthetic == "" {
		okPkg = false
	}
	if !okPkg {
		unsup("call of " + key + " without contract at " + e.where(st, in))
	}
	if len(st.frames) > 14 {
		unsup("calls nested too deep at " + e.where(st, in))
	}
	for _, fr := range st.frames {
		if fr.fn == f {
			unsup("recursive call of " + key)
		}
	}
	e.inlined[key] = true
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, free: bind, visits: map[*ssa.BasicBlock]int{}, ret: cont}
	for i, p := range f.Params {
		fr.env[p] = as[i]
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
	e.run(st, f.Blocks[0], 0)
}

// ---- contracts at call sites

func (e *Engine) specVal(st *State, v Val, t types.Type) SVal {
	if v.T == nil && v.Clo != nil {
		v = Val{T: e.closureTerm(v.Clo), Clo: v.Clo}
	}
	if v.T == nil && v.Loc != nil {
		return SVal{V: Val{Loc: v.Loc}, T: t}
	}
	return SVal{V: v, T: t}
}

func (e *Engine) applyContract(st *State, c *Contract, sig *types.Signature, iface bool, args []Val, ts []types.Type, in ssa.Instruction) []Val {
	e.used[c.Key] = true
	if len(c.Params) != len(args) {
		unsup(fmt.Sprintf("contract of %s has %d parameters, call has %d", c.Key, len(c.Params), len(args)))
	}
	env := &SEnv{e: e, st: st, old: st, vars: map[string]SVal{}}
	for i, n := range c.Params {
		env.vars[n] = e.specVal(st, args[i], ts[i])
	}
	w := e.where(st, in)
	for i, r := range c.Requires {
		t := e.mustEval(env, r.E, c.Key)
		lbl := r.Label
		if lbl == "" {
			lbl = fmt.Sprint(i + 1)
		}
		e.prove(st, t, fmt.Sprintf("precondition %s of %s @%s", lbl, c.Key, w), "precondition")
	}
	pre := st.clone()
	env.old = pre
	penv := *env
	penv.st = pre
	mods := e.evalMods(&penv, c)
	for h, t := range pre.heap {
		if st.heap[h] == nil {
			st.heap[h] = t
		}
	}
	if !c.NoAlloc && !c.Pure {
		e.bumpAlloc(st)
	}
	for _, m := range mods {
		if m.ref == nil {
			e.record(writeRec{m.heap, nil, ""})
			e.checkFrameWhole(st, m.heap, w)
			e.havocHeap(st, m.heap)
			continue
		}
		if m.kind == "structs" {
			e.record(writeRec{m.heap, m.ref, "structs"})
			e.checkFrameStructs(pre, m.heap, m.ref, w+" (call of "+c.Key+")")
			e.havocStructs(st, m.heap, m.ref)
			continue
		}
		e.record(writeRec{m.heap, m.ref, "point"})
		e.checkFrame(pre, m.heap, m.ref, w+" (call of "+c.Key+")")
		e.havocAt(st, m.heap, m.ref)
	}
	var rs []Val
	res := sig.Results()
	if len(c.Results) != res.Len() {
		unsup(fmt.Sprintf("contract of %s has %d results, signature %d", c.Key, len(c.Results), res.Len()))
	}
	newRes := map[string]bool{}
	for _, q := range c.Ensures {
		topFresh(q.E, newRes)
	}
	for i := 0; i < res.Len(); i++ {
		var v Val
		if _, ok := res.At(i).Type().Underlying().(*types.Pointer); ok && newRes[c.Results[i]] {
			// the result is a new object
			v = tv(e.alloc(st))
		} else {
			v = e.havocVal(st, res.At(i).Type(), Val{}, c.Results[i])
		}
		rs = append(rs, v)
		if c.Results[i] != "_" {
			env.vars[c.Results[i]] = SVal{V: v, T: res.At(i).Type()}
		}
	}
	// what the callee allocated has unknown content
	for _, q := range c.Ensures {
		freshArgs(q.E, func(x *Expr) { e.havocFresh(st, env, x, e.lim(pre), c.Key) })
	}
	for _, q := range c.Ensures {
		t := e.mustEval(env, q.E, c.Key)
		e.assume(st, t)
	}
	for i := range rs {
		if rs[i].T != nil {
			rs[i] = e.reVal(rs[i].T)
		}
	}
	return rs
}

// topFresh: the names a clause states to be fresh, unconditionally.
func topFresh(x *Expr, out map[string]bool) {
	if x.Op == "&&" || x.Op == "binary:&&" {
		topFresh(x.Args[0], out)
		topFresh(x.Args[1], out)
		return
	}
	if x.Op == "call" && x.S == "fresh" && x.Args[0].Op == "ident" {
		out[x.Args[0].S] = true
	}
}

// freshArgs: the arguments of fresh outside of quantifiers, in order.
func freshArgs(x *Expr, f func(*Expr)) {
	if x.Op == "quant" {
		return
	}
	if x.Op == "call" && x.S == "fresh" {
		f(x.Args[0])
		return
	}
	for _, a := range x.Args {
		freshArgs(a, f)
	}
}

// havocFresh forgets the content of an object the callee states to be new.
func (e *Engine) havocFresh(st *State, env *SEnv, x *Expr, since limit, key string) {
	if x.Op == "call" && (x.S == "base" || x.S == "root") && len(x.Args) == 1 {
		x = x.Args[0]
	}
	var v SVal
	func() {
		defer func() {
			if r := recover(); r != nil {
				if se, ok := r.(specErr); ok {
					unsup("contract of " + key + ": " + se.msg + " in " + exprStr(x))
				}
				panic(r)
			}
		}()
		v = env.eval(x)
	}()
	r := v.V.T
	if r == nil || v.T == nil {
		return
	}
	at := func(heap string, ref *Term) {
		e.record(writeRec{heap, ref, "point"})
		e.havocAt(st, heap, ref)
	}
	leaf := func(heap string, ref *Term, typ types.Type, elem bool) {
		if heap == "" {
			unsup("contract of " + key + ": new object with an array of structs")
		}
		e.heapOf(heap, typ, elem)
		at(heap, ref)
	}
	note := func(r *Term) {
		r = r.look()
		if e.freshAt == nil {
			e.freshAt = map[int]limit{}
		}
		if r.Op != "obj" {
			e.freshAt[r.ID] = since
		}
	}
	switch u := v.T.Underlying().(type) {
	case *types.Pointer:
		note(r)
		e.leaves(u.Elem(), r, leaf)
		for _, g := range e.specs.Ghosts {
			if g.Type == typeStr(u.Elem()) {
				at(e.ghostHeap(g), r)
			}
		}
	case *types.Slice:
		b := slBase(r)
		note(b)
		if isScalar(u.Elem(), e.mode) {
			h := elemHeap(u.Elem())
			e.heapOf(h, u.Elem(), true)
			at(h, b)
			return
		}
		e.leaves(u.Elem(), nil, func(heap string, _ *Term, typ types.Type, elem bool) {
			if heap == "" {
				unsup("contract of " + key + ": new array of arrays of structs")
			}
			e.heapOf(heap, typ, elem)
			e.record(writeRec{heap, b, "structs"})
			e.havocStructs(st, heap, b)
		})
	case *types.Map:
		note(r)
		has, val := e.mapHeaps(u)
		at(has, r)
		at(val, r)
	}
}

func (e *Engine) mustEval(env *SEnv, x *Expr, key string) *Term {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				unsup("contract of " + key + ": " + se.msg + " in " + exprStr(x))
			}
			panic(r)
		}
	}()
	return env.boolT(x)
}

func (e *Engine) checkFrameWhole(st *State, heap, where string) {
	if e.quiet > 0 || e.dry > 0 || e.noFrame > 0 || e.con == nil || e.con.ModAny {
		return
	}
	for _, m := range e.mods {
		if m.heap == heap && m.ref == nil {
			return
		}
	}
	e.prove(st, False, "frame["+heap+"] "+where, "frame")
}

func (e *Engine) checkFrameStructs(st *State, heap string, base *Term, where string) {
	if e.quiet > 0 || e.dry > 0 || e.noFrame > 0 || e.con == nil || e.con.ModAny {
		return
	}
	var alts []*Term
	for _, m := range e.mods {
		if m.heap == heap {
			if m.ref == nil {
				return
			}
			if m.kind == "structs" {
				alts = append(alts, Eq(m.ref, base))
			}
		}
	}
	// (no slice has elements at nil)
	alts = append(alts, mk("<=", SBool, e.al0, rootid(base)), Eq(base, Null))
	e.prove(st, Or(alts...), "frame["+heap+"] "+where, "frame")
}

// evalMods evaluates a modifies list to heap locations.
func (e *Engine) evalMods(env *SEnv, c *Contract) (out []ModLoc) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				unsup("modifies of " + c.Key + ": " + se.msg)
			}
			panic(r)
		}
	}()
	leaves := func(t types.Type, ref *Term) {
		e.leaves(t, ref, func(h string, r *Term, typ types.Type, elem bool) {
			if h == "" {
				return
			}
			e.heapOf(h, typ, elem)
			out = append(out, ModLoc{h, r, "point"})
		})
	}
	var structsOf func(t types.Type, base *Term)
	structsOf = func(t types.Type, base *Term) {
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			fd := s.Field(i)
			if isScalar(fd.Type(), e.mode) {
				h := fieldHeap(t, fd.Name())
				e.heapOf(h, fd.Type(), false)
				out = append(out, ModLoc{h, base, "structs"})
			} else if structOf(fd.Type()) != nil {
				// nested structs: whole heaps
				e.leaves(fd.Type(), nil, func(h string, r *Term, typ types.Type, elem bool) {
					if h != "" {
						e.heapOf(h, typ, elem)
						out = append(out, ModLoc{h, nil, ""})
					}
				})
			}
		}
	}
	for _, x := range c.Modifies {
		switch {
		case x.Op == "call" && x.S == "elems":
			v := env.eval(x.Args[0])
			var et types.Type
			base := v.V.T
			if v.Addr {
				et = v.T.Underlying().(*types.Array).Elem()
			} else {
				et = v.T.Underlying().(*types.Slice).Elem()
				base = slBase(v.V.T)
			}
			if isScalar(et, e.mode) {
				h := elemHeap(et)
				e.heapOf(h, et, true)
				out = append(out, ModLoc{h, base, "point"})
			} else {
				structsOf(et, base)
			}
		case x.Op == "call" && x.S == "all":
			v := env.eval(x.Args[0])
			t := v.T
			if !v.Addr {
				t = deref(t)
			}
			leaves(t, v.V.T)
		case x.Op == "call" && x.S == "cell":
			v := env.eval(x.Args[0])
			if v.V.Loc != nil {
				k := "point"
				out = append(out, ModLoc{v.V.Loc.Heap, v.V.Loc.Ref, k})
			} else {
				t := deref(v.T)
				h := cellHeap(t)
				e.heapOf(h, t, false)
				out = append(out, ModLoc{h, v.V.T, "point"})
			}
		case x.Op == "call" && x.S == "mapof":
			v := env.eval(x.Args[0])
			has, val := e.mapHeaps(v.T.Underlying().(*types.Map))
			out = append(out, ModLoc{has, v.V.T, "point"}, ModLoc{val, v.V.T, "point"})
		case x.Op == "call" && x.S == "anyof": // anyof("pkg.T", "field")
			t := P.lookupType(x.Args[0].S)
			if t == nil {
				sfail("no type %s", x.Args[0].S)
			}
			f := x.Args[1].S
			found := false
			if s := structOf(t); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					fd := s.Field(i)
					if fd.Name() != f && f != "*" {
						continue
					}
					found = true
					if isScalar(fd.Type(), e.mode) {
						h := fieldHeap(t, fd.Name())
						e.heapOf(h, fd.Type(), false)
						out = append(out, ModLoc{h, nil, ""})
					} else {
						e.leaves(fd.Type(), nil, func(h string, r *Term, typ types.Type, elem bool) {
							if h != "" {
								e.heapOf(h, typ, elem)
								out = append(out, ModLoc{h, nil, ""})
							}
						})
					}
				}
			}
			for _, g := range e.specs.Ghosts {
				if g.Type == x.Args[0].S && (g.Name == f || f == "*") {
					found = true
					out = append(out, ModLoc{e.ghostHeap(g), nil, ""})
				}
			}
			if !found {
				sfail("no field %s", f)
			}
		case x.Op == "call" && x.S == "anyelems":
			t := P.lookupType(x.Args[0].S)
			if t == nil {
				sfail("no type %s", x.Args[0].S)
			}
			h := elemHeap(t)
			e.heapOf(h, t, true)
			out = append(out, ModLoc{h, nil, ""})
		case x.Op == "call" && x.S == "anycell":
			t := P.lookupType(x.Args[0].S)
			h := cellHeap(t)
			e.heapOf(h, t, false)
			out = append(out, ModLoc{h, nil, ""})
		case x.Op == "ident":
			ok := false
			for _, g := range e.specs.Ghosts {
				if g.Type == "global" && g.Name == x.S {
					out = append(out, ModLoc{e.ghostHeap(g), Null, "point"})
					ok = true
				}
			}
			if !ok {
				sfail("cannot modify %s", x.S)
			}
		case x.Op == "field":
			b := env.eval(x.Args[0])
			t, ref := b.T, b.V.T
			if !b.Addr {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				} else if sortOf(t, e.mode) == SIface {
					for _, g := range e.specs.Ghosts {
						if g.Name == x.S && (g.Type == "iface" || g.Type == typeStr(t)) {
							out = append(out, ModLoc{e.ghostHeap(g), ifRef(ref), "point"})
						}
					}
					continue
				} else if sortOf(t, e.mode) == SSlice {
					ref = slBase(ref)
				}
			}
			done := false
			if s := structOf(t); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					fd := s.Field(i)
					if fd.Name() != x.S {
						continue
					}
					done = true
					if isScalar(fd.Type(), e.mode) {
						h := fieldHeap(t, x.S)
						e.heapOf(h, fd.Type(), false)
						out = append(out, ModLoc{h, ref, "point"})
					} else {
						leaves(fd.Type(), Fld(ref, int64(i)))
					}
				}
			}
			if !done {
				for _, g := range e.specs.Ghosts {
					if g.Name == x.S && g.Type == typeStr(t) {
						out = append(out, ModLoc{e.ghostHeap(g), ref, "point"})
						done = true
					}
				}
			}
			if !done {
				sfail("cannot modify field %s of %s", x.S, typeStr(t))
			}
		default:
			sfail("cannot modify %s", exprStr(x))
		}
	}
	return out
}

// ---- built-ins

func (e *Engine) builtin(st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, in ssa.Instruction) []Val {
	m := e.mode
	switch b.Name() {
	case "len", "cap":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			s := e.scalar(st, args[0], t)
			if b.Name() == "len" {
				return []Val{tv(slLen(s, m))}
			}
			return []Val{tv(slCap(s, m))}
		case *types.Basic:
			return []Val{tv(e.strLen(args[0].T))}
		case *types.Array:
			return []Val{tv(e.idx(u.Len()))}
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return []Val{tv(e.idx(a.Len()))}
			}
		case *types.Map:
			n := Fresh("maplen", idxSort(m))
			e.assume(st, e.leIdx(e.idx(0), n))
			return []Val{tv(n)}
		case *types.Chan:
			n := Fresh("chanlen", idxSort(m))
			e.assume(st, e.leIdx(e.idx(0), n))
			return []Val{tv(n)}
		}
	case "copy":
		return []Val{tv(e.doCopy(st, cc, args, in))}
	case "delete":
		u := cc.Args[0].Type().Underlying().(*types.Map)
		has, _ := e.mapHeaps(u)
		mm := args[0].T
		k := e.mapKey(st, args[1], u.Key())
		h := e.H(st, has)
		e.setElems(st, has, mm, Store(Select(h, mm), k, False), e.where(st, in))
		return nil
	case "min", "max":
		x := args[0].T
		for _, a := range args[1:] {
			c := Le(x, a.T)
			if m == ModeBV {
				c = bvCmp("bvsle", x, a.T)
			}
			if b.Name() == "min" {
				x = Ite(c, x, a.T)
			} else {
				x = Ite(c, a.T, x)
			}
		}
		return []Val{tv(x)}
	case "print", "println":
		return nil
	case "close":
		return nil
	case "ssa:wrapnilchk":
		return []Val{args[0]}
	case "recover":
		return []Val{tv(NilIface)}
	case "clear":
		if u, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			has, _ := e.mapHeaps(u)
			h := e.H(st, has)
			e.setElems(st, has, args[0].T, ConstArr(h.Sort.Elt, False), e.where(st, in))
			return nil
		}
	}
	unsup("built-in " + b.Name())
	return nil
}

// srcAt: element k of a copy/append source.
func (e *Engine) srcAt(st *State, src Val, t types.Type, et types.Type) func(k *Term) *Term {
	m := e.mode
	if isString(t) {
		return func(k *Term) *Term { return e.strAt(src.T, k) }
	}
	h := elemHeap(et)
	e.heapOf(h, et, true)
	arr := Select(e.H(st, h), slBase(src.T))
	off := slOff(src.T, m)
	return func(k *Term) *Term { return Select(arr, e.addIdx(off, k)) }
}

func (e *Engine) srcLen(src Val, t types.Type) *Term {
	if isString(t) {
		return e.strLen(src.T)
	}
	return slLen(src.T, e.mode)
}

func litN(t *Term) (int64, bool) {
	if t.IVal != nil && t.IVal.IsInt64() {
		return t.IVal.Int64(), true
	}
	return 0, false
}

func (e *Engine) doCopy(st *State, cc *ssa.CallCommon, args []Val, in ssa.Instruction) *Term {
	m := e.mode
	dt, sty := cc.Args[0].Type(), cc.Args[1].Type()
	et := dt.Underlying().(*types.Slice).Elem()
	if !isScalar(et, m) {
		unsup("copy of structs")
	}
	dst := args[0].T
	ln := e.srcLen(args[1], sty)
	n := Ite(e.leIdx(slLen(dst, m), ln), slLen(dst, m), ln)
	if slLen(dst, m) == ln {
		n = ln
	}
	at := e.srcAt(st, args[1], sty, et)
	h := elemHeap(et)
	e.heapOf(h, et, true)
	base := slBase(dst)
	arr := Select(e.H(st, h), base)
	e.setElems(st, h, base, e.overwrite(st, arr, slOff(dst, m), n, at, et), e.where(st, in))
	return n
}

// overwrite: arr with arr[off+k] = at(k) for 0 <= k < n
func (e *Engine) overwrite(st *State, arr, off, n *Term, at func(*Term) *Term, et types.Type) *Term {
	if c, ok := litN(n); ok && c <= 12 {
		var vs []*Term
		for k := int64(0); k < c; k++ {
			vs = append(vs, at(e.idx(k)))
		}
		for k := int64(0); k < c; k++ {
			arr = Store(arr, e.addIdx(off, e.idx(k)), vs[k])
		}
		return arr
	}
	na := Fresh("arr", arr.Sort)
	if l, ok := e.boundOf(arr); ok {
		e.limOf[na.ID] = l
		if le := e.lim(st); !e.limLE(le, l) {
			e.limOf[na.ID] = le
		}
	} else {
		e.limOf[na.ID] = e.lim(st)
	}
	j := BoundVar("j", idxSort(e.mode))
	x := Select(na, j)
	in := And(e.leIdx(off, j), e.ltIdx(j, e.addIdx(off, n)))
	e.assume(st, Forall([]*Term{j}, Eq(x, Ite(in, at(e.subIdx(j, off)), Select(arr, j))), []*Term{x}))
	return na
}

func (e *Engine) doAppend(st *State, cc *ssa.CallCommon, args []Val, in ssa.Instruction, cont func(*State, []Val)) {
	m := e.mode
	t0 := cc.Args[0].Type()
	et := t0.Underlying().(*types.Slice).Elem()
	sty := cc.Args[1].Type()
	s := e.scalar(st, args[0], t0)
	src := args[1]
	k := e.srcLen(src, sty)
	if k == e.idx(0) {
		cont(st, []Val{tv(s)})
		return
	}
	n := slLen(s, m)
	tot := e.addIdx(n, k)
	fits := e.leIdx(tot, slCap(s, m))
	w := e.where(st, in)
	grow := func(st *State, fit bool) {
		if fit {
			base, off := slBase(s), e.addIdx(slOff(s, m), n)
			e.putElems(st, et, base, off, k, src, sty, w)
			cont(st, []Val{tv(mkSlice(base, slOff(s, m), tot, slCap(s, m)))})
			return
		}
		r := e.alloc(st)
		c := Fresh("cap", idxSort(m))
		e.assume(st, And(e.leIdx(tot, c), e.leIdx(c, IdxMax(e))))
		// copy the old elements
		old := Val{T: s}
		if isScalar(et, m) {
			h := elemHeap(et)
			e.heapOf(h, et, true)
			z := e.zero(et)
			zero := ConstArr(SArr(idxSort(m), z.Sort), z)
			at := e.srcAt(st, old, t0, et)
			arr := zero
			if n != e.idx(0) {
				if c, ok := litN(n); ok && c <= 12 {
					arr = e.overwrite(st, zero, e.idx(0), n, at, et)
				} else {
					arr = e.overwriteTotal(st, zero.Sort, n, at, et)
				}
			}
			at2 := e.srcAt(st, src, sty, et)
			arr = e.overwrite(st, arr, n, k, at2, et)
			st.heap[h] = Store(e.H(st, h), r, arr)
		} else {
			e.copyStructs(st, et, r, e.idx(0), slBase(s), slOff(s, m), n)
			e.putElems(st, et, r, n, k, src, sty, w)
		}
		cont(st, []Val{tv(mkSlice(r, e.idx(0), tot, c))})
	}
	if fits == True {
		grow(st, true)
		return
	}
	if fits == False || s.look().Op == "mk-slice" && s.look().Args[0] == Null {
		grow(st, false)
		return
	}
	for _, fit := range []bool{true, false} {
		s2 := st
		if fit {
			s2 = st.clone()
		}
		g := fits
		if !fit {
			g = Not(fits)
		} else {
			g = And(fits, Not(Eq(slBase(s), Null)))
		}
		if !fit {
			g = Or(Not(fits), Eq(slBase(s), Null))
		}
		if !e.assume(s2, g) {
			continue
		}
		if e.tooMany() {
			e.undecided(s2, "path or time budget used up")
			return
		}
		if e.feasible(s2, 300) {
			grow(s2, fit)
		}
	}
}

// overwriteTotal: fresh array holding at(j) for j in [0,n), well typed elsewhere
func (e *Engine) overwriteTotal(st *State, so *Sort, n *Term, at func(*Term) *Term, et types.Type) *Term {
	na := Fresh("arr", so)
	e.limOf[na.ID] = e.lim(st)
	j := BoundVar("j", idxSort(e.mode))
	x := Select(na, j)
	in := And(e.leIdx(e.idx(0), j), e.ltIdx(j, n))
	e.assume(st, Forall([]*Term{j}, And(Imp(in, Eq(x, at(j))), Imp(Not(in), Eq(x, e.zero(et)))), []*Term{x}))
	return na
}

// putElems writes the k source elements at base[off...]
func (e *Engine) putElems(st *State, et types.Type, base, off, k *Term, src Val, sty types.Type, w string) {
	m := e.mode
	if isScalar(et, m) {
		h := elemHeap(et)
		e.heapOf(h, et, true)
		at := e.srcAt(st, src, sty, et)
		arr := e.overwrite(st, Select(e.H(st, h), base), off, k, at, et)
		e.setElems(st, h, base, arr, w)
		return
	}
	sb, so := slBase(src.T), slOff(src.T, m)
	if c, ok := litN(k); ok && c <= 4 {
		var vs []Val
		for i := int64(0); i < c; i++ {
			vs = append(vs, e.loadVal(st, et, Elm(sb, e.addIdx(so, e.idx(i)))))
		}
		for i := int64(0); i < c; i++ {
			e.storeVal(st, et, Elm(base, e.addIdx(off, e.idx(i))), vs[i], w)
		}
		return
	}
	e.checkStructsWrite(st, et, base, w)
	e.copyStructs(st, et, base, off, sb, so, k)
}

func (e *Engine) checkStructsWrite(st *State, et types.Type, base *Term, w string) {
	e.leaves(et, Elm(base, e.idx(0)), func(h string, r *Term, typ types.Type, elem bool) {
		if h != "" {
			e.heapOf(h, typ, elem)
			e.record(writeRec{h, base, "structs"})
			e.checkFrameStructs(st, h, base, w)
		}
	})
}

// copyStructs: elm(dst, doff+i) := elm(src, soff+i) for 0 <= i < n; other
// elements of dst keep their values.
func (e *Engine) copyStructs(st *State, et types.Type, dst, doff, src, soff, n *Term) {
	if n == e.idx(0) {
		return
	}
	type leaf struct {
		h    string
		typ  types.Type
		elem bool
		path []int64
	}
	var lv []leaf
	var walk func(t types.Type, path []int64)
	walk = func(t types.Type, path []int64) {
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			fd := s.Field(i)
			if isScalar(fd.Type(), e.mode) {
				h := fieldHeap(t, fd.Name())
				e.heapOf(h, fd.Type(), false)
				lv = append(lv, leaf{h, fd.Type(), false, path})
			} else if structOf(fd.Type()) != nil {
				walk(fd.Type(), append(path[:len(path):len(path)], int64(i)))
			} else {
				unsup("copy of structs with arrays")
			}
		}
	}
	if structOf(et) == nil {
		unsup("copy of arrays")
	}
	walk(et, nil)
	for _, l := range lv {
		old := e.H(st, l.h)
		nh := e.newHeapSym(st, l.h, "")
		st.heap[l.h] = nh
		e.typeAx(st, l.h, nh)
		sub := func(r *Term) *Term {
			for _, p := range l.path {
				r = Fld(r, p)
			}
			return r
		}
		j := BoundVar("j", idxSort(e.mode))
		x := mk("select", nh.Sort.Elt, nh, sub(Elm(dst, j)))
		in := And(e.leIdx(doff, j), e.ltIdx(j, e.addIdx(doff, n)))
		e.assume(st, Forall([]*Term{j}, Eq(x, Ite(in, Select(old, sub(Elm(src, e.addIdx(soff, e.subIdx(j, doff))))), Select(old, sub(Elm(dst, j))))), []*Term{x}))
		r := BoundVar("r", SRef)
		nr := mk("select", nh.Sort.Elt, nh, r)
		notIn := Not(And(mk("(_ is elm)", SBool, r), Eq(mk("ebase", SRef, r), dst)))
		if len(l.path) > 0 {
			notIn = Not(Eq(rootid(r), rootid(dst)))
		}
		e.assume(st, Forall([]*Term{r}, Imp(notIn, Eq(nr, mk("select", nh.Sort.Elt, old, r))), []*Term{nr}))
	}
}

// ---- goroutines and channels

// goSync handles a go statement whose goroutine is under a contract: what it
// requires must hold; what it does is taken to happen at the statement, or
// not to touch what this function uses (contract marked daemon).
func (e *Engine) goSync(st *State, cc *ssa.CallCommon, fnv Val, args []Val, in ssa.Instruction) bool {
	f, as, bind := e.calleeOf(st, cc, fnv, args)
	if f != nil {
		if c := e.contractFor(f); c != nil && c.Daemon {
			e.trusted["goroutine "+c.Key+": does not touch the memory of the function that starts it"] = true
			e.used[c.Key] = true
			env := &SEnv{e: e, st: st, old: st, vars: map[string]SVal{}}
			var ts []types.Type
			for _, p := range f.Params {
				ts = append(ts, p.Type())
			}
			for i, n := range c.Params {
				env.vars[n] = e.specVal(st, as[i], ts[i])
			}
			for i, fv := range f.FreeVars {
				env.vars[fv.Name()] = e.specVal(st, bind[i], fv.Type())
			}
			for i, r := range c.Requires {
				lbl := r.Label
				if lbl == "" {
					lbl = fmt.Sprint(i + 1)
				}
				e.prove(st, e.mustEval(env, r.E, c.Key), fmt.Sprintf("precondition %s of goroutine %s @%s", lbl, c.Key, e.where(st, in)), "precondition")
			}
			return true
		}
		e.trusted["goroutine "+funcKey(f)+": taken to run where it is started (it is waited for, and goroutines started together do not touch the same memory)"] = true
	}
	_, ok := e.callSync(st, cc, fnv, args, in)
	return ok
}

func chanSig(ct *types.Chan, t types.Type, recv bool) *types.Signature {
	v := func(n string, t types.Type) *types.Var { return types.NewVar(0, nil, n, t) }
	if recv {
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(v("c", t)), types.NewTuple(v("v", ct.Elem()), v("ok", types.Typ[types.Bool])), false)
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(v("c", t), v("v", ct.Elem())), nil, false)
}

// chanSend: a contract "send <channel type>"(c, v) (), or no effect on the sender.
func (e *Engine) chanSend(st *State, in *ssa.Send) {
	t := in.Chan.Type()
	ct := t.Underlying().(*types.Chan)
	c, v := e.get(st, in.Chan), e.get(st, in.X)
	if con := e.specs.Contracts["send "+typeStr(t)]; con != nil {
		e.applyContract(st, con, chanSig(ct, t, false), false, []Val{c, v}, []types.Type{t, ct.Elem()}, in)
		return
	}
	e.trusted["channel operations: a send changes nothing the sender uses, a receive gives any value"] = true
}

// chanRecv: a contract "recv <channel type>"(c) (v, ok), or any value.
func (e *Engine) chanRecv(st *State, in *ssa.UnOp) Val {
	t := in.X.Type()
	ct := t.Underlying().(*types.Chan)
	c := e.get(st, in.X)
	var rs []Val
	if con := e.specs.Contracts["recv "+typeStr(t)]; con != nil {
		rs = e.applyContract(st, con, chanSig(ct, t, true), false, []Val{c}, []types.Type{t}, in)
	} else {
		e.trusted["channel operations: a send changes nothing the sender uses, a receive gives any value"] = true
		e.bumpAlloc(st)
		rs = []Val{e.havocVal(st, ct.Elem(), Val{}, "received"), e.havocVal(st, types.Typ[types.Bool], Val{}, "ok")}
	}
	if in.CommaOk {
		return Val{Fs: rs}
	}
	return rs[0]
}

// sortSlice: sort.Slice(x, less) leaves a permutation of the elements in which
// no element is less than an earlier one, by what the body of less computes.
// That less is a strict weak order is not checked; its body is checked for
// every permutation of the elements.
func (e *Engine) sortSlice(st *State, cc *ssa.CallCommon, as []Val, in ssa.Instruction) {
	mi, ok := cc.Args[0].(*ssa.MakeInterface)
	if !ok {
		unsup("sort.Slice of an unknown value at " + e.where(st, in))
	}
	u, ok := mi.X.Type().Underlying().(*types.Slice)
	clo := as[1].Clo
	if !ok || !isScalar(u.Elem(), e.mode) || clo == nil {
		unsup("sort.Slice at " + e.where(st, in))
	}
	e.trusted["model of sort.Slice: a sorted permutation, if less is a strict weak order"] = true
	sl := e.term(st, mi.X)
	base, off, n := slBase(sl), slOff(sl, e.mode), slLen(sl, e.mode)
	h := elemHeap(u.Elem())
	e.heapOf(h, u.Elem(), true)
	old := Select(e.H(st, h), base)
	e.record(writeRec{h, base, "point"})
	e.checkFrame(st, h, base, e.where(st, in)+" (sort.Slice)")
	e.havocAt(st, h, base)
	nw := Select(e.H(st, h), base)
	inside := func(k *Term) *Term { return And(Le(off, k), Lt(k, Add(off, n))) }
	ar := nw.Sort
	p, q := Fresh("perm", SArr(SInt, SInt)), Fresh("place", SArr(SInt, SInt))
	k := BoundVar("k", SInt)
	sel := func(a, i *Term) *Term { return mk("select", ar.Elt, a, i) }
	e.assume(st, Forall([]*Term{k}, Ite(inside(k), And(inside(Select(p, k)), Eq(Select(q, Select(p, k)), k), Eq(sel(nw, k), sel(old, Select(p, k)))), Eq(sel(nw, k), sel(old, k))), []*Term{sel(nw, k)}))
	k2 := BoundVar("k", SInt)
	e.assume(st, Forall([]*Term{k2}, Imp(inside(k2), And(inside(Select(q, k2)), Eq(Select(p, Select(q, k2)), k2), Eq(sel(old, k2), sel(nw, Select(q, k2))))), []*Term{sel(old, k2)}))
	// what less computes
	i, j := Fresh("i", SInt), Fresh("j", SInt)
	ai, bi := BoundVar("a", SInt), BoundVar("b", SInt)
	mark := TT.n
	s2 := st.clone()
	e.assume(s2, And(Le(I(0), i), Lt(i, n)))
	e.assume(s2, And(Le(I(0), j), Lt(j, n)))
	from := len(s2.pc)
	var facts []*Term
	sub := map[*Term]*Term{i: Sub(bi, off), j: Sub(ai, off)}
	e.inline(s2, clo.Fn, []Val{tv(i), tv(j)}, clo.Bind, in, func(s3 *State, rs []Val) {
		f := Imp(And(s3.pc[from:]...), Not(rs[0].T))
		f = Subst(f, sub)
		if !symsBelow(f, mark, map[int]bool{}) {
			unsup("less of sort.Slice computes with calls or new objects at " + e.where(st, in))
		}
		facts = append(facts, f)
	})
	for _, f := range facts {
		e.assume(st, Forall([]*Term{ai, bi}, Imp(And(inside(ai), inside(bi), Lt(ai, bi)), f), []*Term{sel(nw, ai), sel(nw, bi)}))
	}
}

// ---- trusted models

func (e *Engine) newErr(st *State) Val {
	r := e.alloc(st)
	return tv(mkIface(I(int64(e.tagOf(types.NewPointer(types.Typ[types.Invalid])))), r))
}

// model: library functions the engine knows by itself. Each is listed in the
// evidence when used.
func (e *Engine) model(st *State, f *ssa.Function, args []Val, cc *ssa.CallCommon, in ssa.Instruction) ([]Val, bool) {
	k := funcKey(f)
	use := func() { e.trusted["model of "+k] = true }
	freshStr := func() Val {
		s := Fresh("str", SStr)
		e.assume(st, e.strFact(s))
		return tv(s)
	}
	switch k {
	case "errors.New", "fmt.Errorf":
		use()
		return []Val{e.newErr(st)}, true
	case "fmt.Printf", "fmt.Println", "fmt.Fprintf", "fmt.Fprintln", "fmt.Print", "fmt.Fprint":
		use()
		n := Fresh("n", idxSort(e.mode))
		er := Fresh("err", SIface)
		e.limOf[er.ID] = e.lim(st)
		e.assume(st, e.typeFact(er, f.Signature.Results().At(1).Type(), e.lim(st)))
		return []Val{tv(n), tv(er)}, true
	case "log.Printf", "log.Println", "log.Print":
		use()
		return nil, true
	case "fmt.Sprintf", "fmt.Sprint":
		use()
		if k == "fmt.Sprintf" {
			if as, ok := e.varargs(st, args[1].T); ok {
				var ts []*Term
				good := true
				for _, a := range as {
					r := ifRef(a)
					if strings.HasPrefix(r.Op, "box.") || strings.HasPrefix(r.Op, "|box.") {
						ts = append(ts, r.Args[0])
					} else {
						good = false
					}
				}
				if good {
					s := e.sprintf(args[0].T, ts)
					e.assume(st, e.strFact(s))
					return []Val{tv(s)}, true
				}
			}
		}
		return []Val{freshStr()}, true
	case "filepath.Join", "path.Join":
		use()
		if as, ok := e.varargs(st, args[0].T); ok {
			s := e.pathJoin(as)
			e.assume(st, e.strFact(s))
			return []Val{tv(s)}, true
		}
		return []Val{freshStr()}, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		use()
		return nil, true
	}
	return nil, false
}

// varargs: the elements of a variadic slice of known length.
func (e *Engine) varargs(st *State, s *Term) ([]*Term, bool) {
	n, ok := litN(slLen(s, e.mode))
	if !ok {
		return nil, n == 0 && s.look().Op == "mk-slice"
	}
	var h *Term
	for k, t := range st.heap {
		if strings.HasPrefix(k, "E.interface{}") || k == "E.string" {
			if v := Select(t, slBase(s)); v.Op == "store" || v.Op == "constarr" {
				h = v
			}
		}
	}
	if n == 0 {
		return nil, true
	}
	if h == nil {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, Select(h, e.addIdx(slOff(s, e.mode), e.idx(i))))
	}
	return out, true
}
