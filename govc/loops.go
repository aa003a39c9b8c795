// Loops: natural loops, write sets, invariant candidates, Houdini.
package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	phis   []*ssa.Phi
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func loopOf(b *ssa.BasicBlock) *loopInfo {
	f := b.Parent()
	m, ok := loopCache[f]
	if !ok {
		m = map[*ssa.BasicBlock]*loopInfo{}
		for _, x := range f.Blocks {
			for _, h := range x.Succs {
				if !h.Dominates(x) {
					continue
				}
				li := m[h]
				if li == nil {
					li = &loopInfo{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
					for _, in := range h.Instrs {
						if p, ok := in.(*ssa.Phi); ok {
							li.phis = append(li.phis, p)
						}
					}
					m[h] = li
				}
				var st []*ssa.BasicBlock
				if !li.body[x] {
					li.body[x] = true
					st = append(st, x)
				}
				for len(st) > 0 {
					y := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range y.Preds {
						if !li.body[p] {
							li.body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
		loopCache[f] = m
	}
	return m[b]
}

type recorder struct {
	seen map[string]bool
	list []writeRec
}

func (r *recorder) add(w writeRec) {
	id := -1
	if w.ref != nil {
		id = w.ref.ID
	}
	k := fmt.Sprintf("%s|%d|%s", w.heap, id, w.kind)
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.list = append(r.list, w)
}

// writeSet of a loop, in terms of the state before it.
type writeSet struct {
	points  map[string][]*Term
	structs map[string][]*Term
	fresh   map[string]bool
	whole   map[string]bool
	iters   map[int]bool
}

func newWriteSet() *writeSet {
	return &writeSet{map[string][]*Term{}, map[string][]*Term{}, map[string]bool{}, map[string]bool{}, map[int]bool{}}
}

func symsBelow(t *Term, mark int, memo map[int]bool) bool {
	if v, ok := memo[t.ID]; ok {
		return v
	}
	r := true
	if t.isSym && t.ID >= mark && !strings.HasSuffix(strings.TrimSuffix(t.Op, "|"), "@0") && !strings.HasPrefix(t.Op, "|lit:") && !strings.HasPrefix(t.Op, "lit:") {
		r = false
	}
	for _, a := range t.Args {
		if !r {
			break
		}
		r = symsBelow(a, mark, memo)
	}
	memo[t.ID] = r
	return r
}

// add classifies a write; reports whether the set grew.
func (ws *writeSet) add(e *Engine, w writeRec, mark int, since limit) bool {
	if ws.whole[w.heap] {
		return false
	}
	if w.ref == nil {
		ws.whole[w.heap] = true
		return true
	}
	memo := map[int]bool{}
	in := func(l []*Term, t *Term) bool {
		for _, x := range l {
			if x == t {
				return true
			}
		}
		return false
	}
	if w.kind == "structs" {
		if symsBelow(w.ref, mark, memo) {
			if in(ws.structs[w.heap], w.ref) {
				return false
			}
			ws.structs[w.heap] = append(ws.structs[w.heap], w.ref)
			return true
		}
		if e.isFreshSyn(w.ref, since) {
			if ws.fresh[w.heap] {
				return false
			}
			ws.fresh[w.heap] = true
			return true
		}
		ws.whole[w.heap] = true
		return true
	}
	if symsBelow(w.ref, mark, memo) {
		if in(ws.points[w.heap], w.ref) {
			return false
		}
		ws.points[w.heap] = append(ws.points[w.heap], w.ref)
		return true
	}
	if e.isFreshSyn(w.ref, since) {
		if ws.fresh[w.heap] {
			return false
		}
		ws.fresh[w.heap] = true
		return true
	}
	r := w.ref.look()
	if r.Op == "elm" && symsBelow(r.Args[0], mark, memo) {
		if in(ws.structs[w.heap], r.Args[0]) {
			return false
		}
		ws.structs[w.heap] = append(ws.structs[w.heap], r.Args[0])
		return true
	}
	ws.whole[w.heap] = true
	return true
}

func (ws *writeSet) heaps() []string {
	m := map[string]bool{}
	for k := range ws.points {
		m[k] = true
	}
	for k := range ws.structs {
		m[k] = true
	}
	for k := range ws.fresh {
		m[k] = true
	}
	for k := range ws.whole {
		m[k] = true
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

type pseudo struct { // a havoced scalar location, treated like a phi
	heap string
	ref  *Term
	typ  types.Type
}

// havocLoop: an arbitrary iteration's state.
func (e *Engine) havocLoop(entry *State, li *loopInfo, ws *writeSet) *State {
	st := entry.clone()
	fr := st.top()
	lim0 := e.lim(entry)
	e.bumpAlloc(st)
	for _, p := range li.phis {
		fr.env[p] = e.havocVal(st, p.Type(), fr.env[p], p.Comment+"_"+p.Name())
	}
	for _, h := range ws.heaps() {
		info := e.hinfo[h]
		if !ws.whole[h] && !ws.fresh[h] && len(ws.structs[h]) == 0 {
			for _, r := range ws.points[h] {
				e.havocAt(st, h, r)
			}
			continue
		}
		old := e.H(st, h)
		n := e.newHeapSym(st, h, "")
		st.heap[h] = n
		e.typeAx(st, h, n)
		if ws.whole[h] {
			continue
		}
		_ = info
		r := BoundVar("r", SRef)
		conds := []*Term{}
		if ws.fresh[h] {
			conds = append(conds, mk("<", SBool, rootid(r), limTerm(lim0)))
		}
		for _, q := range ws.points[h] {
			conds = append(conds, Not(Eq(r, q)))
		}
		for _, b := range ws.structs[h] {
			conds = append(conds, Not(And(mk("(_ is elm)", SBool, r), Eq(mk("ebase", SRef, r), b))))
		}
		nr := mk("select", n.Sort.Elt, n, r)
		e.assume(st, Forall([]*Term{r}, Imp(And(conds...), Eq(nr, mk("select", n.Sort.Elt, old, r))), []*Term{nr}))
		e.frameOld[n.ID] = old
	}
	for id := range ws.iters {
		p := Fresh("iterpos", idxSort(e.mode))
		e.assume(st, e.leIdx(e.idx(0), p))
		st.iters[id] = p
	}
	return st
}

func (e *Engine) havocVal(st *State, t types.Type, old Val, name string) Val {
	if s := structOf(t); s != nil {
		v := Val{Fs: []Val{}}
		for i := 0; i < s.NumFields(); i++ {
			v.Fs = append(v.Fs, e.havocVal(st, s.Field(i).Type(), Val{}, name+"."+s.Field(i).Name()))
		}
		return v
	}
	so := sortOf(t, e.mode)
	if so == nil {
		unsup("loop variable of type " + typeStr(t))
	}
	if old.Loc != nil {
		unsup("address as loop variable")
	}
	x := Fresh(name, so)
	e.limOf[x.ID] = e.lim(st)
	e.noteRange(x, t)
	e.assume(st, e.typeFact(x, t, e.lim(st)))
	return tv(x)
}

type cand struct {
	name string
	user bool
	f    func(st *State, fr *Frame) (*Term, bool)
}

func (e *Engine) enterLoop(st *State, li *loopInfo) {
	fr := st.top()
	// plain unrolling
	if n := e.unrollOf(fr, li); n > 0 {
		e.unrollLoop(st, li, n)
		return
	}
	entry := st.clone()
	ws := newWriteSet()
	grow := func(rec *recorder, mark int, since limit, itBefore map[int]*Term) bool {
		g := false
		for _, w := range rec.list {
			if ws.add(e, w, mark, since) {
				g = true
			}
		}
		return g
	}
	pass := func(dry bool, cands []cand, onBack func(s *State)) bool {
		// one pass over the body from an arbitrary iteration
		mark := TT.n
		h := e.havocLoop(entry, li, ws)
		since := e.lim(h)
		hf := h.top()
		for _, c := range cands {
			if t, ok := c.f(h, hf); ok {
				e.assume(h, t)
			}
		}
		rec := &recorder{seen: map[string]bool{}}
		e.recs = append(e.recs, rec)
		lc := &loopCtx{header: li.header, body: li.body, stopExit: true}
		grown := false
		lc.onBack = func(s *State, from *ssa.BasicBlock) {
			for id, p := range s.iters {
				if ip, ok := entry.iters[id]; ok && ip != p && !ws.iters[id] {
					ws.iters[id] = true
					grown = true
				}
			}
			if onBack != nil {
				onBack(s)
			}
		}
		hf.loops = append(hf.loops[:len(hf.loops):len(hf.loops)], lc)
		if dry {
			e.dry++
		}
		e.quiet++
		dp, dc := e.dryPaths, e.dryCut
		if dry {
			e.dryPaths, e.dryCut = 0, false
		}
		func() {
			defer func() {
				if dry {
					e.dry--
					e.dryPaths, e.dryCut = dp, dc
				}
				e.quiet--
				e.recs = e.recs[:len(e.recs)-1]
			}()
			e.run(h, li.header, len(li.phis))
		}()
		if grow(rec, mark, since, nil) {
			grown = true
		}
		return grown
	}
	_ = fr
	for n := 0; n < 8; n++ {
		if !pass(true, nil, nil) {
			break
		}
	}
	if e.dry > 0 {
		h := e.havocLoop(entry, li, ws)
		e.loopContinue(h, li)
		return
	}
	var cands []cand
	for restart := 0; restart < 6; restart++ {
		cands = e.candidates(entry, li, ws)
		// hold on entry
		var keep []cand
		var at []*Term
		for _, c := range cands {
			s2 := entry
			t, ok := c.f(s2, s2.top())
			if !ok {
				continue
			}
			keep = append(keep, c)
			at = append(at, t)
		}
		cands = e.filter(entry, keep, at)
		stable := false
		grown := false
		for it := 0; it < 40 && !stable; it++ {
			stable = true
			cur := cands
			removed := map[int]bool{}
			grown = pass(false, cur, func(s *State) {
				var ts []*Term
				var ix []int
				for i, c := range cur {
					if removed[i] {
						continue
					}
					t, ok := c.f(s, s.top())
					if !ok {
						removed[i] = true
						stable = false
						continue
					}
					ts = append(ts, t)
					ix = append(ix, i)
				}
				bad := e.failing(s, ts, func(k int) bool { return cur[ix[k]].user })
				for _, k := range bad {
					removed[ix[k]] = true
					stable = false
					if e.debug && cur[ix[k]].user {
						fmt.Println("    dropped inv (step):", cur[ix[k]].name)
					}
				}
			})
			if grown {
				break
			}
			if e.tooManyNow() {
				e.undecided(entry, "budget used up in a loop of "+funcKey(fr.fn))
				return
			}
			if !stable {
				var n []cand
				for i, c := range cur {
					if !removed[i] {
						n = append(n, c)
					}
				}
				cands = n
			}
		}
		if !grown && stable {
			break
		}
		if restart == 5 || (!grown && !stable) {
			e.undecided(entry, "no stable invariants for a loop of "+funcKey(fr.fn))
			return
		}
	}
	e.nInv += len(cands)
	if e.debug && e.quiet == 0 {
		var ns []string
		for _, c := range cands {
			ns = append(ns, c.name)
		}
		fmt.Printf("    loop %s b%d: %d invariants: %s\n", funcKey(fr.fn), li.header.Index, len(cands), strings.Join(ns, "; "))
	}
	h := e.havocLoop(entry, li, ws)
	hf := h.top()
	for _, c := range cands {
		if t, ok := c.f(h, hf); ok {
			e.assume(h, t)
		}
	}
	e.loopContinue(h, li)
}

func (e *Engine) loopContinue(h *State, li *loopInfo) {
	hf := h.top()
	lc := &loopCtx{header: li.header, body: li.body, onBack: func(*State, *ssa.BasicBlock) {}}
	hf.loops = append(hf.loops[:len(hf.loops):len(hf.loops)], lc)
	e.run(h, li.header, len(li.phis))
}

func (e *Engine) tooManyNow() bool { return e.paths > e.maxPath || !e.timeLeft() }

// plainArith: a comparison of counters, lengths and fields; what holds among
// these the incremental solver finds at once.
func plainArith(t *Term) bool {
	if t.isSym || t.IVal != nil {
		return true
	}
	if t.Bound != nil {
		return false
	}
	switch {
	case t.Op == "select":
		return t.Args[0].isSym && plainArith(t.Args[1])
	case isConn(t.Op), t.Op == "+", t.Op == "-", t.Op == "*", strings.HasPrefix(t.Op, "sl-"):
	default:
		return false
	}
	for _, a := range t.Args {
		if !plainArith(a) {
			return false
		}
	}
	return true
}

// failing returns the indices of the terms that are not provable.
func (e *Engine) failing(st *State, ts []*Term, user func(int) bool) []int {
	var open []int
	var gs []*Term
	for i, t := range ts {
		if t == True {
			continue
		}
		open = append(open, i)
		gs = append(gs, t)
	}
	if len(open) == 0 {
		return nil
	}
	if e.holds(st, And(gs...), 1200) {
		return nil
	}
	var bad, hard []int
	var rec func(l []int)
	rec = func(l []int) {
		if len(l) == 0 {
			return
		}
		if len(l) == 1 {
			ms := 300
			if user(l[0]) {
				ms = 500
			}
			if !e.holds(st, ts[l[0]], ms) {
				if user(l[0]) && ts[l[0]] != False && !plainArith(ts[l[0]]) {
					hard = append(hard, l[0])
				} else {
					bad = append(bad, l[0])
				}
			}
			return
		}
		if len(l) <= 6 {
			for _, i := range l {
				rec([]int{i})
			}
			return
		}
		for _, h := range [][]int{l[:len(l)/2], l[len(l)/2:]} {
			var g []*Term
			for _, i := range h {
				g = append(g, ts[i])
			}
			if !e.holds(st, And(g...), 500) {
				rec(h)
			}
		}
	}
	rec(open)
	// what is left is tried again by new solvers, a few at a time
	if len(hard) > 0 {
		t0 := time.Now()
		ok := make([]bool, len(hard))
		// the first few get more time: on a busy machine a proof takes longer
		ms := 2500
		if e.hardLost < 6 {
			ms = 5000
		}
		ms *= slowly
		sem := make(chan struct{}, 3)
		var wg sync.WaitGroup
		for k, i := range hard {
			txt := script(e.mode, e.sol.axioms, st.pc, []*Term{Not(ts[i])}, false)
			k := k
			wg.Add(1)
			go func() {
				sem <- struct{}{}
				defer func() { <-sem; wg.Done() }()
				r, _ := race(fresh(ms), txt, 3*ms)
				ok[k] = r == Unsat
			}()
		}
		wg.Wait()
		e.sol.Time += time.Since(t0)
		for k, i := range hard {
			if ok[k] {
				continue
			}
			e.hardLost++
			if d := os.Getenv("GOVC_DUMP"); d != "" && e.debug {
				dumpN++
				os.WriteFile(fmt.Sprintf("%s/%d.smt2", d, dumpN), []byte(z3Opts(false)+script(e.mode, e.sol.axioms, st.pc, []*Term{Not(ts[i])}, false)), 0o644)
				fmt.Println("   dump", dumpN, i)
			}
			bad = append(bad, i)
		}
	}
	return bad
}

func (e *Engine) filter(st *State, cs []cand, ts []*Term) []cand {
	bad := map[int]bool{}
	for _, i := range e.failing(st, ts, func(i int) bool { return cs[i].user }) {
		bad[i] = true
		if e.debug && cs[i].user {
			fmt.Println("    dropped inv (entry):", cs[i].name)
		}
	}
	var out []cand
	for i, c := range cs {
		if !bad[i] {
			out = append(out, c)
		}
	}
	return out
}

func (e *Engine) unrollOf(fr *Frame, li *loopInfo) int {
	if c := e.specs.Contracts[funcKey(fr.fn)]; c != nil && c.Unroll > 0 {
		return c.Unroll
	}
	if e.con != nil && e.con.Unroll > 0 && fr.fn == e.root {
		return e.con.Unroll
	}
	return 0
}

func (e *Engine) unrollLoop(st *State, li *loopInfo, n int) {
	fr := st.top()
	cnt := 0
	lc := &loopCtx{header: li.header, body: li.body, unrolling: true}
	var again func(k int) func(*State, *ssa.BasicBlock)
	again = func(k int) func(*State, *ssa.BasicBlock) {
		return func(s *State, from *ssa.BasicBlock) {
			if k >= n {
				e.prove(s, False, fmt.Sprintf("loop of %s ends within %d rounds", funcKey(fr.fn), n), "unwinding")
				return
			}
			f := s.top()
			l2 := *f.loops[len(f.loops)-1]
			l2.onBack = again(k + 1)
			f.loops = append(f.loops[:len(f.loops)-1:len(f.loops)-1], &l2)
			e.run(s, li.header, len(li.phis))
		}
	}
	_ = cnt
	lc.onBack = again(1)
	fr.loops = append(fr.loops[:len(fr.loops):len(fr.loops)], lc)
	e.run(st, li.header, len(li.phis))
}

// ---- candidates

type ph struct { // something a placeholder can stand for
	name string
	typ  types.Type
	val  func(st *State, fr *Frame) Val
	cst  bool // does not change in the loop
	heap bool // in memory
	raw  bool // the hidden counter of a range loop (contracts mean the one after it)
}

func (e *Engine) placeholders(entry *State, li *loopInfo, ws *writeSet) []ph {
	var out []ph
	for _, p := range li.phis {
		p := p
		if sortOf(p.Type(), e.mode) == nil {
			continue
		}
		if p.Comment == "rangeindex" {
			out = append(out, ph{p.Comment + "+1", p.Type(), func(st *State, fr *Frame) Val {
				return tv(e.addIdx(fr.env[p].T, e.idx(1)))
			}, false, false, false})
			out = append(out, ph{p.Comment, p.Type(), func(st *State, fr *Frame) Val { return fr.env[p] }, false, false, true})
			continue
		}
		out = append(out, ph{p.Comment, p.Type(), func(st *State, fr *Frame) Val { return fr.env[p] }, false, false, false})
	}
	for _, h := range ws.heaps() {
		info := e.hinfo[h]
		if info == nil || info.typ == nil || info.elem {
			continue
		}
		if pk := entry.top().fn.Pkg; pk != nil && !strings.HasPrefix(h, "F."+pk.Pkg.Name()+".") && !strings.HasPrefix(h, "C.") {
			continue
		}
		for _, r := range ws.points[h] {
			h, r := h, r
			out = append(out, ph{h, info.typ, func(st *State, fr *Frame) Val { return tv(Select(e.H(st, h), r)) }, false, true, false})
		}
	}
	for id := range ws.iters {
		id := id
		out = append(out, ph{"pos", types.Typ[types.Int], func(st *State, fr *Frame) Val { return tv(st.iters[id]) }, false, false, false})
	}
	return out
}

// outer values used in the loop
func (e *Engine) outerVals(entry *State, li *loopInfo) []ph {
	fr := entry.top()
	seen := map[ssa.Value]bool{}
	var out []ph
	add := func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global, *ssa.FreeVar:
			return
		case ssa.Instruction:
			if v.Parent() != fr.fn || li.body[v.Block()] {
				return
			}
		}
		x, ok := fr.env[v]
		if !ok || x.T == nil || sortOf(v.Type(), e.mode) == nil {
			return
		}
		out = append(out, ph{v.Name(), v.Type(), func(st *State, fr *Frame) Val { return x }, true, false, false})
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); !ok && !li.body[b] {
				continue
			}
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil {
					add(*op)
				}
			}
		}
	}
	// phis of enclosing loops
	for _, lc := range fr.loops {
		for _, in := range lc.header.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				add(p)
				if x, ok2 := fr.env[p]; ok2 && p.Comment == "rangeindex" && x.T != nil {
					out = append(out, ph{p.Name() + "+1", p.Type(), func(st *State, fr *Frame) Val { return tv(e.addIdx(x.T, e.idx(1))) }, true, false, false})
				}
			}
		}
	}
	return out
}

func (e *Engine) phMatch(p ph, want string) bool {
	if p.raw {
		return false
	}
	if strings.HasPrefix(want, "!") {
		want = want[1:]
	}
	if want == "int" {
		if e.mode == ModeBV {
			return sortOf(p.typ, e.mode) == SBV(64)
		}
		if p.heap && !types.Identical(p.typ, types.Typ[types.Int]) {
			return false
		}
		return isIntT(p.typ)
	}
	if want == "bool" {
		return isBool(p.typ)
	}
	if t := P.lookupType(want); t != nil {
		return types.Identical(p.typ, t)
	}
	return false
}

func (e *Engine) candidates(entry *State, li *loopInfo, ws *writeSet) []cand {
	var out []cand
	phs := e.placeholders(entry, li, ws)
	outer := e.outerVals(entry, li)
	efr := entry.top()
	// user schemas
	type src struct {
		cls  []*Clause
		vars map[string]SVal
	}
	var srcs []src
	if e.con != nil {
		srcs = append(srcs, src{e.con.Invs, e.params})
	}
	if c := e.specs.Contracts[funcKey(efr.fn)]; c != nil && c != e.con {
		vs := map[string]SVal{}
		for i, p := range efr.fn.Params {
			if i < len(c.Params) {
				vs[c.Params[i]] = SVal{V: efr.env[p], T: p.Type()}
			}
		}
		srcs = append(srcs, src{c.Invs, vs})
	}
	for _, s := range srcs {
		for _, cl := range e.splitInvs(s.cls) {
			n := 0
			var rec func(k int, pick []ph)
			rec = func(k int, pick []ph) {
				if n > 1500 {
					return
				}
				if k == len(cl.Vars) {
					n++
					pk := append([]ph(nil), pick...)
					cl, vars := cl, s.vars
					var names []string
					for i, p := range pk {
						names = append(names, cl.Vars[i].Name+"="+p.name)
					}
					nm := cl.Label
					if nm == "" {
						nm = cl.Src
						if len(nm) > 50 {
							nm = nm[:50]
						}
					}
					out = append(out, cand{nm + "[" + strings.Join(names, ",") + "]", true, func(st *State, fr *Frame) (t *Term, ok bool) {
						env := &SEnv{e: e, st: st, old: e.old, pre: entry, vars: map[string]SVal{}, prev: map[string]SVal{}}
						for k, v := range vars {
							env.vars[k] = v
						}
						for i, p := range pk {
							env.vars[cl.Vars[i].Name] = SVal{V: p.val(st, fr), T: p.typ}
							env.prev[cl.Vars[i].Name] = SVal{V: p.val(entry, efr), T: p.typ}
						}
						return e.tryEval(env, cl.E)
					}})
					return
				}
				want := strings.ReplaceAll(cl.Vars[k].Type, " ", "")
				for _, p := range phs {
					if !e.phMatch(p, want) {
						continue
					}
					// two counters of a clause are two counters of the loop
					twice := false
					for i, q := range pick {
						twice = twice || want == "int" && cl.Vars[i].Type == "int" && q.name == p.name
					}
					if !twice {
						rec(k+1, append(pick, p))
					}
				}
				if strings.HasPrefix(want, "!") {
					for _, p := range outer {
						if e.phMatch(p, want) {
							rec(k+1, append(pick, p))
						}
					}
				}
			}
			rec(0, nil)
		}
	}
	auto := func(name string, f func(st *State, fr *Frame) *Term) {
		out = append(out, cand{name, false, func(st *State, fr *Frame) (*Term, bool) { return f(st, fr), true }})
	}
	m := e.mode
	// heap frames
	lim0 := e.lim(entry)
	for _, h := range ws.heaps() {
		if !ws.whole[h] {
			continue
		}
		h := h
		ents := e.H(entry, h)
		r := BoundVar("r", SRef)
		frame := func(name string, ex []*Term) {
			auto("frame "+h+name, func(st *State, fr *Frame) *Term {
				cur := e.H(st, h)
				conds := []*Term{mk("<", SBool, rootid(r), limTerm(lim0))}
				for _, x := range ex {
					conds = append(conds, Not(Eq(r, x)))
				}
				a := mk("select", cur.Sort.Elt, cur, r)
				return Forall([]*Term{r}, Imp(And(conds...), Eq(a, mk("select", cur.Sort.Elt, ents, r))), []*Term{a})
			})
		}
		frame("", nil)
		var ex []*Term
		for _, p := range phs {
			v := p.val(entry, efr)
			if v.T == nil {
				continue
			}
			switch v.T.Sort {
			case SSlice:
				ex = append(ex, slBase(v.T))
			case SRef:
				ex = append(ex, v.T)
			}
		}
		ex = append(ex, ws.points[h]...)
		if len(ex) > 0 {
			frame("-phis", ex)
		}
	}
	// bounds from comparisons in the loop
	type bnd struct{ p, q ph }
	for _, p := range phs {
		p := p
		so := sortOf(p.typ, m)
		p0 := p.val(entry, efr)
		if p0.T == nil {
			continue
		}
		auto(p.name+" unchanged", func(st *State, fr *Frame) *Term { return Eq(p.val(st, fr).T, p0.T) })
		switch {
		case isIntT(p.typ) && m == ModeInt:
			auto(p.name+">=pre", func(st *State, fr *Frame) *Term { return Le(p0.T, p.val(st, fr).T) })
			auto(p.name+"<=pre", func(st *State, fr *Frame) *Term { return Le(p.val(st, fr).T, p0.T) })
			auto(p.name+">=0", func(st *State, fr *Frame) *Term { return Le(I(0), p.val(st, fr).T) })
		case isIntT(p.typ):
			ii, _ := intOf(p.typ)
			if ii.signed {
				auto(p.name+">=pre", func(st *State, fr *Frame) *Term { return bvCmp("bvsle", p0.T, p.val(st, fr).T) })
				z := e.zero(p.typ)
				auto(p.name+">=0", func(st *State, fr *Frame) *Term { return bvCmp("bvsle", z, p.val(st, fr).T) })
			}
		case so == SSlice:
			auto(p.name+" base", func(st *State, fr *Frame) *Term { return Eq(slBase(p.val(st, fr).T), slBase(p0.T)) })
			auto(p.name+" base/fresh", func(st *State, fr *Frame) *Term {
				return Or(Eq(p.val(st, fr).T, p0.T), Eq(slBase(p.val(st, fr).T), slBase(p0.T)), mk("<=", SBool, limTerm(lim0), rootid(slBase(p.val(st, fr).T))))
			})
			auto(p.name+" off/fresh", func(st *State, fr *Frame) *Term {
				x := p.val(st, fr).T
				return Or(And(Eq(slBase(x), slBase(p0.T)), Eq(slOff(x, m), slOff(p0.T, m)), Eq(slCap(x, m), slCap(p0.T, m))), And(Eq(slOff(x, m), e.idx(0)), mk("<=", SBool, limTerm(lim0), rootid(slBase(x)))))
			})
			auto(p.name+" off", func(st *State, fr *Frame) *Term { return Eq(slOff(p.val(st, fr).T, m), slOff(p0.T, m)) })
			auto(p.name+" len", func(st *State, fr *Frame) *Term { return Eq(slLen(p.val(st, fr).T, m), slLen(p0.T, m)) })
			auto(p.name+" len>=", func(st *State, fr *Frame) *Term { return e.leIdx(slLen(p0.T, m), slLen(p.val(st, fr).T, m)) })
			auto(p.name+" end", func(st *State, fr *Frame) *Term {
				x := p.val(st, fr).T
				return Eq(e.addIdx(slOff(x, m), slLen(x, m)), e.addIdx(slOff(p0.T, m), slLen(p0.T, m)))
			})
			auto(p.name+" off>=", func(st *State, fr *Frame) *Term { return e.leIdx(slOff(p0.T, m), slOff(p.val(st, fr).T, m)) })
			auto(p.name+" cap end", func(st *State, fr *Frame) *Term {
				x := p.val(st, fr).T
				return Eq(e.addIdx(slOff(x, m), slCap(x, m)), e.addIdx(slOff(p0.T, m), slCap(p0.T, m)))
			})
		case so == SIface:
			auto(p.name+" nonnil", func(st *State, fr *Frame) *Term { return Not(Eq(ifTag(p.val(st, fr).T), I(0))) })
			auto(p.name+" nil", func(st *State, fr *Frame) *Term { return Eq(ifTag(p.val(st, fr).T), I(0)) })
		case so == SRef:
			auto(p.name+" nonnil", func(st *State, fr *Frame) *Term { return Not(Eq(p.val(st, fr).T, Null)) })
		}
	}
	// relations with values compared in the loop
	phOf := map[ssa.Value][]ph{}
	for _, p := range li.phis {
		for _, q := range phs {
			if q.name == p.Comment || q.name == p.Comment+"+1" {
				phOf[p] = append(phOf[p], q)
			}
		}
	}
	les := func(a, b ph, d int64) {
		auto(fmt.Sprintf("%s+%d<=%s", a.name, d, b.name), func(st *State, fr *Frame) *Term {
			return e.leIdx(e.addIdx(a.val(st, fr).T, e.idx(d)), b.val(st, fr).T)
		})
	}
	ints := func(l []ph) []ph {
		var o []ph
		for _, p := range l {
			if isIntT(p.typ) && (m == ModeInt || sortOf(p.typ, m) == SBV(64)) {
				o = append(o, p)
			}
		}
		return o
	}
	var lens []ph
	for _, p := range append(append([]ph(nil), phs...), outer...) {
		p := p
		switch u := p.typ.Underlying().(type) {
		case *types.Slice:
			lens = append(lens, ph{"len(" + p.name + ")", types.Typ[types.Int], func(st *State, fr *Frame) Val { return tv(slLen(p.val(st, fr).T, m)) }, p.cst, false, false})
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				lens = append(lens, ph{"len(" + p.name + ")", types.Typ[types.Int], func(st *State, fr *Frame) Val { return tv(e.strLen(p.val(st, fr).T)) }, p.cst, false, false})
			}
		}
	}
	ip := ints(phs)
	io := ints(outer)
	if len(ip)*(len(lens)+len(io)+len(ip)) < 150 {
		for _, a := range ip {
			for _, b := range lens {
				les(a, b, 0)
			}
			for _, b := range io {
				les(a, b, 0)
				les(b, a, 0)
			}
			for _, b := range ip {
				if a.name != b.name {
					les(a, b, 0)
				}
			}
		}
	}
	// literals the counters are compared with
	lits := map[int64]bool{}
	var litl []int64
	for b := range li.body {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, x := range []ssa.Value{bo.X, bo.Y} {
				if c, ok := x.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					if n, ok := constant.Int64Val(c.Value); ok && n != 0 && !lits[n] && len(litl) < 4 {
						lits[n] = true
						litl = append(litl, n)
					}
				}
			}
		}
	}
	sort.Slice(litl, func(i, j int) bool { return litl[i] < litl[j] })
	for _, a := range ip {
		for _, n := range litl {
			a, n := a, n
			auto(fmt.Sprintf("%s<=%d", a.name, n), func(st *State, fr *Frame) *Term { return e.leIdx(a.val(st, fr).T, e.idx(n)) })
		}
	}
	// linear relations between counters
	if m == ModeInt {
		all := append(append([]ph(nil), ip...), lens...)
		for i, a := range all {
			for _, b := range all[i+1:] {
				if a.cst && b.cst || a.cst || b.cst {
					continue
				}
				a, b := a, b
				a0, b0 := a.val(entry, efr).T, b.val(entry, efr).T
				auto(a.name+"-"+b.name+" const", func(st *State, fr *Frame) *Term {
					return Eq(Sub(a.val(st, fr).T, b.val(st, fr).T), Sub(a0, b0))
				})
				auto(a.name+"+"+b.name+" const", func(st *State, fr *Frame) *Term {
					return Eq(Add(a.val(st, fr).T, b.val(st, fr).T), Add(a0, b0))
				})
			}
		}
	}
	_ = phOf
	_ = token.ADD
	return out
}

func (e *Engine) tryEval(env *SEnv, x *Expr) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specErr:
				t, ok = nil, false
				e.lastSpecErr = r.(specErr).msg
				return
			case unsupported:
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return env.boolT(x), true
}

// splitInvs: a conjunction is as many separate candidates.
func (e *Engine) splitInvs(cls []*Clause) []*Clause {
	var out []*Clause
	for _, c := range cls {
		var rec func(x *Expr)
		rec = func(x *Expr) {
			if x.Op == "&&" {
				rec(x.Args[0])
				rec(x.Args[1])
				return
			}
			if x.Op == "call" {
				if d := e.specs.Defines[x.S]; d != nil && d.Body.Op == "&&" && len(d.Args) == len(x.Args) {
					k := 0
					var sub func(b *Expr)
					sub = func(b *Expr) {
						if b.Op == "&&" {
							sub(b.Args[0])
							sub(b.Args[1])
							return
						}
						k++
						nm := fmt.Sprintf("%s#%d", x.S, k)
						if e.specs.Defines[nm] == nil {
							nd := *d
							nd.Body = b
							e.specs.Defines[nm] = &nd
						}
						y := *x
						y.S = nm
						rec(&y)
					}
					sub(d.Body)
					return
				}
			}
			n := *c
			n.E = x
			n.Src = exprStr(x)
			// only the placeholders it uses
			n.Vars = nil
			used := map[string]bool{}
			var walk func(y *Expr)
			walk = func(y *Expr) {
				if y == nil {
					return
				}
				if y.Op == "ident" {
					used[y.S] = true
				}
				for _, a := range y.Args {
					walk(a)
				}
				for _, t := range y.Trigs {
					for _, a := range t {
						walk(a)
					}
				}
			}
			walk(x)
			for _, v := range c.Vars {
				if used[v.Name] {
					n.Vars = append(n.Vars, v)
				}
			}
			out = append(out, &n)
		}
		rec(c.E)
	}
	return out
}

var dumpN int
