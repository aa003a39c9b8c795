// Verification of one function against its contract.
package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func newEngine(sp *Specs, mode Mode, unit string) *Engine {
	e := &Engine{specs: sp, mode: mode, unit: unit,
		hinfo: map[string]*heapInfo{}, params: map[string]SVal{}, limOf: map[int]limit{}, alPar: map[int]limit{},
		tags: map[string]int{}, tagType: map[int]types.Type{}, rng: map[int][2]*big.Int{}, maxPath: 4000, start: time.Now(),
		budget: 480 * time.Second, used: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{},
		covers: map[string]bool{}, sem: make(chan struct{}, 2), frameOld: map[int]*Term{}, wrapMemo: map[wrapKey]bool{},
		axDone: map[int]bool{}, inlStd: map[string]bool{},
	}
	e.al0 = Sym("al@0", SInt)
	sepOracle = e.sep
	e.sol = newSolver(mode, nil)
	e.sol.axioms = append(e.sol.axioms, Le(I(1), e.al0))
	return e
}

func (e *Engine) initState() *State {
	return &State{heap: map[string]*Term{}, iters: map[int]*Term{}, ax: map[int]bool{}, alSym: e.al0}
}

func (e *Engine) guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				e.undecidedMsg(what + ": " + x.msg)
			case specErr:
				e.undecidedMsg(what + ": contract: " + x.msg)
			default:
				panic(r)
			}
		}
	}()
	f()
}

func (e *Engine) undecidedMsg(m string) {
	e.obls = append(e.obls, &Obligation{Unit: e.unit, Name: "undecided: " + m, Kind: "undecided", Detail: m})
}

func (e *Engine) verifyFunc(c *Contract, f *ssa.Function) {
	e.con, e.root = c, f
	if c.Timeout > 0 {
		e.budget = time.Duration(c.Timeout) * time.Second
	}
	e.loadAxioms(c.File, c.UsesLemma)
	st := e.initState()
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, visits: map[*ssa.BasicBlock]int{}}
	for _, fv := range f.FreeVars {
		// captured variables are cells
		v := e.havocVal(st, fv.Type(), Val{}, fv.Name())
		fr.free = append(fr.free, v)
		e.assume(st, Not(Eq(v.T, Null)))
		e.params[fv.Name()] = SVal{V: v, T: fv.Type()}
	}
	if len(c.Params) != len(f.Params) {
		unsup(fmt.Sprintf("contract of %s names %d parameters, the function has %d", c.Key, len(c.Params), len(f.Params)))
	}
	for i, p := range f.Params {
		v := e.havocVal(st, p.Type(), Val{}, "p."+c.Params[i])
		fr.env[p] = v
		e.params[c.Params[i]] = SVal{V: v, T: p.Type()}
	}
	env := &SEnv{e: e, st: st, old: st, vars: e.params}
	for _, r := range c.Requires {
		e.assume(st, e.mustEval(env, r.E, c.Key))
	}
	e.old = st.clone()
	env.old = e.old
	e.mods = e.evalMods(env, c)
	o := &Obligation{Unit: e.unit, Name: "preconditions can be met", Kind: "vacuity", OK: true, Backend: "z3-5.3.2 (incremental)"}
	e.obls = append(e.obls, o)
	if e.sol.Check(st.pc, nil, 2000) == Unsat {
		o.OK, o.Detail = false, "the precondition is contradictory"
		return
	}
	if len(c.GhostEntry) > 0 {
		st = st.clone()
		env := &SEnv{e: e, st: st, old: e.old, vars: e.params}
		for _, g := range c.GhostEntry {
			e.ghostSet(env, g)
		}
	}
	live := 0
	fr.ret = func(st *State, rs []Val) {
		e.returns++
		env := &SEnv{e: e, st: st, old: e.old, vars: map[string]SVal{}}
		for k, v := range e.params {
			env.vars[k] = v
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if i < len(c.Results) && c.Results[i] != "_" {
				env.vars[c.Results[i]] = e.specVal(st, rs[i], res.At(i).Type())
			}
		}
		for _, g := range c.GhostExit {
			e.ghostSet(env, g)
		}
		if e.sol.Check(st.pc, nil, 1000) != Unsat {
			live++
		} else {
			return
		}
		for i, a := range c.Asserts {
			if a.E.Op == "apply" {
				e.applyLemma(st, env, a.E, nil)
				continue
			}
			e.prove(st, e.mustEval(env, a.E, c.Key), fmt.Sprintf("assert %d %s (return %d)", i+1, a.Label, e.returns), "assert")
		}
		for i, q := range c.Ensures {
			lbl := q.Label
			if lbl == "" {
				lbl = fmt.Sprint(i + 1)
			}
			e.prove(st, e.mustEval(env, q.E, c.Key), fmt.Sprintf("ensures %s (return %d)", lbl, e.returns), "ensures")
		}
		for _, q := range c.Covers {
			k := q.Src
			if !e.covers[k] {
				if e.sol.Check(append(st.pc[:len(st.pc):len(st.pc)], e.mustEval(env, q.E, c.Key)), nil, 1500) != Unsat {
					e.covers[k] = true
				}
			}
		}
	}
	st.frames = []*Frame{fr}
	e.run(st, f.Blocks[0], 0)
	ok := &Obligation{Unit: e.unit, Name: "some path returns", Kind: "vacuity", OK: live > 0, Backend: "z3-5.3.2 (incremental)"}
	if live == 0 {
		ok.Detail = "no reachable return"
	}
	e.obls = append(e.obls, ok)
	for _, q := range c.Covers {
		e.obls = append(e.obls, &Obligation{Unit: e.unit, Name: "reachable: " + q.Src, Kind: "vacuity", OK: e.covers[q.Src], Backend: "z3-5.3.2 (incremental)"})
	}
}

// ghostSet assigns ghost state at exit.
func (e *Engine) ghostSet(env *SEnv, g GhostSet) {
	if g.LHS.Op == "ident" {
		for _, gf := range e.specs.Ghosts {
			if gf.Type == "global" && gf.Name == g.LHS.S {
				h := e.ghostHeap(gf)
				v := env.coerce(env.eval(g.RHS), e.hinfo[h].sort.Elt)
				env.st.heap[h] = Store(e.H(env.st, h), Null, v)
				return
			}
		}
		sfail("no ghost %s", g.LHS.S)
	}
	b := env.eval(g.LHS.Args[0])
	t := b.T
	if !b.Addr {
		t = deref(t)
	}
	for _, gf := range e.specs.Ghosts {
		if gf.Name == g.LHS.S && (gf.Type == typeStr(t) || gf.Type == "iface" && sortOf(t, e.mode) == SIface) {
			h := e.ghostHeap(gf)
			ref := b.V.T
			if ref.Sort == SIface {
				ref = ifRef(ref)
			}
			v := env.coerce(env.eval(g.RHS), e.hinfo[h].sort.Elt)
			env.st.heap[h] = Store(e.H(env.st, h), ref, v)
			return
		}
	}
	sfail("no ghost field %s", g.LHS.S)
}

// ---- axioms and lemmas

func (e *Engine) lemmaTerm(l *Lemma) *Term {
	st := e.initState()
	env := &SEnv{e: e, st: st, old: st, vars: map[string]SVal{}}
	if len(l.Vars) == 0 && len(l.Ens) == 1 && len(l.Req) == 0 {
		return env.boolT(l.Ens[0])
	}
	var bs, rng []*Term
	for _, v := range l.Vars {
		so, t := e.specSort(v.Type)
		b := BoundVar(v.Name, so)
		bs = append(bs, b)
		env.vars[v.Name] = SVal{V: tv(b), T: t}
		if l.Bridge && e.mode == ModeInt {
			w := map[string]int{"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}[v.Type]
			rng = append(rng, Le(I(0), b), Lt(b, IB(pow2(w))))
			env.vars[v.Name] = SVal{V: tv(b), T: map[int]types.Type{8: types.Typ[types.Uint8], 16: types.Typ[types.Uint16], 32: types.Typ[types.Uint32], 64: types.Typ[types.Uint64]}[w]}
		}
	}
	var hyp, con []*Term
	hyp = rng
	for _, h := range l.Req {
		hyp = append(hyp, env.boolT(h))
	}
	for _, c := range l.Ens {
		con = append(con, env.boolT(c))
	}
	var pats [][]*Term
	for _, tr := range l.Trigs {
		var p []*Term
		for _, y := range tr {
			p = append(p, env.eval(y).V.T)
		}
		pats = append(pats, p)
	}
	q := Forall(bs, Imp(And(hyp...), And(con...)), pats...)
	// a definition that unfolds into itself: few steps at a time
	body := And(con...)
	for _, p := range pats {
		if len(p) == 1 && q.Bound != nil && appears(body, p[0].Op, p[0]) {
			q.Weight = 20
		}
	}
	return q
}

// appears: is there another application of f in t?
func appears(t *Term, f string, but *Term) bool {
	if t.Op == f && t != but && strings.HasPrefix(f, "s.") {
		return true
	}
	for _, a := range t.Args {
		if appears(a, f, but) {
			return true
		}
	}
	return false
}

// hidden: a lemma over variables without trigger is only used where named.
func (l *Lemma) hidden() bool { return l.Hide || !l.Axiom && len(l.Vars) > 0 && len(l.Trigs) == 0 }

// checkBridge: what a bridge lemma says must mean the same over bit vectors and
// over integers in range: only bitwise operations and comparisons of unsigned
// variables and small constants.
func (l *Lemma) checkBridge() {
	for _, v := range l.Vars {
		switch v.Type {
		case "uint8", "uint16", "uint32", "uint64":
		default:
			unsup("bridge lemma over " + v.Type)
		}
	}
	var rec func(x *Expr)
	rec = func(x *Expr) {
		switch x.Op {
		case "ident", "lit", "int", "num", "&", "|", "^", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "not", "==>", "<==>":
		default:
			unsup("bridge lemma with " + x.Op + " in " + exprStr(x))
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	for _, x := range append(append([]*Expr{}, l.Req...), l.Ens...) {
		rec(x)
	}
	if l.Mode != ModeBV || l.Induct != "" || l.Axiom {
		unsup("bridge lemma not proved over bit vectors")
	}
}

func modeOK(l *Lemma, m Mode) bool {
	if l.Bridge {
		return true
	}
	if len(l.Modes) == 0 {
		return l.Mode == m
	}
	for _, x := range l.Modes {
		if x == m {
			return true
		}
	}
	return false
}

// loadAxioms: definitions, axioms and proved lemmas of the file and common.vc.
func (e *Engine) loadAxioms(file string, uses []string) {
	use := map[string]bool{}
	for _, u := range uses {
		use[u] = true
	}
	for _, l := range e.specs.Lemmas {
		if !modeOK(l, e.mode) {
			continue
		}
		if !use[l.Name] && (l.hidden() || l.File != file && l.File != "common.vc") {
			continue
		}
		e.sol.axioms = append(e.sol.axioms, e.lemmaTerm(l))
		if l.Axiom && l.Why != "definition" {
			e.trusted["axiom "+l.Name+": "+l.Why] = true
		}
		if !l.Axiom {
			e.used["lemma "+l.Name] = true
		}
	}
}

// applyLemma assumes one instance of a lemma (an earlier one, for lemma l).
func (e *Engine) applyLemma(st *State, env *SEnv, x *Expr, l *Lemma) {
	for _, k := range e.specs.Lemmas {
		if k == l && !(l != nil && l.Strong && x.S == l.Name) {
			break
		}
		if k.Name != x.S || !modeOK(k, e.mode) {
			continue
		}
		if len(k.Vars) != len(x.Args) {
			unsup("apply: " + k.Name + " has other arguments")
		}
		c := env.child()
		c.vars = map[string]SVal{}
		for i, v := range k.Vars {
			so, t := e.specSort(v.Type)
			a := env.eval(x.Args[i])
			c.vars[v.Name] = SVal{V: tv(env.coerce(a, so)), T: t}
		}
		var hyp, con []*Term
		for _, h := range k.Req {
			hyp = append(hyp, c.boolT(h))
		}
		for _, h := range k.Ens {
			con = append(con, c.boolT(h))
		}
		if k == l {
			// the induction hypothesis
			m, n := c.vars[l.Induct].V.T, env.vars[l.Induct].V.T
			base := I(0)
			if l.Base != "" {
				base = (&SEnv{e: e, st: st, old: st, vars: map[string]SVal{}}).eval(parseExpr(l.Base)).V.T
			}
			hyp = append(hyp, Le(base, m), Lt(m, n))
		}
		e.assume(st, Imp(And(hyp...), And(con...)))
		if k == l {
			return
		}
		if k.Axiom {
			if k.Why != "definition" {
				e.trusted["axiom "+k.Name+": "+k.Why] = true
			}
		} else {
			e.used["lemma "+k.Name] = true
		}
		return
	}
	unsup("apply: no earlier lemma " + x.S)
}

// verifyLemma proves a lemma, by induction if asked.
func (e *Engine) verifyLemma(l *Lemma) {
	if l.Bridge {
		l.checkBridge()
	}
	use := map[string]bool{}
	for _, u := range l.Uses {
		use[u] = true
	}
	for _, k := range e.specs.Lemmas {
		if k == l {
			break
		}
		if !modeOK(k, e.mode) || !use[k.Name] && (k.hidden() || k.File != l.File && k.File != "common.vc") {
			continue
		}
		e.sol.axioms = append(e.sol.axioms, e.lemmaTerm(k))
		if k.Axiom && k.Why != "definition" {
			e.trusted["axiom "+k.Name+": "+k.Why] = true
		}
	}
	st := e.initState()
	mkEnv := func(over map[string]*Term) (*SEnv, []*Term, []*Term) {
		env := &SEnv{e: e, st: st, old: st, vars: map[string]SVal{}}
		for _, v := range l.Vars {
			so, t := e.specSort(v.Type)
			x := over[v.Name]
			if x == nil {
				x = Sym("v."+v.Name, so)
			}
			env.vars[v.Name] = SVal{V: tv(x), T: t}
		}
		var hyp, con []*Term
		for _, h := range l.Req {
			hyp = append(hyp, env.boolT(h))
		}
		for _, c := range l.Ens {
			con = append(con, env.boolT(c))
		}
		return env, hyp, con
	}
	prove := func(s *State, con []*Term, what string) {
		for i, c := range con {
			e.prove(s, c, fmt.Sprintf("lemma %s: %s %d", l.Name, what, i+1), "lemma")
		}
	}
	if l.Induct == "" {
		env, hyp, con := mkEnv(nil)
		for _, h := range hyp {
			e.assume(st, h)
		}
		for _, h := range l.Hints {
			if h.Op == "apply" {
				e.applyLemma(st, env, h, l)
				continue
			}
			v := env.eval(h)
			if v.V.T.Sort == SBool {
				e.prove(st, v.V.T, "lemma "+l.Name+": hint "+exprStr(h), "lemma")
			}
		}
		if e.sol.Check(st.pc, nil, 1000) == Unsat {
			e.obls = append(e.obls, &Obligation{Unit: e.unit, Name: "lemma " + l.Name + " hypotheses can be met", Kind: "vacuity"})
		}
		prove(st, con, "conclusion")
		return
	}
	base := I(0)
	if l.Base != "" {
		env := &SEnv{e: e, st: st, old: st, vars: map[string]SVal{}}
		base = env.eval(parseExpr(l.Base)).V.T
	}
	n := Sym("v."+l.Induct, SInt)
	// step: for all other variables, if it holds for smaller values then for n
	s := st.clone()
	var others []*Term
	over := map[string]*Term{}
	k := BoundVar("k", SInt)
	over[l.Induct] = k
	for _, v := range l.Vars {
		if v.Name == l.Induct {
			continue
		}
		if l.Fix {
			continue
		}
		so, _ := e.specSort(v.Type)
		b := BoundVar(v.Name, so)
		over[v.Name] = b
		others = append(others, b)
	}
	envI, ih, ic := mkEnv(over)
	var pats [][]*Term
	for _, tr := range l.Trigs {
		var p []*Term
		for _, y := range tr {
			p = append(p, envI.eval(y).V.T)
		}
		pats = append(pats, p)
	}
	var kk *Term
	if l.Strong {
		kk = And(Le(base, k), Lt(k, n))
		e.assume(s, Forall(append([]*Term{k}, others...), Imp(And(append([]*Term{kk}, ih...)...), And(ic...)), pats...))
	} else {
		body := Imp(And(ih...), And(ic...))
		body = Subst(body, map[*Term]*Term{k: Sub(n, I(1))})
		var np [][]*Term
		for _, p := range pats {
			var q []*Term
			for _, t := range p {
				q = append(q, Subst(t, map[*Term]*Term{k: Sub(n, I(1))}))
			}
			if okPat(q, others) {
				np = append(np, q)
			}
		}
		if len(others) > 0 {
			body = Forall(others, body, np...)
		}
		e.assume(s, Imp(Lt(base, n), body))
	}
	env, hyp, con := mkEnv(nil)
	e.assume(s, Le(base, n))
	for _, h := range hyp {
		e.assume(s, h)
	}
	for _, h := range l.Hints {
		if h.Op == "apply" {
			e.applyLemma(s, env, h, l)
			continue
		}
		v := env.eval(h)
		if v.V.T.Sort == SBool {
			e.prove(s, v.V.T, "lemma "+l.Name+": hint "+exprStr(h), "lemma")
		}
	}
	b := s.clone()
	e.assume(b, Eq(n, base))
	prove(b, con, "base")
	if e.assume(s, Lt(base, n)) {
		prove(s, con, "step")
	}
}
