// Evaluation of contract expressions to terms.
package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// SVal is a value in a contract expression.
type SVal struct {
	V    Val
	T    types.Type // Go type, if it has one
	Addr bool       // V.T is the address of a struct or array of type T
	Lit  *big.Int   // untyped literal
	Nil  bool
}

type SEnv struct {
	e    *Engine
	st   *State
	old  *State
	pre  *State
	vars map[string]SVal
	prev map[string]SVal // values of phis on loop entry, for pre()
	up   *SEnv
}

func (s *SEnv) child() *SEnv {
	n := *s
	n.vars = map[string]SVal{}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	return &n
}

type specErr struct{ msg string }

func sfail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

// specSort: sort named in a contract.
func (e *Engine) specSort(s string) (*Sort, types.Type) {
	s = strings.ReplaceAll(s, " ", "")
	switch s {
	case "int":
		if e.mode == ModeBV {
			return SBV(64), types.Typ[types.Int]
		}
		return SInt, nil
	case "Int":
		return SInt, nil
	case "bool":
		return SBool, nil
	case "real":
		return SReal, nil
	case "ref":
		return SRef, nil
	case "str", "string":
		return SStr, types.Typ[types.String]
	case "iface":
		return SIface, types.NewInterfaceType(nil, nil)
	}
	if strings.HasPrefix(s, "bv") {
		var w int
		if _, err := fmt.Sscanf(s, "bv%d", &w); err == nil {
			return SBV(w), nil
		}
	}
	if strings.HasPrefix(s, "[") && !strings.HasPrefix(s, "[]") {
		d := 0
		for i := 0; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					in := s[1:i]
					if in != "" && (in[0] < '0' || in[0] > '9') {
						a, _ := e.specSort(in)
						b, _ := e.specSort(s[i+1:])
						return SArr(a, b), nil
					}
					break
				}
			}
		}
	}
	t := P.lookupType(s)
	if t == nil {
		sfail("unknown type %q in contract", s)
	}
	so := sortOf(t, e.mode)
	if so == nil {
		sfail("type %q has no sort", s)
	}
	return so, t
}

func (s *SEnv) eval(x *Expr) SVal {
	e := s.e
	switch x.Op {
	case "int":
		n := new(big.Int)
		if _, ok := n.SetString(x.S, 0); !ok {
			sfail("bad number %s", x.S)
		}
		return SVal{Lit: n, V: tv(IB(n))}
	case "str":
		return SVal{V: tv(e.strLit(x.S)), T: types.Typ[types.String]}
	case "ident":
		return s.ident(x.S)
	case "let":
		v := s.eval(x.Args[0])
		c := s.child()
		c.vars[x.S] = v
		return c.eval(x.Args[1])
	case "not":
		return SVal{V: tv(Not(s.boolT(x.Args[0])))}
	case "neg":
		v := s.eval(x.Args[0])
		if v.Lit != nil {
			n := new(big.Int).Neg(v.Lit)
			return SVal{Lit: n, V: tv(IB(n))}
		}
		if v.V.T.Sort.BV > 0 {
			return SVal{V: tv(mk("bvneg", v.V.T.Sort, v.V.T)), T: v.T}
		}
		if v.V.T.Sort == SReal {
			return SVal{V: tv(mk("-", SReal, v.V.T))}
		}
		return SVal{V: tv(Sub(I(0), v.V.T))}
	case "compl":
		v := s.eval(x.Args[0])
		return SVal{V: tv(mk("bvnot", v.V.T.Sort, v.V.T)), T: v.T}
	case "&&":
		a := s.boolT(x.Args[0])
		if a == False {
			return SVal{V: tv(False)}
		}
		return SVal{V: tv(And(a, s.boolT(x.Args[1])))}
	case "||":
		a := s.boolT(x.Args[0])
		if a == True {
			return SVal{V: tv(True)}
		}
		return SVal{V: tv(Or(a, s.boolT(x.Args[1])))}
	case "==>":
		a := s.boolT(x.Args[0])
		if a == False {
			return SVal{V: tv(True)}
		}
		return SVal{V: tv(Imp(a, s.boolT(x.Args[1])))}
	case "<==>":
		return SVal{V: tv(Eq(s.boolT(x.Args[0]), s.boolT(x.Args[1])))}
	case "ite":
		c := s.boolT(x.Args[0])
		a, b := s.unify(s.eval(x.Args[1]), s.eval(x.Args[2]))
		return SVal{V: tv(Ite(c, a.V.T, b.V.T)), T: a.T}
	case "==", "!=":
		a, b := s.eval(x.Args[0]), s.eval(x.Args[1])
		r := s.equal(a, b)
		if x.Op == "!=" {
			r = Not(r)
		}
		return SVal{V: tv(r)}
	case "<", "<=", ">", ">=":
		a, b := s.unify(s.eval(x.Args[0]), s.eval(x.Args[1]))
		op := x.Op
		if op == ">" || op == ">=" {
			a, b = b, a
			op = map[string]string{">": "<", ">=": "<="}[op]
		}
		if a.V.T.Sort.BV > 0 {
			sg := isSigned(a) || isSigned(b)
			o := map[string]string{"<": "bvult", "<=": "bvule"}[op]
			if sg {
				o = map[string]string{"<": "bvslt", "<=": "bvsle"}[op]
			}
			return SVal{V: tv(bvCmp(o, a.V.T, b.V.T))}
		}
		if a.V.T.Sort == SReal {
			return SVal{V: tv(mk(op, SBool, a.V.T, b.V.T))}
		}
		if op == "<" {
			return SVal{V: tv(Lt(a.V.T, b.V.T))}
		}
		return SVal{V: tv(Le(a.V.T, b.V.T))}
	case "+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^":
		a, b := s.unify(s.eval(x.Args[0]), s.eval(x.Args[1]))
		if x.Op == "+" && a.V.T.Sort == SStr && b.V.T.Sort == SStr {
			declFun("str.concat", SStr, SStr, SStr)
			return SVal{V: tv(mk("str.concat", SStr, a.V.T, b.V.T)), T: types.Typ[types.String]}
		}
		if (x.Op == "&" || x.Op == "|" || x.Op == "^") && a.V.T.Sort == SInt {
			t := s.bitType(x)
			if t == nil {
				sfail("%s of integers of unknown type in %s", x.Op, exprStr(x))
			}
			ii, _ := intOf(t)
			return SVal{V: tv(e.bitT(x.Op, a.V.T, b.V.T, ii)), T: t}
		}
		return SVal{V: tv(e.specArith(x.Op, a, b)), T: mathT(a, b), Lit: nil}
	case "field":
		if x.Args[0].Op == "ident" {
			if _, ok := s.lookup(x.Args[0].S); !ok {
				// package constant or global
				if v, ok := s.global(x.Args[0].S, x.S); ok {
					return v
				}
			}
		}
		return s.field(s.eval(x.Args[0]), x.S)
	case "index":
		return s.index(s.eval(x.Args[0]), s.eval(x.Args[1]))
	case "upd":
		a := s.eval(x.Args[0])
		i := s.coerce(s.eval(x.Args[1]), a.V.T.Sort.Idx)
		v := s.coerce(s.eval(x.Args[2]), a.V.T.Sort.Elt)
		return SVal{V: tv(Store(a.V.T, i, v))}
	case "slice":
		a := s.eval(x.Args[0])
		lo := s.coerce(s.eval(x.Args[1]), idxSort(e.mode))
		hi := s.coerce(s.eval(x.Args[2]), idxSort(e.mode))
		m := e.mode
		return SVal{V: tv(mkSlice(slBase(a.V.T), e.addIdx(slOff(a.V.T, m), lo), e.subIdx(hi, lo), e.subIdx(slCap(a.V.T, m), lo))), T: a.T}
	case "forall", "exists":
		c := s.child()
		var bs []*Term
		for _, v := range x.Vars {
			so, t := e.specSort(v.Type)
			b := BoundVar(v.Name, so)
			bs = append(bs, b)
			c.vars[v.Name] = SVal{V: tv(b), T: t}
		}
		body := c.boolT(x.Args[0])
		var pats [][]*Term
		for _, tr := range x.Trigs {
			var p []*Term
			for _, y := range tr {
				p = append(p, c.eval(y).V.T)
			}
			if okPat(p, bs) {
				pats = append(pats, p)
			}
		}
		if x.Op == "forall" {
			return SVal{V: tv(normForall(bs, body, pats))}
		}
		return SVal{V: tv(Exists(bs, body, pats...))}
	case "call":
		return s.call(x)
	}
	sfail("cannot evaluate %s", x.Op)
	return SVal{}
}

// normForall: one quantifier per way of normalising the patterns' indices.
func normForall(bs []*Term, body *Term, pats [][]*Term) *Term {
	if len(pats) == 0 {
		return Forall(bs, body)
	}
	type q struct {
		body *Term
		pats [][]*Term
	}
	var qs []q
next:
	for _, p := range pats {
		b, np := normQuant(bs, body, p)
		for i := range qs {
			if qs[i].body == b {
				qs[i].pats = append(qs[i].pats, np)
				continue next
			}
		}
		qs = append(qs, q{b, [][]*Term{np}})
	}
	var cs []*Term
	for _, x := range qs {
		cs = append(cs, Forall(bs, x.body, x.pats...))
	}
	return And(cs...)
}

// okPat: a pattern must mention each bound variable and have no interpreted head.
func okPat(p []*Term, bs []*Term) bool {
	m := map[int]bool{}
	for _, t := range p {
		if len(t.Args) == 0 {
			return false
		}
		switch t.Op {
		case "+", "-", "*", "ite", "=", "and", "or", "not", "<", "<=", "div", "mod":
			return false
		}
		for k := range freeVars(t) {
			m[k] = true
		}
	}
	for _, b := range bs {
		if !m[b.ID] {
			return false
		}
	}
	return true
}

// bitType: the Go type of a bitwise expression over mathematical integers.
func (s *SEnv) bitType(x *Expr) types.Type {
	switch {
	case x.Op == "call":
		t, ok := map[string]types.Type{"u8": types.Typ[types.Uint8], "u16": types.Typ[types.Uint16], "u32": types.Typ[types.Uint32], "u64": types.Typ[types.Uint64]}[x.S]
		if ok {
			return t
		}
	case x.Op == "&" || x.Op == "|" || x.Op == "^":
		for _, a := range x.Args {
			if t := s.bitType(a); t != nil {
				return t
			}
		}
		return nil
	}
	if t := s.eval(x).T; t != nil {
		if ii, ok := intOf(t); ok && !ii.signed {
			return t
		}
	}
	return nil
}

func isSigned(v SVal) bool {
	if v.T == nil {
		return false
	}
	ii, ok := intOf(v.T)
	return ok && ii.signed
}

func mathT(a, b SVal) types.Type {
	if a.V.T.Sort.BV > 0 {
		if a.T != nil {
			return a.T
		}
		return b.T
	}
	return nil
}

func (e *Engine) specArith(op string, a, b SVal) *Term {
	x, y := a.V.T, b.V.T
	if x.Sort.BV > 0 {
		sg := isSigned(a) || isSigned(b)
		o := map[string]string{"+": "bvadd", "-": "bvsub", "*": "bvmul", "/": "bvudiv", "%": "bvurem", "<<": "bvshl", ">>": "bvlshr", "&": "bvand", "|": "bvor", "^": "bvxor"}[op]
		if sg {
			switch op {
			case "/":
				o = "bvsdiv"
			case "%":
				o = "bvsrem"
			case ">>":
				o = "bvashr"
			}
		}
		return bvBin(o, x, y)
	}
	if x.Sort == SReal {
		return realArith(op, x, y)
	}
	switch op {
	case "+":
		return Add(x, y)
	case "-":
		return Sub(x, y)
	case "*":
		return Mul(x, y)
	case "/":
		return Div(x, y)
	case "%":
		return Mod(x, y)
	case "<<":
		if y.IVal != nil && y.IVal.IsInt64() && y.IVal.Int64() < 300 {
			return Mul(x, IB(pow2(int(y.IVal.Int64()))))
		}
	case ">>":
		if y.IVal != nil && y.IVal.IsInt64() && y.IVal.Int64() < 300 {
			return Div(x, IB(pow2(int(y.IVal.Int64()))))
		}
	}
	sfail("operator %s on integers", op)
	return nil
}

func realArith(op string, x, y *Term) *Term {
	switch op {
	case "+", "-", "*", "/":
		return mk(op, SReal, x, y)
	}
	sfail("operator %s on reals", op)
	return nil
}

func (s *SEnv) boolT(x *Expr) *Term {
	v := s.eval(x)
	if v.V.T == nil || v.V.T.Sort != SBool {
		sfail("not a truth value: %s", exprStr(x))
	}
	return v.V.T
}

func exprStr(x *Expr) string {
	if x == nil {
		return ""
	}
	switch x.Op {
	case "ident", "int":
		return x.S
	case "field":
		return exprStr(x.Args[0]) + "." + x.S
	case "call":
		var as []string
		for _, a := range x.Args {
			as = append(as, exprStr(a))
		}
		return x.S + "(" + strings.Join(as, ", ") + ")"
	case "index":
		return exprStr(x.Args[0]) + "[" + exprStr(x.Args[1]) + "]"
	}
	var as []string
	for _, a := range x.Args {
		as = append(as, exprStr(a))
	}
	return "(" + strings.Join(as, " "+x.Op+" ") + ")"
}

func (s *SEnv) coerce(v SVal, so *Sort) *Term {
	if v.Nil {
		switch so {
		case SRef:
			return Null
		case SIface:
			return NilIface
		case SSlice:
			return mkSlice(Null, s.e.idx(0), s.e.idx(0), s.e.idx(0))
		case SFn:
			return NilFunc
		}
	}
	if v.Lit != nil {
		if so.BV > 0 {
			return BVL(v.Lit, so.BV)
		}
		if so == SReal {
			return realLit(v.Lit)
		}
		return IB(v.Lit)
	}
	if v.V.T == nil {
		sfail("composite value used as %s", so)
	}
	if v.V.T.Sort != so {
		if v.V.T.Sort == SInt && so == SReal {
			return mk("to_real", SReal, v.V.T)
		}
		sfail("sort %s where %s is needed: %s", v.V.T.Sort, so, v.V.T.Str())
	}
	return v.V.T
}

func realLit(n *big.Int) *Term {
	if n.Sign() < 0 {
		return mk("(- "+new(big.Int).Neg(n).String()+".0)", SReal)
	}
	return mk(n.String()+".0", SReal)
}

func (s *SEnv) unify(a, b SVal) (SVal, SVal) {
	if a.Lit != nil && b.Lit != nil {
		return a, b
	}
	if a.Lit != nil || a.Nil {
		a.V = tv(s.coerce(a, b.V.T.Sort))
		a.T = b.T
		return a, b
	}
	if b.Lit != nil || b.Nil {
		b.V = tv(s.coerce(b, a.V.T.Sort))
		return a, b
	}
	if a.V.T == nil || b.V.T == nil {
		sfail("composite operand")
	}
	if a.V.T.Sort != b.V.T.Sort {
		if a.V.T.Sort == SReal {
			b.V = tv(s.coerce(b, SReal))
		} else if b.V.T.Sort == SReal {
			a.V = tv(s.coerce(a, SReal))
		} else {
			sfail("operands of sorts %s and %s: %s / %s", a.V.T.Sort, b.V.T.Sort, a.V.T.Str(), b.V.T.Str())
		}
	}
	return a, b
}

func (s *SEnv) equal(a, b SVal) *Term {
	// nil slices and interfaces are compared by base and tag
	if b.Nil && !a.Nil {
		switch a.V.T.Sort {
		case SSlice:
			return Eq(slBase(a.V.T), Null)
		case SIface:
			return Eq(ifTag(a.V.T), I(0))
		}
	}
	if a.Nil && !b.Nil {
		return s.equal(b, a)
	}
	if a.V.Fs != nil || b.V.Fs != nil {
		if len(a.V.Fs) != len(b.V.Fs) {
			sfail("comparison of different composites")
		}
		var cs []*Term
		for i := range a.V.Fs {
			cs = append(cs, s.equal(SVal{V: a.V.Fs[i]}, SVal{V: b.V.Fs[i]}))
		}
		return And(cs...)
	}
	a, b = s.unify(a, b)
	return Eq(a.V.T, b.V.T)
}

func (s *SEnv) lookup(n string) (SVal, bool) {
	v, ok := s.vars[n]
	return v, ok
}

func (s *SEnv) ident(n string) SVal {
	if v, ok := s.lookup(n); ok {
		return v
	}
	switch n {
	case "true":
		return SVal{V: tv(True)}
	case "false":
		return SVal{V: tv(False)}
	case "nil":
		return SVal{Nil: true}
	}
	for _, g := range s.e.specs.Ghosts {
		if g.Type == "global" && g.Name == n {
			h := s.e.ghostHeap(g)
			return SVal{V: tv(Select(s.e.Hs(s, h), Null)), T: s.e.ghostGoType(g)}
		}
	}
	if f := s.e.specs.SFuncs[n]; f != nil && len(f.Args) == 0 {
		return s.e.applySFunc(s, f, nil)
	}
	if d := s.e.specs.Defines[n]; d != nil && len(d.Args) == 0 {
		return s.eval(d.Body)
	}
	sfail("unknown name %s in contract", n)
	return SVal{}
}

// Hs: current heap in a spec environment.
func (e *Engine) Hs(s *SEnv, name string) *Term {
	return e.H(s.st, name)
}

func (e *Engine) ghostGoType(g *GhostField) types.Type {
	_, t := e.specSort(g.Sort)
	return t
}

func (e *Engine) ghostHeap(g *GhostField) string {
	name := "G." + g.Type + "." + g.Name
	if e.hinfo[name] == nil {
		so, t := e.specSort(g.Sort)
		if so == SInt || so == SBool || so.Idx != nil {
			t = nil
		}
		e.hinfo[name] = &heapInfo{typ: t, sort: SArr(SRef, so), m: e.mode}
	}
	return name
}

// global resolves pkg.Name
func (s *SEnv) global(pkg, name string) (SVal, bool) {
	for _, p := range P.byName[strings.TrimPrefix(pkg, "cmd")] {
		o := p.Scope().Lookup(name)
		switch o := o.(type) {
		case *types.Const:
			return s.e.constSVal(o)
		case *types.Var:
			if isErrorType(o.Type()) {
				return SVal{V: tv(s.e.errConst(p, name)), T: o.Type()}, true
			}
			l, ok := s.e.globalLoc(p, name, o.Type())
			if !ok {
				return SVal{}, false
			}
			if l.Heap == "" {
				return SVal{V: tv(l.Ref), T: o.Type(), Addr: true}, true
			}
			return SVal{V: tv(s.e.load(s.st, l)), T: o.Type()}, true
		}
	}
	return SVal{}, false
}

func (s *SEnv) field(b SVal, f string) SVal {
	e := s.e
	if b.V.Fs != nil {
		// struct value
		st := structOf(b.T)
		if st == nil {
			sfail("field %s of a tuple", f)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				return SVal{V: b.V.Fs[i], T: st.Field(i).Type()}
			}
		}
		sfail("no field %s in %s", f, typeStr(b.T))
	}
	if b.T == nil {
		sfail("field %s of an untyped value %s", f, b.V.T.Str())
	}
	t := b.T
	ref := b.V.T
	if !b.Addr {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		} else if _, ok := t.Underlying().(*types.Interface); ok {
			// ghost field of an interface value: keyed by its reference
			for _, g := range e.specs.Ghosts {
				if g.Name == f && (g.Type == "iface" || g.Type == typeStr(t)) {
					h := e.ghostHeap(g)
					return SVal{V: tv(Select(e.Hs(s, h), ifRef(ref))), T: e.ghostGoType(g)}
				}
			}
			sfail("no ghost field %s on interface", f)
		} else if sortOf(t, e.mode) == SRef {
			// map or channel: ghost fields only
		} else if sortOf(t, e.mode) == SSlice {
			ref = slBase(ref)
		} else if sortOf(t, e.mode) == SFn {
			declFun("fnref", SRef, SFn)
			ref = mk("fnref", SRef, ref)
		} else {
			sfail("field %s of %s", f, typeStr(t))
		}
	}
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			if fd.Name() != f {
				continue
			}
			if isScalar(fd.Type(), e.mode) {
				l := Loc{fieldHeap(t, f), ref, nil, fd.Type()}
				return SVal{V: tv(e.load(s.st, l)), T: fd.Type()}
			}
			if a, ok := fd.Type().Underlying().(*types.Array); ok && isScalar(a.Elem(), e.mode) {
				h := elemHeap(a.Elem())
				e.heapOf(h, a.Elem(), true)
				return SVal{V: tv(Select(e.Hs(s, h), Fld(ref, int64(i)))), T: fd.Type()}
			}
			return SVal{V: tv(Fld(ref, int64(i))), T: fd.Type(), Addr: true}
		}
	}
	ts := typeStr(t)
	for _, g := range e.specs.Ghosts {
		if g.Name == f && g.Type == ts {
			h := e.ghostHeap(g)
			return SVal{V: tv(Select(e.Hs(s, h), ref)), T: e.ghostGoType(g)}
		}
	}
	sfail("no field %s in %s", f, ts)
	return SVal{}
}

func (s *SEnv) index(b, i SVal) SVal {
	e := s.e
	if b.V.T == nil {
		sfail("index of composite")
	}
	if b.Addr {
		a := b.T.Underlying().(*types.Array)
		ix := s.coerce(i, idxSort(e.mode))
		if isScalar(a.Elem(), e.mode) {
			h := elemHeap(a.Elem())
			e.heapOf(h, a.Elem(), true)
			return SVal{V: tv(Select(Select(e.Hs(s, h), b.V.T), ix)), T: a.Elem()}
		}
		return SVal{V: tv(Elm(b.V.T, ix)), T: a.Elem(), Addr: true}
	}
	if b.V.T.Sort.Idx != nil {
		var et types.Type
		if b.T != nil {
			if a, ok := b.T.Underlying().(*types.Array); ok {
				et = a.Elem()
			}
		}
		return SVal{V: tv(Select(b.V.T, s.coerce(i, b.V.T.Sort.Idx))), T: et}
	}
	if b.T == nil {
		sfail("index of %s", b.V.T.Sort)
	}
	switch u := b.T.Underlying().(type) {
	case *types.Slice:
		ix := e.addIdx(slOff(b.V.T, e.mode), s.coerce(i, idxSort(e.mode)))
		if isScalar(u.Elem(), e.mode) {
			h := elemHeap(u.Elem())
			e.heapOf(h, u.Elem(), true)
			return SVal{V: tv(Select(Select(e.Hs(s, h), slBase(b.V.T)), ix)), T: u.Elem()}
		}
		return SVal{V: tv(Elm(slBase(b.V.T), ix)), T: u.Elem(), Addr: true}
	case *types.Map:
		h := mapVal(u)
		e.mapHeaps(u)
		return SVal{V: tv(Select(Select(e.Hs(s, h), b.V.T), s.coerce(i, sortOf(u.Key(), e.mode)))), T: u.Elem()}
	case *types.Basic:
		return SVal{V: tv(e.strAt(b.V.T, s.coerce(i, idxSort(e.mode)))), T: types.Typ[types.Uint8]}
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Array); ok {
			return s.index(SVal{V: b.V, T: u.Elem(), Addr: true}, i)
		}
	}
	sfail("index of %s", typeStr(b.T))
	return SVal{}
}

func (e *Engine) mapHeaps(u *types.Map) (has, val string) {
	has, val = mapHas(u), mapVal(u)
	if e.hinfo[has] == nil {
		k := sortOf(u.Key(), e.mode)
		v := sortOf(u.Elem(), e.mode)
		if k == nil || v == nil {
			unsup("map " + typeStr(u))
		}
		e.hinfo[has] = &heapInfo{sort: SArr(SRef, SArr(k, SBool)), m: e.mode}
		e.hinfo[val] = &heapInfo{sort: SArr(SRef, SArr(k, v)), m: e.mode}
	}
	return
}

func (e *Engine) applySFunc(s *SEnv, f *SFunc, args []SVal) SVal {
	var sorts []*Sort
	var ts []*Term
	for i, a := range f.Args {
		so, _ := e.specSort(a.Type)
		sorts = append(sorts, so)
		ts = append(ts, s.coerce(args[i], so))
	}
	rs, rt := e.specSort(f.Res)
	name := "s." + f.Name
	declFun(name, rs, sorts...)
	return SVal{V: tv(mk(name, rs, ts...)), T: rt}
}

func (s *SEnv) call(x *Expr) SVal {
	e := s.e
	m := e.mode
	switch x.S {
	case "old":
		c := s.child()
		c.st = s.old
		if s.st != s.old && s.old != nil {
			defer func() { e.syncAx(s.st, s.old) }()
		}
		return c.eval(x.Args[0])
	case "pre":
		if s.pre == nil {
			sfail("pre() outside a loop invariant")
		}
		c := s.child()
		for k, v := range s.prev {
			c.vars[k] = v
		}
		c.st = s.pre
		defer func() { e.syncAx(s.st, s.pre) }()
		return c.eval(x.Args[0])
	case "len", "cap":
		v := s.eval(x.Args[0])
		if v.T != nil {
			if a, ok := v.T.Underlying().(*types.Array); ok {
				return SVal{V: tv(e.idx(a.Len())), T: types.Typ[types.Int]}
			}
			if isString(v.T) {
				return SVal{V: tv(e.strLen(v.V.T)), T: types.Typ[types.Int]}
			}
		}
		if v.V.T.Sort == SStr {
			return SVal{V: tv(e.strLen(v.V.T)), T: types.Typ[types.Int]}
		}
		if v.V.T.Sort != SSlice {
			sfail("len of %s", v.V.T.Sort)
		}
		if x.S == "len" {
			return SVal{V: tv(slLen(v.V.T, m)), T: types.Typ[types.Int]}
		}
		return SVal{V: tv(slCap(v.V.T, m)), T: types.Typ[types.Int]}
	case "base":
		v := s.eval(x.Args[0])
		if v.Addr {
			return SVal{V: tv(v.V.T)}
		}
		return SVal{V: tv(slBase(v.V.T))}
	case "off":
		return SVal{V: tv(slOff(s.eval(x.Args[0]).V.T, m))}
	case "eidx": // index of an element address
		return SVal{V: tv(mk("eidx", idxSort(m), s.eval(x.Args[0]).V.T)), T: types.Typ[types.Int]}
	case "addr": // address of element i of a slice
		v := s.eval(x.Args[0])
		u, ok := v.T.Underlying().(*types.Slice)
		if !ok {
			sfail("addr of %s", typeStr(v.T))
		}
		i := s.coerce(s.eval(x.Args[1]), idxSort(m))
		return SVal{V: tv(Elm(slBase(v.V.T), e.addIdx(slOff(v.V.T, m), i))), T: types.NewPointer(u.Elem())}
	case "root":
		v := s.eval(x.Args[0])
		switch v.V.T.Sort {
		case SSlice:
			return SVal{V: tv(rootid(slBase(v.V.T)))}
		case SIface:
			return SVal{V: tv(rootid(ifRef(v.V.T)))}
		}
		return SVal{V: tv(rootid(v.V.T))}
	case "fresh": // allocated by this call
		v := s.eval(x.Args[0])
		r := v.V.T
		if r.Sort == SSlice {
			r = slBase(r)
		} else if r.Sort == SIface {
			r = ifRef(r)
		}
		return SVal{V: tv(mk("<=", SBool, limTerm(e.lim(s.old)), rootid(r)))}
	case "elems": // content of a slice's backing array
		v := s.eval(x.Args[0])
		if v.T == nil {
			return v
		}
		if a, ok := v.T.Underlying().(*types.Array); ok {
			if !v.Addr {
				return v
			}
			h := elemHeap(a.Elem())
			e.heapOf(h, a.Elem(), true)
			return SVal{V: tv(Select(e.Hs(s, h), v.V.T)), T: v.T}
		}
		if pt, ok := v.T.Underlying().(*types.Pointer); ok && v.V.T != nil {
			if a, ok := pt.Elem().Underlying().(*types.Array); ok {
				h := elemHeap(a.Elem())
				e.heapOf(h, a.Elem(), true)
				return SVal{V: tv(Select(e.Hs(s, h), v.V.T))}
			}
		}
		u, ok := v.T.Underlying().(*types.Slice)
		if !ok {
			sfail("elems of %s", typeStr(v.T))
		}
		h := elemHeap(u.Elem())
		e.heapOf(h, u.Elem(), true)
		return SVal{V: tv(Select(e.Hs(s, h), slBase(v.V.T)))}
	case "has":
		v := s.eval(x.Args[0])
		u := v.T.Underlying().(*types.Map)
		h, _ := e.mapHeaps(u)
		return SVal{V: tv(Select(Select(e.Hs(s, h), v.V.T), s.coerce(s.eval(x.Args[1]), sortOf(u.Key(), m))))}
	case "u8", "u16", "u32", "u64":
		v := s.eval(x.Args[0])
		w := map[string]int{"u8": 8, "u16": 16, "u32": 32, "u64": 64}[x.S]
		gt := map[string]types.Type{"u8": types.Typ[types.Uint8], "u16": types.Typ[types.Uint16], "u32": types.Typ[types.Uint32], "u64": types.Typ[types.Uint64]}[x.S]
		if v.Lit != nil && m == ModeBV {
			return SVal{V: tv(BVL(v.Lit, w)), T: gt}
		}
		if v.V.T.Sort.BV > 0 {
			return SVal{V: tv(bvResize(v.V.T, w, isSigned(v))), T: gt}
		}
		return SVal{V: tv(Mod(v.V.T, IB(pow2(w))))}
	case "pow2":
		v := s.eval(x.Args[0])
		if v.V.T.IVal != nil && v.V.T.IVal.IsInt64() && v.V.T.IVal.Int64() >= 0 && v.V.T.IVal.Int64() < 300 {
			return SVal{V: tv(IB(pow2(int(v.V.T.IVal.Int64()))))}
		}
		return SVal{V: tv(e.pow2T(s.st, v.V.T))}
	case "i64":
		v := s.eval(x.Args[0])
		if v.V.T.Sort.BV > 0 {
			return SVal{V: tv(bvResize(v.V.T, 64, isSigned(v))), T: types.Typ[types.Int64]}
		}
		t := Mod(v.V.T, IB(pow2(64)))
		return SVal{V: tv(Ite(Lt(t, IB(pow2(63))), t, Sub(t, IB(pow2(64)))))}
	case "real":
		v := s.eval(x.Args[0])
		return SVal{V: tv(s.coerce(v, SReal))}
	case "tag":
		return SVal{V: tv(ifTag(s.eval(x.Args[0]).V.T))}
	case "deref": // pointer held by an interface / reference of a pointer
		v := s.eval(x.Args[0])
		if v.V.T.Sort == SIface {
			return SVal{V: tv(ifRef(v.V.T))}
		}
		return SVal{V: tv(v.V.T)}
	case "cell": // value of a scalar cell behind a pointer
		v := s.eval(x.Args[0])
		if v.V.Loc != nil {
			return SVal{V: tv(e.load(s.st, *v.V.Loc)), T: v.V.Loc.Typ}
		}
		pt := deref(v.T)
		return SVal{V: tv(e.load(s.st, Loc{cellHeap(pt), v.V.T, nil, pt})), T: pt}
	case "as": // as("*pkg.T", x): view a reference or interface as a pointer
		v := s.eval(x.Args[1])
		t := P.lookupType(x.Args[0].S)
		if t == nil {
			sfail("as: unknown type %s", x.Args[0].S)
		}
		r := v.V.T
		if r.Sort == SIface {
			r = ifRef(r)
		}
		return SVal{V: tv(r), T: t}
	case "typeis":
		v := s.eval(x.Args[0])
		t := P.lookupType(x.Args[1].S)
		if t == nil {
			sfail("typeis: unknown type %s", x.Args[1].S)
		}
		return SVal{V: tv(Eq(ifTag(v.V.T), I(int64(e.tagOf(t)))))}
	case "str":
		v := s.eval(x.Args[0])
		u := v.T.Underlying().(*types.Slice)
		h := elemHeap(u.Elem())
		e.heapOf(h, u.Elem(), true)
		return SVal{V: tv(e.strOf(Select(e.Hs(s, h), slBase(v.V.T)), slOff(v.V.T, m), slLen(v.V.T, m))), T: types.Typ[types.String]}
	case "strof":
		a, b, c := s.eval(x.Args[0]), s.eval(x.Args[1]), s.eval(x.Args[2])
		return SVal{V: tv(e.strOf(a.V.T, s.coerce(b, idxSort(m)), s.coerce(c, idxSort(m)))), T: types.Typ[types.String]}
	case "min", "max":
		a, b := s.unify(s.eval(x.Args[0]), s.eval(x.Args[1]))
		c := Le(a.V.T, b.V.T)
		if x.S == "max" {
			c = Le(b.V.T, a.V.T)
		}
		return SVal{V: tv(Ite(c, a.V.T, b.V.T))}
	case "rune_at":
		return SVal{V: tv(e.runeAt(s.eval(x.Args[0]).V.T, s.coerce(s.eval(x.Args[1]), idxSort(m)))), T: types.Typ[types.Int32]}
	case "rune_w":
		return SVal{V: tv(e.runeW(s.eval(x.Args[0]).V.T, s.coerce(s.eval(x.Args[1]), idxSort(m)))), T: types.Typ[types.Int]}
	case "sprintf":
		f := s.eval(x.Args[0])
		var as []*Term
		for _, a := range x.Args[1:] {
			as = append(as, s.eval(a).V.T)
		}
		return SVal{V: tv(e.sprintf(f.V.T, as)), T: types.Typ[types.String]}
	case "fnof": // the function value of a named function
		k := x.Args[0].S
		f := P.funcs[k]
		if f == nil {
			sfail("fnof: no function %s", k)
		}
		t := Sym("func:"+f.String(), SFn)
		cloTab[t.ID] = &Closure{Fn: f}
		return SVal{V: tv(t)}
	case "pathjoin":
		var as []*Term
		for _, a := range x.Args {
			as = append(as, s.eval(a).V.T)
		}
		return SVal{V: tv(e.pathJoin(as)), T: types.Typ[types.String]}
	}
	if d := e.specs.Defines[x.S]; d != nil {
		if len(d.Args) != len(x.Args) {
			sfail("%s needs %d arguments", x.S, len(d.Args))
		}
		c := s.child()
		var keep = map[string]SVal{}
		for i, a := range d.Args {
			v := s.eval(x.Args[i])
			if v.Lit != nil || v.Nil {
				so, t := e.specSort(a.Type)
				v = SVal{V: tv(s.coerce(v, so)), T: t}
			} else if v.T == nil && a.Type != "" && v.V.T != nil {
				if t := P.lookupType(a.Type); t != nil && sortOf(t, m) == v.V.T.Sort && v.V.T.Sort != SInt {
					v.T = t
				}
			}
			keep[a.Name] = v
		}
		// only the parameters are in scope
		c.vars = keep
		return c.eval(d.Body)
	}
	if f := e.specs.SFuncs[x.S]; f != nil {
		if len(f.Args) != len(x.Args) {
			sfail("%s needs %d arguments", x.S, len(f.Args))
		}
		var as []SVal
		for _, a := range x.Args {
			as = append(as, s.eval(a))
		}
		return e.applySFunc(s, f, as)
	}
	sfail("unknown function %s in contract", x.S)
	return SVal{}
}

// syncAx: typing axioms of heap symbols first touched while evaluating in
// another state are needed in this one too.
func (e *Engine) syncAx(st, from *State) {
	for h, s := range from.heap {
		if s.isSym && strings.HasSuffix(strings.TrimSuffix(s.Op, "|"), "@0") && !st.ax[s.ID] {
			e.typeAx(st, h, s)
		}
		if st.heap[h] == nil && s.isSym && strings.HasSuffix(strings.TrimSuffix(s.Op, "|"), "@0") {
			st.heap[h] = s
		}
	}
}

func (e *Engine) tagOf(t types.Type) int {
	k := typeStr(t)
	if n := e.tags[k]; n != 0 {
		return n
	}
	n := len(e.tags) + 1
	e.tags[k] = n
	e.tagType[n] = t
	return n
}

func bvResize(t *Term, w int, signed bool) *Term {
	o := t.Sort.BV
	if o == w {
		return t
	}
	if t.IVal != nil {
		v := t.IVal
		if signed {
			v = toSigned(v, o)
		}
		return BVL(v, w)
	}
	if o > w {
		if strings.HasPrefix(t.Op, "(_ zero_extend") && t.Args[0].Sort.BV >= w {
			return bvResize(t.Args[0], w, false)
		}
		return mk(fmt.Sprintf("(_ extract %d 0)", w-1), SBV(w), t)
	}
	if signed {
		return mk(fmt.Sprintf("(_ sign_extend %d)", w-o), SBV(w), t)
	}
	return mk(fmt.Sprintf("(_ zero_extend %d)", w-o), SBV(w), t)
}

func (e *Engine) runeAt(s, i *Term) *Term {
	so := sortOf(types.Typ[types.Int32], e.mode)
	declFun("rune.at", so, SStr, idxSort(e.mode))
	return mk("rune.at", so, s, i)
}
func (e *Engine) runeW(s, i *Term) *Term {
	declFun("rune.w", idxSort(e.mode), SStr, idxSort(e.mode))
	return mk("rune.w", idxSort(e.mode), s, i)
}

func (e *Engine) sprintf(f *Term, args []*Term) *Term {
	name := "sprintf"
	var so []*Sort
	so = append(so, SStr)
	for _, a := range args {
		name += "." + strings.Map(func(r rune) rune {
			if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
				return r
			}
			return '_'
		}, a.Sort.Name)
		so = append(so, a.Sort)
	}
	declFun(name, SStr, so...)
	return mk(name, SStr, append([]*Term{f}, args...)...)
}

func (e *Engine) pathJoin(args []*Term) *Term {
	name := fmt.Sprintf("pathjoin%d", len(args))
	var so []*Sort
	for range args {
		so = append(so, SStr)
	}
	declFun(name, SStr, so...)
	return mk(name, SStr, args...)
}
