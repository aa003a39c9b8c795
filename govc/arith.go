// Integer arithmetic of Go over mathematical integers (or bit vectors).
package main

import (
	"go/token"
	"go/types"
	"math/big"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

type ival struct{ lo, hi *big.Int }

// interval of a term from its shape.
func (e *Engine) interval(t *Term, d int) (ival, bool) {
	if t.IVal != nil {
		return ival{t.IVal, t.IVal}, true
	}
	if r, ok := e.rng[t.ID]; ok {
		return ival{r[0], r[1]}, true
	}
	if d == 0 {
		return ival{}, false
	}
	switch t.Op {
	case "+", "-", "*":
		if t.Sort != SInt || len(t.Args) != 2 {
			return ival{}, false
		}
		a, ok1 := e.interval(t.Args[0], d-1)
		b, ok2 := e.interval(t.Args[1], d-1)
		if !ok1 || !ok2 {
			return ival{}, false
		}
		n := func() *big.Int { return new(big.Int) }
		switch t.Op {
		case "+":
			return ival{n().Add(a.lo, b.lo), n().Add(a.hi, b.hi)}, true
		case "-":
			return ival{n().Sub(a.lo, b.hi), n().Sub(a.hi, b.lo)}, true
		case "*":
			var lo, hi *big.Int
			for _, x := range []*big.Int{a.lo, a.hi} {
				for _, y := range []*big.Int{b.lo, b.hi} {
					p := n().Mul(x, y)
					if lo == nil || p.Cmp(lo) < 0 {
						lo = p
					}
					if hi == nil || p.Cmp(hi) > 0 {
						hi = p
					}
				}
			}
			return ival{lo, hi}, true
		}
	case "mod":
		if b := t.Args[1].IVal; b != nil && b.Sign() > 0 {
			if a, ok := e.interval(t.Args[0], d-1); ok && a.lo.Sign() >= 0 && a.hi.Cmp(b) < 0 {
				return a, true
			}
			return ival{new(big.Int), new(big.Int).Sub(b, big.NewInt(1))}, true
		}
	case "div":
		if b := t.Args[1].IVal; b != nil && b.Sign() > 0 {
			if a, ok := e.interval(t.Args[0], d-1); ok {
				fl := func(x *big.Int) *big.Int { q, _ := new(big.Int).DivMod(x, b, new(big.Int)); return q }
				return ival{fl(a.lo), fl(a.hi)}, true
			}
		}
	case "ite":
		a, ok1 := e.interval(t.Args[1], d-1)
		b, ok2 := e.interval(t.Args[2], d-1)
		if ok1 && ok2 {
			r := a
			if b.lo.Cmp(r.lo) < 0 {
				r.lo = b.lo
			}
			if b.hi.Cmp(r.hi) > 0 {
				r.hi = b.hi
			}
			return r, true
		}
	case "sl-len", "sl-off", "sl-cap", "str.length":
		return ival{new(big.Int), pow2(61)}, true
	}
	return ival{}, false
}

// noteRange remembers the type range of a value.
func (e *Engine) noteRange(t *Term, typ types.Type) {
	if t == nil || t.IVal != nil || e.mode == ModeBV || t.Sort != SInt {
		return
	}
	ii, ok := intOf(typ)
	if !ok {
		return
	}
	if r, ok := e.rng[t.ID]; ok {
		lo, hi := r[0], r[1]
		if ii.lo().Cmp(lo) > 0 {
			lo = ii.lo()
		}
		if ii.hi().Cmp(hi) < 0 {
			hi = ii.hi()
		}
		e.rng[t.ID] = [2]*big.Int{lo, hi}
		return
	}
	e.rng[t.ID] = [2]*big.Int{ii.lo(), ii.hi()}
}

// wrap reduces a mathematical result to the machine type.
func (e *Engine) wrap(st *State, t *Term, typ types.Type) *Term {
	ii, ok := intOf(typ)
	if !ok {
		unsup("arithmetic on " + typeStr(typ))
	}
	lo, hi := ii.lo(), ii.hi()
	if t.IVal != nil {
		v := new(big.Int).Mod(t.IVal, pow2(ii.w))
		if ii.signed && v.Cmp(hi) > 0 {
			v.Sub(v, pow2(ii.w))
		}
		return IB(v)
	}
	if iv, ok := e.interval(t, 6); ok && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0 {
		return t
	}
	in := And(Le(IB(lo), t), Le(t, IB(hi)))
	if e.dry == 0 {
		key := wrapKey{t: t.ID, ii: ii, n: len(st.pc)}
		if len(st.pc) > 0 {
			key.last = st.pc[len(st.pc)-1].ID
		}
		if r, ok := e.wrapMemo[key]; ok {
			if r {
				return t
			}
		} else {
			r := e.holds(st, in, 250)
			e.wrapMemo[key] = r
			if r {
				return t
			}
		}
	} else {
		return e.wrapped(t, ii)
	}
	return e.wrapped(t, ii)
}

type wrapKey struct {
	t    int
	ii   intInfo
	n    int
	last int
}

func (e *Engine) wrapped(t *Term, ii intInfo) *Term {
	if !ii.signed {
		return Mod(t, IB(pow2(ii.w)))
	}
	m := Mod(Add(t, IB(pow2(ii.w-1))), IB(pow2(ii.w)))
	r := Sub(m, IB(pow2(ii.w-1)))
	e.rng[r.ID] = [2]*big.Int{ii.lo(), ii.hi()}
	return r
}

func (e *Engine) binop(st *State, in *ssa.BinOp) Val {
	xt := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		r := e.equal(st, e.get(st, in.X), e.get(st, in.Y), xt, in.Y.Type())
		if in.Op == token.NEQ {
			r = Not(r)
		}
		return tv(r)
	}
	x, y := e.term(st, in.X), e.term(st, in.Y)
	return tv(e.arith(st, in.Op, x, y, xt, in.Y.Type(), in.Type(), in))
}

func (e *Engine) equal(st *State, a, b Val, t, t2 types.Type) *Term {
	if s := structOf(t); s != nil {
		var cs []*Term
		for i := range a.Fs {
			cs = append(cs, e.equal(st, a.Fs[i], b.Fs[i], s.Field(i).Type(), s.Field(i).Type()))
		}
		return And(cs...)
	}
	if a.Loc != nil || b.Loc != nil {
		if a.Loc == nil {
			a, b = b, a
		}
		if b.T == Null {
			return False
		}
		if b.Loc != nil && a.Loc.Heap == b.Loc.Heap {
			r := Eq(a.Loc.Ref, b.Loc.Ref)
			if a.Loc.Idx != nil {
				r = And(r, Eq(a.Loc.Idx, b.Loc.Idx))
			}
			return r
		}
		unsup("comparison of addresses")
	}
	// function against nil
	if a.Clo != nil || b.Clo != nil {
		if a.Clo == nil {
			a, b = b, a
		}
		return False
	}
	_, i1 := t.Underlying().(*types.Interface)
	_, i2 := t2.Underlying().(*types.Interface)
	x, y := a.T, b.T
	if i1 && !i2 {
		y = e.makeIface(st, b, t2)
	} else if i2 && !i1 {
		x = e.makeIface(st, a, t)
	}
	switch x.Sort {
	case SSlice: // only against nil
		if y.look().Op == "mk-slice" && y.look().Args[0] == Null {
			return Eq(slBase(x), Null)
		}
		return Eq(slBase(y), Null)
	case SIface:
		if y == NilIface {
			return Eq(ifTag(x), I(0))
		}
		if x == NilIface {
			return Eq(ifTag(y), I(0))
		}
	case SStr:
		return e.strEq(st, x, y)
	}
	return Eq(x, y)
}

// strEq: equality of strings; literals compare by length and content.
func (e *Engine) strEq(st *State, x, y *Term) *Term {
	lx, okx := litText[x.ID]
	ly, oky := litText[y.ID]
	if okx && oky {
		if lx == ly {
			return True
		}
		return False
	}
	if okx {
		x, y, lx, ly, oky = y, x, ly, lx, true
	}
	if oky && len(ly) <= 64 {
		cs := []*Term{Eq(e.strLen(x), e.idx(int64(len(ly))))}
		for i := 0; i < len(ly); i++ {
			cs = append(cs, Eq(e.strAt(x, e.idx(int64(i))), e.strAt(y, e.idx(int64(i)))))
		}
		r := Eq(x, y)
		e.assume(st, Eq(r, And(cs...)))
		return r
	}
	return Eq(x, y)
}

func (e *Engine) arith(st *State, op token.Token, x, y *Term, xt, yt, rt types.Type, in ssa.Instruction) *Term {
	if isString(xt) {
		switch op {
		case token.ADD:
			return e.concat(st, x, y)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			declFun("str.lt", SBool, SStr, SStr)
			a, b := x, y
			if op == token.GTR || op == token.LEQ {
				a, b = y, x
			}
			r := mk("str.lt", SBool, a, b)
			if op == token.LEQ || op == token.GEQ {
				return Not(r)
			}
			return r
		}
		unsup("string operator")
	}
	if isFloat(xt) {
		switch op {
		case token.ADD:
			return mk("+", SReal, x, y)
		case token.SUB:
			return mk("-", SReal, x, y)
		case token.MUL:
			return mk("*", SReal, x, y)
		case token.QUO:
			return mk("/", SReal, x, y)
		case token.LSS:
			return mk("<", SBool, x, y)
		case token.LEQ:
			return mk("<=", SBool, x, y)
		case token.GTR:
			return mk("<", SBool, y, x)
		case token.GEQ:
			return mk("<=", SBool, y, x)
		}
	}
	if isBool(xt) {
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
	}
	ii, ok := intOf(xt)
	if !ok {
		unsup("operator " + op.String() + " on " + typeStr(xt))
	}
	if e.mode == ModeBV {
		return e.arithBV(st, op, x, y, ii, yt, in)
	}
	switch op {
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.GEQ:
		return Le(y, x)
	}
	e.noteRange(x, xt)
	e.noteRange(y, yt)
	switch op {
	case token.ADD:
		return e.wrap(st, Add(x, y), rt)
	case token.SUB:
		return e.wrap(st, Sub(x, y), rt)
	case token.MUL:
		return e.wrap(st, Mul(x, y), rt)
	case token.QUO, token.REM:
		e.safety(st, Not(Eq(y, I(0))), "division by zero", in)
		if !ii.signed || (e.nonneg(st, x) && e.nonneg(st, y)) {
			if op == token.QUO {
				return Div(x, y)
			}
			return Mod(x, y)
		}
		// truncated division
		q := Ite(Le(I(0), x), Div(x, y), Sub(I(0), Div(Sub(I(0), x), y)))
		if op == token.QUO {
			return e.wrap(st, q, rt)
		}
		return Ite(Le(I(0), x), Mod(x, y), Sub(I(0), Mod(Sub(I(0), x), y)))
	case token.SHL:
		if y.IVal != nil {
			n := int(y.IVal.Int64())
			if n >= ii.w {
				return I(0)
			}
			return e.wrap(st, Mul(x, IB(pow2(n))), rt)
		}
		e.shiftCheck(st, y, yt, in)
		return e.wrap(st, Mul(x, e.pow2T(st, y)), rt)
	case token.SHR:
		if y.IVal != nil {
			n := int(y.IVal.Int64())
			if n > 200 {
				n = 200
			}
			return Div(x, IB(pow2(n)))
		}
		e.shiftCheck(st, y, yt, in)
		return Div(x, e.pow2T(st, y))
	case token.AND:
		return e.andT(x, y, ii)
	case token.AND_NOT:
		if y.IVal != nil {
			c := new(big.Int).Sub(new(big.Int).Sub(pow2(ii.w), big.NewInt(1)), new(big.Int).Mod(y.IVal, pow2(ii.w)))
			return e.andT(x, IB(c), ii)
		}
	case token.OR:
		return e.orT(st, x, y, ii)
	case token.XOR:
		return e.bitT("^", x, y, ii)
	}
	n := "bv" + op.String() + rtName(ii)
	n = map[token.Token]string{token.AND_NOT: "bvandnot"}[op] + rtName(ii)
	declFun(n, SInt, SInt, SInt)
	r := mk(n, SInt, x, y)
	e.assume(st, And(Le(IB(ii.lo()), r), Le(r, IB(ii.hi()))))
	return r
}

func rtName(ii intInfo) string {
	s := "u"
	if ii.signed {
		s = "i"
	}
	return s + big.NewInt(int64(ii.w)).String()
}

func (e *Engine) shiftCheck(st *State, y *Term, yt types.Type, in ssa.Instruction) {
	if ii, ok := intOf(yt); ok && ii.signed {
		e.safety(st, Le(I(0), y), "negative shift", in)
	}
}

// pow2T: 2^y for a variable shift count.
func (e *Engine) pow2T(st *State, y *Term) *Term {
	declFun("pow2", SInt, SInt)
	t := mk("pow2", SInt, y)
	if !e.pow2Ax {
		e.pow2Ax = true
		var cs []*Term
		for i := int64(0); i <= 70; i++ {
			cs = append(cs, Eq(mk("pow2", SInt, I(i)), IB(pow2(int(i)))))
		}
		k := BoundVar("k", SInt)
		pk := mk("pow2", SInt, k)
		cs = append(cs, Forall([]*Term{k}, Imp(Le(I(0), k), Le(I(1), pk)), []*Term{pk}))
		cs = append(cs, Forall([]*Term{k}, Imp(Le(I(64), k), Le(IB(pow2(64)), pk)), []*Term{pk}))
		e.sol.axioms = append(e.sol.axioms, cs...)
	}
	return t
}

func (e *Engine) nonneg(st *State, x *Term) bool {
	if iv, ok := e.interval(x, 5); ok && iv.lo.Sign() >= 0 {
		return true
	}
	return e.dry == 0 && e.holds(st, Le(I(0), x), 250)
}

func (e *Engine) andT(x, y *Term, ii intInfo) *Term {
	if x.IVal != nil {
		x, y = y, x
	}
	if x.IVal != nil && y.IVal != nil {
		m := pow2(ii.w)
		r := new(big.Int).And(new(big.Int).Mod(x.IVal, m), new(big.Int).Mod(y.IVal, m))
		if ii.signed && r.Cmp(ii.hi()) > 0 {
			r.Sub(r, m)
		}
		return IB(r)
	}
	if y.IVal != nil {
		c := new(big.Int).Mod(y.IVal, pow2(ii.w))
		if c.Sign() == 0 {
			return I(0)
		}
		// contiguous run of ones
		lo := int(c.TrailingZeroBits())
		n := c.BitLen() - lo
		run := new(big.Int).Lsh(new(big.Int).Sub(pow2(n), big.NewInt(1)), uint(lo))
		if run.Cmp(c) == 0 && !(ii.signed && lo+n == ii.w) {
			t := x
			if lo > 0 {
				t = Div(t, IB(pow2(lo)))
			}
			if !(lo+n == ii.w && !ii.signed) {
				t = Mod(t, IB(pow2(n)))
			}
			return Mul(t, IB(pow2(lo)))
		}
		if run.Cmp(c) == 0 && ii.signed && lo+n == ii.w {
			return Sub(x, Mod(x, IB(pow2(lo))))
		}
	}
	return e.bitFn("and", x, y, ii)
}

// bitT: a bitwise operation without a solver query.
func (e *Engine) bitT(op string, x, y *Term, ii intInfo) *Term {
	if x.IVal != nil {
		x, y = y, x
	}
	switch op {
	case "&":
		return e.andT(x, y, ii)
	case "|":
		if r := e.orConst(x, y, ii); r != nil {
			return r
		}
		return e.bitFn("or", x, y, ii)
	}
	if y == I(0) {
		return x
	}
	return e.bitFn("xor", x, y, ii)
}

// bitFn: the operation as an uninterpreted function with its range; its other
// properties come from lemmas proved over bit vectors (clause bridge).
func (e *Engine) bitFn(op string, x, y *Term, ii intInfo) *Term {
	n := "bv" + op + rtName(ii)
	declFun(n, SInt, SInt, SInt)
	if e.bitAx == nil {
		e.bitAx = map[string]bool{}
	}
	if !e.bitAx[n] {
		e.bitAx[n] = true
		a, b := BoundVar("a", SInt), BoundVar("b", SInt)
		r := mk(n, SInt, a, b)
		rng := func(x *Term) *Term { return And(Le(IB(ii.lo()), x), Le(x, IB(ii.hi()))) }
		con := []*Term{rng(r), Eq(r, mk(n, SInt, b, a))}
		if !ii.signed {
			switch op {
			case "and":
				con = append(con, Le(r, a), Le(r, b))
			case "or":
				con = append(con, Le(a, r), Le(b, r), Le(r, Add(a, b)), Imp(Eq(b, I(0)), Eq(r, a)))
			case "xor":
				con = append(con, Le(r, Add(a, b)), Imp(Eq(b, I(0)), Eq(r, a)), Imp(Eq(a, b), Eq(r, I(0))))
			}
		}
		e.sol.axioms = append(e.sol.axioms, Forall([]*Term{a, b}, Imp(And(rng(a), rng(b)), And(con...)), []*Term{r}))
	}
	return mk(n, SInt, x, y)
}

func (e *Engine) orT(st *State, x, y *Term, ii intInfo) *Term {
	if x.IVal != nil {
		x, y = y, x
	}
	if r := e.orConst(x, y, ii); r != nil {
		return r
	}
	// disjoint bits: one is a multiple of 2^k, the other below 2^k
	try := func(a, b *Term) *Term {
		if iv, ok := e.interval(b, 6); ok && iv.lo.Sign() >= 0 {
			k := iv.hi.BitLen()
			if Mod(a, IB(pow2(k))) == I(0) || e.multipleOf(a, k) || (e.dry == 0 && e.holds(st, Eq(Mod(a, IB(pow2(k))), I(0)), 250)) {
				return Add(a, b)
			}
		}
		return nil
	}
	if r := try(x, y); r != nil {
		return r
	}
	if r := try(y, x); r != nil {
		return r
	}
	return e.bitFn("or", x, y, ii)
}

func (e *Engine) orConst(x, y *Term, ii intInfo) *Term {
	if x.IVal != nil && y.IVal != nil {
		m := pow2(ii.w)
		r := new(big.Int).Or(new(big.Int).Mod(x.IVal, m), new(big.Int).Mod(y.IVal, m))
		if ii.signed && r.Cmp(ii.hi()) > 0 {
			r.Sub(r, m)
		}
		return IB(r)
	}
	if y.IVal != nil && y.IVal.Sign() > 0 {
		c := y.IVal
		k := c.BitLen() - 1
		if c.TrailingZeroBits() == uint(k) && k < ii.w-1 || (c.TrailingZeroBits() == uint(k) && !ii.signed) {
			bit := Mod(Div(x, IB(pow2(k))), I(2))
			return Add(x, Mul(Sub(I(1), bit), IB(pow2(k))))
		}
	}
	if y == I(0) {
		return x
	}
	return nil
}

func (e *Engine) multipleOf(a *Term, k int) bool {
	switch a.Op {
	case "*":
		if c := a.Args[1].IVal; c != nil && c.Sign() != 0 && int(new(big.Int).Abs(c).TrailingZeroBits()) >= k {
			return true
		}
	case "+":
		return e.multipleOf(a.Args[0], k) && e.multipleOf(a.Args[1], k)
	case "mod":
		if c := a.Args[1].IVal; c != nil && int(c.TrailingZeroBits()) >= k {
			return e.multipleOf(a.Args[0], k)
		}
	}
	if a.IVal != nil {
		return a.IVal.Sign() == 0 || int(new(big.Int).Abs(a.IVal).TrailingZeroBits()) >= k
	}
	return false
}

func (e *Engine) arithBV(st *State, op token.Token, x, y *Term, ii intInfo, yt types.Type, in ssa.Instruction) *Term {
	u := func(s, us string) string {
		if ii.signed {
			return s
		}
		return us
	}
	switch op {
	case token.ADD:
		return bvBin("bvadd", x, y)
	case token.SUB:
		return bvBin("bvsub", x, y)
	case token.MUL:
		return bvBin("bvmul", x, y)
	case token.AND:
		return bvBin("bvand", x, y)
	case token.OR:
		return bvBin("bvor", x, y)
	case token.XOR:
		return bvBin("bvxor", x, y)
	case token.AND_NOT:
		return bvBin("bvand", x, mk("bvnot", y.Sort, y))
	case token.QUO, token.REM:
		e.safety(st, Not(Eq(y, BVL(new(big.Int), ii.w))), "division by zero", in)
		if op == token.QUO {
			return bvBin(u("bvsdiv", "bvudiv"), x, y)
		}
		return bvBin(u("bvsrem", "bvurem"), x, y)
	case token.LSS:
		return bvCmp(u("bvslt", "bvult"), x, y)
	case token.LEQ:
		return bvCmp(u("bvsle", "bvule"), x, y)
	case token.GTR:
		return bvCmp(u("bvslt", "bvult"), y, x)
	case token.GEQ:
		return bvCmp(u("bvsle", "bvule"), y, x)
	case token.SHL, token.SHR:
		yi, _ := intOf(yt)
		if yi.signed && y.IVal == nil {
			e.safety(st, bvCmp("bvsle", BVL(new(big.Int), yi.w), y), "negative shift", in)
		}
		// big shift counts give 0 (or the sign)
		w := ii.w
		var cnt *Term
		if yi.w > w {
			lim := BVL(big.NewInt(int64(w)), yi.w)
			cnt = Ite(bvCmp("bvult", y, lim), bvResize(y, w, false), BVL(big.NewInt(int64(w)), w))
		} else {
			cnt = bvResize(y, w, false)
		}
		if op == token.SHL {
			return bvBin("bvshl", x, cnt)
		}
		return bvBin(u("bvashr", "bvlshr"), x, cnt)
	}
	unsup("operator " + op.String())
	return nil
}

var _ = bits.Len

func (e *Engine) concat(st *State, x, y *Term) *Term {
	if lx, ok := litText[x.ID]; ok {
		if lx == "" {
			return y
		}
		if ly, ok := litText[y.ID]; ok {
			return e.strLit(lx + ly)
		}
	}
	if ly, ok := litText[y.ID]; ok && ly == "" {
		return x
	}
	declFun("str.concat", SStr, SStr, SStr)
	r := mk("str.concat", SStr, x, y)
	if e.mode == ModeInt && !st.ax[-(r.ID*4+2)] {
		st.ax[-(r.ID*4 + 2)] = true
		e.assume(st, Eq(e.strLen(r), Add(e.strLen(x), e.strLen(y))))
	}
	return r
}

func (e *Engine) convert(st *State, in *ssa.Convert) Val {
	from, to := in.X.Type(), in.Type()
	fi, ok1 := intOf(from)
	ti, ok2 := intOf(to)
	x := e.term(st, in.X)
	m := e.mode
	switch {
	case ok1 && ok2:
		if m == ModeBV {
			return tv(bvResize(x, ti.w, fi.signed))
		}
		e.noteRange(x, from)
		return tv(e.wrap(st, x, to))
	case ok1 && isFloat(to):
		if m == ModeBV {
			return tv(Fresh("float", SReal))
		}
		return tv(mk("to_real", SReal, x))
	case isFloat(from) && isFloat(to):
		return tv(x)
	case isFloat(from) && ok2:
		v := Fresh("trunc", sortOf(to, m))
		if m == ModeInt {
			e.assume(st, e.typeFact(v, to, e.lim(st)))
			// in range: the truncated value
			fl := mk("to_int", SInt, x)
			e.assume(st, Imp(And(mk("<=", SBool, mk("0.0", SReal), x), Le(fl, IB(ti.hi()))), Eq(v, fl)))
		}
		return tv(v)
	case isString(to):
		if s, ok := from.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				h := elemHeap(s.Elem())
				e.heapOf(h, s.Elem(), true)
				return tv(e.strOf(Select(e.H(st, h), slBase(x)), slOff(x, m), slLen(x, m)))
			}
		}
		v := Fresh("str", SStr)
		e.assume(st, e.strFact(v))
		if s, ok := from.Underlying().(*types.Slice); ok && m == ModeInt {
			if n, ok := litN(slLen(x, m)); ok && n <= 8 {
				// characters below 128 take one byte each
				h := elemHeap(s.Elem())
				e.heapOf(h, s.Elem(), true)
				var ascii, eqs []*Term
				for i := int64(0); i < n; i++ {
					c := Select(Select(e.H(st, h), slBase(x)), e.addIdx(slOff(x, m), I(i)))
					ascii = append(ascii, Le(I(0), c), Lt(c, I(128)))
					eqs = append(eqs, Eq(e.strAt(v, I(i)), c))
				}
				e.assume(st, Imp(And(ascii...), And(append(eqs, Eq(e.strLen(v), I(n)))...)))
			}
		}
		return tv(v)
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				r := e.alloc(st)
				h := elemHeap(s.Elem())
				e.heapOf(h, s.Elem(), true)
				n := e.strLen(x)
				c := Fresh("cap", idxSort(m))
				e.assume(st, And(e.leIdx(n, c), e.leIdx(c, IdxMax(e))))
				arr := Fresh("bytes", SArr(idxSort(m), sortOf(s.Elem(), m)))
				i := BoundVar("i", idxSort(m))
				a := Select(arr, i)
				e.assume(st, Forall([]*Term{i}, And(Imp(And(e.leIdx(e.idx(0), i), e.ltIdx(i, n)), Eq(a, e.strAt(x, i))), e.typeFact(a, s.Elem(), e.lim(st))), []*Term{a}))
				st.heap[h] = Store(e.H(st, h), r, arr)
				return tv(mkSlice(r, e.idx(0), n, c))
			}
		}
	}
	if sortOf(from, m) != nil && sortOf(from, m) == sortOf(to, m) {
		return tv(x)
	}
	unsup("conversion " + typeStr(from) + " to " + typeStr(to))
	return Val{}
}
