// Terms: hash-consed SMT terms with a light simplifier.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	Name string // SMT-LIB text
	BV   int    // >0: bit vector width
	Idx  *Sort  // array sorts
	Elt  *Sort
}

func (s *Sort) String() string { return s.Name }

var sortTab = map[string]*Sort{}

func mkSort(name string) *Sort {
	if s := sortTab[name]; s != nil {
		return s
	}
	s := &Sort{Name: name}
	sortTab[name] = s
	return s
}

var (
	SInt   = mkSort("Int")
	SBool  = mkSort("Bool")
	SRef   = mkSort("Ref")
	SSlice = mkSort("Slice")
	SStr   = mkSort("Str")
	SIface = mkSort("Iface")
	SReal  = mkSort("Real")
	SFn    = mkSort("Func")
)

func SBV(w int) *Sort {
	s := mkSort(fmt.Sprintf("(_ BitVec %d)", w))
	s.BV = w
	return s
}

func SArr(i, e *Sort) *Sort {
	s := mkSort("(Array " + i.Name + " " + e.Name + ")")
	s.Idx, s.Elt = i, e
	return s
}

type Term struct {
	Op   string
	Args []*Term
	Sort *Sort
	ID   int
	IVal *big.Int // literals (Int or BV)
	// quantifiers
	Bound  []*Term
	Pats   [][]*Term
	Weight int
	// a named constant standing for a term
	Def   *Term
	isSym bool
	size  int
}

type TermTab struct {
	tab map[string]*Term
	n   int
}

var TT = &TermTab{tab: map[string]*Term{}}

func mk(op string, s *Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s.Name)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.ID)
	}
	k := b.String()
	if t := TT.tab[k]; t != nil {
		return t
	}
	t := &Term{Op: op, Args: args, Sort: s, ID: TT.n}
	TT.n++
	t.size = 1
	for _, a := range args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	TT.tab[k] = t
	return t
}

var True, False *Term

func init() {
	True = mk("true", SBool)
	False = mk("false", SBool)
}

func Sym(name string, s *Sort) *Term {
	t := mk(smtName(name), s)
	t.isSym = true
	return t
}

func smtName(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' || c == '@' || c == '-') {
			return "|" + strings.ReplaceAll(n, "|", "!") + "|"
		}
	}
	return n
}

var freshN int

func Fresh(name string, s *Sort) *Term {
	freshN++
	return Sym(fmt.Sprintf("%s!%d", name, freshN), s)
}

func I(n int64) *Term { return IB(big.NewInt(n)) }

func IB(n *big.Int) *Term {
	op := n.String()
	if n.Sign() < 0 {
		op = "(- " + new(big.Int).Neg(n).String() + ")"
	}
	t := mk(op, SInt)
	if t.IVal == nil {
		t.IVal = new(big.Int).Set(n)
	}
	return t
}

// BVL makes a bit-vector literal; the value is kept unsigned.
func BVL(n *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(n, m)
	t := mk(fmt.Sprintf("(_ bv%s %d)", v, w), SBV(w))
	if t.IVal == nil {
		t.IVal = v
	}
	return t
}

func (t *Term) isLit() bool { return t.IVal != nil || t == True || t == False }

// look through definitional constants
func (t *Term) look() *Term {
	for t.Def != nil {
		t = t.Def
	}
	return t
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True {
			return true
		}
		if a == False {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if !seen[a.ID] {
			seen[a.ID] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == False {
			continue
		}
		if a == True {
			return True
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x.ID] {
					seen[x.ID] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[a.ID] {
			seen[a.ID] = true
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", SBool, out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.Sort, b.Sort, a.Str(), b.Str()))
	}
	return mk("ite", a.Sort, c, a, b)
}

var ctorNames = map[string]bool{"obj": true, "fld": true, "elm": true, "mk-slice": true, "mk-iface": true}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.Sort, b.Sort, a.Str(), b.Str()))
	}
	if a.isLit() && b.isLit() {
		return False
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	la, lb := a.look(), b.look()
	if la == lb {
		return True
	}
	if a.Sort == SRef || a.Sort == SSlice || a.Sort == SIface {
		switch refCmp(la, lb) {
		case 1:
			return True
		case -1:
			return False
		}
		if ctorNames[la.Op] && la.Op == lb.Op {
			var cs []*Term
			for i := range la.Args {
				cs = append(cs, Eq(la.Args[i], lb.Args[i]))
			}
			return And(cs...)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

// refCmp: 1 surely equal, -1 surely distinct, 0 unknown.
func refCmp(a, b *Term) int {
	a, b = a.look(), b.look()
	if a == b {
		return 1
	}
	if a.isLit() && b.isLit() {
		return -1
	}
	if ctorNames[a.Op] && ctorNames[b.Op] {
		if a.Op != b.Op {
			return -1
		}
		all := true
		for i := range a.Args {
			switch refCmp(a.Args[i], b.Args[i]) {
			case -1:
				return -1
			case 0:
				all = false
			}
		}
		if all {
			return 1
		}
		return 0
	}
	if a.Sort == SInt && b.Sort == SInt {
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb {
			if ca.Cmp(cb) == 0 {
				return 1
			}
			return -1
		}
	}
	// fresh objects versus older references (see State.alloc)
	if sepOracle != nil {
		if sepOracle(a, b) {
			return -1
		}
	}
	return 0
}

var sepOracle func(a, b *Term) bool

// t = base + const
func splitAdd(t *Term) (*Term, *big.Int) {
	t = t.look()
	if t.IVal != nil {
		return nil, t.IVal
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].IVal != nil {
		b, c := splitAdd(t.Args[0])
		return b, new(big.Int).Add(c, t.Args[1].IVal)
	}
	return t, new(big.Int)
}

func Add(a, b *Term) *Term {
	if a.IVal != nil && b.IVal != nil {
		return IB(new(big.Int).Add(a.IVal, b.IVal))
	}
	if a.IVal != nil {
		a, b = b, a
	}
	if b.IVal != nil {
		if b.IVal.Sign() == 0 {
			return a
		}
		if a.Op == "+" && len(a.Args) == 2 && a.Args[1].IVal != nil {
			return Add(a.Args[0], IB(new(big.Int).Add(a.Args[1].IVal, b.IVal)))
		}
	} else {
		// keep constants outermost
		if a.Op == "+" && len(a.Args) == 2 && a.Args[1].IVal != nil {
			return Add(Add(a.Args[0], b), a.Args[1])
		}
		if b.Op == "+" && len(b.Args) == 2 && b.Args[1].IVal != nil {
			return Add(Add(a, b.Args[0]), b.Args[1])
		}
		// x + (y - x) => y
		if b.Op == "-" && len(b.Args) == 2 && b.Args[1] == a {
			return b.Args[0]
		}
		if a.Op == "-" && len(a.Args) == 2 && a.Args[1] == b {
			return a.Args[0]
		}
	}
	return mk("+", SInt, a, b)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return I(0)
	}
	if b.IVal != nil {
		return Add(a, IB(new(big.Int).Neg(b.IVal)))
	}
	ba, ca := splitAdd0(a)
	bb, cb := splitAdd0(b)
	if ba == bb && ba != nil {
		return IB(new(big.Int).Sub(ca, cb))
	}
	// (x + y) - y
	if ba != nil && ba.Op == "+" && len(ba.Args) == 2 && bb != nil {
		if ba.Args[1] == bb {
			return Add(ba.Args[0], IB(new(big.Int).Sub(ca, cb)))
		}
		if ba.Args[0] == bb {
			return Add(ba.Args[1], IB(new(big.Int).Sub(ca, cb)))
		}
	}
	if ca.Sign() != 0 || cb.Sign() != 0 {
		if ba == nil {
			ba = I(0)
		}
		if bb != nil {
			return Add(mk("-", SInt, ba, bb), IB(new(big.Int).Sub(ca, cb)))
		}
	}
	return mk("-", SInt, a, b)
}

func splitAdd0(t *Term) (*Term, *big.Int) {
	if t.IVal != nil {
		return nil, t.IVal
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].IVal != nil {
		b, c := splitAdd0(t.Args[0])
		return b, new(big.Int).Add(c, t.Args[1].IVal)
	}
	return t, new(big.Int)
}

func Mul(a, b *Term) *Term {
	if a.IVal != nil && b.IVal != nil {
		return IB(new(big.Int).Mul(a.IVal, b.IVal))
	}
	if a.IVal != nil {
		a, b = b, a
	}
	if b.IVal != nil {
		if b.IVal.Sign() == 0 {
			return I(0)
		}
		if b.IVal.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return mk("*", SInt, a, b)
}

// Euclidean/floor div and mod (SMT-LIB; identical for positive divisors)
func Div(a, b *Term) *Term {
	if b.IVal != nil && b.IVal.Sign() > 0 {
		if a.IVal != nil {
			q, _ := new(big.Int).DivMod(a.IVal, b.IVal, new(big.Int))
			return IB(q)
		}
		if b.IVal.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.Op == "*" && a.Args[1].IVal != nil && a.Args[1].IVal.Cmp(b.IVal) == 0 {
			return a.Args[0]
		}
	}
	return mk("div", SInt, a, b)
}

func Mod(a, b *Term) *Term {
	if b.IVal != nil && b.IVal.Sign() > 0 {
		if a.IVal != nil {
			return IB(new(big.Int).Mod(a.IVal, b.IVal))
		}
		if b.IVal.Cmp(big.NewInt(1)) == 0 {
			return I(0)
		}
		if a.Op == "mod" && a.Args[1].IVal != nil {
			// (x mod kb) mod b = x mod b
			if new(big.Int).Mod(a.Args[1].IVal, b.IVal).Sign() == 0 {
				return Mod(a.Args[0], b)
			}
		}
	}
	if opaqueMod && b.IVal == nil {
		return mk("imod", SInt, a, b)
	}
	return mk("mod", SInt, a, b)
}

// opaqueMod: remainders by a value that is not a constant are those of some
// function of which only the range is known (contract keyword opaque_mod).
var opaqueMod bool

func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	ba, ca := splitAdd0(a)
	bb, cb := splitAdd0(b)
	if ba == bb {
		if ca.Cmp(cb) < 0 {
			return True
		}
		return False
	}
	return mk("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	ba, ca := splitAdd0(a)
	bb, cb := splitAdd0(b)
	if ba == bb {
		if ca.Cmp(cb) <= 0 {
			return True
		}
		return False
	}
	return mk("<=", SBool, a, b)
}

func Select(a, i *Term) *Term {
	if a.Sort.Idx == nil {
		panic("select on " + a.Sort.Name + " " + a.Str())
	}
	if a.Sort.Idx != i.Sort {
		panic(fmt.Sprintf("select index sort %s, array %s", i.Sort, a.Sort))
	}
	cur := a
	for {
		d := cur.look()
		if d.Op == "store" {
			switch refCmp(d.Args[1], i) {
			case 1:
				return d.Args[2]
			case -1:
				cur = d.Args[0]
				continue
			}
		}
		if d.Op == "constarr" {
			return d.Args[0]
		}
		break
	}
	return mk("select", a.Sort.Elt, cur, i)
}

func Store(a, i, v *Term) *Term {
	if a.Sort.Elt != v.Sort || a.Sort.Idx != i.Sort {
		panic(fmt.Sprintf("store sorts: %s [%s] := %s", a.Sort, i.Sort, v.Sort))
	}
	d := a.look()
	if d.Op == "store" && refCmp(d.Args[1], i) == 1 {
		return mk("store", a.Sort, d.Args[0], i, v)
	}
	return mk("store", a.Sort, a, i, v)
}

func ConstArr(s *Sort, v *Term) *Term {
	return mk("constarr", s, v)
}

func App(f string, s *Sort, args ...*Term) *Term {
	return mk(f, s, args...)
}

func Forall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", bound, body, pats)
}
func Exists(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", bound, body, pats)
}

func quant(q string, bound []*Term, body *Term, pats [][]*Term) *Term {
	if body.isLit() {
		return body
	}
	if len(bound) == 0 {
		return body
	}
	var b strings.Builder
	b.WriteString(q)
	for _, x := range bound {
		fmt.Fprintf(&b, " %d", x.ID)
	}
	for _, p := range pats {
		b.WriteString(" {")
		for _, x := range p {
			fmt.Fprintf(&b, " %d", x.ID)
		}
	}
	t := mk(b.String(), SBool, body)
	t.Bound = bound
	t.Pats = pats
	return t
}

func BoundVar(name string, s *Sort) *Term {
	freshN++
	return mk(fmt.Sprintf("%s?%d", strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return '_'
	}, name), freshN), s)
}

// ---- slices, refs

func Obj(id *Term) *Term         { return mk("obj", SRef, id) }
func Fld(b *Term, i int64) *Term { return mk("fld", SRef, b, I(i)) }
func Elm(b, i *Term) *Term       { return mk("elm", SRef, b, i) }

var Null *Term

func init() { Null = Obj(I(0)) }

// ---- printing

func (t *Term) Str() string {
	var b strings.Builder
	printTerm(&b, t, nil)
	s := b.String()
	return s
}

func printTerm(b *strings.Builder, t *Term, names map[int]string) {
	if names != nil {
		if n, ok := names[t.ID]; ok {
			b.WriteString(n)
			return
		}
	}
	if t.Bound != nil {
		q := "forall"
		if strings.HasPrefix(t.Op, "exists") {
			q = "exists"
		}
		b.WriteString("(" + q + " (")
		for _, x := range t.Bound {
			b.WriteString("(" + x.Op + " " + x.Sort.Name + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		printTerm(b, t.Args[0], names)
		for _, p := range t.Pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				printTerm(b, x, names)
			}
			b.WriteString(")")
		}
		if t.Weight > 0 && len(t.Pats) > 0 {
			fmt.Fprintf(b, " :weight %d", t.Weight)
		}
		if len(t.Pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	if t.Op == "constarr" {
		b.WriteString("((as const " + t.Sort.Name + ") ")
		printTerm(b, t.Args[0], names)
		b.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		b.WriteString(t.Op)
		return
	}
	b.WriteByte('(')
	b.WriteString(t.Op)
	for _, a := range t.Args {
		b.WriteByte(' ')
		printTerm(b, a, names)
	}
	b.WriteByte(')')
}

// free symbols
func collectSyms(t *Term, seen map[int]bool, out map[string]*Term) {
	if seen[t.ID] {
		return
	}
	seen[t.ID] = true
	if t.isSym {
		out[t.Op] = t
	}
	for _, a := range t.Args {
		collectSyms(a, seen, out)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			collectSyms(x, seen, out)
		}
	}
}

func hasSym(t *Term, set map[*Term]bool, memo map[int]bool) bool {
	if v, ok := memo[t.ID]; ok {
		return v
	}
	if set[t] {
		memo[t.ID] = true
		return true
	}
	r := false
	if t.Def != nil && hasSym(t.Def, set, memo) {
		r = true
	}
	for _, a := range t.Args {
		if r {
			break
		}
		if hasSym(a, set, memo) {
			r = true
		}
	}
	memo[t.ID] = r
	return r
}

// Subst replaces terms by terms (used for bound variables).
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r := m[t]; r != nil {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r := memo[t.ID]; r != nil {
			return r
		}
		ch := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			if t.Bound != nil {
				q := "forall"
				if strings.HasPrefix(t.Op, "exists") {
					q = "exists"
				}
				var pats [][]*Term
				for _, p := range t.Pats {
					var np []*Term
					for _, x := range p {
						np = append(np, rec(x))
					}
					pats = append(pats, np)
				}
				r = quant(q, t.Bound, args[0], pats)
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t.ID] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	if normSub && t.Sort == SInt && (t.Op == "+" || t.Op == "-" && len(args) == 2) {
		return linNorm(mk(t.Op, SInt, args...))
	}
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Imp(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "+":
		if t.Sort == SInt {
			return Add(args[0], args[1])
		}
	case "-":
		if t.Sort == SInt && len(args) == 2 {
			return Sub(args[0], args[1])
		}
	case "<":
		if args[0].Sort == SInt {
			return Lt(args[0], args[1])
		}
	case "<=":
		if args[0].Sort == SInt {
			return Le(args[0], args[1])
		}
	}
	return mk(t.Op, t.Sort, args...)
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// linParts: t as a sum of terms with coefficients and a constant.
func linParts(t *Term, k *big.Int, m map[*Term]*big.Int, c *big.Int) {
	switch {
	case t.IVal != nil:
		c.Add(c, new(big.Int).Mul(k, t.IVal))
	case t.Op == "+" && t.Sort == SInt:
		for _, a := range t.Args {
			linParts(a, k, m, c)
		}
	case t.Op == "-" && t.Sort == SInt && len(t.Args) == 2:
		linParts(t.Args[0], k, m, c)
		linParts(t.Args[1], new(big.Int).Neg(k), m, c)
	case t.Op == "*" && t.Sort == SInt && t.Args[1].IVal != nil:
		linParts(t.Args[0], new(big.Int).Mul(k, t.Args[1].IVal), m, c)
	default:
		if m[t] == nil {
			m[t] = new(big.Int)
		}
		m[t].Add(m[t], k)
	}
}

func linBuild(m map[*Term]*big.Int, c *big.Int) *Term {
	var ts []*Term
	for t, k := range m {
		if k.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	var r *Term
	for _, t := range ts {
		if k := m[t]; k.Sign() > 0 {
			x := Mul(t, IB(k))
			if r == nil {
				r = x
			} else {
				r = mk("+", SInt, r, x)
			}
		}
	}
	for _, t := range ts {
		if k := m[t]; k.Sign() < 0 {
			x := Mul(t, IB(new(big.Int).Neg(k)))
			if r == nil {
				r = I(0)
			}
			r = mk("-", SInt, r, x)
		}
	}
	if r == nil {
		return IB(c)
	}
	return Add(r, IB(c))
}

// linNorm cancels opposite terms of a sum.
func linNorm(t *Term) *Term {
	if t.Sort != SInt || t.Op != "+" && t.Op != "-" {
		return t
	}
	m, c := map[*Term]*big.Int{}, new(big.Int)
	linParts(t, big.NewInt(1), m, c)
	return linBuild(m, c)
}

// normQuant shifts bound variables so that the indices in the pattern are the
// variables themselves.
func normQuant(bs []*Term, body *Term, pat []*Term) (*Term, []*Term) {
	isB := map[*Term]bool{}
	for _, b := range bs {
		isB[b] = true
	}
	sub := map[*Term]*Term{}
	done := map[*Term]bool{}
	seen := map[int]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		var ix *Term
		if t.Op == "elm" || t.Op == "select" || t.Op != "+" && t.Op != "-" && t.Op != "*" && !isConn(t.Op) && len(t.Args) > 0 {
			for _, a := range t.Args {
				if a.Sort == SInt && (a.Op == "+" || a.Op == "-") || isB[a] {
					ix = a
					m, c := map[*Term]*big.Int{}, new(big.Int)
					linParts(ix, big.NewInt(1), m, c)
					var v *Term
					n := 0
					for x, k := range m {
						if isB[x] {
							if k.Cmp(big.NewInt(1)) == 0 {
								v = x
							}
							n++
						} else if freeBoundIn(x, isB) {
							n = 9
						}
					}
					if v != nil && n == 1 && !done[v] {
						done[v] = true
						delete(m, v)
						rest := linBuild(m, c)
						if rest != I(0) {
							sub[v] = Sub(v, rest)
						}
					}
				}
			}
		}
		for _, a := range t.Args {
			scan(a)
		}
	}
	for _, p := range pat {
		scan(p)
	}
	if len(sub) == 0 {
		return body, pat
	}
	normSub = true
	defer func() { normSub = false }()
	nb := Subst(body, sub)
	var np []*Term
	for _, p := range pat {
		np = append(np, Subst(p, sub))
	}
	return nb, np
}

var normSub bool

func isConn(op string) bool {
	switch op {
	case "and", "or", "not", "=>", "=", "ite", "<", "<=", "div", "mod":
		return true
	}
	return false
}

func freeBoundIn(t *Term, isB map[*Term]bool) bool {
	for id := range freeVars(t) {
		for b := range isB {
			if b.ID == id {
				return true
			}
		}
	}
	return false
}
