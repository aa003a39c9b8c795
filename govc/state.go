// Symbolic state and heaps.
package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Unit    string            `json:"unit"`
	Name    string            `json:"name"`
	Kind    string            `json:"kind"`
	OK      bool              `json:"ok"`
	Backend string            `json:"backend"`
	Ms      int64             `json:"ms"`
	Detail  string            `json:"detail,omitempty"`
	Model   map[string]string `json:"model,omitempty"`
	done    chan struct{}
	goal    *Term
	pc      []*Term
}

type deferred struct {
	fnv  Val
	args []Val
	call ssa.CallInstruction
}

type loopCtx struct {
	header    *ssa.BasicBlock
	body      map[*ssa.BasicBlock]bool
	onBack    func(st *State, from *ssa.BasicBlock)
	stopExit  bool
	onExit    func(st *State)
	unroll    int // >0: plain unrolling up to this many further visits
	unrolling bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	ret    func(st *State, res []Val)
	defers []deferred
	loops  []*loopCtx
	free   []Val
	visits map[*ssa.BasicBlock]int
	depth  int
}

type State struct {
	pc     []*Term
	heap   map[string]*Term
	frames []*Frame
	alSym  *Term
	alOff  int64
	iters  map[int]*Term
	ax     map[int]bool // heap symbols whose typing axiom is in pc
	trail  []string
	last   *Frame // returned from last
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{pc: st.pc[:len(st.pc):len(st.pc)], alSym: st.alSym, alOff: st.alOff}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.iters = make(map[int]*Term, len(st.iters))
	for k, v := range st.iters {
		n.iters[k] = v
	}
	n.ax = make(map[int]bool, len(st.ax))
	for k := range st.ax {
		n.ax[k] = true
	}
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
		for k, v := range f.visits {
			g.visits[k] = v
		}
		g.loops = append([]*loopCtx(nil), f.loops...)
		g.defers = append([]deferred(nil), f.defers...)
		n.frames = append(n.frames, &g)
	}
	n.trail = st.trail[:len(st.trail):len(st.trail)]
	return n
}

type limit struct {
	sym *Term
	off int64
}

type ModLoc struct {
	heap string
	ref  *Term  // nil: whole heap
	kind string // point, structs (all elm(ref,*))
}

type writeRec struct {
	heap string
	ref  *Term // nil: anything
	kind string
}

type Engine struct {
	specs       *Specs
	mode        Mode
	sol         *Solver
	unit        string
	root        *ssa.Function
	con         *Contract
	axioms      []*Term
	hinfo       map[string]*heapInfo
	obls        []*Obligation
	quiet       int
	dry         int
	writes      []writeRec
	old         *State
	params      map[string]SVal
	mods        []ModLoc
	limOf       map[int]limit // heap symbol / ref symbol -> allocation limit
	freshAt     map[int]limit // refs known to be allocated since a limit
	alPar       map[int]limit // allocation symbol -> lower bound it was created with
	al0         *Term
	tags        map[string]int
	tagType     map[int]types.Type
	iterN       int
	rng         map[int][2]*big.Int
	paths       int
	hardLost    int // user invariants that could not be proved
	maxPath     int
	start       time.Time
	budget      time.Duration
	strAx       bool
	used        map[string]bool // contracts used at call sites
	inlined     map[string]bool
	trusted     map[string]bool
	returns     int
	covers      map[string]bool
	lits        map[string]*Term
	litAx       map[int][]*Term
	loopRes     map[string]bool
	nInv        int
	debug       bool
	curLoop     []*loopCtx
	preSt       *State // loop entry state for pre()
	prePhi      map[string]SVal
	qms         int
	queries     int
	sem         chan struct{}
	nFail       atomic.Int32
	undec       []string
	stopped     bool
	undecSeen   map[string]bool
	lemmaMode   bool
	retCover    []*Term
	noFrame     int
	dryPaths    int
	dryCut      bool
	recs        []*recorder
	axDone      map[int]bool
	inlStd      map[string]bool
	frameOld    map[int]*Term
	lastSpecErr string
	wrapMemo    map[wrapKey]bool
	pow2Ax      bool
	bitAx       map[string]bool
}

func (e *Engine) assume(st *State, t *Term) bool {
	if t == True {
		return true
	}
	if t == False {
		st.pc = append(st.pc, False)
		return false
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			if !e.assume(st, a) {
				return false
			}
		}
		return true
	}
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], t)
	return true
}

func dead(st *State) bool { return len(st.pc) > 0 && st.pc[len(st.pc)-1] == False }

// ---- allocation limits

func (e *Engine) lim(st *State) limit { return limit{st.alSym, st.alOff} }

func limTerm(l limit) *Term { return Add(l.sym, I(l.off)) }

// limLE: is a <= b for sure?
func (e *Engine) limLE(a, b limit) bool {
	for n := 0; n < 1000; n++ {
		if a.sym == b.sym {
			return a.off <= b.off
		}
		p, ok := e.alPar[b.sym.ID]
		if !ok {
			return false
		}
		b = p
	}
	return false
}

// boundOf: a limit below which the root id of r lies.
func (e *Engine) boundOf(r *Term) (limit, bool) {
	r = r.look()
	if l, ok := e.limOf[r.ID]; ok {
		return l, true
	}
	switch r.Op {
	case "obj":
		id := r.Args[0]
		if id.IVal != nil {
			return limit{e.al0, 0}, true
		}
		b, c := splitAdd(id)
		if b != nil && c.IsInt64() {
			if _, ok := e.alPar[b.ID]; ok || b == e.al0 {
				return limit{b, c.Int64() + 1}, true
			}
		}
	case "fld", "elm", "sl-base", "if-ref":
		return e.boundOf(r.Args[0])
	case "select":
		// an entry of a heap is older than the heap if its address is
		h := r.Args[0].look()
		addr := r.Args[1]
		for h.Op == "select" {
			addr = h.Args[1]
			h = h.Args[0].look()
		}
		l, ok := e.boundOf(h)
		if ok && addr.Sort == SRef {
			la, oka := e.boundOf(addr)
			if !oka {
				return limit{}, false
			}
			if !e.limLE(la, l) {
				if e.limLE(l, la) {
					return la, true
				}
				return limit{}, false
			}
		}
		return l, ok
	case "store":
		a, ok1 := e.boundOf(r.Args[0])
		b, ok2 := e.boundOf(r.Args[2])
		if ok1 && ok2 {
			if e.limLE(a, b) {
				return b, true
			}
			if e.limLE(b, a) {
				return a, true
			}
		}
	case "mk-slice":
		return e.boundOf(r.Args[0])
	case "mk-iface":
		return e.boundOf(r.Args[1])
	case "constarr":
		return e.boundOf(r.Args[0])
	case "ite":
		a, ok1 := e.boundOf(r.Args[1])
		b, ok2 := e.boundOf(r.Args[2])
		if ok1 && ok2 {
			if e.limLE(a, b) {
				return b, true
			}
			if e.limLE(b, a) {
				return a, true
			}
		}
	}
	return limit{}, false
}

// sep: surely distinct references?
func (e *Engine) sep(a, b *Term) bool {
	if a.Sort != SRef || b.Sort != SRef {
		return false
	}
	f := func(a, b *Term) bool {
		r := a.look()
		for {
			if l, ok := e.freshAt[r.ID]; ok {
				lb, ok := e.boundOf(b)
				return ok && e.limLE(lb, l)
			}
			if r.Op != "fld" && r.Op != "elm" {
				break
			}
			r = r.Args[0].look()
		}
		if r.Op != "obj" || r.Args[0].IVal != nil {
			return false
		}
		base, c := splitAdd(r.Args[0])
		if base == nil || !c.IsInt64() {
			return false
		}
		if _, ok := e.alPar[base.ID]; !ok && base != e.al0 {
			return false
		}
		lb, ok := e.boundOf(b)
		return ok && e.limLE(lb, limit{base, c.Int64()})
	}
	return f(a, b) || f(b, a)
}

func (e *Engine) alloc(st *State) *Term {
	r := Obj(Add(st.alSym, I(st.alOff)))
	st.alOff++
	return r
}

func (e *Engine) bumpAlloc(st *State) {
	n := Fresh("al", SInt)
	e.alPar[n.ID] = limit{st.alSym, st.alOff}
	e.assume(st, Le(limTerm(limit{st.alSym, st.alOff}), n))
	st.alSym, st.alOff = n, 0
}

// fresh reference (not null, not older) ?
func (e *Engine) isFreshSyn(r *Term, since limit) bool {
	r = r.look()
	for {
		if l, ok := e.freshAt[r.ID]; ok && e.limLE(since, l) {
			return true
		}
		if r.Op != "fld" && r.Op != "elm" && r.Op != "sl-base" && r.Op != "if-ref" {
			break
		}
		r = r.Args[0].look()
	}
	if r.Op != "obj" || r.Args[0].IVal != nil {
		return false
	}
	b, c := splitAdd(r.Args[0])
	if b == nil || !c.IsInt64() {
		return false
	}
	return e.limLE(since, limit{b, c.Int64()})
}

// ---- heaps

func (e *Engine) heapOf(name string, t types.Type, elem bool) *heapInfo {
	if h := e.hinfo[name]; h != nil {
		return h
	}
	s := sortOf(t, e.mode)
	if s == nil {
		unsup("heap of composite type " + typeStr(t) + " (" + name + ")")
	}
	var hs *Sort
	if elem {
		hs = SArr(SRef, SArr(idxSort(e.mode), s))
	} else {
		hs = SArr(SRef, s)
	}
	h := &heapInfo{typ: t, sort: hs, elem: elem, m: e.mode}
	e.hinfo[name] = h
	return h
}

func (e *Engine) newHeapSym(st *State, name, sfx string) *Term {
	h := e.hinfo[name]
	var s *Term
	if sfx == "@0" {
		s = Sym(name+"@0", h.sort)
		e.limOf[s.ID] = limit{e.al0, 0}
	} else {
		s = Fresh(name, h.sort)
		e.limOf[s.ID] = e.lim(st)
	}
	return s
}

// typeAx: every entry of the heap symbol is well typed.
func (e *Engine) typeAx(st *State, name string, s *Term) {
	if st.ax[s.ID] {
		return
	}
	st.ax[s.ID] = true
	h := e.hinfo[name]
	if h.typ == nil {
		return
	}
	first := strings.HasSuffix(strings.TrimSuffix(s.Op, "|"), "@0")
	if first && e.axDone[s.ID] {
		return
	}
	r := BoundVar("r", SRef)
	var x *Term
	bound := []*Term{r}
	if h.elem {
		i := BoundVar("i", idxSort(e.mode))
		x = Select(Select(s, r), i)
		bound = append(bound, i)
	} else {
		x = Select(s, r)
	}
	f := e.typeFact(x, h.typ, e.limOf[s.ID])
	if f == True {
		return
	}
	switch h.typ.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		// entries of objects allocated later are not covered
		f = Imp(mk("<", SBool, rootid(r), limTerm(e.limOf[s.ID])), f)
	}
	q := Forall(bound, f, []*Term{x})
	if first {
		// facts about the initial heap hold on every path
		e.axDone[s.ID] = true
		e.sol.axioms = append(e.sol.axioms, q)
		return
	}
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], q)
}

func (e *Engine) H(st *State, name string) *Term {
	if t := st.heap[name]; t != nil {
		return t
	}
	s := e.newHeapSym(st, name, "@0")
	st.heap[name] = s
	e.typeAx(st, name, s)
	return s
}

// typeFact: what its type says about a scalar value.
func (e *Engine) typeFact(x *Term, t types.Type, l limit) *Term {
	if l.sym == nil {
		l = limit{e.al0, 0}
	}
	if ii, ok := intOf(t); ok {
		if e.mode == ModeBV {
			return True
		}
		if x.IVal != nil {
			return True
		}
		return And(Le(IB(ii.lo()), x), Le(x, IB(ii.hi())))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		if x.look().Op == "obj" {
			return True
		}
		return And(mk("<", SBool, rootid(x), limTerm(l)))
	case *types.Slice:
		if x.look().Op == "mk-slice" && x.look().Args[0].look().Op == "obj" && x.look().Args[2].IVal != nil {
			return True
		}
		m := e.mode
		if m == ModeBV {
			z := BVL(big.NewInt(0), 64)
			mx := BVL(pow2(61), 64)
			return And(
				mk("bvsle", SBool, z, slOff(x, m)), mk("bvsle", SBool, z, slLen(x, m)),
				mk("bvsle", SBool, slLen(x, m), slCap(x, m)),
				mk("bvsle", SBool, slCap(x, m), mx), mk("bvsle", SBool, slOff(x, m), mx),
				mk("<", SBool, rootid(slBase(x)), limTerm(l)),
				Imp(Eq(slBase(x), Null), And(Eq(slLen(x, m), z), Eq(slCap(x, m), z))))
		}
		mx := IB(pow2(61))
		return And(Le(I(0), slOff(x, m)), Le(I(0), slLen(x, m)), Le(slLen(x, m), slCap(x, m)),
			Le(slCap(x, m), mx), Le(slOff(x, m), mx),
			mk("<", SBool, rootid(slBase(x)), limTerm(l)),
			Imp(Eq(slBase(x), Null), Eq(slCap(x, m), I(0))))
	case *types.Interface:
		if x.look().Op == "mk-iface" {
			return True
		}
		return And(Le(I(0), ifTag(x)), mk("<", SBool, rootid(ifRef(x)), limTerm(l)),
			Imp(Eq(ifTag(x), I(0)), Eq(ifRef(x), Null)))
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return e.strFact(x)
		}
	}
	return True
}

func (e *Engine) strFact(x *Term) *Term {
	if e.mode == ModeBV {
		l := e.strLen(x)
		return And(mk("bvsle", SBool, BVL(big.NewInt(0), 64), l), mk("bvsle", SBool, l, BVL(pow2(61), 64)))
	}
	return And(Le(I(0), e.strLen(x)), Le(e.strLen(x), IB(pow2(61))))
}

func (e *Engine) strLen(s *Term) *Term {
	if s.Op == "str.of" {
		return s.Args[2]
	}
	if l, ok := litText[s.ID]; ok {
		return e.idx(int64(len(l)))
	}
	declFun("str.length", idxSort(e.mode), SStr)
	return mk("str.length", idxSort(e.mode), s)
}

func (e *Engine) strAt(s, i *Term) *Term {
	bs := sortOf(types.Typ[types.Uint8], e.mode)
	if s.Op == "str.of" {
		return Select(s.Args[0], e.addIdx(s.Args[1], i))
	}
	if l, ok := litText[s.ID]; ok && i.IVal != nil && i.IVal.IsInt64() && i.IVal.Int64() < int64(len(l)) && i.IVal.Sign() >= 0 {
		c := int64(l[i.IVal.Int64()])
		if e.mode == ModeBV {
			return BVL(big.NewInt(c), 8)
		}
		return I(c)
	}
	_ = bs
	return Select(e.strArr(s), i)
}

func (e *Engine) strOf(arr, off, n *Term) *Term {
	declFun("str.of", SStr, arr.Sort, idxSort(e.mode), idxSort(e.mode))
	if !e.strAx {
		e.strAx = true
		ix := idxSort(e.mode)
		declFun("str.length", ix, SStr)
		a, o, n, i := BoundVar("a", arr.Sort), BoundVar("o", ix), BoundVar("n", ix), BoundVar("i", ix)
		s := mk("str.of", SStr, a, o, n)
		l := mk("str.length", ix, s)
		e.sol.axioms = append(e.sol.axioms, Forall([]*Term{a, o, n}, Imp(e.leIdx(e.idx(0), n), Eq(l, n)), []*Term{l}))
		at := mk("select", arr.Sort.Elt, e.strArr(s), i)
		e.sol.axioms = append(e.sol.axioms, Forall([]*Term{a, o, n, i}, Imp(And(e.leIdx(e.idx(0), i), e.ltIdx(i, n)), Eq(at, mk("select", arr.Sort.Elt, a, e.addIdx(o, i)))), []*Term{at}))
	}
	return mk("str.of", SStr, arr, off, n)
}

var litText = map[int]string{}

func (e *Engine) strLit(s string) *Term {
	t := Sym("lit:"+fmt.Sprintf("%q", s), SStr)
	litText[t.ID] = s
	return t
}

func (e *Engine) idx(n int64) *Term {
	if e.mode == ModeBV {
		return BVL(big.NewInt(n), 64)
	}
	return I(n)
}
func (e *Engine) addIdx(a, b *Term) *Term {
	if e.mode == ModeBV {
		return bvBin("bvadd", a, b)
	}
	return Add(a, b)
}
func (e *Engine) leIdx(a, b *Term) *Term {
	if e.mode == ModeBV {
		return bvCmp("bvsle", a, b)
	}
	return Le(a, b)
}
func (e *Engine) ltIdx(a, b *Term) *Term {
	if e.mode == ModeBV {
		return bvCmp("bvslt", a, b)
	}
	return Lt(a, b)
}
func (e *Engine) subIdx(a, b *Term) *Term {
	if e.mode == ModeBV {
		return bvBin("bvsub", a, b)
	}
	return Sub(a, b)
}

func bvCmp(op string, a, b *Term) *Term {
	if a == b {
		if op == "bvsle" || op == "bvule" {
			return True
		}
		return False
	}
	if a.IVal != nil && b.IVal != nil {
		x, y := a.IVal, b.IVal
		if op == "bvslt" || op == "bvsle" {
			x, y = toSigned(x, a.Sort.BV), toSigned(y, a.Sort.BV)
		}
		c := x.Cmp(y)
		if (op == "bvslt" || op == "bvult") && c < 0 || (op == "bvsle" || op == "bvule") && c <= 0 {
			return True
		}
		return False
	}
	return mk(op, SBool, a, b)
}

func toSigned(x *big.Int, w int) *big.Int {
	if x.Bit(w-1) == 1 {
		return new(big.Int).Sub(x, pow2(w))
	}
	return x
}

func bvBin(op string, a, b *Term) *Term {
	if a.IVal != nil && b.IVal != nil {
		r := new(big.Int)
		switch op {
		case "bvadd":
			return BVL(r.Add(a.IVal, b.IVal), a.Sort.BV)
		case "bvsub":
			return BVL(r.Sub(a.IVal, b.IVal), a.Sort.BV)
		case "bvmul":
			return BVL(r.Mul(a.IVal, b.IVal), a.Sort.BV)
		case "bvand":
			return BVL(r.And(a.IVal, b.IVal), a.Sort.BV)
		case "bvor":
			return BVL(r.Or(a.IVal, b.IVal), a.Sort.BV)
		case "bvxor":
			return BVL(r.Xor(a.IVal, b.IVal), a.Sort.BV)
		}
	}
	if b.IVal != nil && b.IVal.Sign() == 0 && (op == "bvadd" || op == "bvsub" || op == "bvor" || op == "bvxor" || op == "bvshl" || op == "bvlshr") {
		return a
	}
	if a.IVal != nil && a.IVal.Sign() == 0 && (op == "bvadd" || op == "bvor" || op == "bvxor") {
		return b
	}
	if op == "bvadd" && b.IVal != nil && a.Op == "bvadd" && a.Args[1].IVal != nil {
		return bvBin("bvadd", a.Args[0], bvBin("bvadd", a.Args[1], b))
	}
	return mk(op, a.Sort, a, b)
}

// ---- reads and writes

func (e *Engine) load(st *State, l Loc) *Term {
	e.heapOf(l.Heap, l.Typ, l.Idx != nil)
	h := e.H(st, l.Heap)
	var v *Term
	if l.Idx != nil {
		v = Select(Select(h, l.Ref), l.Idx)
	} else {
		v = Select(h, l.Ref)
	}
	return v
}

// learn puts the typing facts of a loaded value into the path condition.
func (e *Engine) learn(st *State, v *Term, t types.Type) {
	if v.isLit() {
		return
	}
	key := v.ID*4 + 1
	if st.ax[-key] {
		return
	}
	st.ax[-key] = true
	l, ok := e.boundOf(v)
	if !ok {
		l = e.lim(st)
	}
	e.assume(st, e.typeFact(v, t, l))
}

func (e *Engine) record(w writeRec) {
	for _, r := range e.recs {
		r.add(w)
	}
}

func (e *Engine) store(st *State, l Loc, v *Term, where string) {
	e.heapOf(l.Heap, l.Typ, l.Idx != nil)
	h := e.H(st, l.Heap)
	if l.Idx != nil {
		st.heap[l.Heap] = Store(h, l.Ref, Store(Select(h, l.Ref), l.Idx, v))
	} else {
		st.heap[l.Heap] = Store(h, l.Ref, v)
	}
	e.record(writeRec{l.Heap, l.Ref, "point"})
	e.checkFrame(st, l.Heap, l.Ref, where)
}

// setElems replaces the whole element array at a base.
func (e *Engine) setElems(st *State, heap string, base, arr *Term, where string) {
	h := e.H(st, heap)
	st.heap[heap] = Store(h, base, arr)
	e.record(writeRec{heap, base, "point"})
	e.checkFrame(st, heap, base, where)
}

func (e *Engine) checkFrame(st *State, heap string, ref *Term, where string) {
	if e.quiet > 0 || e.dry > 0 || e.noFrame > 0 || e.con == nil || e.con.ModAny || e.root == nil {
		return
	}
	if strings.HasPrefix(heap, "C.") && e.isFreshSyn(ref, limit{e.al0, 0}) {
		return
	}
	if e.isFreshSyn(ref, limit{e.al0, 0}) {
		return
	}
	var alts []*Term
	for _, m := range e.mods {
		if m.heap != heap {
			continue
		}
		if m.ref == nil {
			return
		}
		switch m.kind {
		case "point":
			alts = append(alts, Eq(m.ref, ref))
		case "structs":
			r := ref.look()
			if r.Op == "elm" {
				alts = append(alts, Eq(m.ref, r.Args[0]))
			} else if r.Op == "obj" || r.Op == "fld" {
			} else {
				alts = append(alts, And(mk("(_ is elm)", SBool, r), Eq(mk("ebase", SRef, r), m.ref)))
			}
		}
	}
	alts = append(alts, mk("<=", SBool, e.al0, rootid(ref)))
	if strings.HasPrefix(heap, "E.") {
		alts = append(alts, Eq(ref, Null))
	}
	e.prove(st, Or(alts...), "frame["+heap+"] "+where, "frame")
}

// havocAt forgets one heap entry.
func (e *Engine) havocAt(st *State, heap string, ref *Term) {
	h := e.H(st, heap)
	info := e.hinfo[heap]
	v := Fresh(heap, info.sort.Elt)
	e.limOf[v.ID] = e.lim(st)
	st.heap[heap] = Store(h, ref, v)
	if info.typ != nil {
		if info.elem {
			i := BoundVar("i", idxSort(e.mode))
			x := Select(v, i)
			if f := e.typeFact(x, info.typ, e.lim(st)); f != True {
				e.assume(st, Forall([]*Term{i}, f, []*Term{x}))
			}
		} else {
			e.assume(st, e.typeFact(v, info.typ, e.lim(st)))
		}
	}
}

func (e *Engine) havocHeap(st *State, heap string) (oldH, newH *Term) {
	oldH = e.H(st, heap)
	s := e.newHeapSym(st, heap, "")
	st.heap[heap] = s
	e.typeAx(st, heap, s)
	return oldH, s
}

// havocStructs forgets all elm(base,*) entries of the heap.
func (e *Engine) havocStructs(st *State, heap string, base *Term) {
	o, n := e.havocHeap(st, heap)
	r := BoundVar("r", SRef)
	e.assume(st, Forall([]*Term{r}, Imp(Not(And(mk("(_ is elm)", SBool, r), Eq(mk("ebase", SRef, r), base))), Eq(Select(n, r), Select(o, r))), []*Term{mk("select", n.Sort.Elt, n, r)}))
}

// leaves enumerates the scalar heaps of a struct type at a reference.
func (e *Engine) leaves(t types.Type, ref *Term, f func(heap string, ref *Term, typ types.Type, elem bool)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			fd := u.Field(i)
			if isScalar(fd.Type(), e.mode) {
				f(fieldHeap(t, fd.Name()), ref, fd.Type(), false)
			} else {
				var r *Term
				if ref != nil {
					r = Fld(ref, int64(i))
				}
				e.leaves(fd.Type(), r, f)
			}
		}
	case *types.Array:
		if isScalar(u.Elem(), e.mode) {
			f(elemHeap(u.Elem()), ref, u.Elem(), true)
		} else {
			// handled by callers needing structs at elm(ref, i)
			f("", ref, u.Elem(), true)
		}
	default:
		f(cellHeap(t), ref, t, false)
	}
}

// zero value of a scalar type
func (e *Engine) zero(t types.Type) *Term {
	if ii, ok := intOf(t); ok {
		if e.mode == ModeBV {
			return BVL(big.NewInt(0), ii.w)
		}
		return I(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return e.strLit("")
		case u.Info()&types.IsFloat != 0:
			return mk("0.0", SReal)
		}
		return Null
	case *types.Slice:
		return mkSlice(Null, e.idx(0), e.idx(0), e.idx(0))
	case *types.Interface:
		return NilIface
	case *types.Signature:
		return NilFunc
	case *types.Array:
		z := e.zero(u.Elem())
		return ConstArr(SArr(idxSort(e.mode), z.Sort), z)
	}
	return Null
}

func (e *Engine) zeroVal(t types.Type) Val {
	if s := structOf(t); s != nil {
		v := Val{Fs: []Val{}}
		for i := 0; i < s.NumFields(); i++ {
			v.Fs = append(v.Fs, e.zeroVal(s.Field(i).Type()))
		}
		return v
	}
	if sortOf(t, e.mode) == nil {
		unsup("zero value of " + typeStr(t))
	}
	return tv(e.zero(t))
}

// initZero: a freshly allocated object of type t at ref holds zero values.
func (e *Engine) initZero(st *State, t types.Type, ref *Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			fd := u.Field(i)
			if isScalar(fd.Type(), e.mode) {
				e.initAt(st, fieldHeap(t, fd.Name()), fd.Type(), ref)
			} else {
				e.initZero(st, fd.Type(), Fld(ref, int64(i)))
			}
		}
		for _, g := range e.specs.Ghosts {
			if g.Type == typeStr(t) {
				e.ghostHeap(g)
			}
		}
	case *types.Array:
		if isScalar(u.Elem(), e.mode) {
			n := elemHeap(u.Elem())
			e.heapOf(n, u.Elem(), true)
			st.heap[n] = Store(e.H(st, n), ref, e.zero(t))
		} else {
			e.initZeroElems(st, u.Elem(), ref, nil, nil)
		}
	default:
		e.initAt(st, cellHeap(t), t, ref)
	}
}

func (e *Engine) initAt(st *State, heap string, t types.Type, ref *Term) {
	e.heapOf(heap, t, false)
	st.heap[heap] = Store(e.H(st, heap), ref, e.zero(t))
}

// initZeroElems: all elements elm(base, i) of a fresh array of structs are
// zero (lo <= i < hi if given). The references are new, so nothing is known
// of them: the facts are assumed of the current heaps.
func (e *Engine) initZeroElems(st *State, t types.Type, base, lo, hi *Term) {
	i := BoundVar("i", idxSort(e.mode))
	var rng *Term = True
	if lo != nil {
		rng = And(e.leIdx(lo, i), e.ltIdx(i, hi))
	}
	var rec func(t types.Type, r *Term)
	rec = func(t types.Type, r *Term) {
		e.leaves(t, r, func(heap string, ref *Term, typ types.Type, elem bool) {
			if heap == "" {
				return
			}
			e.heapOf(heap, typ, elem)
			h := e.H(st, heap)
			x := Select(h, ref)
			if x.Op != "select" {
				return
			}
			var z *Term
			if elem {
				z = ConstArr(x.Sort, e.zero(typ))
			} else {
				z = e.zero(typ)
			}
			e.assume(st, Forall([]*Term{i}, Imp(rng, Eq(x, z)), []*Term{x}))
		})
	}
	rec(t, Elm(base, i))
}

// loadVal / storeVal move values of any type between SSA and the heap.
func (e *Engine) loadVal(st *State, t types.Type, ref *Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := Val{Fs: []Val{}}
		for i := 0; i < u.NumFields(); i++ {
			fd := u.Field(i)
			if isScalar(fd.Type(), e.mode) {
				x := e.load(st, Loc{fieldHeap(t, fd.Name()), ref, nil, fd.Type()})
				e.learn(st, x, fd.Type())
				v.Fs = append(v.Fs, tv(x))
			} else {
				v.Fs = append(v.Fs, e.loadVal(st, fd.Type(), Fld(ref, int64(i))))
			}
		}
		return v
	case *types.Array:
		if !isScalar(u.Elem(), e.mode) {
			unsup("load of array of structs")
		}
		n := elemHeap(u.Elem())
		e.heapOf(n, u.Elem(), true)
		return tv(Select(e.H(st, n), ref))
	}
	x := e.load(st, Loc{cellHeap(t), ref, nil, t})
	e.learn(st, x, t)
	return tv(x)
}

func (e *Engine) storeVal(st *State, t types.Type, ref *Term, v Val, where string) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v.Fs == nil {
			unsup("struct value")
		}
		for i := 0; i < u.NumFields(); i++ {
			fd := u.Field(i)
			if isScalar(fd.Type(), e.mode) {
				e.store(st, Loc{fieldHeap(t, fd.Name()), ref, nil, fd.Type()}, e.scalar(st, v.Fs[i], fd.Type()), where)
			} else {
				e.storeVal(st, fd.Type(), Fld(ref, int64(i)), v.Fs[i], where)
			}
		}
		return
	case *types.Array:
		if !isScalar(u.Elem(), e.mode) {
			unsup("store of array of structs")
		}
		n := elemHeap(u.Elem())
		e.heapOf(n, u.Elem(), true)
		e.setElems(st, n, ref, v.T, where)
		return
	}
	e.store(st, Loc{cellHeap(t), ref, nil, t}, e.scalar(st, v, t), where)
}

// scalar gives the term of a value that must live in the heap.
func (e *Engine) scalar(st *State, v Val, t types.Type) *Term {
	if v.T != nil {
		return v.T
	}
	if v.Clo != nil {
		return e.closureTerm(v.Clo)
	}
	if v.Loc != nil {
		if v.Loc.Idx == nil && strings.HasPrefix(v.Loc.Heap, "C.") {
			return v.Loc.Ref
		}
		unsup("address of a field or element stored in the heap")
	}
	unsup("value of type " + typeStr(t) + " stored in the heap")
	return nil
}

var cloTab = map[int]*Closure{}

func (e *Engine) closureTerm(c *Closure) *Term {
	var t *Term
	if len(c.Bind) == 0 {
		t = Sym("func:"+c.Fn.String(), SFn)
	} else {
		t = Fresh("clo:"+c.Fn.Name(), SFn)
	}
	cloTab[t.ID] = c
	return t
}

// ---- obligations

func (e *Engine) timeLeft() bool { return time.Since(e.start) < e.budget }

func (e *Engine) prove(st *State, goal *Term, name, kind string) {
	if e.dry > 0 {
		return
	}
	if e.quiet > 0 {
		e.assume(st, goal)
		return
	}
	if goal.Op == "and" {
		for i, g := range goal.Args {
			e.prove(st, g, fmt.Sprintf("%s.%d", name, i+1), kind)
		}
		return
	}
	if goal.Op == "=>" && goal.Args[1].Op == "and" {
		for i, g := range goal.Args[1].Args {
			e.prove(st, Imp(goal.Args[0], g), fmt.Sprintf("%s.%d", name, i+1), kind)
		}
		return
	}
	o := &Obligation{Unit: e.unit, Name: name, Kind: kind}
	e.obls = append(e.obls, o)
	if goal == True {
		o.OK, o.Backend = true, "simplifier"
		return
	}
	t0 := time.Now()
	if !e.timeLeft() {
		o.Detail = "time budget of the unit used up"
		e.assume(st, goal)
		return
	}
	ms := 2500
	if e.con != nil && e.con.Timeout > 0 {
		ms = e.con.Timeout
	}
	ms *= slowly
	// the incremental solver answers easy goals at once; hard ones go to new
	// processes, whole and then taken apart
	inc := ms
	if inc > 600 {
		inc = 600
	}
	r := e.sol.Check(st.pc, []*Term{Not(goal)}, inc)
	if r == Unsat {
		o.OK, o.Backend = true, "z3-5.3.2 (incremental)"
	} else if ok, by := e.holdsFresh(st, goal, ms); ok {
		r = Unsat
		o.OK, o.Backend = true, by
	} else if ok, by := e.holdsSplit(st, goal, ms); ok {
		r = Unsat
		o.OK, o.Backend = true, by
	}
	o.Ms = time.Since(t0).Milliseconds()
	if r != Unsat {
		if d := os.Getenv("GOVC_DUMP"); d != "" {
			dumpN++
			os.WriteFile(fmt.Sprintf("%s/p%d.smt2", d, dumpN), []byte(z3Opts(false)+script(e.mode, e.sol.axioms, st.pc, []*Term{Not(goal)}, false)), 0o644)
		}
		e.second(o, st.pc[:len(st.pc):len(st.pc)], goal)
	}
	if e.debug {
		fmt.Printf("  [%5dms] %v %s\n", o.Ms, r, name)
	}
	e.assume(st, goal)
}

// second opinion, in the background
func (e *Engine) second(o *Obligation, pc []*Term, goal *Term) {
	txt := script(e.mode, e.sol.axioms, pc, []*Term{Not(goal)}, false)
	o.done = make(chan struct{})
	o.goal, o.pc = goal, pc
	go func() {
		e.sem <- struct{}{}
		defer func() { <-e.sem; close(o.done) }()
		if e.nFail.Load() >= 2 {
			o.Detail = "not tried again: other obligations of the unit failed"
			return
		}
		t0 := time.Now()
		r, b := OneShotText(txt, oneShotMs)
		o.Ms += time.Since(t0).Milliseconds()
		if r == Unsat {
			o.OK, o.Backend = true, b
		} else {
			e.nFail.Add(1)
			o.Detail = r.String()
			if r == Sat {
				o.Backend = b
			}
		}
	}()
}

var oneShotMs = 12000

func (e *Engine) finish() {
	for _, o := range e.obls {
		if o.done != nil {
			<-o.done
			if !o.OK {
				o.Model = Model(e.mode, o.pc, []*Term{Not(o.goal)}, e.wanted(), 3000)
			}
			o.pc, o.goal = nil, nil
		}
	}
}

// wanted: terms whose values are replay hints.
func (e *Engine) wanted() []*Term {
	var out []*Term
	var ks []string
	for k := range e.params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := e.params[k]
		if v.V.T == nil {
			continue
		}
		switch v.V.T.Sort {
		case SSlice:
			out = append(out, slLen(v.V.T, e.mode))
		case SRef, SStr, SFn, SIface:
		default:
			if v.V.T.isSym {
				out = append(out, v.V.T)
			}
		}
	}
	return out
}

// holdsFresh asks a new solver process (an incremental one sometimes misses
// instances a fresh one finds).
func (e *Engine) holdsFresh(st *State, goal *Term, ms int) (bool, string) {
	t0 := time.Now()
	defer func() {
		e.sol.Time += time.Since(t0)
		if e.debug && time.Since(t0) > 400*time.Millisecond {
			fmt.Printf("    slow fresh query %v %.300s\n", time.Since(t0).Round(time.Millisecond), goal.Str())
		}
	}()
	r, n := race(fresh(ms), script(e.mode, e.sol.axioms, st.pc, []*Term{Not(goal)}, false), 3*ms)
	return r == Unsat, n
}

type subgoal struct {
	hyps []*Term
	goal *Term
}

// takeApart splits a goal below its quantifiers and implications.
func takeApart(hyps []*Term, g *Term, out *[]subgoal) { takeApartW(hyps, g, nil, out) }

// takeApartW also gives a witness for the existential parts.
func takeApartW(hyps []*Term, g *Term, w *Term, out *[]subgoal) {
	switch {
	case g.Op == "and":
		for _, a := range g.Args {
			takeApartW(hyps, a, w, out)
		}
	case g.Op == "=>":
		takeApartW(append(hyps[:len(hyps):len(hyps)], g.Args[0]), g.Args[1], w, out)
	case g.Bound != nil && strings.HasPrefix(g.Op, "forall"):
		m := map[*Term]*Term{}
		for _, b := range g.Bound {
			m[b] = Fresh("sk", b.Sort)
		}
		takeApartW(hyps, Subst(g.Args[0], m), w, out)
	case g.Bound != nil && strings.HasPrefix(g.Op, "exists") && w != nil && len(g.Bound) == 1 && g.Bound[0].Sort == w.Sort:
		takeApartW(hyps, Subst(g.Args[0], map[*Term]*Term{g.Bound[0]: w}), w, out)
	case g.Op == "not" && g.Args[0].Op == "or":
		for _, a := range g.Args[0].Args {
			takeApartW(hyps, Not(a), w, out)
		}
	default:
		*out = append(*out, subgoal{hyps, g})
	}
}

// holdsSplit proves the parts of a goal one by one.
func (e *Engine) holdsSplit(st *State, goal *Term, ms int) (bool, string) {
	if hasExists(goal) {
		for _, w := range e.witnesses(st) {
			if ok, by := e.holdsParts(st, goal, w, ms); ok {
				return true, by
			}
		}
	}
	return e.holdsParts(st, goal, nil, ms)
}

func hasExists(t *Term) bool {
	if t.Bound != nil && strings.HasPrefix(t.Op, "exists") {
		return true
	}
	for _, a := range t.Args {
		if a.Sort == SBool && hasExists(a) {
			return true
		}
	}
	return false
}

// witnesses: the counters of the loops of the function.
func (e *Engine) witnesses(st *State) []*Term {
	var out []*Term
	fr := st.last
	if len(st.frames) > 0 {
		fr = st.top()
	}
	if fr == nil {
		return nil
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok || !isIntT(p.Type()) {
				continue
			}
			v, ok := fr.env[p]
			if !ok || v.T == nil {
				continue
			}
			if p.Comment == "rangeindex" {
				out = append([]*Term{e.addIdx(v.T, e.idx(1))}, out...)
			} else {
				out = append([]*Term{v.T}, out...)
			}
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return out
}

func (e *Engine) holdsParts(st *State, goal, w *Term, ms int) (bool, string) {
	var gs []subgoal
	takeApartW(nil, goal, w, &gs)
	if w == nil && len(gs) < 2 || len(gs) > 40 {
		return false, ""
	}
	t0 := time.Now()
	defer func() { e.sol.Time += time.Since(t0) }()
	sem := make(chan struct{}, 3)
	res := make(chan bool, len(gs))
	var stop atomic.Bool
	for _, g := range gs {
		ex := append(g.hyps[:len(g.hyps):len(g.hyps)], Not(g.goal))
		txt := script(e.mode, e.sol.axioms, st.pc, ex, false)
		go func() {
			sem <- struct{}{}
			defer func() { <-sem }()
			if stop.Load() {
				res <- false
				return
			}
			r, _ := race(fresh(ms), txt, 3*ms)
			if r != Unsat {
				stop.Store(true)
				if e.debug {
					fmt.Printf("    part: %.2000s\n", g.goal.Str())
				}
			}
			res <- r == Unsat
		}()
	}
	ok := true
	for range gs {
		if !<-res {
			ok = false
		}
	}
	if e.debug && !ok {
		fmt.Printf("    split into %d failed\n", len(gs))
	}
	return ok, fmt.Sprintf("z3/cvc5, in %d parts", len(gs))
}

// holds: is goal provable now? (no obligation)
func (e *Engine) holds(st *State, goal *Term, ms int) bool {
	if goal == True {
		return true
	}
	if goal == False && len(st.pc) == 0 {
		return false
	}
	e.queries++
	t0 := time.Now()
	r := e.sol.Check(st.pc, []*Term{Not(goal)}, ms*slowly)
	if e.debug && time.Since(t0) > 400*time.Millisecond {
		fmt.Printf("    slow query %v %v %.300s\n", time.Since(t0).Round(time.Millisecond), r, goal.Str())
	}
	return r == Unsat
}

func (e *Engine) feasible(st *State, ms int) bool {
	if dead(st) {
		return false
	}
	if e.dry > 0 {
		return true
	}
	e.queries++
	return e.sol.Check(st.pc, nil, ms) != Unsat
}

func (e *Engine) undecided(st *State, why string) {
	if e.dry > 0 {
		panic(unsupported{why})
	}
	if e.undecSeen == nil {
		e.undecSeen = map[string]bool{}
	}
	if e.undecSeen[why] {
		return
	}
	e.undecSeen[why] = true
	e.obls = append(e.obls, &Obligation{Unit: e.unit, Name: "undecided: " + why, Kind: "undecided", Detail: why})
}
