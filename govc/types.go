// Go types -> SMT sorts, and values.
package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Loc struct {
	Heap string
	Ref  *Term
	Idx  *Term      // element index for E heaps
	Typ  types.Type // type of the value stored there
}

type Closure struct {
	Fn   *ssa.Function
	Bind []Val
}

type Iter struct {
	Cell string // ghost cell key in the state holding the position
	Str  *Term
	ID   int
}

type Val struct {
	T   *Term
	Fs  []Val
	Loc *Loc
	Clo *Closure
	It  *Iter
}

func tv(t *Term) Val { return Val{T: t} }

type unsupported struct{ msg string }

func unsup(msg string) { panic(unsupported{msg}) }

type intInfo struct {
	w      int
	signed bool
}

func intOf(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return intInfo{64, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Int32:
		return intInfo{32, true}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint8:
		return intInfo{8, false}, true
	case types.UntypedInt, types.UntypedRune:
		return intInfo{64, true}, true
	}
	return intInfo{}, false
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func (ii intInfo) lo() *big.Int {
	if ii.signed {
		return new(big.Int).Neg(pow2(ii.w - 1))
	}
	return new(big.Int)
}
func (ii intInfo) hi() *big.Int {
	if ii.signed {
		return new(big.Int).Sub(pow2(ii.w-1), big.NewInt(1))
	}
	return new(big.Int).Sub(pow2(ii.w), big.NewInt(1))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// IdxSort: sort of slice indices.
func idxSort(m Mode) *Sort {
	if m == ModeBV {
		return SBV(64)
	}
	return SInt
}

// sortOf a scalar type; nil for composites (structs, tuples, arrays of structs)
func sortOf(t types.Type, m Mode) *Sort {
	if ii, ok := intOf(t); ok {
		if m == ModeBV {
			return SBV(ii.w)
		}
		return SInt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return SRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Signature:
		return SFn
	case *types.Array:
		if e := sortOf(u.Elem(), m); e != nil && e.Idx == nil {
			return SArr(idxSort(m), e)
		}
	}
	return nil
}

func isScalar(t types.Type, m Mode) bool {
	if _, ok := t.Underlying().(*types.Array); ok {
		return false
	}
	return sortOf(t, m) != nil
}

func elemHeap(t types.Type) string { return "E." + typeStr(t) }
func cellHeap(t types.Type) string { return "C." + typeStr(t) }
func fieldHeap(st types.Type, f string) string {
	return "F." + typeStr(st) + "." + f
}
func mapHas(m *types.Map) string {
	return "M." + typeStr(m.Key()) + "." + typeStr(m.Elem()) + ".has"
}
func mapVal(m *types.Map) string {
	return "M." + typeStr(m.Key()) + "." + typeStr(m.Elem()) + ".val"
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// heapInfo: what a heap maps to.
type heapInfo struct {
	typ  types.Type // value type (nil for ghost sorts)
	sort *Sort      // sort of the whole heap
	elem bool
	m    Mode
}

func slBase(s *Term) *Term {
	if d := s.look(); d.Op == "mk-slice" {
		return d.Args[0]
	}
	return iteLift("sl-base", SRef, s, 0)
}
func slOff(s *Term, m Mode) *Term { return slPart("sl-off", s, 1, m) }
func slLen(s *Term, m Mode) *Term { return slPart("sl-len", s, 2, m) }
func slCap(s *Term, m Mode) *Term { return slPart("sl-cap", s, 3, m) }
func slPart(op string, s *Term, i int, m Mode) *Term {
	if d := s.look(); d.Op == "mk-slice" {
		return d.Args[i]
	}
	return iteLift(op, idxSort(m), s, i)
}
func iteLift(op string, so *Sort, s *Term, i int) *Term {
	d := s.look()
	if d.Op == "ite" && (d.Args[1].look().Op == "mk-slice" || d.Args[2].look().Op == "mk-slice") {
		f := func(x *Term) *Term {
			if x.look().Op == "mk-slice" {
				return x.look().Args[i]
			}
			return mk(op, so, x)
		}
		return Ite(d.Args[0], f(d.Args[1]), f(d.Args[2]))
	}
	return mk(op, so, s)
}
func mkSlice(b, o, l, c *Term) *Term { return mk("mk-slice", SSlice, b, o, l, c) }
func ifTag(t *Term) *Term {
	if d := t.look(); d.Op == "mk-iface" {
		return d.Args[0]
	}
	return mk("if-tag", SInt, t)
}
func ifRef(t *Term) *Term {
	if d := t.look(); d.Op == "mk-iface" {
		return d.Args[1]
	}
	return mk("if-ref", SRef, t)
}
func mkIface(tag, ref *Term) *Term { return mk("mk-iface", SIface, tag, ref) }

var NilIface *Term
var NilFunc *Term

func init() {
	NilIface = mkIface(I(0), Null)
	NilFunc = Sym("func.nil", SFn)
}

func rootid(r *Term) *Term {
	r = r.look()
	switch r.Op {
	case "obj":
		return r.Args[0]
	case "fld", "elm":
		return rootid(r.Args[0])
	}
	return mk("rootid", SInt, r)
}
