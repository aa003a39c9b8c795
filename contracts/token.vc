// C05: tokenization

axiom[char-first] 
  vars s: string, p: int
  concl cst(s, 0)
  trig cst(s, p)
  why characters of a string start at 0, at the end of the previous one, and nowhere between

axiom[char-next]
  vars s: string, p: int
  hyp 0 <= p && p < len(s) && cst(s, p)
  concl cst(s, p + rune_w(s, p)) && (forall i: int {cst(s, i)} :: p < i && i < p + rune_w(s, p) ==> !cst(s, i))
  trig rune_w(s, p)
  why characters of a string start at 0, at the end of the previous one, and nowhere between

define isword(r: int32): bool = isletter(r) || isdigit(r)

// bytes [a, b) of s hold characters of one kind
define kind(s: string, a: int, b: int, w: bool): bool =
  forall i: int {cst(s, i)} :: a <= i && i < b && cst(s, i) ==> isword(rune_at(s, i)) == w

// position in d of token t
define tpos(t: token.T, d: []uint8): int = off(t.Lit) - off(d)

define istok(s: string, d: []uint8, offset: int, t: token.T): bool =
  base(t.Lit) == base(d) && 0 <= tpos(t, d) && len(t.Lit) > 0 && tpos(t, d) + len(t.Lit) <= len(d)
  && cst(s, tpos(t, d))
  && t.Pos == u32(offset + tpos(t, d))
  && (t.Tag == token.Word || t.Tag == token.Other)
  && kind(s, tpos(t, d), tpos(t, d) + len(t.Lit), t.Tag == token.Word)

// tokens n0.. of ts cover exactly the first n bytes of d
define tiled(s: string, d: []uint8, offset: int, ts: []token.T, n0: int, n: int): bool =
  len(ts) >= n0
  && (forall k: int {ts[k]} :: n0 <= k && k < len(ts) ==> istok(s, d, offset, ts[k]))
  && (forall k: int, l: int {ts[k], ts[l]} :: n0 <= k && k < len(ts) && l == k+1 && l < len(ts) ==> tpos(ts[l], d) == tpos(ts[k], d) + len(ts[k].Lit) && ts[l].Tag != ts[k].Tag)
  && (len(ts) > n0 ==> tpos(ts[n0], d) == 0)
  && (len(ts) == n0 ? n == 0 : tpos(ts[len(ts)-1], d) + len(ts[len(ts)-1].Lit) == n)

define sametok(a: token.T, b: token.T): bool = a.Tag == b.Tag && a.Lit == b.Lit && a.Pos == b.Pos

// --- the tokens of a text: each ends where the kind of character changes
// end of the run of characters of one kind from position a
sfunc runend(s: string, a: int): int
definition[runend]
  hide
  vars s: string, a: int
  trig runend(s, a)
  hyp 0 <= a && a < len(s) && cst(s, a)
  concl runend(s, a) == (a + rune_w(s, a) >= len(s) || isword(rune_at(s, a + rune_w(s, a))) != isword(rune_at(s, a)) ? a + rune_w(s, a) : runend(s, a + rune_w(s, a)))
sfunc onekind(s: string, a: int, b: int, w: bool): bool
definition[onekind]
  vars s: string, a: int, b: int, w: bool
  trig onekind(s, a, b, w)
  concl onekind(s, a, b, w) == kind(s, a, b, w)
axiom[char-width]
  hide
  vars s: string, p: int
  hyp 0 <= p && p < len(s) && cst(s, p)
  concl rune_w(s, p) >= 1 && p + rune_w(s, p) <= len(s)
  trig rune_w(s, p)
  why a character has at least one byte and ends within the string
lemma[runend_n]
  uses runend char-width
  strong n
  hide
  vars s: string, a: int, n: int, w: bool
  apply runend_n(s, a + rune_w(s, a), n - rune_w(s, a), w)
  hyp 0 <= a && 0 < n && a + n <= len(s) && cst(s, a) && cst(s, a + n) && kind(s, a, a + n, w)
  hyp a + n == len(s) || isword(rune_at(s, a + n)) != w
  hint rune_w(s, a) <= n
  concl runend(s, a) == a + n
lemma[runend_is]
  vars s: string, a: int, b: int, w: bool
  trig runend(s, a), onekind(s, a, b, w)
  hyp 0 <= a && a < b && b <= len(s) && cst(s, a) && cst(s, b) && onekind(s, a, b, w)
  hyp b == len(s) || isword(rune_at(s, b)) != w
  apply runend_n(s, a, b - a, w)
  concl runend(s, a) == b
// token k of a text: where it starts; it ends where the next one starts
sfunc tb(s: string, k: int): int
definition[tb]
  vars s: string, k: int
  trig tb(s, k)
  concl tb(s, k) == (k <= 0 ? 0 : runend(s, tb(s, k - 1)))
sfunc tw(s: string, k: int): bool
definition[tw]
  vars s: string, k: int
  trig tw(s, k)
  concl tw(s, k) == isword(rune_at(s, tb(s, k)))
// the position a token gets: its place in the text, counted from the offset
sfunc posat(offset: int, i: int): int
definition[posat]
  vars o: int, i: int
  trig posat(o, i)
  concl posat(o, i) == u32(o + i)
define tokk(s: string, d: []uint8, offset: int, t: token.T, k: int): bool =
  base(t.Lit) == base(d) && tpos(t, d) == tb(s, k) && len(t.Lit) == tb(s, k + 1) - tb(s, k) && len(t.Lit) > 0 && t.Pos == posat(offset, tb(s, k)) && (t.Tag == (tw(s, k) ? token.Word : token.Other))

contract token.Tokenize(dst, d, offset) (res)
  modifies elems(dst)
  inv j: int, w: bool, p: int, ts: []token.T ::: onekind(str(d), j, p, w) && j == tb(str(d), len(ts) - len(dst))
  inv j: int, ts: []token.T ::: forall k: int {ts[k]} :: len(dst) <= k && k < len(ts) ==> tokk(str(d), d, offset, ts[k], k - len(dst)) && 0 <= tb(str(d), k - len(dst)) && tb(str(d), k + 1 - len(dst)) <= j
  ensures[tokens] utf8ok(str(d)) ==> tb(str(d), len(res) - len(dst)) == len(d) && (forall k: int {res[k]} :: len(dst) <= k && k < len(res) ==> tokk(str(d), d, offset, res[k], k - len(dst)) && 0 <= tb(str(d), k - len(dst)) && tb(str(d), k + 1 - len(dst)) <= len(d))
  inv j: int, w: bool, p: int, ts: []token.T ::: 0 <= j && j <= p && p <= len(d) && cst(str(d), p) && (p > 0 ==> j < p) && (p == 0 ==> !w && len(ts) == len(dst)) && kind(str(d), j, p, w) && (len(ts) > len(dst) ==> ts[len(ts)-1].Tag == (w ? token.Other : token.Word))
  inv j: int, ts: []token.T ::: tiled(str(d), d, offset, ts, len(dst), j)
  inv ts: []token.T ::: len(ts) >= len(dst) && (forall k: int, l: int {ts[k], dst[l]} :: 0 <= k && k < len(dst) && l == k ==> ts[k].Tag == old(dst[l].Tag) && ts[k].Lit == old(dst[l].Lit) && ts[k].Pos == old(dst[l].Pos))
  ensures[own] base(res) == base(dst) || fresh(base(res))
  ensures[invalid-yields-nothing] !utf8ok(str(d)) ==> res == dst
  ensures[partition] utf8ok(str(d)) ==> tiled(str(d), d, offset, res, len(dst), len(d))
  ensures[kept] len(res) >= len(dst) && (forall k: int, l: int {res[k], dst[l]} :: 0 <= k && k < len(dst) && l == k ==> res[k].Tag == old(dst[l].Tag) && res[k].Lit == old(dst[l].Lit) && res[k].Pos == old(dst[l].Pos))
  cover len(res) > len(dst) + 1
