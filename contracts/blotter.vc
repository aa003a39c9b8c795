// C06: blotters

// FNV-1 of the first n bytes of s, from state h
sfunc fnvf(h: uint32, s: string, n: int): uint32
definition[fnvf]
  vars h: uint32, s: string, n: int
  trig fnvf(h, s, n)
  concl fnvf(h, s, n) == (n <= 0 ? h : u32(u32(fnvf(h, s, n - 1) * 16777619) ^ s[n - 1]))

// a text in lower case (library)
sfunc lower(s: string): string
contract bytes.ToLower(s) (r)
  trusted
  why library: the text in lower case, the same for texts that differ in case only; the argument is not changed
  ensures str(r) == lower(str(s))

// the hash of a word: FNV-1 32 bit of its text in lower case
define whash(w: string): uint32 = fnvf(2166136261, lower(w), len(lower(w)))

contract (*fnv.sum32).Reset(s) ()
  requires s != nil
  modifies cell(s)
  ensures cell(s) == 2166136261
contract (*fnv.sum32).Sum32(s) (r)
  requires s != nil
  ensures r == cell(s)
contract (*fnv.sum32).Write(s, data) (n, err)
  requires s != nil
  modifies cell(s)
  inv i: int, h: fnv.sum32 ::: 0 <= i && i <= len(data) && h == fnvf(old(cell(s)), str(data), i)
  ensures n == len(data) && err == nil
  ensures cell(s) == fnvf(old(cell(s)), str(data), len(data))
contract fnv.New32() (h)
  ensures typeis(h, "*fnv.sum32") && fresh(as("*fnv.sum32", h)) && as("*fnv.sum32", h) != nil

// exclusive or of a[lo..hi)
sfunc xorw(a: [int]int, lo: int, hi: int): uint32
definition[xorw]
  vars a: [int]int, lo: int, hi: int
  trig xorw(a, lo, hi)
  concl xorw(a, lo, hi) == (hi <= lo ? 0 : (xorw(a, lo, hi - 1) ^ u32(a[hi - 1])))
lemma[xorw_range]
  induct hi
  fix
  vars a: [int]int, lo: int, hi: int
  trig xorw(a, lo, hi)
  hyp 0 <= lo
  concl 0 <= xorw(a, lo, hi) && xorw(a, lo, hi) < 4294967296
lemma[xor3]
  mode bv
  bridge
  hide
  vars a: uint32, b: uint32, c: uint32
  trig (a ^ b), (b ^ c)
  concl ((a ^ b) ^ c) == (a ^ (b ^ c))
lemma[xor_self]
  mode bv
  bridge
  hide
  vars a: uint32, b: uint32
  trig a ^ b
  concl (a ^ (a ^ b)) == b && ((a ^ b) ^ a) == b && ((a ^ b) ^ b) == a && (a ^ 0) == a
// what is outside of the range does not matter
lemma[xorw_ext]
  induct hi
  fix
  vars a: [int]int, b: [int]int, lo: int, hi: int
  hyp 0 <= lo
  hyp forall k: int {a[k]} {b[k]} :: lo <= k && k < hi ==> a[k] == b[k]
  concl xorw(a, lo, hi) == xorw(b, lo, hi)
// taking the first out
lemma[xorw_first]
  induct hi
  fix
  uses xor3
  vars a: [int]int, lo: int, hi: int
  hyp 0 <= lo && lo < hi
  concl xorw(a, lo, hi) == (u32(a[lo]) ^ xorw(a, lo + 1, hi))

// ghost: the hashes of the words fed so far
ghost blotter.Circ.hist: [int]int
ghost blotter.Circ.cnt: int

// the ring h[off..off+n) with the write position i holds the last n of the hashes
sfunc ring(h: [int]int, off: int, n: int, i: int, hist: [int]int, cnt: int): bool
definition[ring]
  vars h: [int]int, off: int, n: int, i: int, hist: [int]int, cnt: int
  trig ring(h, off, n, i, hist, cnt)
  concl ring(h, off, n, i, hist, cnt) ==
    ((forall j: int {h[j]} :: off <= j && j < off + i ==> h[j] == hist[cnt - i + j - off])
     && (forall j: int {h[j]} :: off + i <= j && j < off + n ==> h[j] == (cnt == i ? 0 : hist[cnt - i + j - off - n])))

define circfn(c: *blotter.Circ): *fnv.sum32 = as("*fnv.sum32", c.fn)
define circ(c: *blotter.Circ): bool =
  c != nil && 1 <= len(c.hashes) && 0 <= c.i && c.i < len(c.hashes)
  && typeis(c.fn, "*fnv.sum32") && circfn(c) != nil
  && 0 <= c.cnt && (c.cnt == c.i || c.cnt - c.i >= len(c.hashes))
  && ring(elems(c.hashes), off(c.hashes), len(c.hashes), c.i, c.hist, c.cnt)
  && c.hash == xorw(c.hist, max(0, c.cnt - len(c.hashes)), c.cnt)

contract blotter.NewCirc(n) (c)
  requires 1 <= n && n <= 1073741824
  ghost_exit c.cnt := 0
  ensures fresh(c) && fresh(base(c.hashes)) && fresh(circfn(c))
  ensures[new] circ(c) && c.cnt == 0 && len(c.hashes) == n

contract (*blotter.Circ).Blot(c, word) (r)
  requires circ(c)
  modifies c.hash, c.i, elems(c.hashes), c.hist, c.cnt, cell(circfn(c))
  ghost_exit c.hist := old(c.hist)[old(c.cnt) := whash(old(str(word)))]
  ghost_exit c.cnt := old(c.cnt) + 1
  apply xorw_first(old(c.hist), max(0, old(c.cnt) - len(c.hashes)), old(c.cnt))
  apply xor_self(u32(old(c.hist)[old(c.cnt) - len(c.hashes)]), xorw(old(c.hist), old(c.cnt) - len(c.hashes) + 1, old(c.cnt)))
  assert old(c.cnt) >= len(c.hashes) ==> old(c.hashes[c.i]) == old(c.hist)[old(c.cnt) - len(c.hashes)]
  assert old(c.cnt) < len(c.hashes) ==> old(c.hashes[c.i]) == 0
  assert old(c.cnt) < len(c.hashes) ==> (old(c.hash) ^ old(c.hashes[c.i])) == xorw(old(c.hist), 0, old(c.cnt))
  assert old(c.cnt) >= len(c.hashes) ==> old(c.hash) == (old(c.hashes[c.i]) ^ xorw(old(c.hist), old(c.cnt) - len(c.hashes) + 1, old(c.cnt)))
  assert old(c.cnt) >= len(c.hashes) ==> (old(c.hash) ^ old(c.hashes[c.i])) == xorw(old(c.hist), old(c.cnt) - len(c.hashes) + 1, old(c.cnt))
  assert (old(c.hash) ^ old(c.hashes[c.i])) == xorw(old(c.hist), max(0, old(c.cnt) + 1 - len(c.hashes)), old(c.cnt))
  apply xorw_ext(old(c.hist), c.hist, max(0, c.cnt - len(c.hashes)), old(c.cnt))
  ensures[fed] c.cnt == old(c.cnt) + 1 && c.hist == old(c.hist)[old(c.cnt) := whash(old(str(word)))]
  ensures[window] r == xorw(c.hist, max(0, c.cnt - len(c.hashes)), c.cnt)
  ensures[kept] circ(c)

// interleaved: word number k is fed to circular blotter number k mod n
define circs(x: *blotter.Interleaved): bool =
  (forall j: int {x.circs[j]} :: 0 <= j && j < len(x.circs) ==> circ(x.circs[j]) && len(x.circs[j].hashes) == len(x.circs[0].hashes))
define apart(x: *blotter.Interleaved): bool =
  (forall j: int, k: int {x.circs[j], x.circs[k]} :: 0 <= j && j < k && k < len(x.circs) ==>
     x.circs[j] != x.circs[k] && base(x.circs[j].hashes) != base(x.circs[k].hashes) && circfn(x.circs[j]) != circfn(x.circs[k]))
define inter(x: *blotter.Interleaved): bool =
  x != nil && 1 <= len(x.circs) && 0 <= x.i && x.i < len(x.circs) && circs(x) && apart(x)

contract blotter.NewInterleaved(seqLen, n) (r)
  requires 1 <= seqLen && seqLen <= 1073741824 && 1 <= n && n <= 1073741824
  inv i: int, x: !*blotter.Interleaved ::: 0 <= i && i <= n && len(x.circs) == n && x.i == 0 && (forall j: int {x.circs[j]} :: 0 <= j && j < i ==> circ(x.circs[j]) && len(x.circs[j].hashes) == seqLen && x.circs[j].cnt == 0)
  inv i: int, x: !*blotter.Interleaved ::: forall j: int, k: int {x.circs[j], x.circs[k]} :: 0 <= j && j < k && k < i ==> x.circs[j] != x.circs[k] && base(x.circs[j].hashes) != base(x.circs[k].hashes) && circfn(x.circs[j]) != circfn(x.circs[k])
  ensures fresh(r) && len(r.circs) == n && r.i == 0
  ensures[new] inter(r)
  ensures forall j: int {r.circs[j]} :: 0 <= j && j < n ==> len(r.circs[j].hashes) == seqLen && r.circs[j].cnt == 0

contract (*blotter.Interleaved).Blot(x, tok) (r)
  requires inter(x)
  modifies x.i, anyof("blotter.Circ", "*"), anyelems("uint32"), anycell("fnv.sum32")
  ensures[turn] x.i == (old(x.i) + 1 == len(x.circs) ? 0 : old(x.i) + 1)
  ensures[window] r == xorw(x.circs[old(x.i)].hist, max(0, x.circs[old(x.i)].cnt - len(x.circs[0].hashes)), x.circs[old(x.i)].cnt)
  ensures[fed] x.circs[old(x.i)].cnt == old(x.circs[x.i].cnt) + 1 && x.circs[old(x.i)].hist == old(x.circs[x.i].hist)[old(x.circs[x.i].cnt) := whash(old(str(tok)))]
  ensures[others] forall j: int {x.circs[j]} :: 0 <= j && j < len(x.circs) && j != old(x.i) ==> x.circs[j].hist == old(x.circs[j].hist) && x.circs[j].cnt == old(x.circs[j].cnt)
  ensures[kept] inter(x)

contract blotter.FromConfig(cfg) (b, err)
  requires cfg != nil && 1 <= cfg.SeqLen && cfg.SeqLen <= 1073741824 && cfg.Interleave <= 1073741824
  ensures[refused] cfg.Interleave < 1 ==> err != nil && b == nil
  ensures[plain] cfg.Interleave == 1 ==> err == nil && typeis(b, "*blotter.Circ") && fresh(as("*blotter.Circ", b)) && fresh(base(as("*blotter.Circ", b).hashes)) && fresh(circfn(as("*blotter.Circ", b))) && circ(as("*blotter.Circ", b)) && as("*blotter.Circ", b).cnt == 0 && len(as("*blotter.Circ", b).hashes) == cfg.SeqLen
  ensures[interleaved] cfg.Interleave > 1 ==> err == nil && typeis(b, "*blotter.Interleaved") && inter(as("*blotter.Interleaved", b))
    && len(as("*blotter.Interleaved", b).circs) == cfg.Interleave && as("*blotter.Interleaved", b).i == 0
    && (forall j: int {as("*blotter.Interleaved", b).circs[j]} :: 0 <= j && j < cfg.Interleave ==> len(as("*blotter.Interleaved", b).circs[j].hashes) == cfg.SeqLen && as("*blotter.Interleaved", b).circs[j].cnt == 0)
contract (*blotter.Circ).Config(c) (r)
  requires circ(c)
  ensures fresh(r) && r.SeqLen == len(c.hashes) && r.Interleave == 1
contract (*blotter.Interleaved).Config(x) (r)
  requires inter(x)
  ensures fresh(r) && r.SeqLen == len(x.circs[0].hashes) && r.Interleave == len(x.circs)
contract (*blotter.Circ).Interleaving(c) (r)
  ensures r == 1
contract (*blotter.Interleaved).Interleaving(x) (r)
  requires x != nil
  ensures r == len(x.circs)
contract blotter.DefaultConfig() (r)
  ensures fresh(r) && r.SeqLen == 10 && r.Interleave == 1

// equal windows have equal blots, wherever they are
lemma[xorw_shift]
  induct n
  fix
  vars a: [int]int, b: [int]int, p: int, q: int, n: int
  hyp 0 <= p && 0 <= q && 0 <= n
  hyp forall k: int {a[p + k]} {b[q + k]} :: 0 <= k && k < n ==> a[p + k] == b[q + k]
  concl xorw(a, p, p + n) == xorw(b, q, q + n)
