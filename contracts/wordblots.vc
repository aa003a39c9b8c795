// C07, C11: the words of a text and their blots

sfunc sub(s: string, a: int, b: int): string
axiom[sub_of]
  why a slice of a byte sequence holds the corresponding part of the text
  vars a: [int]uint8, o: int, n: int, p: int, m: int
  trig strof(a, o, n), strof(a, p, m)
  hyp o <= p && 0 <= m && p + m <= o + n
  concl strof(a, p, m) == sub(strof(a, o, n), p - o, p - o + m)

// the number of words among the first k tokens; of tokens; of words
sfunc nw(s: string, k: int): int
definition[nw]
  vars s: string, k: int
  trig nw(s, k)
  concl nw(s, k) == (k <= 0 ? 0 : nw(s, k - 1) + (tw(s, k - 1) ? 1 : 0))
sfunc ntok(s: string): int
definition[ntok]
  vars s: string, n: int
  trig ntok(s), tb(s, n)
  hyp utf8ok(s) && 0 <= n && tb(s, n) == len(s) && (n == 0 || tb(s, n - 1) < len(s))
  concl ntok(s) == n
definition[ntok0]
  vars s: string
  trig ntok(s)
  hyp !utf8ok(s)
  concl ntok(s) == 0
define nwords(s: string): int = nw(s, ntok(s))
// where word i starts and ends, and its hash
sfunc wp(s: string): [int]int
sfunc we(s: string): [int]int
sfunc wh(s: string): [int]int
definition[words]
  vars s: string, k: int
  trig nw(s, k), tw(s, k)
  hyp 0 <= k && tw(s, k)
  concl wp(s)[nw(s, k)] == tb(s, k) && we(s)[nw(s, k)] == tb(s, k + 1) && wh(s)[nw(s, k)] == whash(sub(s, tb(s, k), tb(s, k + 1)))
// the blot of the window of n words that ends with word i
sfunc wb(s: string, n: int): [int]int
definition[wb]
  vars s: string, n: int, i: int
  trig wb(s, n)[i]
  concl wb(s, n)[i] == xorw(wh(s), i + 1 - n, i + 1)
define wblot(s: string, n: int, i: int): int = wb(s, n)[i]

// n entries of a from p are those of b from 0
sfunc agree(a: [int]int, p: int, b: [int]int, n: int): bool
definition[agree]
  vars a: [int]int, p: int, b: [int]int, n: int
  trig agree(a, p, b, n)
  concl agree(a, p, b, n) == (forall k: int {a[k]} :: p <= k && k < p + n ==> a[k] == b[k - p])
lemma[agree_more]
  vars a: [int]int, p: int, b: [int]int, n: int, v: int
  trig agree(a[p + n := v], p, b, n + 1)
  hyp agree(a, p, b, n) && v == b[n] && n >= 0
  concl agree(a[p + n := v], p, b, n + 1)
lemma[xorw_agree]
  uses xorw_shift
  vars a: [int]int, p: int, b: [int]int, n: int, lo: int, hi: int
  trig agree(a, p, b, n), xorw(a, lo, hi)
  hyp agree(a, p, b, n) && 0 <= p && p <= lo && lo <= hi && hi <= p + n
  apply xorw_shift(a, b, lo, lo - p, hi - lo)
  concl xorw(a, lo, hi) == xorw(b, lo - p, hi - p)

lemma[xorw_fed]
  vars a: [int]int, p: int, b: [int]int, n: int, m: int, v: int, lo: int, hi: int
  trig agree(a, p, b, n), xorw(a[m := v], lo, hi)
  hyp agree(a, p, b, n) && m == p + n && v == b[n] && 0 <= n && 0 <= p && p <= lo && lo <= hi && hi <= m + 1
  apply agree_more(a, p, b, n, v)
  apply xorw_agree(a[m := v], p, b, n + 1, lo, hi)
  concl xorw(a[m := v], lo, hi) == xorw(b, lo - p, hi - p)

define plainidx(x: *dupi.Index): bool = x != nil && x.config != nil && validcfg(x.config) && x.config.BlotConfig.Interleave == 1 && x.config.SeqLen <= 1073741824
contract (*dupi.Index).TokenFunc(x) (f)
  requires x != nil && x.config != nil && validcfg(x.config)
  ensures[fn] f == fnof("token.Tokenize")
contract (*dupi.Index).Blotter(x) (b)
  requires plainidx(x)
  ensures[new] typeis(b, "*blotter.Circ") && fresh(as("*blotter.Circ", b)) && fresh(base(as("*blotter.Circ", b).hashes)) && fresh(circfn(as("*blotter.Circ", b)))
  ensures[empty] circ(as("*blotter.Circ", b)) && as("*blotter.Circ", b).cnt == 0 && len(as("*blotter.Circ", b).hashes) == x.config.SeqLen
contract (*dupi.Index).SeqLen(x) (n)
  requires x != nil && x.config != nil
  ensures n == x.config.SeqLen

lemma[posat_back]
  uses posat
  vars o: int, w: int
  trig posat(o, w)
  hyp 0 <= o && o < 4294967296 && 0 <= w && w < 4294967296
  concl u32(posat(o, w) - o) == w
// token t is word i of the text s, kept in d
define wtok(s: string, d: []uint8, offset: int, t: token.T, i: int): bool =
  base(t.Lit) == base(d) && tpos(t, d) == wp(s)[i] && len(t.Lit) == we(s)[i] - wp(s)[i] && len(t.Lit) > 0 && 0 <= wp(s)[i] && we(s)[i] <= len(s) && t.Pos == posat(offset, wp(s)[i]) && whash(str(t.Lit)) == wh(s)[i]

contract (*dupi.Index).BlotDoc(x, dst, doc) (res)
  requires plainidx(x) && doc != nil
  modifies elems(dst)
  inv i: int, j: int, ts: ![]token.T ::: 0 <= j && j <= i && i <= len(ts) && j == nw(str(doc.Dat), i) && (forall k: int {ts[k]} :: 0 <= k && k < j ==> wtok(str(doc.Dat), doc.Dat, doc.Start, ts[k], k))
  inv i: int, ts: ![]token.T ::: forall k: int {ts[k]} :: i <= k && k < len(ts) ==> tokk(str(doc.Dat), doc.Dat, doc.Start, ts[k], k) && 0 <= tb(str(doc.Dat), k) && tb(str(doc.Dat), k + 1) <= len(doc.Dat)
  inv ts: ![]token.T ::: len(ts) == nwords(str(doc.Dat)) && (forall k: int {ts[k]} :: 0 <= k && k < len(ts) ==> wtok(str(doc.Dat), doc.Dat, doc.Start, ts[k], k))
  inv i: int, b: !blotter.T ::: 0 <= i && circ(as("*blotter.Circ", b)) && as("*blotter.Circ", b).cnt == i && len(as("*blotter.Circ", b).hashes) == x.config.SeqLen && agree(as("*blotter.Circ", b).hist, 0, wh(str(doc.Dat)), i)
  inv i: int, r: []uint32 ::: len(r) == len(dst) + max(0, i - x.config.SeqLen) && (forall k: int {r[k]} :: len(dst) <= k && k < len(r) ==> r[k] == wblot(str(doc.Dat), x.config.SeqLen, k - len(dst) + x.config.SeqLen))
  inv r: []uint32 ::: len(r) >= len(dst) && (forall k: int, l: int {r[k], dst[l]} :: 0 <= k && k < len(dst) && l == k ==> r[k] == old(dst[l]))
  ensures[number] len(res) == len(dst) + max(0, nwords(str(doc.Dat)) - x.config.SeqLen)
  ensures[blots] forall k: int {res[k]} :: len(dst) <= k && k < len(res) ==> res[k] == wblot(str(doc.Dat), x.config.SeqLen, k - len(dst) + x.config.SeqLen)
  ensures[kept] forall k: int, l: int {res[k], dst[l]} :: 0 <= k && k < len(dst) && l == k ==> res[k] == old(dst[l])

// C11: locating a blot
define within(b: int, x: *dupi.Index): int = b % (x.config.NumShards * 65536)

contract (*dupi.Index).FindBlot(x, theBlot, doc) (start, end, err)
  uses posat
  opaque_mod
  requires plainidx(x) && x.config.NumShards <= 65535 && doc != nil
  modifies doc.Dat, doc.End
  inv i: int, j: int, ts: ![]token.T ::: 0 <= j && j <= i && i <= len(ts) && j == nw(str(doc.Dat), i) && (forall k: int {ts[k]} :: 0 <= k && k < j ==> wtok(str(doc.Dat), doc.Dat, doc.Start, ts[k], k))
  inv i: int, ts: ![]token.T ::: forall k: int {ts[k]} :: i <= k && k < len(ts) ==> tokk(str(doc.Dat), doc.Dat, doc.Start, ts[k], k) && 0 <= tb(str(doc.Dat), k) && tb(str(doc.Dat), k + 1) <= len(doc.Dat)
  inv ts: ![]token.T ::: len(ts) == nwords(str(doc.Dat)) && (forall k: int {ts[k]} :: 0 <= k && k < len(ts) ==> wtok(str(doc.Dat), doc.Dat, doc.Start, ts[k], k))
  inv i: int, b: !blotter.T ::: 0 <= i && circ(as("*blotter.Circ", b)) && as("*blotter.Circ", b).cnt == i && len(as("*blotter.Circ", b).hashes) == x.config.SeqLen && agree(as("*blotter.Circ", b).hist, 0, wh(str(doc.Dat)), i)
  inv i: int ::: forall k: int {wb(str(doc.Dat), x.config.SeqLen)[k]} :: x.config.SeqLen <= k && k < i ==> within(wblot(str(doc.Dat), x.config.SeqLen, k), x) != theBlot
  ensures[doc] doc.Start == old(doc.Start) && doc.Path == old(doc.Path) && (old(doc.Dat) != nil ==> doc.Dat == old(doc.Dat) && doc.End == old(doc.End))
  ensures[located] err == nil ==> exists i: int {wp(str(doc.Dat))[i]} :: x.config.SeqLen <= i && i < nwords(str(doc.Dat)) && within(wblot(str(doc.Dat), x.config.SeqLen, i), x) == theBlot
    && start == u32(doc.Start + wp(str(doc.Dat))[i - x.config.SeqLen]) && end == u32(doc.Start + we(str(doc.Dat))[i])
  ensures[not-found] err != nil && old(doc.Dat) != nil ==> forall i: int {wb(str(doc.Dat), x.config.SeqLen)[i]} :: x.config.SeqLen <= i && i < nwords(str(doc.Dat)) ==> within(wblot(str(doc.Dat), x.config.SeqLen, i), x) != theBlot

contract bytes.Equal(a, b) (r)
  trusted
  why library: the bytes are the same
  pure
  ensures r == (str(a) == str(b))

// does a window ending before word k have the blot b (of mod) and the text t?
sfunc mt(s: string, n: int, mod: int, b: int, t: string, k: int): bool
definition[mt0]
  vars s: string, n: int, mod: int, b: int, t: string, k: int
  trig mt(s, n, mod, b, t, k)
  hyp k <= n
  concl !mt(s, n, mod, b, t, k)
definition[mt1]
  vars s: string, n: int, mod: int, b: int, t: string, m: int
  trig mt(s, n, mod, b, t, m)
  hyp m > n
  concl mt(s, n, mod, b, t, m) == (mt(s, n, mod, b, t, m - 1) || (wb(s, n)[m - 1] % mod == b && sub(s, wp(s)[m - 1 - n], we(s)[m - 1]) == t))

contract (*dupi.Index).FindBlots(x, m, doc) (res, err)
  opaque_mod
  requires plainidx(x) && x.config.NumShards <= 65535 && doc != nil && (doc.Dat == nil || len(doc.Dat) < 4294967296) && fsize[fsat[doc.Path]] < 4294967296
  modifies doc.Dat, doc.End
  inv i: int, j: int, ts: ![]token.T ::: 0 <= j && j <= i && i <= len(ts) && j == nw(str(doc.Dat), i) && (forall k: int {ts[k]} :: 0 <= k && k < j ==> wtok(str(doc.Dat), doc.Dat, doc.Start, ts[k], k))
  inv i: int, ts: ![]token.T ::: forall k: int {ts[k]} :: i <= k && k < len(ts) ==> tokk(str(doc.Dat), doc.Dat, doc.Start, ts[k], k) && 0 <= tb(str(doc.Dat), k) && tb(str(doc.Dat), k + 1) <= len(doc.Dat)
  inv ts: ![]token.T ::: len(ts) == nwords(str(doc.Dat)) && (forall k: int {ts[k]} :: 0 <= k && k < len(ts) ==> wtok(str(doc.Dat), doc.Dat, doc.Start, ts[k], k))
  inv i: int, b: !blotter.T ::: 0 <= i && circ(as("*blotter.Circ", b)) && as("*blotter.Circ", b).cnt == i && len(as("*blotter.Circ", b).hashes) == x.config.SeqLen && agree(as("*blotter.Circ", b).hist, 0, wh(str(doc.Dat)), i)
  inv i: int, j: int ::: forall a: int {we(str(doc.Dat))[a]} :: 0 <= a && a < j ==> we(str(doc.Dat))[a] <= tb(str(doc.Dat), i)
  inv i: int, j: int ::: forall a: int {wp(str(doc.Dat))[a]} :: 0 <= a && a < j ==> wp(str(doc.Dat))[a] <= tb(str(doc.Dat), i)
  inv j: int ::: forall a: int {we(str(doc.Dat))[a]} :: x.config.SeqLen <= a && a < j ==> wp(str(doc.Dat))[a - x.config.SeqLen] <= we(str(doc.Dat))[a]
  inv i: int, r: !map[uint32][]uint8 ::: forall b: uint32 {has(r, b)} :: has(r, b) == (m != nil && has(m, b) && m[b] != nil && mt(str(doc.Dat), x.config.SeqLen, x.config.NumShards * 65536, b, str(m[b]), i))
  inv r: !map[uint32][]uint8 ::: forall b: uint32 {r[b]} :: has(r, b) ==> str(r[b]) == str(m[b])
  ensures[doc] doc.Start == old(doc.Start) && doc.Path == old(doc.Path) && (old(doc.Dat) != nil ==> doc.Dat == old(doc.Dat) && doc.End == old(doc.End))
  ensures[matched] err == nil && len(doc.Dat) < 4294967296 ==> forall b: uint32 {has(res, b)} :: has(res, b) == (m != nil && has(m, b) && m[b] != nil && mt(str(doc.Dat), x.config.SeqLen, x.config.NumShards * 65536, b, str(m[b]), nwords(str(doc.Dat))))
  ensures[texts] err == nil && len(doc.Dat) < 4294967296 ==> forall b: uint32 {res[b]} :: has(res, b) ==> str(res[b]) == str(m[b])
  ensures[no-load] old(doc.Dat) != nil ==> err == nil
