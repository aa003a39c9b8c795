// C01, C02, C09, C10, C21, C22: posting lists

// --- variable length numbers (encoding/binary) in a sequence of bytes

// length of the number that starts at o (0: it never ends), and its value
sfunc uvl(d: [int]int, o: int): int
definition[uvl]
  vars d: [int]int, o: int
  hide
  trig uvl(d, o)
  concl uvl(d, o) >= 0 && uvl(d, o) == (d[o] < 128 ? 1 : (uvl(d, o + 1) == 0 ? 0 : 1 + uvl(d, o + 1)))
definition[uvl0]
  vars d: [int]int, o: int
  trig uvl(d, o)
  concl uvl(d, o) >= 0 && (uvl(d, o) == 1) == (d[o] < 128)
sfunc uvv(d: [int]int, o: int): int
definition[uvv]
  hide
  vars d: [int]int, o: int
  trig uvv(d, o)
  hyp uvl(d, o) > 0
  concl uvv(d, o) == (d[o] < 128 ? d[o] : d[o] - 128 + 128 * uvv(d, o + 1))
// the signed number a value stands for
define zz(v: int): int = (v % 2 == 0 ? v / 2 : 0 - v / 2 - 1)

// n bytes that continue a number
sfunc contb(d: [int]int, o: int, n: int): bool
definition[contb]
  vars d: [int]int, o: int, n: int
  trig contb(d, o, n)
  concl contb(d, o, n) == (forall k: int {d[k]} :: o <= k && k < o + n ==> d[k] >= 128)
lemma[contb_n]
  hide
  strong n
  uses uvl contb
  vars d: [int]int, o: int, n: int
  apply contb_n(d, o + 1, n - 1)
  hyp contb(d, o, n) && 0 <= n && d[o + n] < 128
  concl uvl(d, o) == n + 1
lemma[contb_end]
  vars d: [int]int, o: int, n: int
  trig contb(d, o, n), d[o + n]
  trig contb(d, o, n), uvl(d, o)
  hyp contb(d, o, n) && 0 <= n && d[o + n] < 128
  apply contb_n(d, o, n)
  concl uvl(d, o) == n + 1
// n entries of a from p are those of b from q
sfunc samerange(a: [int]int, p: int, b: [int]int, q: int, n: int): bool
definition[samerange]
  vars a: [int]int, p: int, b: [int]int, q: int, n: int
  trig samerange(a, p, b, q, n)
  concl samerange(a, p, b, q, n) == (forall k: int {a[k]} :: p <= k && k < p + n ==> a[k] == b[k - p + q])

lemma[contb_kept]
  vars a: [int]int, p: int, n: int, c: [int]int
  trig contb(a, p, n), uvl(c, p)
  hyp contb(a, p, n)
  hyp forall j: int {c[j]} :: p <= j && j < p + n ==> c[j] == a[j]
  concl contb(c, p, n)
lemma[samerange_more]
  vars a: [int]int, p: int, b: [int]int, q: int, n: int, c: [int]int, m: int, r: int, l: int
  trig samerange(a, p, b, q, n), samerange(c, m, b, r, l)
  hyp samerange(a, p, b, q, n) && samerange(c, m, b, r, l) && m == p + n && r == q + n && n >= 0 && l >= 0
  hyp forall j: int {c[j]} :: p <= j && j < m ==> c[j] == a[j]
  concl samerange(c, p, b, q, n + l)

lemma[uv_n]
  hide
  strong n
  uses uvl uvv samerange
  vars a: [int]int, p: int, b: [int]int, q: int, n: int, o: int, m: int
  apply uv_n(a, p, b, q, n - 1, o + 1, m)
  hyp samerange(a, p, b, q, m) && p <= o && n >= 1 && o + n <= p + m && uvl(a, o) == n
  concl uvl(b, o - p + q) == n && uvv(b, o - p + q) == uvv(a, o)
lemma[uv_same]
  vars a: [int]int, p: int, b: [int]int, q: int, n: int, o: int
  trig samerange(a, p, b, q, n), uvl(a, o)
  hyp samerange(a, p, b, q, n) && p <= o && uvl(a, o) >= 1 && o + uvl(a, o) <= p + n
  apply uv_n(a, p, b, q, uvl(a, o), o, n)
  concl uvl(b, o - p + q) == uvl(a, o) && uvv(b, o - p + q) == uvv(a, o)

lemma[uv_same2]
  vars a: [int]int, p: int, b: [int]int, q: int, n: int, o: int, r: int
  trig samerange(a, p, b, q, n), uvl(a, o), uvv(b, r)
  trig samerange(a, p, b, q, n), uvl(a, o), uvl(b, r)
  hyp samerange(a, p, b, q, n) && p <= o && uvl(a, o) >= 1 && o + uvl(a, o) <= p + n && r == o - p + q
  apply uv_n(a, p, b, q, uvl(a, o), o, n)
  concl uvl(b, r) == uvl(a, o) && uvv(b, r) == uvv(a, o)

contract binary.Uvarint(buf) (v, n)
  trusted
  why library: the unsigned number at the start of the bytes; at most 10 bytes
  pure
  ensures n <= len(buf) && n <= 10 && n >= 0 - 11
  ensures n > 0 ==> n == uvl(elems(buf), off(buf)) && v == uvv(elems(buf), off(buf))
contract binary.Varint(buf) (v, n)
  trusted
  why library: the signed number at the start of the bytes; at most 10 bytes
  pure
  ensures n <= len(buf) && n <= 10 && n >= 0 - 11
  ensures n > 0 ==> n == uvl(elems(buf), off(buf)) && v == zz(uvv(elems(buf), off(buf)))

// the big endian number at d[o..o+8)
sfunc be64(d: [int]int, o: int): int
definition[be64]
  vars d: [int]int, o: int
  trig be64(d, o)
  concl be64(d, o) == d[o] * 72057594037927936 + d[o + 1] * 281474976710656 + d[o + 2] * 1099511627776 + d[o + 3] * 4294967296 + d[o + 4] * 16777216 + d[o + 5] * 65536 + d[o + 6] * 256 + d[o + 7]
contract (binary.bigEndian).Uint64(o, b) (r)
  mode bv
  requires len(b) >= 8
  ensures r == u64(b[0]) * 72057594037927936 + u64(b[1]) * 281474976710656 + u64(b[2]) * 1099511627776 + u64(b[3]) * 4294967296 + u64(b[4]) * 16777216 + u64(b[5]) * 65536 + u64(b[6]) * 256 + u64(b[7])

contract (io.ReaderAt).ReadAt(r, b, o) (n, err)
  trusted
  why library: reads the bytes of the file at the offset; an error unless all were read
  modifies elems(b)
  ensures 0 <= n && n <= len(b) && (err == nil ==> n == len(b) && 0 <= o)
  ensures forall j: int {elems(b)[j]} :: (j < off(b) || j >= off(b) + len(b)) ==> elems(b)[j] == old(elems(b))[j]
  ensures typeis(r, "*os.File") && err == nil && n > 0 ==> o + n <= fsize[as("*os.File", r).ino]
  ensures typeis(r, "*os.File") && err == nil ==> samerange(elems(b), off(b), fdata[as("*os.File", r).ino], o, n)

// --- reading a posting list

define rino(r: io.ReaderAt): int = as("*os.File", r).ino

// the record at a position: where its payload starts, its length, its link
sfunc rs0(d: [int]int, p: int): int
definition[rs0]
  vars d: [int]int, p: int
  trig rs0(d, p)
  concl rs0(d, p) == p + uvl(d, p)
sfunc rend8(d: [int]int, p: int): int
definition[rend8]
  vars d: [int]int, p: int
  trig rend8(d, p)
  concl rend8(d, p) == p + uvl(d, p) + zz(uvv(d, p)) - 8
sfunc rlink(d: [int]int, p: int): int
definition[rlink]
  vars d: [int]int, p: int
  trig rlink(d, p)
  concl rlink(d, p) == i64(be64(d, rend8(d, p)))

// the numbers from s on: where number j starts; the document after j of them
sfunc eo(d: [int]int, s: int, j: int): int
definition[eo0]
  vars d: [int]int, s: int, j: int
  trig eo(d, s, j)
  hyp j <= 0
  concl eo(d, s, j) == s
definition[eo]
  vars d: [int]int, s: int, j: int, m: int
  trig eo(d, s, j), eo(d, s, m)
  hyp j >= 0 && m == j + 1
  concl eo(d, s, m) == eo(d, s, j) + uvl(d, eo(d, s, j))
sfunc pv(d: [int]int, s: int, c: int): [int]int
definition[pv0]
  vars d: [int]int, s: int, c: int, j: int
  trig pv(d, s, c)[j]
  hyp j <= 0
  concl pv(d, s, c)[j] == c
definition[pv]
  vars d: [int]int, s: int, c: int, j: int, m: int
  trig pv(d, s, c)[j], eo(d, s, m)
  trig pv(d, s, c)[m], eo(d, s, j)
  hyp j >= 0 && m == j + 1
  concl pv(d, s, c)[m] == u32(pv(d, s, c)[j] + uvv(d, eo(d, s, j)))
// j numbers follow one another from p
sfunc gd(a: [int]int, p: int, j: int): bool
definition[gd0]
  vars a: [int]int, p: int, j: int
  trig gd(a, p, j)
  hyp j <= 0
  concl gd(a, p, j)
definition[gd]
  vars a: [int]int, p: int, j: int, m: int
  trig gd(a, p, j), gd(a, p, m)
  hyp j >= 0 && m == j + 1
  concl gd(a, p, m) == (gd(a, p, j) && uvl(a, eo(a, p, j)) >= 1 && p <= eo(a, p, j))
lemma[gd_n]
  hide
  induct j
  fix
  uses gd gd0 eo
  vars a: [int]int, p: int, j: int, k: int
  hyp 0 <= k && k <= j && gd(a, p, j)
  concl gd(a, p, k)
lemma[eo_up]
  hide
  induct j
  fix
  uses gd gd0 eo eo0
  vars a: [int]int, p: int, j: int, k: int
  hyp 0 <= k && k <= j && gd(a, p, j)
  hint j > 0 ==> gd(a, p, j - 1)
  hint j > 0 ==> eo(a, p, j - 1) <= eo(a, p, j)
  concl eo(a, p, k) <= eo(a, p, j)
lemma[dec_n]
  hide
  induct j
  fix
  uses uvl0 uv_same uv_same2 gd eo eo0 pv pv0 gd0
  vars a: [int]int, p: int, d: [int]int, q: int, j: int, m: int, c: int
  hyp 0 <= j && samerange(a, p, d, q, m) && gd(a, p, j) && eo(a, p, j) <= p + m
  hint j > 0 ==> gd(a, p, j - 1)
  hint j > 0 ==> uvl(a, eo(a, p, j - 1)) >= 1 && eo(a, p, j) == eo(a, p, j - 1) + uvl(a, eo(a, p, j - 1)) && p <= eo(a, p, j - 1)
  hint j > 0 ==> eo(d, q, j - 1) == eo(a, p, j - 1) - p + q
  hint j > 0 ==> uvl(d, eo(d, q, j - 1)) == uvl(a, eo(a, p, j - 1)) && uvv(d, eo(d, q, j - 1)) == uvv(a, eo(a, p, j - 1))
  concl eo(d, q, j) == eo(a, p, j) - p + q && pv(d, q, c)[j] == pv(a, p, c)[j] && eo(a, p, j) >= p
lemma[dec]
  vars a: [int]int, p: int, d: [int]int, q: int, j: int, m: int, c: int, k: int
  trig gd(a, p, j), samerange(a, p, d, q, m), pv(d, q, c)[k]
  hyp 0 <= k && k <= j && samerange(a, p, d, q, m) && gd(a, p, j) && eo(a, p, j) <= p + m
  apply gd_n(a, p, j, k)
  apply eo_up(a, p, j, k)
  apply dec_n(a, p, d, q, k, m, c)
  concl pv(d, q, c)[k] == pv(a, p, c)[k]
// the number of numbers in the record
sfunc rc(d: [int]int, p: int): int
definition[rc]
  vars d: [int]int, p: int, n: int, s: int
  trig rc(d, p), eo(d, s, n)
  hyp s == rs0(d, p) && n >= 1 && eo(d, s, n) == rend8(d, p) && eo(d, s, n - 1) < rend8(d, p) && gd(d, s, n)
  concl rc(d, p) == n
lemma[gd_same]
  hide
  induct j
  fix
  uses uvl0 gd eo eo0 gd0 samerange uv_same uv_same2
  vars a: [int]int, p: int, d: [int]int, q: int, j: int, m: int
  hyp 0 <= j && samerange(a, p, d, q, m) && gd(a, p, j) && eo(a, p, j) <= p + m
  apply dec_n(a, p, d, q, j, m, 0)
  hint j > 0 ==> gd(a, p, j - 1)
  hint j > 0 ==> uvl(a, eo(a, p, j - 1)) >= 1 && eo(a, p, j) == eo(a, p, j - 1) + uvl(a, eo(a, p, j - 1)) && p <= eo(a, p, j - 1)
  apply dec_n(a, p, d, q, j - 1, m, 0)
  hint j > 0 ==> uvl(d, eo(d, q, j - 1)) == uvl(a, eo(a, p, j - 1))
  concl gd(d, q, j)
lemma[chunk]
  vars a: [int]int, p: int, d: [int]int, q: int, j: int, m: int, r: int
  trig gd(a, p, j), samerange(a, p, d, q, m), rc(d, r)
  hyp 1 <= j && samerange(a, p, d, q, m) && gd(a, p, j) && q == rs0(d, r) && eo(a, p, j) <= p + m && q - p + eo(a, p, j) == rend8(d, r)
  apply gd_n(a, p, j, j - 1)
  apply eo_up(a, p, j, j - 1)
  apply gd_same(a, p, d, q, j, m)
  apply dec_n(a, p, d, q, j, m, 0)
  apply dec_n(a, p, d, q, j - 1, m, 0)
  hint uvl(a, eo(a, p, j - 1)) >= 1 && eo(a, p, j) == eo(a, p, j - 1) + uvl(a, eo(a, p, j - 1))
  concl rc(d, r) == j
lemma[chunklink]
  vars a: [int]int, p: int, d: [int]int, q: int, m: int, r: int
  trig samerange(a, p, d, q, m), rlink(d, r)
  hyp samerange(a, p, d, q, m) && m >= 8 && q == rs0(d, r) && q + m - 8 == rend8(d, r)
  concl rlink(d, r) == i64(be64(a, p + m - 8))
// document k of the list from position p on after document c
sfunc lat(d: [int]int, p: int, c: int): [int]int
definition[lat]
  vars d: [int]int, p: int, c: int, k: int
  trig lat(d, p, c)[k]
  hyp p != 0 - 1 && rc(d, p) >= 1 && k >= 0
  concl lat(d, p, c)[k] == (k < rc(d, p) ? pv(d, rs0(d, p), c)[k + 1] : lat(d, rlink(d, p), pv(d, rs0(d, p), c)[rc(d, p)])[k - rc(d, p)])
// the number of documents from position p on
sfunc lcount(d: [int]int, p: int): int
definition[lcount]
  vars d: [int]int, p: int
  trig lcount(d, p)
  concl lcount(d, p) == (p == 0 - 1 ? 0 : rc(d, p) + lcount(d, rlink(d, p)))

define posts(p: *shard.Posts): bool =
  p != nil && len(p.buf) == 530 && 0 <= p.i && p.i <= len(p.docids) && base(p.buf) != base(p.docids)

contract (*shard.Posts).init(p, head) ()
  requires p != nil
  modifies p.i, p.nextpos, p.docids, p.buf, p.vbuf
  ensures posts(p) && p.nextpos == head && len(p.docids) == 0 && p.i == 0 && p.current == old(p.current) && fresh(base(p.buf)) && fresh(base(p.docids))

contract shard.newPosts(head) (p)
  ensures fresh(p) && posts(p) && p.nextpos == head && len(p.docids) == 0 && p.i == 0 && p.current == 0 && fresh(base(p.buf)) && fresh(base(p.docids))

contract shard.readVarintAt(r, p) (v, n, err)
  requires typeis(r, "*os.File")
  inv n: int64, b: !*[10]uint8 ::: samerange(elems(b), 0, fdata[rino(r)], p, n) && contb(elems(b), 0, n)
  inv n: int64 ::: 0 <= n && n <= 9
  ensures[bounds] 0 <= n && n <= 10
  ensures[value] err == nil ==> n >= 1 && n == uvl(fdata[rino(r)], p) && v == zz(uvv(fdata[rino(r)], p))

contract (*shard.Posts).readNext(p, r) (err)
  requires posts(p) && typeis(r, "*os.File") && len(p.docids) == p.i
  modifies p.i, p.nextpos, p.current, p.docids, elems(p.docids), elems(p.buf)
  inv i: int, ids: []uint32, b: ![]uint8 ::: i == eo(elems(b), off(b), len(ids)) - off(b)
  inv i: int, b: ![]uint8 ::: 0 <= i && i <= len(b) - 8
  inv ids: []uint32, b: ![]uint8 ::: gd(elems(b), off(b), len(ids))
  inv ids: []uint32, b: ![]uint8 ::: forall k: int {ids[k]} :: 0 <= k && k < len(ids) ==> ids[k] == pv(elems(b), off(b), p.current)[k + 1]
  inv c: uint32, ids: []uint32, b: ![]uint8 ::: c == pv(elems(b), off(b), p.current)[len(ids)]
  assert err == nil ==> gd(elems(p.buf), off(p.buf), len(p.docids))
  assert err == nil ==> eo(elems(p.buf), off(p.buf), len(p.docids)) - off(p.buf) + rs0(fdata[rino(r)], old(p.nextpos)) == rend8(fdata[rino(r)], old(p.nextpos))
  ensures[state] posts(p) && (err != nil ==> p.i == old(p.i) && p.nextpos == old(p.nextpos) && p.current == old(p.current) && len(p.docids) == old(len(p.docids)))
  ensures[arrays] err != io.EOF && base(p.buf) == old(base(p.buf)) && (base(p.docids) == old(base(p.docids)) || fresh(base(p.docids)))
  ensures[chunk] err == nil ==> rc(fdata[rino(r)], old(p.nextpos)) == len(p.docids) && p.current == pv(fdata[rino(r)], rs0(fdata[rino(r)], old(p.nextpos)), old(p.current))[len(p.docids)]
  ensures[documents] err == nil ==> forall k: int {p.docids[k]} :: 0 <= k && k < len(p.docids) ==> p.docids[k] == pv(fdata[rino(r)], rs0(fdata[rino(r)], old(p.nextpos)), old(p.current))[k + 1]
  ensures[link] err == nil ==> p.nextpos == rlink(fdata[rino(r)], old(p.nextpos))
  ensures[progress] err == nil ==> p.i == 0 && len(p.docids) >= 1 && (p.nextpos == 0 - 1 || p.nextpos > old(p.nextpos))

// the documents still to come: those of the current chunk, then those of the chunks that follow
sfunc prem(ids: [int]int, o: int, n: int, d: [int]int, p: int, c: int): [int]int
definition[prem]
  vars ids: [int]int, o: int, n: int, d: [int]int, p: int, c: int, k: int
  trig prem(ids, o, n, d, p, c)[k]
  hyp k >= 0
  concl prem(ids, o, n, d, p, c)[k] == (k < n ? ids[o + k] : lat(d, p, c)[k - n])
define rest(p: *shard.Posts, d: [int]int): [int]int = prem(elems(p.docids), off(p.docids) + p.i, len(p.docids) - p.i, d, p.nextpos, p.current)
define nrest(p: *shard.Posts, d: [int]int): int = len(p.docids) - p.i + lcount(d, p.nextpos)
// w is v without its first entry
sfunc tail(w: [int]int, v: [int]int): bool
definition[tail]
  vars w: [int]int, v: [int]int
  trig tail(w, v)
  concl tail(w, v) == (forall k: int {w[k]} :: 0 <= k ==> w[k] == v[k + 1])

contract (*shard.Posts).next(p, r) (id, err)
  requires posts(p) && typeis(r, "*os.File")
  modifies p.i, p.nextpos, p.current, p.docids, elems(p.docids), elems(p.buf)
  ensures[state] posts(p) && base(p.buf) == old(base(p.buf)) && (base(p.docids) == old(base(p.docids)) || fresh(base(p.docids)))
  ensures[eof] err == io.EOF ==> nrest(p, fdata[rino(r)]) == 0 && old(nrest(p, fdata[rino(r)])) == 0
  ensures[item] err == nil ==> id == old(rest(p, fdata[rino(r)]))[0]
  ensures[rest] err == nil ==> tail(rest(p, fdata[rino(r)]), old(rest(p, fdata[rino(r)])))
  ensures[count] err == nil ==> nrest(p, fdata[rino(r)]) == old(nrest(p, fdata[rino(r)])) - 1
  ensures[failed] err != nil ==> p.i == old(p.i) && p.nextpos == old(p.nextpos) && p.current == old(p.current) && len(p.docids) == old(len(p.docids))

define rstate(s: *shard.ReadState): bool = s != nil && posts(s.Posts) && typeis(s.rdr, "*os.File") && as("*os.File", s.rdr) != nil
contract (*shard.ReadState).Next(s) (id, err)
  requires rstate(s)
  modifies s.Error, s.Posts.i, s.Posts.nextpos, s.Posts.current, s.Posts.docids, elems(s.Posts.docids), elems(s.Posts.buf)
  ensures[state] rstate(s) && err == s.Error && base(s.Posts.buf) == old(base(s.Posts.buf)) && (base(s.Posts.docids) == old(base(s.Posts.docids)) || fresh(base(s.Posts.docids)))
  ensures[eof] err == io.EOF ==> nrest(s.Posts, fdata[rino(s.rdr)]) == 0 && old(nrest(s.Posts, fdata[rino(s.rdr)])) == 0
  ensures[item] err == nil ==> id == old(rest(s.Posts, fdata[rino(s.rdr)]))[0]
  ensures[rest] err == nil ==> tail(rest(s.Posts, fdata[rino(s.rdr)]), old(rest(s.Posts, fdata[rino(s.rdr)])))
  ensures[count] err == nil ==> nrest(s.Posts, fdata[rino(s.rdr)]) == old(nrest(s.Posts, fdata[rino(s.rdr)])) - 1

contract (*shard.Index).ReadStateForBlotAt(x, blot, at) (s)
  requires x != nil && x.postFile != nil
  ensures[new] fresh(s) && fresh(s.Posts) && rstate(s) && as("*os.File", s.rdr) == x.postFile && fresh(base(s.Posts.buf)) && fresh(base(s.Posts.docids))
  ensures[of] s.Blot == blot && s.At == at && s.Shard == x.id && s.Total == x.counts[blot]
  ensures[start] s.Posts.nextpos == x.heads[blot] && s.Posts.current == 0 && s.Posts.i == 0 && len(s.Posts.docids) == 0
contract (*shard.Index).ReadStateFor(x, blot) (s)
  requires x != nil && x.postFile != nil
  ensures[new] fresh(s) && fresh(s.Posts) && rstate(s) && as("*os.File", s.rdr) == x.postFile && fresh(base(s.Posts.buf)) && fresh(base(s.Posts.docids))
  ensures[of] s.Blot == blot && s.At == 0 && s.Shard == x.id && s.Total == x.counts[blot]
  ensures[start] s.Posts.nextpos == x.heads[blot] && s.Posts.current == 0 && s.Posts.i == 0 && len(s.Posts.docids) == 0
contract (*shard.Index).BlotAt(x, i) (b)
  requires x != nil
  ensures b == x.perm[i]
contract (*shard.Index).ReadStateAt(x, i) (s)
  requires x != nil && x.postFile != nil
  ensures[new] fresh(s) && fresh(s.Posts) && rstate(s) && as("*os.File", s.rdr) == x.postFile && fresh(base(s.Posts.buf)) && fresh(base(s.Posts.docids))
  ensures[of] s.Blot == x.perm[i] && s.At == i && s.Shard == x.id && s.Total == x.counts[x.perm[i]]
  ensures[start] s.Posts.nextpos == x.heads[x.perm[i]] && s.Posts.current == 0 && s.Posts.i == 0 && len(s.Posts.docids) == 0
contract (*shard.Index).Count(x, blot) (n)
  requires x != nil && blot < 65536
  ensures n == x.counts[blot]
