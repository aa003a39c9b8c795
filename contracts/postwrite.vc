// C01, C02: writing posting lists

contract binary.PutUvarint(buf, x) (n)
  trusted
  why library: writes the unsigned number at the start of the bytes, 7 bits a byte
  requires len(buf) >= 10 || len(buf) >= 5 && x < 34359738368
  modifies elems(buf)
  ensures 1 <= n && n <= 10 && (x < 34359738368 ==> n <= 5)
  ensures n == uvl(elems(buf), off(buf)) && x == uvv(elems(buf), off(buf))
  ensures forall j: int {elems(buf)[j]} :: (j < off(buf) || j >= off(buf) + n) ==> elems(buf)[j] == old(elems(buf))[j]
contract binary.PutVarint(buf, x) (n)
  trusted
  why library: writes the signed number at the start of the bytes
  requires len(buf) >= 10
  modifies elems(buf)
  ensures 1 <= n && n <= 10
  ensures n == uvl(elems(buf), off(buf)) && x == zz(uvv(elems(buf), off(buf)))
  ensures forall j: int {elems(buf)[j]} :: (j < off(buf) || j >= off(buf) + n) ==> elems(buf)[j] == old(elems(buf))[j]
contract (binary.bigEndian).PutUint64(o, b, v) ()
  mode bv
  requires len(b) >= 8
  modifies elems(b)
  ensures b[0] == u8(v / 72057594037927936) && b[1] == u8(v / 281474976710656) && b[2] == u8(v / 1099511627776) && b[3] == u8(v / 4294967296)
  ensures b[4] == u8(v / 16777216) && b[5] == u8(v / 65536) && b[6] == u8(v / 256) && b[7] == u8(v)
  ensures forall k: int {b[k]} :: 8 <= k && k < len(b) ==> b[k] == old(b[k])
  ensures forall j: int {elems(b)[j]} :: (j < off(b) || j >= off(b) + 8) ==> elems(b)[j] == old(elems(b))[j]
contract (*os.File).WriteAt(f, b, o) (n, err)
  trusted
  why library: writes at the offset; an error unless all was written; the position of the handle stays
  requires f != nil
  modifies fdata, fsize
  ensures 0 <= n && n <= len(b) && (err == nil ==> n == len(b))
  ensures fsize == old(fsize)[f.ino := (n == 0 ? old(fsize[f.ino]) : max(old(fsize[f.ino]), o + n))]
  ensures fdata == old(fdata)[f.ino := fdata[f.ino]]
  ensures forall k: int {fdata[f.ino][k]} :: fdata[f.ino][k] == (o <= k && k < o + n ? b[k - o] : old(fdata[f.ino][k]))
  ensures samerange(elems(b), off(b), fdata[f.ino], o, n)

// the documents of a list, one by one; the document before number n
define lastd(lg: [int]int, n: int): int = (n <= 0 ? 0 : lg[n - 1])

// n bytes at p of a hold m numbers, the differences of documents o, o+1, ... of lg, the first to c
sfunc pend(a: [int]int, p: int, n: int, m: int, lg: [int]int, o: int, c: int): bool
definition[pend]
  vars a: [int]int, p: int, n: int, m: int, lg: [int]int, o: int, c: int
  trig pend(a, p, n, m, lg, o, c)
  concl pend(a, p, n, m, lg, o, c) == (m >= 0 && gd(a, p, m) && eo(a, p, m) == p + n
    && (forall k: int {lg[k]} {pv(a, p, c)[k - o + 1]} :: o <= k && k < o + m ==> pv(a, p, c)[k - o + 1] == lg[k]))
// the record at p in the file d ends at e (8 bytes of link included) and holds m documents
sfunc chk(d: [int]int, p: int, e: int, m: int, lg: [int]int, o: int, c: int): bool
definition[chk]
  vars d: [int]int, p: int, e: int, m: int, lg: [int]int, o: int, c: int
  trig chk(d, p, e, m, lg, o, c)
  concl chk(d, p, e, m, lg, o, c) == (m >= 1 && 0 <= p && uvl(d, p) >= 1 && zz(uvv(d, p)) == e - p - uvl(d, p) && pend(d, p + uvl(d, p), e - 8 - p - uvl(d, p), m, lg, o, c))

lemma[uv_keep]
  hide
  uses samerange
  vars a: [int]int, o: int, b: [int]int
  trig uvl(a, o), uvl(b, o)
  trig uvl(a, o), uvv(b, o)
  hyp uvl(a, o) >= 1
  hyp forall j: int {b[j]} :: o <= j && j < o + uvl(a, o) ==> b[j] == a[j]
  hint samerange(a, o, b, o, uvl(a, o))
  apply uv_n(a, o, b, o, uvl(a, o), o, uvl(a, o))
  concl uvl(b, o) == uvl(a, o) && uvv(b, o) == uvv(a, o)
lemma[be_val]
  hide
  uses be64
  vars d: [int]int, o: int, v: int
  hyp 0 <= v && v < 18446744073709551616
  hyp d[o] == u8(v / 72057594037927936) && d[o + 1] == u8(v / 281474976710656) && d[o + 2] == u8(v / 1099511627776) && d[o + 3] == u8(v / 4294967296)
  hyp d[o + 4] == u8(v / 16777216) && d[o + 5] == u8(v / 65536) && d[o + 6] == u8(v / 256) && d[o + 7] == u8(v)
  hint u8(v) == v - 256 * (v / 256)
  hint v / 65536 == (v / 256) / 256 && u8(v / 256) == v / 256 - 256 * (v / 65536)
  hint v / 16777216 == (v / 65536) / 256 && u8(v / 65536) == v / 65536 - 256 * (v / 16777216)
  hint v / 4294967296 == (v / 16777216) / 256 && u8(v / 16777216) == v / 16777216 - 256 * (v / 4294967296)
  hint v / 1099511627776 == (v / 4294967296) / 256 && u8(v / 4294967296) == v / 4294967296 - 256 * (v / 1099511627776)
  hint v / 281474976710656 == (v / 1099511627776) / 256 && u8(v / 1099511627776) == v / 1099511627776 - 256 * (v / 281474976710656)
  hint v / 72057594037927936 == (v / 281474976710656) / 256 && u8(v / 281474976710656) == v / 281474976710656 - 256 * (v / 72057594037927936)
  hint v / 18446744073709551616 == (v / 72057594037927936) / 256 && u8(v / 72057594037927936) == v / 72057594037927936 - 256 * (v / 18446744073709551616)
  hint v / 18446744073709551616 == 0
  concl be64(d, o) == v
lemma[pend_move]
  hide
  uses pend pv gd_same dec_n dec gd_n eo_up samerange eo0
  vars a: [int]int, p: int, n: int, m: int, lg: [int]int, o: int, c: int, d: [int]int, q: int
  hyp pend(a, p, n, m, lg, o, c)
  hyp samerange(a, p, d, q, n)
  apply gd_same(a, p, d, q, m, n)
  apply dec_n(a, p, d, q, m, n, c)
  concl pend(d, q, n, m, lg, o, c)
lemma[pend_log]
  hide
  vars a: [int]int, p: int, n: int, m: int, lg: [int]int, o: int, c: int, i: int, v: int
  hyp pend(a, p, n, m, lg, o, c) && i >= o + m
  concl pend(a, p, n, m, lg[i := v], o, c)
lemma[pend_len]
  hide
  uses pend eo0
  vars a: [int]int, p: int, n: int, m: int, lg: [int]int, o: int, c: int
  hyp pend(a, p, n, m, lg, o, c)
  apply eo_up(a, p, m, 0)
  concl n >= 0
lemma[pend_push]
  hide
  uses pend pv pv0 eo eo0 gd gd0
  vars a: [int]int, p: int, n: int, m: int, lg: [int]int, o: int, c: int, l: int, v: int
  hyp pend(a, p, n, m, lg, o, c) && uvl(a, p + n) == l && l >= 1 && n >= 0
  hyp u32((m <= 0 ? c : lg[o + m - 1]) + uvv(a, p + n)) == v
  hint gd(a, p, m + 1) && eo(a, p, m + 1) == p + n + l
  hint pv(a, p, c)[m] == (m <= 0 ? c : lg[o + m - 1])
  hint pv(a, p, c)[m + 1] == v
  concl pend(a, p, n + l, m + 1, lg[o + m := v], o, c)
lemma[pend_append]
  hide
  uses samerange uv_n pend
  vars a: [int]int, p: int, n: int, m: int, lg: [int]int, o: int, c: int, b: [int]int, q: int, l: int, i: int, h: [int]int, e: int, x: [int]int, y: int
  trig pend(a, p, n, m, lg, o, c), pend(b, q, l, i, h, o, e), uvl(x, y)
  hyp pend(a, p, n, m, lg, o, c) && uvl(x, y) == l - n && uvl(x, y) >= 1 && i == m + 1 && e == c
  hyp forall j: int {b[j]} :: q <= j && j < q + n ==> b[j] == a[j - q + p]
  hyp forall j: int {b[j]} :: q + n <= j && j < q + l ==> b[j] == x[j - q - n + y]
  hyp forall k: int {h[k]} :: o <= k && k < o + m ==> h[k] == lg[k]
  hyp u32((m <= 0 ? c : lg[o + m - 1]) + uvv(x, y)) == h[o + m]
  apply pend_len(a, p, n, m, lg, o, c)
  hint samerange(a, p, b, q, n) && samerange(x, y, b, q + n, l - n)
  apply pend_move(a, p, n, m, lg, o, c, b, q)
  apply uv_n(x, y, b, q + n, l - n, y, l - n)
  apply pend_push(b, q, n, m, lg, o, c, l - n, h[o + m])
  hint pend(b, q, l, m + 1, lg[o + m := h[o + m]], o, c)
  concl pend(b, q, l, i, h, o, e)
lemma[chk_kept]
  hide
  uses chk samerange uv_n
  vars d: [int]int, p: int, e: int, m: int, lg: [int]int, o: int, c: int, f: [int]int
  trig chk(d, p, e, m, lg, o, c), chk(f, p, e, m, lg, o, c)
  hyp chk(d, p, e, m, lg, o, c)
  hyp forall j: int {f[j]} :: p <= j && j < e - 8 ==> f[j] == d[j]
  apply pend_len(d, p + uvl(d, p), e - 8 - p - uvl(d, p), m, lg, o, c)
  hint samerange(d, p, f, p, e - 8 - p)
  apply uv_n(d, p, f, p, uvl(d, p), p, e - 8 - p)
  hint samerange(d, p + uvl(d, p), f, p + uvl(d, p), e - 8 - p - uvl(d, p))
  apply pend_move(d, p + uvl(d, p), e - 8 - p - uvl(d, p), m, lg, o, c, f, p + uvl(d, p))
  concl chk(f, p, e, m, lg, o, c)
lemma[chk_log]
  hide
  uses chk
  vars d: [int]int, p: int, e: int, m: int, lg: [int]int, o: int, c: int, i: int, v: int
  trig chk(d, p, e, m, lg, o, c), chk(d, p, e, m, lg[i := v], o, c)
  hyp chk(d, p, e, m, lg, o, c) && i >= o + m
  apply pend_log(d, p + uvl(d, p), e - 8 - p - uvl(d, p), m, lg, o, c, i, v)
  concl chk(d, p, e, m, lg[i := v], o, c)
lemma[chk_new]
  hide
  uses chk
  vars a: [int]int, p: int, n: int, m: int, lg: [int]int, o: int, c: int, d: [int]int, q: int
  hyp pend(a, p, n, m, lg, o, c) && m >= 1 && q >= 0 && uvl(d, q) >= 1 && zz(uvv(d, q)) == n + 8
  hyp samerange(a, p, d, q + uvl(d, q), n)
  apply pend_move(a, p, n, m, lg, o, c, d, q + uvl(d, q))
  concl chk(d, q, q + uvl(d, q) + n + 8, m, lg, o, c)

// the records of a list: record j from cp[j] to ce[j] holds the documents cn[j] to cn[j+1]
sfunc chunks(d: [int]int, size: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int): bool
definition[chunks]
  vars d: [int]int, size: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int
  trig chunks(d, size, n, cp, ce, cn, lg)
  concl chunks(d, size, n, cp, ce, cn, lg) == (n >= 0 && cn[0] == 0 && cn[n] >= 0 && (forall j: int {cp[j]} {ce[j]} :: 0 <= j && j < n ==>
    chk(d, cp[j], ce[j], cn[j + 1] - cn[j], lg, cn[j], lastd(lg, cn[j]))
    && 0 <= cn[j] && cn[j + 1] <= cn[n] && cp[j] + 9 < ce[j] && ce[j] <= size && (j < n - 1 ==> ce[j] <= cp[n - 1] && cp[j] < cp[j + 1])
    && be64(d, ce[j] - 8) == (j == n - 1 ? 18446744073709551615 : cp[j + 1])))
lemma[chunks_log]
  hide
  uses chunks chk_log
  vars d: [int]int, size: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int, i: int, v: int
  hyp chunks(d, size, n, cp, ce, cn, lg) && i >= cn[n]
  concl chunks(d, size, n, cp, ce, cn, lg[i := v])
lemma[be_kept]
  hide
  uses be64
  vars d: [int]int, f: [int]int, o: int
  trig be64(d, o), be64(f, o)
  hyp forall j: int {f[j]} :: o <= j && j < o + 8 ==> f[j] == d[j]
  concl be64(f, o) == be64(d, o)
// one record more, at the end of the file, linked from the last
lemma[chunks_grow]
  hide
  uses chunks chk_kept be_kept
  vars d: [int]int, s: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int, f: [int]int, t: int, e: int, m: int
  hyp chunks(d, s, n, cp, ce, cn, lg) && s >= 0 && e <= t && s <= t && m >= 1 && s + 9 < e
  hyp forall j: int {f[j]} :: j < s && (n == 0 || j < ce[n - 1] - 8 || j >= ce[n - 1]) ==> f[j] == d[j]
  hyp n > 0 ==> be64(f, ce[n - 1] - 8) == s
  hyp chk(f, s, e, m, lg, cn[n], lastd(lg, cn[n])) && be64(f, e - 8) == 18446744073709551615
  concl chunks(f, t, n + 1, cp[n := s], ce[n := e], cn[n + 1 := cn[n] + m], lg)
// what other lists of the same file write does not matter
lemma[chunks_other]
  hide
  uses chunks chk_kept be_kept
  vars d: [int]int, s: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int, f: [int]int, t: int, l: int
  hyp chunks(d, s, n, cp, ce, cn, lg) && s <= t
  hyp forall j: int {f[j]} :: j < s && (j < l || j >= l + 8) ==> f[j] == d[j]
  hyp forall j: int {cp[j]} {ce[j]} :: 0 <= j && j < n ==> l + 8 <= cp[j] || ce[j] <= l
  concl chunks(f, t, n, cp, ce, cn, lg)
// a reader of these records yields the documents
lemma[chk_rc]
  hide
  uses chk pend gd gd0 eo eo0 rs0 rend8 rc
  vars d: [int]int, p: int, e: int, m: int, lg: [int]int, o: int, c: int
  trig chk(d, p, e, m, lg, o, c)
  hyp chk(d, p, e, m, lg, o, c)
  hint rs0(d, p) == p + uvl(d, p) && rend8(d, p) == e - 8
  apply gd_n(d, rs0(d, p), m, m - 1)
  hint uvl(d, eo(d, rs0(d, p), m - 1)) >= 1
  hint eo(d, rs0(d, p), m - 1) < rend8(d, p)
  concl rc(d, p) == m && rend8(d, p) == e - 8 && rs0(d, p) == p + uvl(d, p)
lemma[chk_doc]
  hide
  uses chk pend rs0
  vars d: [int]int, p: int, e: int, m: int, lg: [int]int, o: int, c: int, k: int
  hyp chk(d, p, e, m, lg, o, c) && 0 <= k && k < m
  hint rs0(d, p) == p + uvl(d, p)
  concl pv(d, rs0(d, p), c)[k + 1] == lg[o + k]
lemma[chain_count]
  hide
  induct i
  fix
  uses chunks chk_rc lcount rlink
  vars d: [int]int, s: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int, i: int
  hyp chunks(d, s, n, cp, ce, cn, lg) && 1 <= i && i <= n && s < 9223372036854775808
  hint rlink(d, cp[n - i]) == (i == 1 ? 0 - 1 : cp[n - i + 1])
  concl lcount(d, cp[n - i]) == cn[n] - cn[n - i]
lemma[chain_docs]
  hide
  strong i
  uses chunks chk_rc lat rlink
  vars d: [int]int, s: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int, i: int, k: int
  hyp chunks(d, s, n, cp, ce, cn, lg) && 1 <= i && i <= n && s < 9223372036854775808 && 0 <= k && k < cn[n] - cn[n - i]
  hint chk(d, cp[n - i], ce[n - i], cn[n - i + 1] - cn[n - i], lg, cn[n - i], lastd(lg, cn[n - i]))
  apply chk_doc(d, cp[n - i], ce[n - i], cn[n - i + 1] - cn[n - i], lg, cn[n - i], lastd(lg, cn[n - i]), k)
  apply chk_doc(d, cp[n - i], ce[n - i], cn[n - i + 1] - cn[n - i], lg, cn[n - i], lastd(lg, cn[n - i]), cn[n - i + 1] - cn[n - i] - 1)
  hint rc(d, cp[n - i]) == cn[n - i + 1] - cn[n - i] && cn[n - i + 1] - cn[n - i] >= 1
  hint pv(d, rs0(d, cp[n - i]), lastd(lg, cn[n - i]))[cn[n - i + 1] - cn[n - i]] == lastd(lg, cn[n - i + 1])
  hint k < rc(d, cp[n - i]) ==> lat(d, cp[n - i], lastd(lg, cn[n - i]))[k] == lg[cn[n - i] + k]
  hint i > 1 ==> rlink(d, cp[n - i]) == cp[n - i + 1]
  apply chain_docs(d, s, n, cp, ce, cn, lg, i - 1, k - (cn[n - i + 1] - cn[n - i]))
  concl lat(d, cp[n - i], lastd(lg, cn[n - i]))[k] == lg[cn[n - i] + k]

lemma[chk_log2]
  hide
  uses chk pend
  vars d: [int]int, p: int, e: int, m: int, lg: [int]int, o: int, c: int, h: [int]int
  trig chk(d, p, e, m, lg, o, c), chk(d, p, e, m, h, o, c)
  hyp chk(d, p, e, m, lg, o, c)
  hyp forall k: int {h[k]} :: o <= k && k < o + m ==> h[k] == lg[k]
  concl chk(d, p, e, m, h, o, c)
lemma[chunks_log2]
  hide
  uses chunks chk_log2
  vars d: [int]int, size: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int, h: [int]int
  trig chunks(d, size, n, cp, ce, cn, lg), chunks(d, size, n, cp, ce, cn, h)
  hyp chunks(d, size, n, cp, ce, cn, lg)
  hyp forall k: int {h[k]} :: 0 <= k && k < cn[n] ==> h[k] == lg[k]
  concl chunks(d, size, n, cp, ce, cn, h)

// --- the poster
ghost shard.poster.lg: [int]int   // the documents added
ghost shard.poster.ln: int        // their number
ghost shard.poster.nch: int       // records written
ghost shard.poster.cp: [int]int
ghost shard.poster.ce: [int]int
ghost shard.poster.cn: [int]int

define pbuf(p: *shard.poster): bool =
  p != nil && len(p.buf) == 10 && len(p.posts) <= 511 && (base(p.buf) != base(p.posts) || off(p.buf) + 10 <= off(p.posts)) && base(p.buf) != nil
define wlist(p: *shard.poster, d: [int]int, s: int): bool =
  p.ln == p.total && p.current == lastd(p.lg, p.ln) && 0 <= s
  && pend(elems(p.posts), off(p.posts), len(p.posts), p.ln - p.cn[p.nch], p.lg, p.cn[p.nch], lastd(p.lg, p.cn[p.nch]))
  && chunks(d, s, p.nch, p.cp, p.ce, p.cn, p.lg)
  && (p.nch == 0 ? p.head == 0 - 1 && p.link == 0 - 1 : p.head == p.cp[0] && p.link == p.ce[p.nch - 1] - 8)
define fd(f: *os.File): [int]int = fdata[f.ino]
define fs(f: *os.File): int = fsize[f.ino]

contract (*shard.poster).flushTo(p, f) (err)
  uses uv_keep uv_same be64 samerange pend gd0 eo0
  requires p != nil && len(p.buf) == 10 && len(p.posts) <= 600 && (base(p.buf) != base(p.posts) || off(p.buf) + 10 <= off(p.posts)) && base(p.buf) != nil
  requires f != nil && !f.app && wlist(p, fd(f), fs(f)) && fs(f) < 4611686018427387904
  modifies p.posts, p.head, p.link, elems(p.posts), elems(p.buf), f.pos, fdata, fsize, p.nch, p.cp, p.ce, p.cn
  ghost_exit p.cp := (old(len(p.posts)) > 0 ? old(p.cp)[old(p.nch) := old(fs(f))] : old(p.cp))
  ghost_exit p.ce := (old(len(p.posts)) > 0 ? old(p.ce)[old(p.nch) := p.link + 8] : old(p.ce))
  ghost_exit p.cn := (old(len(p.posts)) > 0 ? old(p.cn)[old(p.nch) + 1 := p.ln] : old(p.cn))
  ghost_exit p.nch := (old(len(p.posts)) > 0 ? old(p.nch) + 1 : old(p.nch))
  assert err == nil && old(len(p.posts)) > 0 ==> uvl(fd(f), old(fs(f))) >= 1 && zz(uvv(fd(f), old(fs(f)))) == old(len(p.posts)) + 8
  assert err == nil && old(len(p.posts)) > 0 ==> samerange(old(elems(p.posts)), old(off(p.posts)), fd(f), old(fs(f)) + uvl(fd(f), old(fs(f))), old(len(p.posts)))
  apply be_val(fd(f), old(p.link), old(fs(f)))
  apply be_val(fd(f), p.link, 18446744073709551615)
  assert err == nil && old(len(p.posts)) > 0 && old(p.nch) > 0 ==> be64(fd(f), old(p.link)) == old(fs(f))
  assert err == nil && old(len(p.posts)) > 0 ==> be64(fd(f), p.link) == 18446744073709551615
  apply chk_new(old(elems(p.posts)), old(off(p.posts)), old(len(p.posts)), p.ln - old(p.cn)[old(p.nch)], p.lg, old(p.cn)[old(p.nch)], lastd(p.lg, old(p.cn)[old(p.nch)]), fd(f), old(fs(f)))
  assert err == nil && old(len(p.posts)) > 0 ==> p.link + 8 == old(fs(f)) + uvl(fd(f), old(fs(f))) + old(len(p.posts)) + 8 && fs(f) == p.link + 8
  assert err == nil && old(len(p.posts)) > 0 ==> p.ln - old(p.cn)[old(p.nch)] >= 1
  assert err == nil && old(len(p.posts)) > 0 ==> chk(fd(f), old(fs(f)), p.link + 8, p.ln - old(p.cn)[old(p.nch)], p.lg, old(p.cn)[old(p.nch)], lastd(p.lg, old(p.cn)[old(p.nch)]))
  assert err == nil && old(len(p.posts)) > 0 ==> (forall k: int {fd(f)[k]} :: k < old(fs(f)) && (old(p.nch) == 0 || k < old(p.link) || k >= old(p.link) + 8) ==> fd(f)[k] == old(fd(f))[k])
  apply chunks_grow(old(fd(f)), old(fs(f)), old(p.nch), old(p.cp), old(p.ce), old(p.cn), p.lg, fd(f), fs(f), p.link + 8, p.ln - old(p.cn)[old(p.nch)])
  ensures[list] err == nil ==> wlist(p, fd(f), fs(f)) && len(p.posts) == 0
  ensures[buffer] err == nil ==> pbuf(p) && base(p.buf) == old(base(p.buf)) && off(p.buf) == old(off(p.buf))
  ensures[kept] err == nil ==> fs(f) >= old(fs(f)) && fs(f) <= old(fs(f)) + 700 && (forall k: int {fd(f)[k]} :: k < old(fs(f)) && (old(p.nch) == 0 || k < old(p.link) || k >= old(p.link) + 8) ==> fd(f)[k] == old(fd(f))[k])
  ensures[only] forall i: int {fdata[i]} :: i != f.ino ==> fdata[i] == old(fdata)[i]
  ensures[sizes] forall i: int {fsize[i]} :: i != f.ino ==> fsize[i] == old(fsize)[i]

// is v the last document already?
define again(p: *shard.poster, v: int): bool = p.current == v && p.total != 0
contract (*shard.poster).AddPost(p, v, f) (err)
  uses pend_append chunks_log2 chunks pend pend_len
  requires pbuf(p) && f != nil && !f.app && wlist(p, fd(f), fs(f)) && fs(f) < 4611686018427387904 && p.ln < 4294967295
  modifies p.posts, p.head, p.link, p.current, p.total, elems(p.posts), elems(p.buf), f.pos, fdata, fsize, p.nch, p.cp, p.ce, p.cn, p.lg, p.ln
  ghost_entry p.lg := (old(again(p, v)) ? old(p.lg) : old(p.lg)[old(p.ln) := v])
  ghost_entry p.ln := (old(again(p, v)) ? old(p.ln) : old(p.ln) + 1)
  ensures[log] old(again(p, v)) ? p.ln == old(p.ln) && p.lg == old(p.lg) : p.ln == old(p.ln) + 1 && p.lg == old(p.lg)[old(p.ln) := v]
  ensures[list] err == nil ==> wlist(p, fd(f), fs(f))
  ensures[buffer] err == nil ==> pbuf(p)
  ensures[kept] err == nil ==> fs(f) >= old(fs(f)) && fs(f) <= old(fs(f)) + 700 && (forall k: int {fd(f)[k]} :: k < old(fs(f)) && (old(p.nch) == 0 || k < old(p.link) || k >= old(p.link) + 8) ==> fd(f)[k] == old(fd(f))[k])
  ensures[only] forall i: int {fdata[i]} :: i != f.ino ==> fdata[i] == old(fdata)[i]
  ensures[sizes] forall i: int {fsize[i]} :: i != f.ino ==> fsize[i] == old(fsize)[i]

contract (*shard.poster).initCommon(p, blot) ()
  requires p != nil
  modifies p.link, p.head, p.posts, p.buf, p.blot
  ensures[buffer] pbuf(p) && fresh(base(p.buf)) && fresh(base(p.posts)) && len(p.posts) == 0 && p.head == 0 - 1 && p.link == 0 - 1 && p.blot == blot
contract (*shard.poster).initCreate(p, w, blot) (err)
  uses pend gd0 eo0 pv0 chunks
  requires p != nil && p.total == 0 && p.current == 0 && typeis(w, "*os.File") && as("*os.File", w) != nil
  modifies p.link, p.head, p.posts, p.buf, p.blot, as("*os.File", w).pos, fdata, fsize, p.nch, p.cn, p.ln
  ghost_exit p.cn := old(p.cn)[0 := 0]
  ghost_exit p.nch := 0
  ghost_exit p.ln := 0
  ensures[buffer] pbuf(p) && fresh(base(p.buf)) && fresh(base(p.posts))
  ensures[empty] forall d: [int]int, s: int {chunks(d, s, p.nch, p.cp, p.ce, p.cn, p.lg)} :: 0 <= s ==> wlist(p, d, s)
  ensures[only] forall i: int {fdata[i]} :: i != as("*os.File", w).ino ==> fdata[i] == old(fdata)[i]
  ensures[sizes] forall i: int {fsize[i]} :: i != as("*os.File", w).ino ==> fsize[i] == old(fsize)[i]

// the header entry of a blot: head, count, last document
define hlast(d: [int]int, p: int): int = be32(d, p + uvl(d, p) + uvl(d, p + uvl(d, p)))
define rat(r: io.ByteReader): int = as("*bufio.Reader", r).at
contract (*shard.poster).initAppend(p, r, blot) (err)
  uses hx be32
  requires p != nil && typeis(r, "*bufio.Reader") && r != nil && as("*bufio.Reader", r) != nil
  modifies p.link, p.head, p.posts, p.buf, p.blot, p.total, p.current, as("*bufio.Reader", r).at
  inv i: int, b: !*[4]uint8 ::: rat(r) == old(rat(r)) + uvl(bsrc(r), old(rat(r))) + uvl(bsrc(r), old(rat(r)) + uvl(bsrc(r), old(rat(r)))) + i
  inv i: int, b: !*[4]uint8 ::: forall k: int {b[k]} :: 0 <= k && k < i ==> b[k] == bsrc(r)[old(rat(r)) + uvl(bsrc(r), old(rat(r))) + uvl(bsrc(r), old(rat(r)) + uvl(bsrc(r), old(rat(r)))) + k]
  ensures[buffer] pbuf(p) && fresh(base(p.buf)) && fresh(base(p.posts)) && len(p.posts) == 0 && p.link == 0 - 1
  ensures[head] err == nil ==> p.head == hhead(bsrc(r), old(rat(r)))
  ensures[count] err == nil ==> p.total == hcount(bsrc(r), old(rat(r)))
  ensures[last] err == nil ==> p.current == hlast(bsrc(r), old(rat(r)))
  ensures[next] err == nil ==> rat(r) == hx(bsrc(r), old(rat(r)))

lemma[next_rec]
  hide
  uses chunks chk be64 samerange
  vars d: [int]int, s: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int, j: int, a: [int]int, q: int, r: int, v: int
  trig chunks(d, s, n, cp, ce, cn, lg), samerange(a, q, d, r, v), cp[j]
  hyp chunks(d, s, n, cp, ce, cn, lg) && samerange(a, q, d, r, v) && 0 <= j && j < n && r == cp[j] + uvl(d, cp[j]) && v == zz(uvv(d, cp[j])) && s < 9223372036854775808
  hint chk(d, cp[j], ce[j], cn[j + 1] - cn[j], lg, cn[j], lastd(lg, cn[j]))
  apply pend_len(d, cp[j] + uvl(d, cp[j]), ce[j] - 8 - cp[j] - uvl(d, cp[j]), cn[j + 1] - cn[j], lg, cn[j], lastd(lg, cn[j]))
  hint r + v == ce[j] && v >= 8
  hint a[q + v - 8 + 0] == d[r + v - 8 + 0]
  hint a[q + v - 8 + 1] == d[r + v - 8 + 1]
  hint a[q + v - 8 + 2] == d[r + v - 8 + 2]
  hint a[q + v - 8 + 3] == d[r + v - 8 + 3]
  hint a[q + v - 8 + 4] == d[r + v - 8 + 4]
  hint a[q + v - 8 + 5] == d[r + v - 8 + 5]
  hint a[q + v - 8 + 6] == d[r + v - 8 + 6]
  hint a[q + v - 8 + 7] == d[r + v - 8 + 7]
  hint be64(a, q + v - 8) == be64(d, ce[j] - 8)
  concl r + v == ce[j] && i64(be64(a, q + v - 8)) == (j == n - 1 ? 0 - 1 : cp[j + 1])
