// C09, C10, C22: queries

// --- slots for documents
contract (*dupi.Blot).Cap(b) (n)
  requires b != nil
  ensures n == cap(b.Docs)
contract (*dupi.Blot).Len(b) (n)
  requires b != nil
  ensures n == len(b.Docs)
contract (*dupi.Blot).Doc(b, i) (d)
  requires b != nil && 0 <= i && i < len(b.Docs)
  ensures d == addr(b.Docs, i)
contract (*dupi.Blot).Next(b, lim) (d)
  requires b != nil && (lim ==> len(b.Docs) < cap(b.Docs))
  modifies b.Docs, elems(b.Docs)
  ensures[slot] len(b.Docs) == old(len(b.Docs)) + 1 && d == addr(b.Docs, old(len(b.Docs)))
  ensures[cleared] d.Path == "" && d.Start == 0 && d.End == 0 && d.Dat == nil
  ensures[own] lim ==> base(b.Docs) == old(base(b.Docs)) && off(b.Docs) == old(off(b.Docs)) && cap(b.Docs) == old(cap(b.Docs))
  ensures[array] base(b.Docs) == old(base(b.Docs)) && off(b.Docs) == old(off(b.Docs)) || fresh(base(b.Docs))
  ensures[kept] forall k: int {b.Docs[k]} :: 0 <= k && k < old(len(b.Docs)) ==> b.Docs[k].Path == old(b.Docs[k].Path) && b.Docs[k].Start == old(b.Docs[k].Start) && b.Docs[k].End == old(b.Docs[k].End) && b.Docs[k].Dat == old(b.Docs[k].Dat)


// --- an open index
define readidx(x: *dupi.Index): bool =
  x != nil && x.dmd != nil && x.dmd.file != nil && tree(x.fnames)
  && (forall i: int {x.shards[i].postFile} :: 0 <= i && i < len(x.shards) ==> x.shards[i].postFile != nil)
// document d is the one with the id
define isdoc(x: *dupi.Index, d: *dupi.Doc, id: int): bool =
  d.Start == rstart(fdata[x.dmd.file.ino], id) && d.End == rend(fdata[x.dmd.file.ino], id)
contract (*dupi.Index).docid2Doc(x, did, doc) (err)
  requires x != nil && x.dmd != nil && x.dmd.file != nil && tree(x.fnames) && doc != nil
  modifies doc.Path, doc.Start, doc.End
  ensures[span] err == nil ==> isdoc(x, doc, did)
  ensures[failed] err != io.EOF

// w is v from j on
sfunc shiftd(w: [int]int, v: [int]int, j: int): bool
definition[shiftd]
  vars w: [int]int, v: [int]int, j: int
  trig shiftd(w, v, j)
  concl shiftd(w, v, j) == (forall k: int {w[k]} :: 0 <= k ==> w[k] == v[k + j])
lemma[shift_tail]
  uses tail
  vars u: [int]int, w: [int]int, v: [int]int, j: int, m: int
  trig tail(u, w), shiftd(w, v, j), shiftd(u, v, m)
  hyp tail(u, w) && shiftd(w, v, j) && m == j + 1
  concl shiftd(u, v, m)
lemma[shift_first]
  vars w: [int]int, v: [int]int, j: int
  trig shiftd(w, v, j)
  hyp shiftd(w, v, j)
  concl w[0] == v[j]
lemma[shift_start]
  uses prem
  vars ids: [int]int, o: int, n: int, d: [int]int, p: int, c: int, j: int
  trig shiftd(prem(ids, o, n, d, p, c), lat(d, p, c), j)
  hyp n == 0 && j == 0
  concl shiftd(prem(ids, o, n, d, p, c), lat(d, p, c), j)

define theshard(x: *dupi.Index, b: int): *shard.Index = addr(x.shards, b % len(x.shards))
define inshard(x: *dupi.Index, b: int): int = u16(b / len(x.shards))
define pdata(x: *shard.Index): [int]int = fdata[x.postFile.ino]
define plist(x: *shard.Index, b: int): [int]int = lat(pdata(x), x.heads[b], 0)
define pcount(x: *shard.Index, b: int): int = lcount(pdata(x), x.heads[b])
define blist(x: *dupi.Index, b: int): [int]int = plist(theshard(x, b), inshard(x, b))
define bcount(x: *dupi.Index, b: int): int = pcount(theshard(x, b), inshard(x, b))
define query(q: *dupi.Query): bool =
  q != nil && q.state != nil && readidx(q.index) && q.state.n == len(q.index.shards) && 1 <= q.state.n && q.state.n <= 65535

contract (*dupi.Query).Get(q, blot) (err)
  requires query(q) && blot != nil
  modifies blot.Docs, elems(blot.Docs)
  inv rs: !*shard.ReadState ::: rstate(rs) && rino(rs.rdr) == theshard(q.index, blot.Blot).postFile.ino
  inv rs: !*shard.ReadState ::: fresh(rs.Posts) && fresh(base(rs.Posts.buf)) && fresh(base(rs.Posts.docids))
  inv rs: !*shard.ReadState ::: shiftd(rest(rs.Posts, pdata(theshard(q.index, blot.Blot))), blist(q.index, blot.Blot), len(blot.Docs) - old(len(blot.Docs)))
  inv rs: !*shard.ReadState ::: nrest(rs.Posts, pdata(theshard(q.index, blot.Blot))) == bcount(q.index, blot.Blot) - (len(blot.Docs) - old(len(blot.Docs)))
  inv len(blot.Docs) >= old(len(blot.Docs)) && (old(blot.Docs) != nil ==> base(blot.Docs) == old(base(blot.Docs)) && off(blot.Docs) == old(off(blot.Docs)) && cap(blot.Docs) == old(cap(blot.Docs)))
  inv old(blot.Docs) == nil && blot.Docs != nil ==> fresh(base(blot.Docs))
  inv forall k: int {blot.Docs[k]} :: old(len(blot.Docs)) <= k && k < len(blot.Docs) ==> isdoc(q.index, blot.Docs[k], blist(q.index, blot.Blot)[k - old(len(blot.Docs))]) && blot.Docs[k].Dat == nil
  inv forall k: int {blot.Docs[k]} :: 0 <= k && k < old(len(blot.Docs)) ==> blot.Docs[k].Path == old(blot.Docs[k].Path) && blot.Docs[k].Start == old(blot.Docs[k].Start) && blot.Docs[k].End == old(blot.Docs[k].End) && blot.Docs[k].Dat == old(blot.Docs[k].Dat)
  ensures[own] old(blot.Docs) != nil ==> base(blot.Docs) == old(base(blot.Docs)) && off(blot.Docs) == old(off(blot.Docs)) && cap(blot.Docs) == old(cap(blot.Docs))
  ensures[documents] err == nil ==> forall k: int {blot.Docs[k]} :: old(len(blot.Docs)) <= k && k < len(blot.Docs) ==> isdoc(q.index, blot.Docs[k], blist(q.index, blot.Blot)[k - old(len(blot.Docs))]) && blot.Docs[k].Dat == nil
  ensures[all] err == nil && (old(blot.Docs) == nil || len(blot.Docs) < cap(blot.Docs)) ==> len(blot.Docs) - old(len(blot.Docs)) == bcount(q.index, blot.Blot)
  ensures[kept] forall k: int {blot.Docs[k]} :: 0 <= k && k < old(len(blot.Docs)) ==> blot.Docs[k].Path == old(blot.Docs[k].Path) && blot.Docs[k].Start == old(blot.Docs[k].Start) && blot.Docs[k].End == old(blot.Docs[k].End) && blot.Docs[k].Dat == old(blot.Docs[k].Dat)

// --- C09: the order of extraction
define total(s: *shard.ReadState): int = (s == nil ? 0 : s.Total)
contract (*dupi.qstate).setMax(s) ()
  requires s != nil && 1 <= len(s.shardStates) && len(s.shardStates) <= 65536
  modifies s.i
  inv i: int, m: uint32, p: uint32 ::: 0 <= p && (p == 0 || p < i) && m >= 0
  inv i: int, m: uint32, p: uint32 ::: m == 0 ==> p == 0
  inv i: int, m: uint32, p: uint32 ::: m > 0 ==> m == total(s.shardStates[p])
  inv i: int, m: uint32 ::: forall k: int {s.shardStates[k]} :: 0 <= k && k < i ==> total(s.shardStates[k]) <= m
  ensures[inside] 0 <= s.i && s.i < len(s.shardStates)
  ensures[most] forall k: int {s.shardStates[k]} :: 0 <= k && k < len(s.shardStates) ==> total(s.shardStates[k]) <= total(s.shardStates[s.i])

// the reader of shard k is at the entry it says
define xstat(x: *dupi.Index, k: int, s: *shard.ReadState): bool =
  rstate(s) && root(base(s.Posts.docids)) != root(base(x.shards)) && as("*os.File", s.rdr) == x.shards[k].postFile && s.Blot == x.shards[k].perm[s.At] && s.Total == x.shards[k].counts[s.Blot]
define qstat(q: *dupi.Query, k: int, s: *shard.ReadState): bool = xstat(q.index, k, s)
define qok(q: *dupi.Query): bool =
  query(q) && len(q.state.shardStates) == q.state.n && q.state.i < q.state.n
  && (forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n && q.state.shardStates[k] != nil ==> qstat(q, k, q.state.shardStates[k]))
define statesapart(a: *shard.ReadState, b: *shard.ReadState): bool =
  a != b && a.Posts != b.Posts && base(a.Posts.buf) != base(b.Posts.buf) && base(a.Posts.docids) != base(b.Posts.docids)
define qsep(q: *dupi.Query): bool =
  forall k: int, l: int {q.state.shardStates[k], q.state.shardStates[l]} :: 0 <= k && k < l && l < q.state.n && q.state.shardStates[k] != nil && q.state.shardStates[l] != nil ==> statesapart(q.state.shardStates[k], q.state.shardStates[l])
define qmost(st: *dupi.qstate): bool =
  forall k: int {st.shardStates[k]} :: 0 <= k && k < len(st.shardStates) ==> total(st.shardStates[k]) <= total(st.shardStates[st.i])
define atstart(x: *shard.Index, s: *shard.ReadState): bool =
  s.Posts.nextpos == x.heads[s.Blot] && s.Posts.current == 0 && s.Posts.i == 0 && len(s.Posts.docids) == 0
define xnext(x: *dupi.Index, k: int, s: *shard.ReadState, at: int): bool =
  s != nil && s.At == at && xstat(x, k, s) && atstart(x.shards[k], s)
define isnext(q: *dupi.Query, k: int, s: *shard.ReadState, at: int): bool = xnext(q.index, k, s, at)

// the posting lists of a shard are visited longest first
define psorted(x: *shard.Index): bool =
  forall a: int, b: int {x.perm[a], x.perm[b]} :: 0 <= a && a <= b && b <= 65535 ==> x.counts[x.perm[b]] <= x.counts[x.perm[a]]
define sortedidx(x: *dupi.Index): bool = forall k: int {x.shards[k].postFile} :: 0 <= k && k < len(x.shards) ==> psorted(x.shards[k])
sfunc bnum(sb: int, n: int, sh: int): uint32
definition[bnum]
  vars sb: int, n: int, sh: int
  trig bnum(sb, n, sh)
  concl bnum(sb, n, sh) == u32(sb * n + sh)
// the shard of a blot and the blot within it
sfunc bshard(b: int, n: int): int
definition[bshard]
  vars b: int, n: int
  trig bshard(b, n)
  concl bshard(b, n) == b % n
sfunc binner(b: int, n: int): int
definition[binner]
  vars b: int, n: int
  trig binner(b, n)
  concl binner(b, n) == u16(b / n)
lemma[bnum_split]
  uses split_join
  vars sh: int, sb: int, n: int
  trig bnum(sb, n, sh)
  hyp 1 <= n && n <= 65535 && 0 <= sh && sh < n && 0 <= sb && sb < 65536
  apply split_join(sh, sb, n)
  concl bshard(bnum(sb, n, sh), n) == sh && binner(bnum(sb, n, sh), n) == sb
// the count of a blot
define btotal(x: *dupi.Index, b: int): int = addr(x.shards, bshard(b, len(x.shards))).counts[binner(b, len(x.shards))]

contract (*dupi.Query).advance(q, src, pos) (r)
  requires qok(q) && qsep(q) && sortedidx(q.index) && pos < q.state.n && src != nil && src == q.state.shardStates[pos]
  modifies elems(q.state.shardStates), q.state.i
  ensures[state] qok(q) && r == q.state.shardStates[q.state.i]
  ensures[separate] qsep(q)
  ensures[next] src.At < 65535 && src.Total > 1 ==> isnext(q, pos, q.state.shardStates[pos], src.At + 1) && fresh(q.state.shardStates[pos])
  ensures[end] src.At == 65535 || src.Total <= 1 ==> q.state.shardStates[pos] == nil
  ensures[others] forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n && k != pos ==> q.state.shardStates[k] == old(q.state.shardStates[k])
  ensures[most] qmost(q.state)
  ensures[less] total(q.state.shardStates[pos]) <= src.Total

contract (*dupi.Query).fillBlot(q, dst, src, srcPos) (n, err)
  requires qok(q) && qsep(q) && qmost(q.state) && sortedidx(q.index) && srcPos == q.state.i && src != nil && src == q.state.shardStates[srcPos] && dst != nil
  modifies dst.Blot, dst.Docs, elems(dst.Docs), src.Error, src.Posts.i, src.Posts.nextpos, src.Posts.current, src.Posts.docids, elems(src.Posts.docids), elems(src.Posts.buf), elems(q.state.shardStates), q.state.i
  inv n: int ::: n == len(dst.Docs) - old(len(dst.Docs)) && n >= 0
  inv rstate(src) && base(src.Posts.buf) == old(base(src.Posts.buf)) && (base(src.Posts.docids) == old(base(src.Posts.docids)) || fresh(base(src.Posts.docids)))
  inv n: int ::: shiftd(rest(src.Posts, fdata[rino(src.rdr)]), old(rest(src.Posts, fdata[rino(src.rdr)])), n)
  inv n: int ::: nrest(src.Posts, fdata[rino(src.rdr)]) == old(nrest(src.Posts, fdata[rino(src.rdr)])) - n
  inv len(dst.Docs) >= old(len(dst.Docs)) && (old(dst.Docs) != nil ==> base(dst.Docs) == old(base(dst.Docs)) && off(dst.Docs) == old(off(dst.Docs)) && cap(dst.Docs) == old(cap(dst.Docs)))
  inv old(dst.Docs) == nil && dst.Docs != nil ==> fresh(base(dst.Docs))
  inv forall k: int {dst.Docs[k]} :: old(len(dst.Docs)) <= k && k < len(dst.Docs) ==> isdoc(q.index, dst.Docs[k], old(rest(src.Posts, fdata[rino(src.rdr)]))[k - old(len(dst.Docs))]) && dst.Docs[k].Dat == nil
  inv forall k: int {dst.Docs[k]} :: 0 <= k && k < old(len(dst.Docs)) ==> dst.Docs[k].Path == old(dst.Docs[k].Path) && dst.Docs[k].Start == old(dst.Docs[k].Start) && dst.Docs[k].End == old(dst.Docs[k].End) && dst.Docs[k].Dat == old(dst.Docs[k].Dat)
  inv forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n && q.state.shardStates[k] != nil ==> q.state.shardStates[k].Total == q.index.shards[k].counts[q.state.shardStates[k].Blot]
  inv forall k: int, b: int {q.index.shards[k].counts[b]} :: 0 <= k && k < q.state.n && 0 <= b && b < 65536 ==> q.index.shards[k].counts[b] == old(q.index.shards[k].counts[b])
  ensures[state] qok(q)
  ensures[separate] qsep(q)
  ensures[blot] dst.Blot == bnum(src.Blot, q.state.n, srcPos)
  ensures[own] old(dst.Docs) != nil ==> base(dst.Docs) == old(base(dst.Docs)) && off(dst.Docs) == old(off(dst.Docs)) && cap(dst.Docs) == old(cap(dst.Docs))
  ensures[number] err == nil ==> n == len(dst.Docs) - old(len(dst.Docs)) && n >= 0
  ensures[documents] err == nil ==> forall k: int {dst.Docs[k]} :: old(len(dst.Docs)) <= k && k < len(dst.Docs) ==> isdoc(q.index, dst.Docs[k], old(rest(src.Posts, fdata[rino(src.rdr)]))[k - old(len(dst.Docs))]) && dst.Docs[k].Dat == nil
  ensures[kept] forall k: int {dst.Docs[k]} :: 0 <= k && k < old(len(dst.Docs)) ==> dst.Docs[k].Path == old(dst.Docs[k].Path) && dst.Docs[k].Start == old(dst.Docs[k].Start) && dst.Docs[k].End == old(dst.Docs[k].End) && dst.Docs[k].Dat == old(dst.Docs[k].Dat)
  ensures[more] err == nil && q.state.shardStates[srcPos] == src ==> old(dst.Docs) != nil && len(dst.Docs) >= cap(dst.Docs) && q.state.i == srcPos && shiftd(rest(src.Posts, fdata[rino(src.rdr)]), old(rest(src.Posts, fdata[rino(src.rdr)])), n)
  ensures[done] err == nil && q.state.shardStates[srcPos] != src ==> old(nrest(src.Posts, fdata[rino(src.rdr)])) == n
  ensures[next] err == nil && q.state.shardStates[srcPos] != src ==> (src.At < 65535 && src.Total > 1 ? isnext(q, srcPos, q.state.shardStates[srcPos], src.At + 1) : q.state.shardStates[srcPos] == nil)
  ensures[most] qmost(q.state)
  ensures[less] forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n ==> total(q.state.shardStates[k]) <= src.Total
  ensures[slot] bshard(dst.Blot, len(q.index.shards)) == srcPos && binner(dst.Blot, len(q.index.shards)) == src.Blot
  ensures[others] forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n && k != srcPos ==> q.state.shardStates[k] == old(q.state.shardStates[k])
  ensures[failed] err != io.EOF

contract (*dupi.Index).qstate(x, s) (st)
  requires readidx(x) && 1 <= len(x.shards) && len(x.shards) <= 65535
  inv i: int, ss: ![]*shard.ReadState ::: true
  inv i: int, st: !*dupi.qstate ::: forall k: int {st.shardStates[k]} :: 0 <= k && k < i ==> xnext(x, k, st.shardStates[k], 0) && fresh(st.shardStates[k]) && fresh(st.shardStates[k].Posts) && fresh(base(st.shardStates[k].Posts.buf)) && fresh(base(st.shardStates[k].Posts.docids))
  inv i: int, st: !*dupi.qstate ::: forall k: int, l: int {st.shardStates[k], st.shardStates[l]} :: 0 <= k && k < l && l < i ==> statesapart(st.shardStates[k], st.shardStates[l])
  ensures[new] fresh(st) && fresh(base(st.shardStates)) && st.n == len(x.shards) && len(st.shardStates) == st.n && st.i < st.n
  ensures[first] forall k: int {st.shardStates[k]} :: 0 <= k && k < st.n ==> xnext(x, k, st.shardStates[k], 0)
  ensures[separate] forall k: int, l: int {st.shardStates[k], st.shardStates[l]} :: 0 <= k && k < l && l < st.n ==> statesapart(st.shardStates[k], st.shardStates[l])
  ensures[most] qmost(st)

contract (*dupi.Index).StartQuery(x, s) (q)
  requires readidx(x) && 1 <= len(x.shards) && len(x.shards) <= 65535
  ensures[new] fresh(q) && q.index == x && qok(q) && qmost(q.state)
  ensures[separate] qsep(q)
  ensures[first] forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n ==> xnext(x, k, q.state.shardStates[k], 0)

