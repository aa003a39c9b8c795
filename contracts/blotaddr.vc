// C08: blot addresses

// a blot b, with n shards, is in shard ashard(b, n) under number asblot(b, n)
define ared(b: int, n: int): int = b % (n * 65536)
define ashard(b: int, n: int): int = b % n
define asblot(b: int, n: int): int = (b % (n * 65536)) / n
define ajoin(sh: int, sb: int, n: int): int = n * sb + sh

contract (*dupi.Index).NumShards(x) (n)
  requires x != nil && x.config != nil
  ensures n == x.config.NumShards

contract (*dupi.Index).SplitBlot(x, b) (sh, sb)
  requires x != nil && x.config != nil && 1 <= x.config.NumShards && x.config.NumShards <= 65535
  ensures[shard] sh == (b % (x.config.NumShards * 65536)) % x.config.NumShards
  ensures[in-shard] sb == asblot(b, x.config.NumShards)
  ensures[range] sh < x.config.NumShards
  ensures[join-inverse] ajoin(sh, sb, x.config.NumShards) == ared(b, x.config.NumShards)

contract (*dupi.Index).JoinBlot(x, sh, sb) (b)
  requires x != nil && x.config != nil && 1 <= x.config.NumShards && x.config.NumShards <= 65535
  requires sh < x.config.NumShards
  ensures[join] b == ajoin(sh, sb, x.config.NumShards)

contract post.Make(docid, blot) (p)
  mode bv
  ensures[docid] u32(p >> 32) == docid
  ensures[blot] u32(p) == blot

contract (post.T).Docid(p) (d)
  mode bv
  ensures d == u32(p >> 32)

contract (post.T).Blot(p) (b)
  mode bv
  ensures b == u32(p)

contract (post.T).Split(p) (d, b)
  mode bv
  ensures d == u32(p >> 32) && b == u32(p)

// splitting and joining are inverse
lemma[ajoin_range]
  vars sh: int, sb: int, n: int
  apply mul_mono(n, sb, 65536)
  hyp 1 <= n && n <= 65535 && 0 <= sh && sh < n && 0 <= sb && sb < 65536
  concl 0 <= ajoin(sh, sb, n) && ajoin(sh, sb, n) < n * 65536

lemma[split_join]
  vars sh: int, sb: int, n: int
  apply ajoin_range(sh, sb, n)
  apply div_uniq(ajoin(sh, sb, n), n, sb, sh)
  hyp 1 <= n && n <= 65535 && 0 <= sh && sh < n && 0 <= sb && sb < 65536
  concl (ajoin(sh, sb, n) % (n * 65536)) % n == sh
  concl asblot(ajoin(sh, sb, n), n) == sb

// reducing a blot first changes nothing: the address of an index posting
// (b%n, low 16 bits of b/n) is the address of SplitBlot
lemma[reduce]
  vars b: int, n: int
  apply div_uniq(b % (n * 65536), n, b / n - 65536 * (b / (n * 65536)), b % n)
  apply mul_mono(n, 65535, (b % (n * 65536)) / n)
  apply mul_mono(n, (b % (n * 65536)) / n, 0)
  apply div_uniq(b / n, 65536, b / (n * 65536), b / n - 65536 * (b / (n * 65536)))
  hint b == n * (b / n) + b % n
  hint b == (n * 65536) * (b / (n * 65536)) + b % (n * 65536)
  hyp 1 <= n && n <= 65535 && 0 <= b && b < 4294967296
  concl (b % (n * 65536)) % n == b % n
  concl (b / n) % 65536 == asblot(b, n)

// posts collected by a worker for each shard
define pmake(docid: int, b: int): int = docid * 4294967296 + b

define batches(s: *dupi.shatter): bool =
  1 <= len(s.d) && len(s.d) <= 65535
  && (forall i: int, j: int {s.d[i], s.d[j]} :: 0 <= i && i < j && j < len(s.d) ==> base(s.d[i]) != base(s.d[j]) || base(s.d[i]) == nil)

contract (*dupi.shatter).blot(s, docid, b) ()
  requires s != nil && batches(s)
  modifies elems(s.d), anyelems("post.T")
  ensures[kept-others] forall i: int {s.d[i]} :: 0 <= i && i < len(s.d) && i != b % len(s.d) ==> s.d[i] == old(s.d[i])
  ensures[posted] len(s.d[b % len(s.d)]) == old(len(s.d[b % len(s.d)])) + 1
    && s.d[b % len(s.d)][old(len(s.d[b % len(s.d)]))] == pmake(docid, b / len(s.d))
  ensures[batches] batches(s)
  ensures[kept-posts] forall i: int, k: int {s.d[i][k]} :: 0 <= i && i < len(s.d) && 0 <= k && k < old(len(s.d[i])) ==> s.d[i][k] == old(s.d[i][k])
