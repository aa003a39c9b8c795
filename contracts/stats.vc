// C15: statistics

// sum of a[0..n)
sfunc sumc(a: [int]int, n: int): int
definition[sumc]
  vars a: [int]int, n: int
  trig sumc(a, n)
  concl sumc(a, n) == (n <= 0 ? 0 : sumc(a, n - 1) + a[n - 1])
lemma[sumc_range]
  induct n
  fix
  vars a: [int]int, n: int
  trig sumc(a, n)
  hyp 0 <= n
  hyp forall k: int {a[k]} :: 0 <= k && k < n ==> 0 <= a[k] && a[k] < 4294967296
  concl 0 <= sumc(a, n) && sumc(a, n) <= n * 4294967295

// sum of the squared distances of a[0..n) from m
sfunc sosc(a: [int]int, m: real, n: int): real
definition[sosc]
  vars a: [int]int, m: real, n: int
  trig sosc(a, m, n)
  concl sosc(a, m, n) == (n <= 0 ? real(0) : sosc(a, m, n - 1) + (m - real(a[n - 1])) * (m - real(a[n - 1])))

contract (*shard.Index).NumPosts(x) (r)
  requires x != nil
  inv i: int, s: uint64 ::: s == sumc(elems(x.counts), i)
  ensures r == sumc(elems(x.counts), 65536)
contract (*shard.Index).SosDiffs(x, avg) (r)
  requires x != nil
  inv i: int, s: float64 ::: s == sosc(elems(x.counts), avg, i)
  ensures r == sosc(elems(x.counts), avg, 65536)
contract (*shard.Index).NumBlots(x) (r)
  ensures r == 65536

sfunc sqrtr(x: real): real
contract math.Sqrt(x) (r)
  trusted
  why library: a function of the number
  pure
  ensures r == sqrtr(x)

// sums over the first n shards
sfunc sumall(c: [int][int]int, n: int): int
definition[sumall]
  vars c: [int][int]int, n: int
  trig sumall(c, n)
  concl sumall(c, n) == (n <= 0 ? 0 : sumall(c, n - 1) + sumc(c[n - 1], 65536))
lemma[sumall_range]
  induct n
  fix
  vars c: [int][int]int, n: int
  trig sumall(c, n)
  hyp 0 <= n
  hyp forall i: int, k: int {c[i][k]} :: 0 <= i && i < n && 0 <= k && k < 65536 ==> 0 <= c[i][k] && c[i][k] < 4294967296
  concl 0 <= sumall(c, n) && sumall(c, n) <= n * 281474976645120
sfunc sosall(c: [int][int]int, m: real, n: int): real
definition[sosall]
  vars c: [int][int]int, m: real, n: int
  trig sosall(c, m, n)
  concl sosall(c, m, n) == (n <= 0 ? real(0) : sosall(c, m, n - 1) + sosc(c[n - 1], m, 65536))

contract (*dmd.T).NumDocs(t) (n, err)
  requires t != nil && t.file != nil
  ensures err == nil ==> n == (fsize[t.file.ino] / 12 > 0 ? fsize[t.file.ino] / 12 - 1 : 0)

// ghost: the posting counts of the shards
ghost dupi.Index.cnts: [int][int]int
define openidx(x: *dupi.Index): bool =
  x != nil && x.config != nil && x.dmd != nil && x.dmd.file != nil && x.fnames != nil && 1 <= len(x.shards) && len(x.shards) <= 65535

contract (*dupi.Index).Stats(x) (st, err)
  requires openidx(x)
  requires forall i: int {x.cnts[i]} :: 0 <= i && i < len(x.shards) ==> x.cnts[i] == x.shards[i].counts
  inv i: int, st: !*dupi.Stats ::: st.NumPosts == sumall(x.cnts, i)
  inv i: int, st: !*dupi.Stats, s: float64 ::: s == sosall(x.cnts, st.BlotMean, i)
  ensures[docs] err == nil ==> st.NumDocs == (fsize[x.dmd.file.ino] / 12 > 0 ? fsize[x.dmd.file.ino] / 12 - 1 : 0)
  ensures[paths] err == nil ==> st.NumPaths == len(x.fnames.d)
  ensures[blots] err == nil ==> st.NumBlots == 65536 * len(x.shards)
  ensures[posts] err == nil ==> st.NumPosts == sumall(x.cnts, len(x.shards))
  ensures[mean] err == nil ==> st.BlotMean == real(sumall(x.cnts, len(x.shards))) / real(65536 * len(x.shards))
  ensures[sigma] err == nil ==> st.BlotSigma == sqrtr(sosall(x.cnts, st.BlotMean, len(x.shards)) / real(65536 * len(x.shards)))
  ensures[root] err == nil ==> st.Root == x.config.IndexRoot
