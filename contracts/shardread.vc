// C01, C02, C09, C21: opening a shard for reading

// the header: for each blot the position of its first record, its count and
// its last document
sfunc hx(d: [int]int, p: int): int
definition[hx]
  vars d: [int]int, p: int
  trig hx(d, p)
  concl hx(d, p) == p + uvl(d, p) + uvl(d, p + uvl(d, p)) + 4
sfunc hp(d: [int]int, j: int): int
definition[hp0]
  vars d: [int]int, j: int
  trig hp(d, j)
  hyp j == 0
  concl hp(d, j) == 0
definition[hp]
  vars d: [int]int, j: int, m: int
  trig hp(d, j), hp(d, m)
  hyp j >= 0 && m == j + 1
  concl hp(d, m) == hx(d, hp(d, j))
define hhead(d: [int]int, p: int): int = zz(uvv(d, p))
define hcount(d: [int]int, p: int): int = zz(uvv(d, p + uvl(d, p)))

definition[hdr]
  vars h: [int]int, c: [int]int, d: [int]int
  trig hdr(h, c, d)
  concl hdr(h, c, d) == (forall k: int {h[k]} {c[k]} :: 0 <= k && k < 65536 ==> h[k] == hhead(d, hp(d, k)) && c[k] == hcount(d, hp(d, k)))
define hdata(x: *shard.Index): [int]int = fdata[fsat[sprintf("%s.iix", x.path)]]
contract (*shard.Index).readIix(x) (err)
  requires x != nil
  modifies x.heads, x.counts, x.perm
  inv i: int, r: !*bufio.Reader ::: r != nil && r.src == fsat[sprintf("%s.iix", x.path)] && r.at == hp(hdata(x), i)
  inv i: int ::: forall k: int {x.heads[k]} :: 0 <= k && k < i ==> x.heads[k] == hhead(hdata(x), hp(hdata(x), k))
  inv i: int ::: forall k: int {x.counts[k]} :: 0 <= k && k < i ==> x.counts[k] == hcount(hdata(x), hp(hdata(x), k))
  inv i: int ::: forall k: int {x.counts[k]} {x.perm[k]} :: 0 <= k && k < i ==> x.counts[k] >= 0 && x.perm[k] == k
  ensures[header] err == nil ==> hdr(x.heads, x.counts, hdata(x))
  ensures[heads] err == nil ==> forall k: int {x.heads[k]} :: 0 <= k && k < 65536 ==> x.heads[k] == hhead(hdata(x), hp(hdata(x), k))
  ensures[counts] err == nil ==> forall k: int {x.counts[k]} :: 0 <= k && k < 65536 ==> x.counts[k] == hcount(hdata(x), hp(hdata(x), k))
  ensures[sorted] err == nil ==> psorted(x)
  ensures[each] err == nil ==> forall b: int {x.counts[b]} :: 0 <= b && b < 65536 && x.counts[b] >= 0 ==> exists k: int :: 0 <= k && k < 65536 && x.perm[k] == b
  ensures[once] err == nil ==> forall a: int, b: int {x.perm[a], x.perm[b]} :: 0 <= a && a < 65536 && 0 <= b && b < 65536 && x.perm[a] == x.perm[b] ==> a == b
// the heads and counts are those of the header
