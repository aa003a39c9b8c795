// C02: finding the end of a list when reopening for append

// one of the records is at h
sfunc onchain(d: [int]int, s: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int, h: int): bool
definition[onchain]
  hide
  vars d: [int]int, s: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int, h: int
  trig onchain(d, s, n, cp, ce, cn, lg, h)
  concl onchain(d, s, n, cp, ce, cn, lg, h) == (chunks(d, s, n, cp, ce, cn, lg) && exists j: int {cp[j]} :: 0 <= j && j < n && h == cp[j])
lemma[onchain_first]
  hide
  uses onchain chunks chk
  vars d: [int]int, s: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int
  trig chunks(d, s, n, cp, ce, cn, lg)
  hyp chunks(d, s, n, cp, ce, cn, lg) && n >= 1
  concl onchain(d, s, n, cp, ce, cn, lg, cp[0]) && cp[0] >= 0
lemma[onchain_next]
  hide
  uses onchain next_rec chunks chk
  vars d: [int]int, s: int, n: int, cp: [int]int, ce: [int]int, cn: [int]int, lg: [int]int, h: int, a: [int]int, q: int, r: int, v: int
  trig onchain(d, s, n, cp, ce, cn, lg, h), samerange(a, q, d, r, v)
  hyp onchain(d, s, n, cp, ce, cn, lg, h) && samerange(a, q, d, r, v) && r == h + uvl(d, h) && v == zz(uvv(d, h)) && s < 9223372036854775808
  concl (i64(be64(a, q + v - 8)) == 0 - 1 ==> r + v == ce[n - 1]) && (i64(be64(a, q + v - 8)) != 0 - 1 ==> onchain(d, s, n, cp, ce, cn, lg, i64(be64(a, q + v - 8))))
lemma[be64_u]
  hide
  uses be64
  vars a: [int]int, o: int
  trig be64(a, o)
  hyp 0 <= a[o] && a[o] <= 255 && 0 <= a[o + 1] && a[o + 1] <= 255 && 0 <= a[o + 2] && a[o + 2] <= 255 && 0 <= a[o + 3] && a[o + 3] <= 255 && 0 <= a[o + 4] && a[o + 4] <= 255 && 0 <= a[o + 5] && a[o + 5] <= 255 && 0 <= a[o + 6] && a[o + 6] <= 255 && 0 <= a[o + 7] && a[o + 7] <= 255
  concl be64(a, o) == u64(a[o]) * 72057594037927936 + u64(a[o + 1]) * 281474976710656 + u64(a[o + 2]) * 1099511627776 + u64(a[o + 3]) * 4294967296 + u64(a[o + 4]) * 16777216 + u64(a[o + 5]) * 65536 + u64(a[o + 6]) * 256 + u64(a[o + 7])
// is the link position to be found from the records of the file?
define ondisk(p: *shard.poster, d: [int]int, s: int): bool = p.nch >= 1 && chunks(d, s, p.nch, p.cp, p.ce, p.cn, p.lg) && p.head == p.cp[0] && 0 <= s && s < 9223372036854775808
contract (*shard.poster).readToLink(p, f) (err)
  uses onchain_first onchain_next be64_u
  requires p != nil && f != nil && (p.head == 0 - 1 || p.link == 0 - 1)
  modifies p.link
  inv h: int64 ::: ondisk(p, fd(f), fs(f)) ==> onchain(fd(f), fs(f), p.nch, p.cp, p.ce, p.cn, p.lg, h)
  ensures[link] err == nil && old(ondisk(p, fd(f), fs(f))) ==> p.link == p.ce[p.nch - 1] - 8
  ensures[none] old(p.head) == 0 - 1 || err != nil ==> p.link == old(p.link)
