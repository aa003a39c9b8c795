// C17: Bloom filters (32 and 64 bit vectors)

sfunc fpos(v: uint32, i: uint32, n: uint32): uint32
sfunc fhash(v: uint32): uint32

define fstep(h: uint32, b: uint32): uint32 = (h ^ b) * 16777619
definition[fhash]
  mode bv
  vars v: uint32
  trig fhash(v)
  concl fhash(v) == fstep(fstep(fstep(fstep(u32(1), v & 255), (v >> 8) & 255), (v >> 16) & 255), (v >> 24) & 255)

// reduction of a hash to a bit position in a set of n bytes
sfunc fclamp(h: uint32, n: uint32): uint32
definition[fclamp]
  hide
  vars h: uint32, n: uint32
  trig fclamp(h, n)
  concl fclamp(h, n) == h % (n * 8)
lemma[fclamp_inside]
  uses fclamp
  vars h: uint32, n: uint32
  trig fclamp(h, n)
  hyp 1 <= n && n < 536870912
  concl 0 <= fclamp(h, n) && fclamp(h, n) < n * 8
// position i of v in a set of n bytes
definition[fpos]
  vars v: uint32, i: uint32, n: uint32
  trig fpos(v, i, n)
  concl fpos(v, i, n) == fclamp(u32((u32(fhash(v)) ^ u32(i + 97)) * 16777619), n)

// bit p of the set d
define bit(d: []uint8, p: int): bool = (d[p / 8] & u8(pow2(p % 8))) != 0

define fok(f: *ibloom.fnv32): bool = f != nil && 1 <= f.mbytes && f.mbytes < 536870912 && 0 <= f.k && f.k < 2147483648

// bytes as sets: proved over bit vectors, used over integers
lemma[or_has]
  mode bv
  bridge
  hide
  vars a: uint8, b: uint8, c: uint8
  hyp (a & c) != 0 || (b & c) != 0
  concl ((a | b) & c) != 0
  trig (a | b), (a & c)
lemma[or_keep]
  mode bv
  bridge
  hide
  vars a: uint8, b: uint8
  concl ((a | b) & a) == a && ((a | b) & b) == b
  trig a | b
lemma[grow_trans]
  mode bv
  bridge
  hide
  vars a: uint8, b: uint8, c: uint8
  hyp (a & b) == b && (b & c) == c
  concl (a & c) == c
  trig (a & b), (b & c)
lemma[and_self]
  mode bv
  bridge
  hide
  vars a: uint8
  concl (a & a) == a
lemma[bit_mono]
  mode bv
  bridge
  hide
  vars a: uint8, b: uint8, m: uint8
  hyp (a & b) == b && (b & m) != 0
  concl (a & m) != 0
  trig (a & b), (b & m)
lemma[and_has]
  mode bv
  bridge
  hide
  vars a: uint8, b: uint8, m: uint8
  hyp (a & m) == m && (b & m) == m
  concl ((a & b) & m) == m
  trig (a & b), (a & m)

contract ibloom.fnv32Hash(hop) (h)
  mode bv
  ensures h == fhash(hop)

contract ibloom.clamp(h, n) (p)
  requires 1 <= n && n < 536870912
  uses fclamp
  ensures[value] p == fclamp(h, n)
  ensures[inside] p < n * 8

contract (*ibloom.fnv32).PutOnes(f, dst, v) ()
  requires fok(f) && f.k <= len(dst)
  modifies elems(dst)
  inv i: uint32 ::: i <= f.k && (forall k: int {fpos(v, k, f.mbytes)} {dst[k]} :: 0 <= k && k < i ==> dst[k] == fpos(v, k, f.mbytes))
  ensures[positions] forall k: int {fpos(v, k, f.mbytes)} {dst[k]} :: 0 <= k && k < f.k ==> dst[k] == fpos(v, k, f.mbytes)

// every position is inside the set
lemma[fpos_inside]
  vars v: uint32, i: uint32, n: uint32
  hyp 1 <= n && n < 536870912
  concl 0 <= fpos(v, i, n) && fpos(v, i, n) < n * 8 && fpos(v, i, n) / 8 < n
  trig fpos(v, i, n)
lemma[mask]
  vars p: int
  hyp 0 <= p && p < 8
  hint p == 0 ==> pow2(p) == 1
  concl 1 <= pow2(p) && pow2(p) < 256
  trig pow2(p)

contract (*ibloom.fnv32).Add(f, d, v) ()
  requires fok(f) && len(d) == f.mbytes
  uses or_has, or_keep, grow_trans, and_self
  modifies elems(d)
  always_inline (*ibloom.fnv32).Ones
  inv i: uint32 ::: i <= f.k && (forall k: int {fpos(v, k, f.mbytes)} :: 0 <= k && k < i ==> bit(d, fpos(v, k, f.mbytes)))
  inv forall j: int {d[j]} :: 0 <= j && j < len(d) ==> (d[j] & old(d[j])) == old(d[j])
  ensures[member] forall k: int {fpos(v, k, f.mbytes)} :: 0 <= k && k < f.k ==> bit(d, fpos(v, k, f.mbytes))
  ensures[grows] forall j: int {d[j]} :: 0 <= j && j < len(d) ==> (d[j] & old(d[j])) == old(d[j])

contract (*ibloom.fnv32).Has(f, d, v) (r)
  requires fok(f) && len(d) == f.mbytes
  always_inline (*ibloom.fnv32).Ones
  inv i: uint32 ::: i <= f.k && (forall k: int {fpos(v, k, f.mbytes)} :: 0 <= k && k < i ==> bit(d, fpos(v, k, f.mbytes)))
  ensures[has] r <==> (forall k: int {fpos(v, k, f.mbytes)} :: 0 <= k && k < f.k ==> bit(d, fpos(v, k, f.mbytes)))

contract (*ibloom.fnv32).Set(f) (d)
  requires fok(f)
  ensures fresh(base(d)) && len(d) == f.mbytes && (forall j: int {d[j]} :: 0 <= j && j < len(d) ==> d[j] == 0)

contract (*ibloom.fnv32).K(f) (k)
  requires f != nil
  ensures k == f.k

contract (*ibloom.fnv32).M(f) (m)
  requires f != nil && 1 <= f.mbytes && f.mbytes < 536870912
  ensures m == 8 * f.mbytes

contract ibloom.NewFnv32(mbytes, k) (f)
  ensures typeis(f, "*ibloom.fnv32") && as("*ibloom.fnv32", f).k == k && as("*ibloom.fnv32", f).mbytes == mbytes

contract (*attic.bposts).Union(t, o) (r)
  requires t != nil && o != nil && len(t.Set) == len(o.Set) && (base(t.Set) != base(o.Set) || off(t.Set) == off(o.Set))
  modifies elems(t.Set)
  inv i: int ::: 0 <= i && (forall j: int {t.Set[j]} :: 0 <= j && j < i && j < len(t.Set) ==> t.Set[j] == (old(t.Set[j]) | old(o.Set[j])))
  inv i: int ::: 0 <= i && (forall j: int {t.Set[j]} :: i <= j && j < len(t.Set) ==> t.Set[j] == old(t.Set[j]))
  ensures[result] r == t
  ensures[union] forall j: int {t.Set[j]} :: 0 <= j && j < len(t.Set) ==> t.Set[j] == (old(t.Set[j]) | old(o.Set[j]))

contract (*attic.bposts).Intersect(t, o) (r)
  requires t != nil && o != nil && len(t.Set) == len(o.Set) && (base(t.Set) != base(o.Set) || off(t.Set) == off(o.Set))
  modifies elems(t.Set)
  inv i: int ::: 0 <= i && (forall j: int {t.Set[j]} :: 0 <= j && j < i && j < len(t.Set) ==> t.Set[j] == (old(t.Set[j]) & old(o.Set[j])))
  inv i: int ::: 0 <= i && (forall j: int {t.Set[j]} :: i <= j && j < len(t.Set) ==> t.Set[j] == old(t.Set[j]))
  ensures[result] r == t
  ensures[intersection] forall j: int {t.Set[j]} :: 0 <= j && j < len(t.Set) ==> t.Set[j] == (old(t.Set[j]) & old(o.Set[j]))

define bpok(t: *attic.bposts): bool = t != nil && typeis(t.Bloomer, "*ibloom.fnv32") && fok(as("*ibloom.fnv32", t.Bloomer)) && len(t.Set) == as("*ibloom.fnv32", t.Bloomer).mbytes

contract (*attic.bposts).HasPost(t, post) (r)
  requires bpok(t)
  ensures[has] r <==> (forall k: int {fpos(post, k, as("*ibloom.fnv32", t.Bloomer).mbytes)} :: 0 <= k && k < as("*ibloom.fnv32", t.Bloomer).k ==> bit(t.Set, fpos(post, k, as("*ibloom.fnv32", t.Bloomer).mbytes)))

contract (*attic.bposts).AddPost(t, post) (err)
  requires bpok(t)
  modifies elems(t.Set), t.Post, t.Total
  uses and_self
  ensures[nilerr] err == nil
  ensures[member] forall k: int {fpos(post, k, as("*ibloom.fnv32", t.Bloomer).mbytes)} :: 0 <= k && k < as("*ibloom.fnv32", t.Bloomer).k ==> bit(t.Set, fpos(post, k, as("*ibloom.fnv32", t.Bloomer).mbytes))
  ensures[grows] forall j: int {t.Set[j]} :: 0 <= j && j < len(t.Set) ==> (t.Set[j] & old(t.Set[j])) == old(t.Set[j])

contract attic.bpostOnes(b) (t)
  requires typeis(b, "*ibloom.fnv32") && fok(as("*ibloom.fnv32", b))
  ensures bpok(t) && fresh(base(t.Set))
