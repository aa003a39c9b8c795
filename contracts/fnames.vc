// C04, C21: the path table

// node 0 is the root; the parent of any other comes before it
define tree(s: *dupi.fnames): bool =
  s != nil && 1 <= len(s.d) && (forall k: int {s.d[k].parent} :: 1 <= k && k < len(s.d) ==> s.d[k].parent < k)

contract strings.Join(a, sep) (r)
  trusted
  why library: the texts with the separator between
  ensures len(a) == 0 ==> r == ""

contract (*dupi.fnames).abs(s, v) (p)
  requires tree(s) && v < len(s.d)
  inv n: *dupi.fname ::: n == addr(s.d, eidx(n) - off(s.d)) && 0 <= eidx(n) - off(s.d) && eidx(n) - off(s.d) < len(s.d)
  ensures true

contract dupi.newFnames() (s)
  ensures fresh(s) && tree(s) && len(s.d) == 1

// child c of node k under a name
define kids(s: *dupi.fnames): bool =
  forall k: int, q: string {has(s.d[k].children, q)} :: 0 <= k && k < len(s.d) && s.d[k].children != nil && has(s.d[k].children, q) && s.d[k].children[q] != 0 ==> s.d[k].children[q] < len(s.d) && s.d[s.d[k].children[q]].parent == k && s.d[s.d[k].children[q]].name == q

contract dupi.readUvarint32(r) (v, err)
  requires r != nil
  modifies r.at
  ensures[value] err == nil ==> v == uvv(fdata[r.src], old(r.at)) && uvl(fdata[r.src], old(r.at)) >= 1 && r.at == old(r.at) + uvl(fdata[r.src], old(r.at))

// the stored form: a count, then for each node its name and its parent
sfunc nx(d: [int]int, p: int): int
definition[nx]
  vars d: [int]int, p: int
  trig nx(d, p)
  concl nx(d, p) == p + uvl(d, p) + uvv(d, p) + uvl(d, p + uvl(d, p) + uvv(d, p))
sfunc np(d: [int]int, a: int, j: int): int
definition[np0]
  vars d: [int]int, a: int, j: int
  trig np(d, a, j)
  hyp j == 0
  concl np(d, a, j) == a
definition[np]
  vars d: [int]int, a: int, j: int, m: int
  trig np(d, a, j), np(d, a, m)
  hyp j >= 0 && m == j + 1
  concl np(d, a, m) == nx(d, np(d, a, j))
define isnode(f: *dupi.fname, d: [int]int, p: int): bool =
  f.name == strof(d, p + uvl(d, p), uvv(d, p)) && f.parent == uvv(d, p + uvl(d, p) + uvv(d, p))

contract dupi.breadFnames(r) (s, err)
  requires r != nil
  modifies r.at
  inv i: uint32, n: !uint32 ::: 0 <= i && i <= n && n == uvv(fdata[r.src], old(r.at))
  inv i: uint32, s: !*dupi.fnames ::: fresh(s) && len(s.d) == i && (s.d != nil ==> fresh(base(s.d)))
  inv s: !*dupi.fnames ::: forall k: int {s.d[k].parent} :: 1 <= k && k < len(s.d) ==> s.d[k].parent < k
  inv s: !*dupi.fnames ::: forall k: int {s.d[k].children} :: 0 <= k && k < len(s.d) ==> s.d[k].children == nil || fresh(s.d[k].children)
  inv i: uint32 ::: r.at == np(fdata[r.src], old(r.at) + uvl(fdata[r.src], old(r.at)), i)
  inv i: uint32, s: !*dupi.fnames ::: forall k: int {s.d[k].name} :: 0 <= k && k < i ==> isnode(addr(s.d, k), fdata[r.src], np(fdata[r.src], old(r.at) + uvl(fdata[r.src], old(r.at)), k))
  ensures[tree] err == nil ==> tree(s) && fresh(s)
  ensures[count] err == nil ==> len(s.d) == uvv(fdata[r.src], old(r.at))
  ensures[nodes] err == nil ==> forall k: int {s.d[k].name} :: 0 <= k && k < len(s.d) ==> isnode(addr(s.d, k), fdata[r.src], np(fdata[r.src], old(r.at) + uvl(fdata[r.src], old(r.at)), k))
contract dupi.readFnames(r) (s, err)
  requires typeis(r, "*os.File")
  modifies as("*os.File", r).pos
  ensures[tree] err == nil ==> tree(s) && fresh(s)
