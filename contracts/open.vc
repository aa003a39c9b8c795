// C09, C12, C21, C22: opening and closing an index for reading

sfunc symfails(s: string): bool
sfunc evalsym(s: string): string
sfunc dirof(s: string): string
sfunc baseof(s: string): string
contract filepath.EvalSymlinks(p) (r, err)
  trusted
  why library: the path after following symbolic links, which nobody changes; an error where nothing is
  ensures (err == nil <==> !symfails(p)) && (err == nil ==> r == evalsym(p))
contract filepath.Dir(p) (r)
  trusted
  why library: all but the last element
  ensures r == dirof(p)
contract filepath.Base(p) (r)
  trusted
  why library: the last element
  ensures r == baseof(p)
define lockroot(root: string): string =
  (!symfails(root) ? evalsym(root) : (!symfails(dirof(root)) ? pathjoin(evalsym(dirof(root)), baseof(root)) : root))
contract (*dupi.Config).LockPath(cfg) (p)
  requires cfg != nil
  ensures[same] p == lockroot(cfg.IndexRoot) + ".lock"

// the heads and counts are those of the header
sfunc hdr(h: [int]int, c: [int]int, d: [int]int): bool
contract (*shard.Index).Init(x, path) (err)
  requires x != nil
  modifies x.path, x.heads, x.counts, x.perm, x.postFile
  ensures[path] x.path == path
  ensures[file] err == nil ==> x.postFile != nil && fresh(x.postFile) && x.postFile.ino == fsat[path] && x.postFile.open
  ensures[failed] err != nil ==> x.postFile == old(x.postFile)
  ensures[header] err == nil ==> hdr(x.heads, x.counts, hdata(x))
  ensures[sorted] err == nil ==> psorted(x)
  ensures[each] err == nil ==> forall b: int {x.counts[b]} :: 0 <= b && b < 65536 && x.counts[b] >= 0 ==> exists k: int :: 0 <= k && k < 65536 && x.perm[k] == b
  ensures[once] err == nil ==> forall a: int, b: int {x.perm[a], x.perm[b]} :: 0 <= a && a < 65536 && 0 <= b && b < 65536 && x.perm[a] == x.perm[b] ==> a == b
contract (*shard.Index).Close(x) (err)
  requires x != nil && x.postFile != nil
  modifies x.postFile.open
  ensures[closed] !x.postFile.open

define opened(s: *shard.Index, path: string): bool =
  s.path == path && s.postFile != nil && fresh(s.postFile) && s.postFile.ino == fsat[path] && s.postFile.open && psorted(s)
// nothing is locked that was not, but through a handle that is closed
define unlocked(): bool =
  flk == old(flk) || (exists f: *os.File {root(f)} :: fresh(f) && !f.open && (forall d: int {flk[d]} :: d != i64(f.fdn) ==> flk[d] == old(flk)[d]))
define hdrof(s: *shard.Index): bool = hdr(s.heads, s.counts, hdata(s))
contract dupi.OpenIndex(root) (x, err)
  modifies flk, fsat, fsize, fdata
  inv i: int, x: !**dupi.Index ::: forall k: int {cell(x).shards[k].postFile} :: 0 <= k && k < i ==> opened(addr(cell(x).shards, k), pathjoin(cell(x).config.IndexRoot, sprintf("b%d.pos", k)))
  inv i: int, x: !*dupi.Index ::: forall k: int {x.shards[k].postFile} :: 0 <= k && k < i ==> opened(addr(x.shards, k), pathjoin(x.config.IndexRoot, sprintf("b%d.pos", k)))
  inv i: int, x: !**dupi.Index ::: forall k: int {cell(x).shards[k].path} :: 0 <= k && k < i ==> hdrof(addr(cell(x).shards, k))
  inv i: int, x: !*dupi.Index ::: forall k: int {x.shards[k].path} :: 0 <= k && k < i ==> hdrof(addr(x.shards, k))
  inv i: int, x: !**dupi.Index, f: !*os.File ::: forall k: int {cell(x).shards[k].postFile} :: 0 <= k && k < i ==> cell(x).shards[k].postFile != f
  inv i: int, x: !*dupi.Index, f: !*os.File ::: forall k: int {x.shards[k].postFile} :: 0 <= k && k < i ==> x.shards[k].postFile != f
  inv i: int, x: !**dupi.Index ::: forall k: int {cell(x).shards[k].postFile} :: i <= k && k < len(cell(x).shards) ==> cell(x).shards[k].postFile == nil
  inv i: int, x: !*dupi.Index ::: forall k: int {x.shards[k].postFile} :: i <= k && k < len(x.shards) ==> x.shards[k].postFile == nil
  ensures[locked] err == nil ==> x != nil && fresh(x) && x.lock != nil && fresh(x.lock) && fresh(x.lock.handle) && x.lock.handle.open && heldlock(x.lock) == 1
  ensures[lockfile] err == nil ==> x.lock.path == lockroot(abspath(root)) + ".lock"
  ensures[freed] err != nil ==> unlocked()
  ensures[config] err == nil ==> x.config != nil && fresh(x.config) && validcfg(x.config) && holdscfg(ftext(pathjoin(abspath(root), "cfg.json")), x.config)
  ensures[usable] err == nil ==> readidx(x) && openidx(x)
  ensures[docs] err == nil ==> x.dmd.file.ino == fsat[pathjoin(x.config.IndexRoot, "dmd")]
  ensures[count] err == nil ==> len(x.shards) == x.config.NumShards
  ensures[shards] err == nil ==> forall k: int {x.shards[k].postFile} :: 0 <= k && k < len(x.shards) ==> opened(addr(x.shards, k), pathjoin(x.config.IndexRoot, sprintf("b%d.pos", k)))
  ensures[headers] err == nil ==> forall k: int {x.shards[k].path} :: 0 <= k && k < len(x.shards) ==> hdrof(addr(x.shards, k))
contract (*dupi.Index).Close(x) (err)
  requires readidx(x) && x.lock != nil && x.lock.handle != nil
  modifies flk, fsat, fsize, fdata, anyof("os.File", "open")
  ensures[files] fsat == old(fsat) && fsize == old(fsize) && fdata == old(fdata)
  ensures[unlocked] !x.lock.handle.open
  ensures[only] forall d: int {flk[d]} :: d != i64(x.lock.handle.fdn) ==> flk[d] == old(flk)[d]
