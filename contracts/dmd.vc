// C03: document metadata

define wrotefields(d: [int]int, o: int, x: *dmd.fields): bool =
  be32(d, o) == x.fid && be32(d, o + 4) == x.start && be32(d, o + 8) == x.end

// record k of a file
sfunc rfid(d: [int]int, k: int): int
sfunc rstart(d: [int]int, k: int): int
sfunc rend(d: [int]int, k: int): int
definition[rfid]
  vars d: [int]int, k: int
  trig rfid(d, k)
  concl rfid(d, k) == be32(d, 12 * k)
definition[rstart]
  vars d: [int]int, k: int
  trig rstart(d, k)
  concl rstart(d, k) == be32(d, 12 * k + 4)
definition[rend]
  vars d: [int]int, k: int
  trig rend(d, k)
  concl rend(d, k) == be32(d, 12 * k + 8)

lemma[rec_kept]
  uses be32, samebytes
  vars d: [int]int, e: [int]int, n: int, k: int
  trig samebytes(d, e, n), rfid(e, k)
  trig samebytes(d, e, n), rstart(e, k)
  trig samebytes(d, e, n), rend(e, k)
  hyp samebytes(d, e, n) && 0 <= k && 12 * k + 12 <= n
  concl rfid(e, k) == rfid(d, k) && rstart(e, k) == rstart(d, k) && rend(e, k) == rend(d, k)
lemma[same_trans]
  uses samebytes
  vars d: [int]int, e: [int]int, f: [int]int, n: int, m: int
  trig samebytes(d, e, n), samebytes(e, f, m)
  hyp samebytes(d, e, n) && samebytes(e, f, m) && n <= m
  concl samebytes(d, f, n)
lemma[same_self]
  uses samebytes
  vars d: [int]int, n: int
  trig samebytes(d, d, n)
  concl samebytes(d, d, n)

// record k of an adder: written already or waiting
define afid(t: *dmd.Adder, k: int): int = (k < t.flushed ? rfid(fdata[fsat[t.path]], k) : t.buf[k - t.flushed].fid)
define astart(t: *dmd.Adder, k: int): int = (k < t.flushed ? rstart(fdata[fsat[t.path]], k) : t.buf[k - t.flushed].start)
define aend(t: *dmd.Adder, k: int): int = (k < t.flushed ? rend(fdata[fsat[t.path]], k) : t.buf[k - t.flushed].end)
define acount(t: *dmd.Adder): int = t.flushed + len(t.buf)

define adder(t: *dmd.Adder): bool =
  t != nil && 1 <= t.flushRate && len(t.buf) <= t.flushRate && 1 <= acount(t) && acount(t) < 4294967295
  && (fsat[t.path] == 0 ? t.flushed == 0 : fsize[fsat[t.path]] == 12 * t.flushed)

contract dmd.NewAdder(root, fr) (t, err)
  requires 1 <= fr && fr <= 1073741824
  ensures[open] err == nil ==> t != nil && fresh(t) && fresh(base(t.buf)) && t.path == pathjoin(root, "dmd") && t.flushRate == fr
  ensures[continues] err == nil && fsize[fsat[t.path]] % 12 == 0 && fsize[fsat[t.path]] < 51539607528 ==> adder(t) && acount(t) == (fsat[t.path] == 0 ? 1 : max(1, fsize[fsat[t.path]] / 12))

contract (*dmd.Adder).flush(t) (err)
  requires adder(t)
  modifies t.flushed, t.buf, fsat, fsize, fdata
  inv i: int, f: !*os.File ::: f.ino == fsat[t.path] && (f.app || f.pos == fsize[f.ino]) && fsize[f.ino] == 12 * (t.flushed + i) && 0 <= i
  inv i: int, f: !*os.File ::: samebytes(old(fdata)[f.ino], fdata[f.ino], 12 * t.flushed)
  inv i: int, f: !*os.File ::: forall k: int {t.buf[k]} :: 0 <= k && k < i ==> rfid(fdata[f.ino], t.flushed + k) == t.buf[k].fid && rstart(fdata[f.ino], t.flushed + k) == t.buf[k].start && rend(fdata[f.ino], t.flushed + k) == t.buf[k].end
  ensures[state] err == nil ==> adder(t) && len(t.buf) == 0 && acount(t) == old(acount(t)) && (t.flushed > 0 ==> fsat[t.path] != 0)
  ensures[buf] err == nil ==> base(t.buf) == old(base(t.buf)) && off(t.buf) == old(off(t.buf)) && cap(t.buf) == old(cap(t.buf))
  ensures[kept] err == nil ==> forall k: int :: 0 <= k && k < acount(t) ==> afid(t, k) == old(afid(t, k)) && astart(t, k) == old(astart(t, k)) && aend(t, k) == old(aend(t, k))

contract (*dmd.Adder).Add(t, fid, start, end) (id, err)
  requires adder(t) && acount(t) < 4294967294
  modifies t.flushed, t.buf, elems(t.buf), fsat, fsize, fdata
  ensures[id] err == nil ==> id == old(acount(t)) && acount(t) == id + 1 && adder(t)
  ensures[record] err == nil ==> afid(t, id) == fid && astart(t, id) == start && aend(t, id) == end
  ensures[kept] err == nil ==> forall k: int :: 0 <= k && k < id ==> afid(t, k) == old(afid(t, k)) && astart(t, k) == old(astart(t, k)) && aend(t, k) == old(aend(t, k))

contract (*dmd.Adder).Last(t) (r)
  requires adder(t)
  ensures r == acount(t) - 1

contract (*dmd.Adder).Close(t) (err)
  requires adder(t)
  modifies t.flushed, t.buf, fsat, fsize, fdata
  ensures[size] err == nil ==> fsize[fsat[t.path]] == 12 * old(acount(t)) && fsat[t.path] != 0
  ensures[records] err == nil ==> forall k: int :: 0 <= k && k < old(acount(t)) ==> rfid(fdata[fsat[t.path]], k) == old(afid(t, k)) && rstart(fdata[fsat[t.path]], k) == old(astart(t, k)) && rend(fdata[fsat[t.path]], k) == old(aend(t, k))

contract dmd.New(root) (t, err)
  ensures err == nil ==> t != nil && fresh(t) && t.file != nil && t.file.ino == fsat[pathjoin(root, "dmd")] && t.file.ino > 0
contract (*dmd.T).Lookup(t, did) (fid, start, end, err)
  uses be32
  requires t != nil && t.file != nil
  ensures[inside] err == nil ==> 12 * did + 12 <= fsize[t.file.ino]
  ensures[record] err == nil ==> fid == rfid(fdata[t.file.ino], did) && start == rstart(fdata[t.file.ino], did) && end == rend(fdata[t.file.ino], did)
contract (*dmd.T).Close(t) (err)
  requires t != nil && t.file != nil
  modifies t.file.open
