// encoding/binary, verified from the library's source

// the big endian number at d[o..o+4)
sfunc be32(d: [int]int, o: int): int
definition[be32]
  vars d: [int]int, o: int
  trig be32(d, o)
  concl be32(d, o) == d[o] * 16777216 + d[o + 1] * 65536 + d[o + 2] * 256 + d[o + 3]

contract (binary.bigEndian).Uint32(o, b) (r)
  mode bv
  requires len(b) >= 4
  ensures r == u32(b[0]) * 16777216 + u32(b[1]) * 65536 + u32(b[2]) * 256 + u32(b[3])
contract (binary.bigEndian).PutUint32(o, b, v) ()
  mode bv
  requires len(b) >= 4
  modifies elems(b)
  ensures b[0] == u8(v / 16777216) && b[1] == u8(v / 65536) && b[2] == u8(v / 256) && b[3] == u8(v)
  ensures forall k: int {b[k]} :: 4 <= k && k < len(b) ==> b[k] == old(b[k])
  ensures forall j: int {elems(b)[j]} :: (j < off(b) || j >= off(b) + 4) ==> elems(b)[j] == old(elems(b))[j]

// the first n bytes are the same
sfunc samebytes(d: [int]int, e: [int]int, n: int): bool
definition[samebytes]
  vars d: [int]int, e: [int]int, n: int
  trig samebytes(d, e, n)
  concl samebytes(d, e, n) == (forall k: int {e[k]} :: 0 <= k && k < n ==> e[k] == d[k])

// writing a record: trusted (reflection); three 32 bit fields give 12 bytes
contract binary.Write(w, order, data) (err)
  trusted
  why library: writes the fields of the value in order, big endian if asked, at the position of the handle (the end if opened for appending)
  modifies as("*os.File", w).pos, fdata, fsize
  ensures typeis(w, "*os.File") ==> (forall i: int {fdata[i]} :: i != as("*os.File", w).ino ==> fdata[i] == old(fdata)[i]) && (forall i: int {fsize[i]} :: i != as("*os.File", w).ino ==> fsize[i] == old(fsize)[i])
  ensures typeis(w, "*os.File") ==> samebytes(old(fdata)[as("*os.File", w).ino], fdata[as("*os.File", w).ino], (as("*os.File", w).app ? old(fsize)[as("*os.File", w).ino] : old(as("*os.File", w).pos)))
  ensures err == nil && typeis(w, "*os.File") && typeis(data, "*dmd.fields") && typeis(order, "binary.bigEndian") ==>
    wrotefields(fdata[as("*os.File", w).ino], (as("*os.File", w).app ? old(fsize)[as("*os.File", w).ino] : old(as("*os.File", w).pos)), as("*dmd.fields", data))
    && as("*os.File", w).pos == (as("*os.File", w).app ? old(fsize)[as("*os.File", w).ino] : old(as("*os.File", w).pos)) + 12
    && fsize[as("*os.File", w).ino] == max(old(fsize)[as("*os.File", w).ino], as("*os.File", w).pos)
