// Streams: a buffered reader over a file (trusted model of packages bufio, io
// and encoding/binary)

ghost bufio.Reader.src: int    // the file read
ghost bufio.Reader.at: int     // the position of the next byte

contract bufio.NewReader(rd) (r)
  trusted
  why library: reads ahead, so the position of the file itself is unknown from now on
  modifies as("*os.File", rd).pos
  ensures fresh(r) && r != nil
  ensures typeis(rd, "*os.File") ==> r.src == as("*os.File", rd).ino && r.at == old(as("*os.File", rd).pos)

define bsrc(r: io.ByteReader): [int]int = fdata[as("*bufio.Reader", r).src]
contract binary.ReadUvarint(r) (v, err)
  trusted
  why library: the unsigned number at the position of the reader
  modifies as("*bufio.Reader", r).at
  ensures err == nil && typeis(r, "*bufio.Reader") ==> v == uvv(bsrc(r), old(as("*bufio.Reader", r).at)) && uvl(bsrc(r), old(as("*bufio.Reader", r).at)) >= 1 && as("*bufio.Reader", r).at == old(as("*bufio.Reader", r).at) + uvl(bsrc(r), old(as("*bufio.Reader", r).at))
contract binary.ReadVarint(r) (v, err)
  trusted
  why library: the signed number at the position of the reader
  modifies as("*bufio.Reader", r).at
  ensures err == nil && typeis(r, "*bufio.Reader") ==> v == zz(uvv(bsrc(r), old(as("*bufio.Reader", r).at))) && uvl(bsrc(r), old(as("*bufio.Reader", r).at)) >= 1 && as("*bufio.Reader", r).at == old(as("*bufio.Reader", r).at) + uvl(bsrc(r), old(as("*bufio.Reader", r).at))
contract (io.ByteReader).ReadByte(r) (b, err)
  trusted
  why library: the byte at the position of the reader
  modifies as("*bufio.Reader", r).at
  ensures err == nil && typeis(r, "*bufio.Reader") ==> b == bsrc(r)[old(as("*bufio.Reader", r).at)] && as("*bufio.Reader", r).at == old(as("*bufio.Reader", r).at) + 1
contract io.ReadFull(r, b) (n, err)
  trusted
  why library: fills the slice from the position of the reader; an error unless it could be filled
  modifies elems(b), as("*bufio.Reader", r).at
  ensures 0 <= n && n <= len(b) && (err == nil ==> n == len(b))
  ensures forall j: int {elems(b)[j]} :: (j < off(b) || j >= off(b) + len(b)) ==> elems(b)[j] == old(elems(b))[j]
  ensures err == nil && typeis(r, "*bufio.Reader") ==> as("*bufio.Reader", r).at == old(as("*bufio.Reader", r).at) + n
  ensures err == nil && typeis(r, "*bufio.Reader") ==> samerange(elems(b), off(b), fdata[as("*bufio.Reader", r).src], old(as("*bufio.Reader", r).at), n)
contract io.LimitReader(r, n) (l)
  trusted
  why library: a reader that ends after n bytes
  ensures l != nil && fresh(l) && typeis(l, "*io.LimitedReader") && as("*io.LimitedReader", l).R == r && as("*io.LimitedReader", l).N == n
