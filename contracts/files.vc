// Files (trusted model of package os). Sequential: nobody else changes the
// files in the meantime.

ghost global.fsat: [string]int      // path -> file number; 0: nothing there
ghost global.fdata: [int][int]int   // file number -> bytes
ghost global.fsize: [int]int        // file number -> length
ghost os.File.ino: int
ghost os.File.pos: int
ghost os.File.app: bool
ghost os.File.open: bool

contract os.Open(name) (f, err)
  trusted
  why library: a handle on the file found under the name, at position 0
  ensures err == nil ==> f != nil && fresh(f) && f.ino == fsat[name] && f.ino > 0 && f.pos == 0 && !f.app && f.open && 0 <= fsize[f.ino]
  ensures err != nil ==> f == nil

contract (*os.File).Close(f) (err)
  trusted
  why library
  requires f != nil
  modifies f.open
  ensures !f.open

contract (*os.File).Seek(f, o, w) (n, err)
  trusted
  why library: moves the position of the handle
  requires f != nil
  modifies f.pos
  ensures err == nil && w == 0 ==> f.pos == o && n == o && 0 <= o
  ensures err == nil && w == 1 ==> f.pos == old(f.pos) + o && n == f.pos && 0 <= n
  ensures err == nil && w == 2 ==> f.pos == fsize[f.ino] + o && n == f.pos && 0 <= n
  ensures err != nil ==> f.pos == old(f.pos)

contract (*os.File).ReadAt(f, b, o) (n, err)
  trusted
  why library: reads the bytes of the file at the offset; an error unless all were read
  requires f != nil
  modifies elems(b)
  ensures 0 <= n && n <= len(b) && (err == nil ==> n == len(b) && 0 <= o && (n == 0 || o + n <= fsize[f.ino]))
  ensures forall k: int {b[k]} :: 0 <= k && k < n ==> b[k] == fdata[f.ino][o + k]
  ensures samerange(elems(b), off(b), fdata[f.ino], o, n)

contract io.ReadAll(r) (b, err)
  trusted
  why library: the bytes of the file from the position of the handle to the end; of a limited reader no more than the limit
  modifies as("*os.File", r).pos, as("*io.LimitedReader", r).N, as("*bufio.Reader", typeis(r, "*io.LimitedReader") ? as("*io.LimitedReader", r).R : r).at
  ensures fresh(base(b)) && 0 <= len(b) && off(b) == 0
  ensures typeis(r, "*io.LimitedReader") ==> len(b) <= max(0, old(as("*io.LimitedReader", r).N))
  ensures typeis(r, "*io.LimitedReader") && typeis(as("*io.LimitedReader", r).R, "*bufio.Reader") ==> str(b) == strof(fdata[as("*bufio.Reader", as("*io.LimitedReader", r).R).src], old(as("*bufio.Reader", as("*io.LimitedReader", r).R).at), len(b)) && as("*bufio.Reader", as("*io.LimitedReader", r).R).at == old(as("*bufio.Reader", as("*io.LimitedReader", r).R).at) + len(b)
  ensures err == nil && typeis(r, "*os.File") ==> len(b) == max(0, fsize[as("*os.File", r).ino] - old(as("*os.File", r).pos))
  ensures typeis(r, "*os.File") ==> str(b) == strof(fdata[as("*os.File", r).ino], old(as("*os.File", r).pos), len(b))
  ensures typeis(r, "*os.File") ==> forall k: int {b[k]} :: 0 <= k && k < len(b) ==> b[k] == fdata[as("*os.File", r).ino][old(as("*os.File", r).pos) + k]

contract ioutil.ReadAll(r) (b, err)
  trusted
  why library: the bytes of the file from the position of the handle to the end
  modifies as("*os.File", r).pos
  ensures fresh(base(b)) && 0 <= len(b) && off(b) == 0
  ensures err == nil && typeis(r, "*os.File") ==> len(b) == max(0, fsize[as("*os.File", r).ino] - old(as("*os.File", r).pos))
  ensures typeis(r, "*os.File") ==> str(b) == strof(fdata[as("*os.File", r).ino], old(as("*os.File", r).pos), len(b))
  ensures typeis(r, "*os.File") ==> forall k: int {b[k]} :: 0 <= k && k < len(b) ==> b[k] == fdata[as("*os.File", r).ino][old(as("*os.File", r).pos) + k]

ghost iface.fisize: int   // of a FileInfo
contract (*os.File).Stat(f) (fi, err)
  trusted
  why library: the length of the file at this moment
  requires f != nil
  ensures err == nil ==> fi != nil && fresh(fi) && fi.fisize == fsize[f.ino] && 0 <= fsize[f.ino]
contract (os.FileInfo).Size(fi) (n)
  trusted
  why library
  pure
  ensures n == fi.fisize

contract os.OpenFile(name, flag, perm) (f, err)
  trusted
  why library: open(2). O_CREATE makes a missing file, O_TRUNC empties it; nothing changes on an error
  modifies fsat, fsize
  ensures err != nil ==> f == nil && fsat == old(fsat) && fsize == old(fsize)
  ensures err == nil ==> f != nil && fresh(f) && f.ino == fsat[name] && f.ino > 0 && f.pos == 0 && f.app == ((flag / 1024) % 2 == 1) && f.open && 0 <= fsize[f.ino]
  ensures err == nil && old(fsat)[name] != 0 ==> fsat == old(fsat) && fsize == old(fsize)[f.ino := ((flag / 512) % 2 == 1 ? 0 : old(fsize)[f.ino])]
  ensures err == nil && old(fsat)[name] == 0 ==> (flag / 64) % 2 == 1 && fsat == old(fsat)[name := f.ino] && fsize == old(fsize)[f.ino := 0] && (forall q: string {old(fsat)[q]} :: old(fsat)[q] != f.ino)

contract (*os.File).Write(f, b) (n, err)
  trusted
  why library: writes at the position of the handle (the end of the file if opened for appending); an error unless all was written
  requires f != nil
  modifies f.pos, fdata, fsize
  ensures 0 <= n && n <= len(b) && (err == nil ==> n == len(b))
  ensures f.pos == (f.app ? old(fsize[f.ino]) : old(f.pos)) + n
  ensures fsize == old(fsize)[f.ino := max(old(fsize[f.ino]), f.pos)]
  ensures fdata == old(fdata)[f.ino := fdata[f.ino]]
  ensures forall k: int {fdata[f.ino][k]} :: fdata[f.ino][k] == (f.pos - n <= k && k < f.pos ? b[k - (f.pos - n)] : old(fdata[f.ino][k]))
  ensures samerange(elems(b), off(b), fdata[f.ino], f.pos - n, n)

ghost iface.notexist: bool
contract os.Stat(name) (fi, err)
  trusted
  why library: the length of the file under a name
  ensures err == nil ==> fi != nil && fresh(fi) && fi.fisize == fsize[fsat[name]] && 0 <= fi.fisize && fsat[name] != 0
  ensures err != nil ==> (err.notexist <==> fsat[name] == 0)
contract os.IsNotExist(err) (r)
  trusted
  why library
  ensures r == (err != nil && err.notexist)
