// C12: the lock file

ghost os.File.fdn: int            // the descriptor of an open file
ghost global.flk: [int]int        // lock held through a descriptor: 0 none, 1 shared, 2 exclusive

contract (*os.File).Fd(f) (d)
  trusted
  why library: the descriptor of the file
  requires f != nil
  pure
  ensures d == f.fdn
contract unix.Flock(fd, how) (err)
  trusted
  why system call: flock(2); waits until the lock is compatible with those of other processes, which may change the files before that; nothing is locked or unlocked on an error
  modifies flk, fsat, fsize, fdata
  ensures how == 8 ==> fsat == old(fsat) && fsize == old(fsize) && fdata == old(fdata)
  ensures err == nil ==> flk == old(flk)[fd := (how == 8 ? 0 : (how == 2 ? 2 : (how == 1 ? 1 : flk[fd])))]
  ensures err != nil ==> flk == old(flk)

define heldlock(f: *lock.File): int = flk[i64(f.handle.fdn)]

contract lock.New(path) (f, err)
  modifies fsat, fsize
  ensures[open] err == nil ==> fresh(f) && fresh(f.handle) && f.handle != nil && f.handle.open && f.path == path && f.handle.ino == fsat[path]
  ensures[failed] err != nil ==> f == nil && fsat == old(fsat) && fsize == old(fsize)

contract (*lock.File).Lock(f) (err)
  requires f != nil && f.handle != nil
  modifies flk, fsat, fsize, fdata
  ensures[only] forall d: int {flk[d]} :: d != i64(f.handle.fdn) ==> flk[d] == old(flk)[d]
  ensures[exclusive] err == nil ==> heldlock(f) == 2
  ensures[failed] err != nil ==> flk == old(flk)
contract (*lock.File).LockShared(f) (err)
  requires f != nil && f.handle != nil
  modifies flk, fsat, fsize, fdata
  ensures[only] forall d: int {flk[d]} :: d != i64(f.handle.fdn) ==> flk[d] == old(flk)[d]
  ensures[shared] err == nil ==> heldlock(f) == 1
  ensures[failed] err != nil ==> flk == old(flk)
contract (*lock.File).Unlock(f) (err)
  requires f != nil && f.handle != nil
  modifies flk, fsat, fsize, fdata
  ensures[files] fsat == old(fsat) && fsize == old(fsize) && fdata == old(fdata)
  ensures[free] err == nil ==> heldlock(f) == 0
  ensures[failed] err != nil ==> flk == old(flk)
  ensures[only] forall d: int {flk[d]} :: d != i64(f.handle.fdn) ==> flk[d] == old(flk)[d]
contract (*lock.File).Close(f) (err)
  requires f != nil && f.handle != nil
  modifies flk, f.handle.open, fsat, fsize, fdata
  ensures[files] fsat == old(fsat) && fsize == old(fsize) && fdata == old(fdata)
  ensures[closed] !f.handle.open
  ensures[only] forall d: int {flk[d]} :: d != i64(f.handle.fdn) ==> flk[d] == old(flk)[d]
  ensures[free] err == nil ==> heldlock(f) == 0
