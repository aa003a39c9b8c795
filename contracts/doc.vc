// C20: loading documents
contract (*dupi.Doc).Load(doc) (err)
  requires doc != nil
  modifies doc.Dat, doc.End
  ensures[span] err == nil && !(old(doc.Start) == 0 && old(doc.End) == 0) ==> doc.End == old(doc.End) && doc.Start <= doc.End && len(doc.Dat) == doc.End - doc.Start
    && (len(doc.Dat) > 0 ==> doc.End <= fsize[fsat[doc.Path]])
  ensures[whole] err == nil && old(doc.Start) == 0 && old(doc.End) == 0 && fsize[fsat[doc.Path]] < 4294967296 ==> len(doc.Dat) == fsize[fsat[doc.Path]] && doc.End == fsize[fsat[doc.Path]]
  ensures[bytes] err == nil ==> forall k: int {doc.Dat[k]} :: 0 <= k && k < len(doc.Dat) ==> doc.Dat[k] == fdata[fsat[doc.Path]][doc.Start + k]
  ensures[own] err == nil ==> fresh(base(doc.Dat)) || len(doc.Dat) == 0
  ensures[kept] doc.Start == old(doc.Start) && doc.Path == old(doc.Path)
