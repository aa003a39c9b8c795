// C09: extraction
// ... when the function was called
define obtotal(x: *dupi.Index, b: int): int = old(btotal(x, b))
contract (*dupi.Query).Next(q, dst) (n, err)
  requires qok(q) && qsep(q) && qmost(q.state) && sortedidx(q.index)
  modifies elems(dst), anyof("dupi.Doc","*"), anyof("shard.ReadState","Error"), anyof("shard.Posts","*"), anyelems("uint32"), anyelems("uint8"), elems(q.state.shardStates), q.state.i, q.state.nilCount
  inv n: int ::: 0 <= n && n <= len(dst)
  inv e: error ::: e == nil
  inv qok(q)
  inv qsep(q)
  inv q.state.nilCount < q.state.n && (q.state.nilCount > 0 ==> forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n ==> total(q.state.shardStates[k]) == 0)
  inv qmost(q.state)
  inv forall k: int, b: int {q.index.shards[k].counts[b]} :: 0 <= k && k < q.state.n && 0 <= b && b < 65536 ==> q.index.shards[k].counts[b] == old(q.index.shards[k].counts[b])
  inv n: int ::: old(forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n ==> total(q.state.shardStates[k]) == 0) ==> n == 0 && forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n ==> total(q.state.shardStates[k]) == 0
  inv n: int ::: n > 0 ==> forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n ==> total(q.state.shardStates[k]) <= obtotal(q.index, dst[n - 1].Blot)
  inv n: int ::: forall j: int {dst[j].Blot} :: 0 <= j && j < n ==> obtotal(q.index, dst[j].Blot) >= 2
  inv n: int ::: forall j: int, l: int {dst[j].Blot, dst[l].Blot} :: 0 <= j && l == j + 1 && l < n ==> obtotal(q.index, dst[l].Blot) <= obtotal(q.index, dst[j].Blot)
  ensures[state] err == nil || err == io.EOF ==> qok(q) && qsep(q) && qmost(q.state)
  ensures[n] err == nil || err == io.EOF ==> 0 <= n && n <= len(dst)
  ensures[eof] err == io.EOF ==> n == 0 && forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n ==> total(q.state.shardStates[k]) == 0
  ensures[end] err == nil && n < len(dst) ==> n > 0 && forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n ==> total(q.state.shardStates[k]) == 0
  ensures[again] old(forall k: int {q.state.shardStates[k]} :: 0 <= k && k < q.state.n ==> total(q.state.shardStates[k]) == 0) && len(dst) > 0 ==> n == 0 && err == io.EOF
  ensures[shared] err == nil ==> forall j: int {dst[j].Blot} :: 0 <= j && j < n ==> obtotal(q.index, dst[j].Blot) >= 2
  ensures[order] err == nil ==> forall j: int, l: int {dst[j].Blot, dst[l].Blot} :: 0 <= j && l == j + 1 && l < n ==> obtotal(q.index, dst[l].Blot) <= obtotal(q.index, dst[j].Blot)
  ensures[tables] forall k: int, b: int {q.index.shards[k].counts[b]} :: 0 <= k && k < q.state.n && 0 <= b && b < 65536 ==> q.index.shards[k].counts[b] == old(q.index.shards[k].counts[b])
