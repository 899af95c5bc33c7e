include "@REPO@/Impl/BlockAllocatorModel.i.dfy"
module VpBitmap {
  import B = BitmapModel
  import A = BlockAllocatorModel
  import opened Bounds
  import opened Options

  // a bitmap seen as the set of its set positions
  predicate Has(b: B.BitmapModelT, i: int) requires 0 <= i < B.Len(b) { B.IsSet(b, i) }

  lemma vp_set(b: B.BitmapModelT, i: int, j: int)
    requires 0 <= i < B.Len(b) && 0 <= j < B.Len(b)
    ensures B.Len(B.BitSet(b, i)) == B.Len(b) && B.IsSet(B.BitSet(b, i), j) == (j == i || B.IsSet(b, j))
    ensures B.Len(B.BitUnset(b, i)) == B.Len(b) && B.IsSet(B.BitUnset(b, i), j) == (j != i && B.IsSet(b, j))
  { B.reveal_BitSet(); B.reveal_BitUnset(); B.reveal_IsSet(); }
  lemma vp_empty(n: int, i: int)
    requires 0 <= i < n
    ensures B.Len(B.EmptyBitmap(n)) == n && !B.IsSet(B.EmptyBitmap(n), i)
  { B.reveal_IsSet(); var e := B.EmptyBitmap(n); assert forall j | 0 <= j < B.Len(e) :: !B.IsSet(e, j); }
  lemma vp_union(a: B.BitmapModelT, b: B.BitmapModelT, i: int)
    requires B.Len(a) == B.Len(b) && 0 <= i < B.Len(a)
    ensures B.Len(B.BitUnion(a, b)) == B.Len(a) && B.IsSet(B.BitUnion(a, b), i) == (B.IsSet(a, i) || B.IsSet(b, i))
  { B.reveal_IsSet(); var e := B.BitUnion(a, b); }
  // allocation returns the first free position, and gives up only when there is none
  lemma vp_alloc(b: B.BitmapModelT, i: int)
    requires 0 <= i < B.Len(b)
    ensures B.BitAlloc(b).None? ==> B.IsSet(b, i)
    ensures B.BitAlloc(b).Some? ==> 0 <= B.BitAlloc(b).value < B.Len(b) && !B.IsSet(b, B.BitAlloc(b).value)
    ensures B.BitAlloc(b).Some? && i < B.BitAlloc(b).value ==> B.IsSet(b, i)
  { B.reveal_IsSet(); B.LemmaBitAllocResultStronger(b); }

  predicate Used(m: A.BlockAllocatorModel, i: int) requires A.Inv(m) && 0 <= i < NumBlocks()
  {
    B.IsSet(m.ephemeral, i) || B.IsSet(m.persistent, i) || B.IsSet(m.outstanding, i) || (m.frozen.Some? && B.IsSet(m.frozen.value, i))
  }
  lemma vp_allocator_alloc(m: A.BlockAllocatorModel, i: int)
    requires A.Inv(m) && 0 <= i < NumBlocks()
    ensures A.Alloc(m).Some? ==> 0 <= A.Alloc(m).value < NumBlocks() && !Used(m, A.Alloc(m).value)
    ensures A.Alloc(m).None? ==> Used(m, i)
  { B.LemmaBitAllocResultStronger(m.full); A.LemmaAllocResult(m); }
  lemma vp_inv(m: A.BlockAllocatorModel)
    ensures A.Inv(m) ==> B.Len(m.ephemeral) == B.Len(m.persistent) == B.Len(m.outstanding) == B.Len(m.full) == NumBlocks()
    ensures A.Inv(m) && m.frozen.Some? ==> B.Len(m.frozen.value) == NumBlocks()
    ensures A.Inv(m) ==> forall i :: 0 <= i < NumBlocks() ==> (B.IsSet(m.full, i) <==> Used(m, i))
  { }
  lemma vp_init(b: B.BitmapModelT, i: int)
    requires B.Len(b) == NumBlocks() && 0 <= i < NumBlocks()
    ensures A.Inv(A.InitBlockAllocator(b))
    ensures Used(A.InitBlockAllocator(b), i) == B.IsSet(b, i)
    ensures A.InitBlockAllocator(b).ephemeral == b && A.InitBlockAllocator(b).persistent == b && A.InitBlockAllocator(b).frozen == None
    ensures !B.IsSet(A.InitBlockAllocator(b).outstanding, i)
  { }
  predicate Flip(a: B.BitmapModelT, b: B.BitmapModelT, i: int, v: bool)
  {
    B.Len(a) == B.Len(b) && 0 <= i < B.Len(a) && forall j :: 0 <= j < B.Len(a) ==> B.IsSet(b, j) == (if j == i then v else B.IsSet(a, j))
  }
  lemma vp_marks(m: A.BlockAllocatorModel, i: int)
    requires A.Inv(m) && 0 <= i < NumBlocks()
    ensures var n := A.MarkUsedEphemeral(m, i); A.Inv(n) && Flip(m.ephemeral, n.ephemeral, i, true) && n.frozen == m.frozen && n.persistent == m.persistent && n.outstanding == m.outstanding
    ensures var n := A.MarkUsedOutstanding(m, i); A.Inv(n) && Flip(m.outstanding, n.outstanding, i, true) && n.frozen == m.frozen && n.persistent == m.persistent && n.ephemeral == m.ephemeral
    ensures m.frozen.Some? ==> var n := A.MarkUsedFrozen(m, i); A.Inv(n) && n.frozen.Some? && Flip(m.frozen.value, n.frozen.value, i, true) && n.ephemeral == m.ephemeral && n.persistent == m.persistent && n.outstanding == m.outstanding
    ensures var n := A.MarkFreeOutstanding(m, i); A.Inv(n) && Flip(m.outstanding, n.outstanding, i, false) && n.frozen == m.frozen && n.persistent == m.persistent && n.ephemeral == m.ephemeral
    ensures var n := A.MarkFreeEphemeral(m, i); A.Inv(n) && Flip(m.ephemeral, n.ephemeral, i, false) && n.frozen == m.frozen && n.persistent == m.persistent && n.outstanding == m.outstanding
  {
    B.reveal_BitSet(); B.reveal_BitUnset(); B.reveal_IsSet();
  }
  lemma vp_moves(m: A.BlockAllocatorModel)
    requires A.Inv(m)
    ensures var n := A.CopyEphemeralToFrozen(m); (m.frozen.None? ==> A.Inv(n)) && (forall i :: 0 <= i < NumBlocks() && Used(m, i) ==> B.IsSet(n.full, i)) && n.frozen == Some(m.ephemeral) && n.ephemeral == m.ephemeral && n.persistent == m.persistent && n.outstanding == m.outstanding
    ensures m.frozen.Some? ==> var n := A.MoveFrozenToPersistent(m); A.Inv(n) && n.persistent == m.frozen.value && n.frozen == None && n.ephemeral == m.ephemeral && n.outstanding == m.outstanding
  {
    B.reveal_IsSet();
    if m.frozen.Some? {
      var n := A.MoveFrozenToPersistent(m);
      forall i | 0 <= i < NumBlocks()
        ensures B.IsSet(n.full, i) == (B.IsSet(n.ephemeral, i) || (n.frozen.Some? && B.IsSet(n.frozen.value, i)) || B.IsSet(n.persistent, i) || B.IsSet(n.outstanding, i))
      { vp_union(m.frozen.value, m.outstanding, i); vp_union(m.ephemeral, B.BitUnion(m.frozen.value, m.outstanding), i); }
      assert A.Inv(n);
    }
  }
  // a block any of the four views still uses is never handed out, however the allocator is driven
  lemma vp_never_reused(m: A.BlockAllocatorModel, i: int)
    requires A.Inv(m) && 0 <= i < NumBlocks() && Used(m, i)
    ensures A.Alloc(m) != Some(i)
  { vp_allocator_alloc(m, i); }
  lemma vpfail_vacuous(m: A.BlockAllocatorModel)
    requires A.Inv(m) && m.frozen.Some?
    ensures false
  { vp_moves(m); vp_inv(m); }
}
