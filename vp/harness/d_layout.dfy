include "@REPO@/BlockCacheSystem/DiskLayout.i.dfy"
module VpLayout {
  import L = DiskLayout
  import B = Bounds
  import opened NativeTypes
  import opened Options

  predicate Meet(a: L.Location, b: L.Location)
  { a.addr as int < b.addr as int + b.len as int && b.addr as int < a.addr as int + a.len as int }
  function Kind(l: L.Location) : int
  {
    if L.ValidSuperblock1Location(l) then 1 else if L.ValidSuperblock2Location(l) then 2 else if L.ValidJournalLocation(l) then 3
    else if L.ValidIndirectionTableLocation(l) then 4 else if L.ValidNodeLocation(l) then 5 else 0
  }
  // the kinds are exclusive
  lemma vp_kinds(l: L.Location)
    ensures L.ValidLocation(l) <==> Kind(l) != 0
    ensures L.ValidSuperblock1Location(l) <==> Kind(l) == 1
    ensures L.ValidSuperblock2Location(l) <==> Kind(l) == 2
    ensures L.ValidJournalLocation(l) <==> Kind(l) == 3
    ensures L.ValidIndirectionTableLocation(l) <==> Kind(l) == 4
    ensures L.ValidNodeLocation(l) <==> Kind(l) == 5
    ensures L.ValidSuperblockLocation(l) <==> Kind(l) == 1 || Kind(l) == 2
  { L.lemma_validJournalBounds(l); L.lemma_validNodeAddrBounds(l.addr); }
  // no write to one kind of location can touch another kind
  lemma vp_disjoint(a: L.Location, b: L.Location)
    requires L.ValidLocation(a) && L.ValidLocation(b) && Meet(a, b)
    ensures Kind(a) == Kind(b)
    ensures Kind(a) == 5 || Kind(a) == 4 ==> a.addr == b.addr
  {
    vp_kinds(a); vp_kinds(b);
    assert L.overlap(a, b);
    L.overlappingLocsSameType(a, b);
    if Kind(a) == 5 { L.overlappingNodesSameAddr(a, b); }
    if Kind(a) == 4 { L.overlappingIndirectionTablesSameAddr(a, b); }
  }
  lemma vp_superblocks()
    ensures Kind(L.Superblock1Location()) == 1 && Kind(L.Superblock2Location()) == 2
    ensures !Meet(L.Superblock1Location(), L.Superblock2Location())
    ensures L.Superblock1Location().len as int == B.SuperblockSize() && L.Superblock2Location().len as int == B.SuperblockSize()
    ensures B.SuperblockSize() > 0
  { vp_kinds(L.Superblock1Location()); vp_kinds(L.Superblock2Location()); }
  // every location stays inside 64-bit addresses, and inside its own region
  lemma vp_regions(l: L.Location)
    ensures Kind(l) == 3 ==> L.JournalStartAddr() as int <= l.addr as int && l.addr as int + l.len as int <= L.JournalEndAddr() as int
    ensures Kind(l) == 4 ==> (l.addr == L.IndirectionTable1Addr() || l.addr == L.IndirectionTable2Addr()) && 0 < l.len && l.len as int <= B.IndirectionTableBlockSize()
    ensures Kind(l) == 5 ==> l.addr as int >= L.IndirectionTable2Addr() as int + B.IndirectionTableBlockSize() && l.len as int <= B.NodeBlockSize()
    ensures Kind(l) == 5 ==> l.addr as int % B.NodeBlockSize() == 0
    ensures L.JournalEndAddr() as int <= L.IndirectionTable1Addr() as int
    ensures L.IndirectionTable1Addr() as int + B.IndirectionTableBlockSize() <= L.IndirectionTable2Addr() as int
    ensures 2 * B.SuperblockSize() <= L.JournalStartAddr() as int
    ensures L.JournalEndAddr() as int - L.JournalStartAddr() as int == B.DiskNumJournalBlocks() * B.JournalBlockSize()
  {
    L.lemma_validJournalBounds(l); L.lemma_validNodeAddrBounds(l.addr);
    if Kind(l) == 5 { L.reveal_ValidNodeAddr(); }
  }
  // node block numbers and node addresses correspond one to one
  lemma vp_node_addr(i: uint64, len: uint64)
    requires B.MinNodeBlockIndex() <= i as int && i as int < B.NumBlocks() && len <= B.NodeBlockSizeUint64()
    ensures i as int * B.NodeBlockSize() < 0x1_0000_0000_0000_0000
    ensures Kind(L.Location(i * B.NodeBlockSizeUint64(), len)) == 5
  {
    L.ValidNodeAddrMul(i);
    vp_kinds(L.Location(i * B.NodeBlockSizeUint64(), len));
  }
  lemma vp_node_index(l: L.Location) returns (i: int)
    requires Kind(l) == 5
    ensures i * B.NodeBlockSize() == l.addr as int && i >= B.MinNodeBlockIndex()
  { vp_kinds(l); i := L.ValidNodeAddrDivisor(l.addr); }
  lemma vp_sizes()
    ensures B.MinNodeBlockIndex() <= B.NumBlocks()
    ensures B.NodeBlockSize() * B.MinNodeBlockIndex() >= 2 * B.SuperblockSize() + B.DiskNumJournalBlocks() * B.JournalBlockSize() + 2 * B.IndirectionTableBlockSize()
    ensures 32 + 8 + (4 + (B.MaxNumChildren()-1)*(4 + 1024)) + (8 + B.MaxNumChildren() * 8) + 8 + B.MaxNumChildren() * (4 + 4) + B.MaxTotalBucketWeight() <= B.NodeBlockSize()
    ensures B.IndirectionTableBlockSize() <= B.LargestBlockSizeOfAnyTypeUint64() as int && B.NodeBlockSize() <= B.LargestBlockSizeOfAnyTypeUint64() as int
    ensures B.SuperblockSize() <= B.LargestBlockSizeOfAnyTypeUint64() as int && B.JournalBlockSize() <= B.LargestBlockSizeOfAnyTypeUint64() as int
    ensures B.MaxNumChildren() >= 2 && B.MaxCacheSize() > 0 && B.FlushTriggerWeight() <= B.MaxTotalBucketWeight() && B.MaxTotalBucketWeight() > 0
  { }
  // the indirection table is never overwritten in place
  lemma vp_other_table(a: uint64)
    requires L.ValidIndirectionTableAddr(a)
    ensures L.ValidIndirectionTableAddr(L.otherIndirectionTableAddr(a)) && L.otherIndirectionTableAddr(a) != a
    ensures L.otherIndirectionTableAddr(L.otherIndirectionTableAddr(a)) == a
  { }
  // a circular journal range is written as one or two pieces that cover exactly the blocks of the range
  predicate InCircle(b: int, start: int, len: int)
  { 0 <= b < B.DiskNumJournalBlocks() && (start <= b < start + len || b < start + len - B.DiskNumJournalBlocks()) }
  predicate Covers(l: Option<L.Location>, b: int)
  { l.Some? && l.value.addr as int <= L.JournalStartAddr() as int + b * 4096 && L.JournalStartAddr() as int + (b + 1) * 4096 <= l.value.addr as int + l.value.len as int }
  predicate Touches(l: Option<L.Location>, b: int)
  { l.Some? && l.value.addr as int < L.JournalStartAddr() as int + (b + 1) * 4096 && L.JournalStartAddr() as int + b * 4096 < l.value.addr as int + l.value.len as int }
  lemma vp_journal_pieces(start: uint64, len: uint64, b: int)
    requires start as int < B.DiskNumJournalBlocks() && len as int <= B.DiskNumJournalBlocks() && 0 <= b < B.DiskNumJournalBlocks()
    ensures InCircle(b, start as int, len as int) ==> Covers(L.JournalFrontLocation(start, len), b) || Covers(L.JournalBackLocation(start, len), b)
    ensures Touches(L.JournalFrontLocation(start, len), b) || Touches(L.JournalBackLocation(start, len), b) ==> InCircle(b, start as int, len as int)
    ensures !(Touches(L.JournalFrontLocation(start, len), b) && Touches(L.JournalBackLocation(start, len), b))
    ensures L.JournalFrontLocation(start, len).Some? ==> Kind(L.JournalFrontLocation(start, len).value) == 3
    ensures L.JournalBackLocation(start, len).Some? ==> Kind(L.JournalBackLocation(start, len).value) == 3
  {
    if L.JournalFrontLocation(start, len).Some? { vp_kinds(L.JournalFrontLocation(start, len).value); }
    if L.JournalBackLocation(start, len).Some? { vp_kinds(L.JournalBackLocation(start, len).value); }
  }
  lemma vp_journal_range(start: uint64, len: uint64)
    requires start as int < B.DiskNumJournalBlocks() && start as int + len as int <= B.DiskNumJournalBlocks()
    ensures L.JournalRangeLocation(start, len).addr as int == L.JournalStartAddr() as int + start as int * 4096
    ensures L.JournalRangeLocation(start, len).len as int == len as int * 4096
    ensures Kind(L.JournalRangeLocation(start, len)) == 3
    ensures L.JournalBlockIdx(L.JournalRangeLocation(start, len)) == start as int
  { vp_kinds(L.JournalRangeLocation(start, len)); }
  lemma vp_circle_predicates(l: L.Location, start: uint64, len: uint64)
    requires start as int < B.DiskNumJournalBlocks() && len as int <= B.DiskNumJournalBlocks() && Kind(l) == 3 && l.len > 0
    ensures L.locContainedInCircularJournalRange(l, start, len) ==> forall b :: 0 <= b < B.DiskNumJournalBlocks() && Touches(Some(l), b) ==> InCircle(b, start as int, len as int)
    ensures L.locDisjointFromCircularJournalRange(l, start, len) ==> forall b :: InCircle(b, start as int, len as int) ==> !Touches(Some(l), b)
  { L.lemma_validJournalBounds(l); L.reveal_ValidJournalLocation(); }
  lemma vp_pos(start: int, span: int)
    requires 0 <= start < B.DiskNumJournalBlocks() && 0 <= span <= B.DiskNumJournalBlocks()
    ensures 0 <= L.JournalPosAdd(start, span) < B.DiskNumJournalBlocks()
    ensures L.JournalPosAdd(start, span) == start + span || L.JournalPosAdd(start, span) == start + span - B.DiskNumJournalBlocks()
  { }
  lemma vpfail_vacuous(a: L.Location, b: L.Location)
    requires L.ValidLocation(a) && L.ValidLocation(b) && Meet(a, b)
    ensures false
  { vp_disjoint(a, b); vp_kinds(a); }
}
