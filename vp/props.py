P = {}
A = 'abstract_system/'
P['S01'] = dict(units=[('verus', dict(
    files=[A+'AbstractCrashAwareSystemRefinement_v.rs', A+'AbstractCrashAwareSystem_v.rs', A+'AbstractCrashAwareJournal_v.rs', A+'AbstractCrashAwareMap_v.rs', A+'AbstractJournal_v.rs', A+'AbstractMap_v.rs'],
    harness=['sys_refines']))], wit=['w_map'])
P['S02'] = dict(units=[('verus', dict(
    files=[A+'AbstractCrashAwareSystemRefinement_v.rs'], harness=['sys_progress']))], wit=['w_map'])
P['S03'] = dict(units=[('verus', dict(files=['spec/MapSpec_t.rs', 'spec/FloatingSeq_t.rs'], harness=['spec_map', 'spec_float']))])
P['S04'] = dict(units=[('verus', dict(files=['spec/TotalKMMap_t.rs', 'spec/KeyType_t.rs', 'spec/Messages_t.rs'], harness=['spec_msg', 'spec_key']))])
P['S05'] = dict(units=[('verus', dict(files=[A+'MsgHistory_v.rs', A+'StampedMap_v.rs'], harness=['msg_history']))])
J, L, I = 'journal/', 'allocation_layer/', 'implementation/'
P['S06'] = dict(units=[
    ('verus', dict(files=[J+'PagedJournal_v.rs', J+'PagedJournalRefinement_v.rs'], harness=['j_paged'])),
    ('verus', dict(files=[J+'LinkedJournal_v.rs', J+'LinkedJournalRefinement_v.rs'], harness=['j_linked'], broad=True))])
P['S07'] = dict(units=[
    ('verus', dict(files=[L+'LikesJournal_v.rs', L+'LikesJournalRefinement_v.rs', L+'Likes_v.rs'], harness=['j_likes'], broad=True)),
    ('verus', dict(files=[L+'AllocationJournal_v.rs', L+'AllocationJournalRefinement_v.rs'], harness=['j_alloc'], broad=True))])
P['S08'] = dict(units=[
    ('verus', dict(files=[L+'AllocationCrashAwareJournal_v.rs', L+'AllocationCrashAwareJournalRefinement_v.rs'], harness=['j_crash'], broad=True)),
    ('verus', dict(files=[L+'UnifiedCrashAwareJournal_v.rs', L+'UnifiedCrashAwareJournalRefinement_v.rs'], harness=['j_unified'], broad=True))])
P['S14'] = dict(units=[('verus', dict(files=[L+'MiniAllocator_v.rs', 'exec/MiniAllocator_v.rs', 'disk/GenericDisk_v.rs'], harness=['a_mini', 'a_exec', 'a_disk']))])
B = 'betree/'
P['S09'] = dict(units=[
    ('verus', dict(files=[B+'Buffer_v.rs', B+'Memtable_v.rs', B+'OffsetMap_v.rs', B+'Domain_v.rs', B+'BufferSeq_v.rs', B+'LinkedSeq_v.rs'], harness=['b_buf', 'b_mem', 'b_om', 'b_dom', 'b_bseq', 'b_lseq'])),
    ('verus', dict(files=[B+'PagedBetree_v.rs', B+'PagedBetreeRefinement_v.rs'], harness=['b_paged']))])
P['S10'] = dict(units=[
    ('verus', dict(files=[B+'PivotTable_v.rs', B+'SplitRequest_v.rs'], harness=['b_pt', 'b_split'])),
    ('verus', dict(files=[B+'PivotBetree_v.rs', B+'PivotBetreeRefinement_v.rs'], harness=['b_pivot'], broad=True)),
    ('verus', dict(files=[B+'FilteredBetree_v.rs', B+'FilteredBetreeRefinement_v.rs'], harness=['b_filt'], broad=True))])
P['S11'] = dict(units=[
    ('verus', dict(files=[B+'BufferDisk_v.rs'], harness=['b_bdisk'])),
    ('verus', dict(files=[B+'LinkedBetree_v.rs', B+'LinkedBetreeRefinement_v.rs'], harness=['b_linked'])),
    ('verus', dict(files=[L+'Likes_v.rs', L+'LikesBetree_v.rs', L+'LikesBetreeRefinement_v.rs'], harness=['b_mlike', 'b_likes'])),
    ('verus', dict(files=[L+'AllocationBetree_v.rs', L+'AllocationBetreeRefinement_v.rs'], harness=['b_abet']))])
P['S12'] = dict(units=[
    ('verus', dict(files=[B+'PivotBranch_v.rs', B+'PivotBranchRefinement_v.rs', B+'LinkedBranch_v.rs', B+'LinkedBranch_v/Refinement_v.rs'], harness=['b_pbr', 'b_lbr']))])
P['S15'] = dict(units=[
    ('verus', dict(files=[L+'AllocationBranch_v.rs'], harness=['b_pbr', 'b_lbr', 'b_abr'])),
    ('verus', dict(files=[L+'AllocationBranchBetree_v.rs'], harness=[], broad=True)),
    ('verus', dict(files=[L+'AllocationBranchBetreeRefinement_v.rs'], harness=['b_abb'], broad=True))])
P['S13'] = dict(units=[
    ('verus', dict(files=[I+'ModelRefinement_v.rs', I+'AtomicState_v.rs'], harness=['i_sys'], broad=True)),
    ('verus', dict(files=[I+'Implementation_v.rs', I+'MultisetMapRelation_v.rs', I+'DiskLayout_v.rs'], harness=['i_impl', 'i_disk'], broad=True))])
P['S16'] = dict(units=[
    ('verus', dict(files=[I+'Cache_v.rs'], harness=['c_cache'], broad=True)),
    ('verus', dict(files=[I+'JournalCoordinationRefinement_v.rs', I+'JournalCoordinationSystem_v.rs', I+'CachedJournal_v.rs', I+'JournalModel_v.rs'], harness=['c_co'], broad=True))])
P['S17'] = dict(units=[
    ('verus', dict(files=['example/BankObligations_v.rs', 'example/Bank_v.rs', 'example/BankContract_t.rs', 'example/BankSpec_t.rs'], harness=['e_bank'], broad=True)),
    ('verus', dict(files=['example/SimpleBank_v.rs', 'example/VerifiedEntry_t.rs'], harness=['e_simple'], broad=True, driver='S17', hard=True))])
E = 'examples/log/'
P['D01'] = dict(units=[('dafny', dict(files=[E+'Disk.dfy', E+'DiskLog.dfy', E+'DiskLogSystem.dfy', E+'DiskLogSystemInv.dfy', E+'DiskLogSystemCrashSafeLogRefinement.dfy', E+'LogSpec.dfy'], harness=['d_log']))])
P['D02'] = dict(units=[('dafny', dict(files=['MapSpec/ThreeStateVersioned.s.dfy', 'MapSpec/ThreeStateVersionedMap.s.dfy', 'lib/Base/MapRemove.s.dfy', 'Versions/StatesView.i.dfy', 'Versions/StatesViewMap.i.dfy', 'Versions/VOp.i.dfy'], harness=['d_three', 'd_views']))])
P['D03'] = dict(units=[('dafny', dict(files=['MapSpec/MapSpec.s.dfy', 'MapSpec/AsyncMap.i.dfy', 'MapSpec/UI.s.dfy', 'MapSpec/UIStateMachine.s.dfy', 'Spec/AtomicStateMachine.s.dfy', 'lib/Lang/System/SeqComparison.s.dfy', 'lib/Base/KeyType.s.dfy'], harness=['d_map']))])
BITS = 'bit__ne__expanded bit__comp__ne__expanded and__or__dist or__and__dist bit__and__self bit__or__self bit__or__0 bit__and__0 bit__or__and__self bit__or__result__0__implies__args__0 zero__or__zero__eq__zero bit__ne bit__comp__ne and__comp bit__ne__0 bit__and__and__comp bit__and__assoc set__bit__to__1__self set__bit__to__1__other set__bit__to__0__self set__bit__to__0__other bit__or__is__union all1s__and__bit__eq all1s__is__set all__in__set__implies__all1s bv64cast'.split()
P['D04'] = dict(units=[('dafny', dict(files=['lib/DataStructures/BitmapModel.i.dfy', 'Impl/BlockAllocatorModel.i.dfy', 'lib/Base/BitsetLemmas.i.dfy', 'lib/Base/MathAxioms.s.dfy'], harness=['d_bitmap', 'd_bitset'],
    only={'lib/Base/BitsetLemmas.i.dfy': ['Impl*default.' + n for n in BITS]}))])
P['D10'] = dict(units=[('dafny', dict(files=['PivotBetree/Bounds.i.dfy', 'BlockCacheSystem/DiskLayout.i.dfy', 'BlockCacheSystem/AsyncSectorDiskModelTypes.i.dfy'], harness=['d_layout']))])
P['D05'] = dict(units=[('dafny', dict(files=['lib/Lang/System/PackedInts.s.dfy', 'lib/Base/PackedIntsLib.i.dfy', 'lib/Lang/System/Bits.s.dfy', 'lib/Lang/System/NativeArrays.s.dfy', 'lib/Lang/System/Arithmetic.s.dfy', 'lib/Lang/NativeTypes.s.dfy', 'lib/Marshalling/Native.s.dfy'], harness=['d_packed']))])
P['D06'] = dict(units=[('dafny', dict(files=['lib/Marshalling/Util.i.dfy', 'lib/Marshalling/Seqs.i.dfy', 'lib/Marshalling/Maps.i.dfy'], harness=['d_marsh']))])
MR = 'marshalling/'
P['M01'] = dict(units=[('verus', dict(files=[MR+'IntegerMarshalling_v.rs', MR+'StaticallySized_v.rs', MR+'UniformSized_v.rs'], harness=['m_int'], driver='M01'))])
P['M02'] = dict(units=[('verus', dict(files=[MR+'UniformSizedSeq_v.rs', MR+'SeqMarshalling_v.rs', MR+'Marshalling_v.rs', MR+'math_v.rs'], harness=['m_uni'], driver='M02'))])
P['M03'] = dict(units=[('verus', dict(files=[MR+'ResizableUniformSizedSeq_v.rs', MR+'SeqMarshalling_v.rs', MR+'math_v.rs'], harness=['m_resz'], driver='M03', soft=['SizedElementSeqFormat::exec_set', 'SizedElementSeqFormat::exec_append', 'SizedElementSeqFormat::resize']))])
P['M04'] = dict(units=[('verus', dict(files=[MR+'VariableSizedElementSeq_v.rs', MR+'SeqMarshalling_v.rs', MR+'math_v.rs'], harness=['m_var'], driver='M04'))])
P['M05'] = dict(units=[('verus', dict(files=[MR+'KVPairFormat_v.rs'], harness=['m_kv'], driver='M05'))])
P['M06'] = dict(units=[('verus', dict(files=[MR+'Slice_v.rs', MR+'Marshalling_v.rs'], harness=['m_slice'], driver='M06'))])
P['M07'] = dict(units=[('verus', dict(files=['betree/BufferOffsets_v.rs', 'betree/Utils_v.rs', MR+'math_v.rs'], harness=['m_off', 'm_util', 'm_math'], driver='M07'))])
