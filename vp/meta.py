"""Titles, statements, anchors of every property (source of properties.jsonl and MANIFEST.json; see gen.py)."""
M = []
SP = 'Splinter/src/'
def prop(id, title, statement, over, text, why, files, mech, note, technique='contract-based deductive verification', level='proof', state=None):
    M.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], note=note, technique=technique, level=level))

V = 'Verus contracts and lemmas on the real Splinter modules, discharged by Verus/Z3 on every run'
D = 'Dafny contracts and lemmas on the real modules of the repository, discharged by Dafny/Boogie/Z3 on every run'
VN = ('Unbounded proof by Verus/Z3 over the mechanically ported source (vp/port.py rewrites only the spelling of moved library names; vp/hints.py adds proof text only). '
      'Trusted: verifier, port, the assume/external_body sites listed in evidence. ')
DN = 'Unbounded proof by Dafny 2.3/Boogie/Z3 on the unmodified files in place. Trusted: verifier, extern contracts and axioms listed in evidence. '
NOT_RUN = 'The repository\'s pinned test suite only re-verifies the marshalling/option/message subset and resolves names in Dafny files; it checks no proof obligation of this code, and no finite test covers '

A = SP + 'abstract_system/'
prop('S01', 'The journaled system is a crash-tolerant asynchronous map',
     'Composed out of a journal, a map and a two-phase superblock commit, the system exposes to its clients exactly the behaviours of one asynchronous crash-tolerant key-value map: every reply is the one the map would give, a sync is acknowledged only once the state it asked for is durable, and after a crash the visible state is one the map reached at or after the last acknowledged sync. This holds at every step of every execution, including recovery and commits interrupted anywhere.',
     ['schedules', 'crash_points', 'histories', 'inputs'], 'every sequence of client operations, commits, crashes and recoveries, of any length, from every initial state',
     NOT_RUN + 'all interleavings of commit phases, crashes and recovery.',
     [A + x for x in ('AbstractCrashAwareSystem_v.rs', 'AbstractCrashAwareSystemRefinement_v.rs', 'AbstractCrashAwareJournal_v.rs', 'AbstractCrashAwareMap_v.rs', 'AbstractJournal_v.rs', 'AbstractMap_v.rs')] + [SP + 'spec/MapSpec_t.rs'],
     [('coordination of journal, map and superblock', A + 'AbstractCrashAwareSystem_v.rs'), ('refinement to the map specification', A + 'AbstractCrashAwareSystemRefinement_v.rs')],
     VN + 'The refinement lemmas and invariants are re-proved; harness sys_refines pins the label and state mapping from outside and composes them over whole behaviours.', V)
prop('S02', 'Puts, queries, syncs and commits stay possible and take effect',
     'In every reachable situation the coordinated system can accept and answer requests and can carry a commit through both phases: starting a commit really freezes the present journal and map together, completing it makes exactly that frozen pair durable, and the sync requests it covers become answerable. No legal situation leaves an acknowledged operation without an effect.',
     ['schedules', 'histories', 'inputs'], 'every well-formed system state and every operation offered in it',
     NOT_RUN + 'every reachable state; a transition that is never enabled is invisible to safety proofs and tests alike.',
     [A + x for x in ('AbstractCrashAwareSystem_v.rs', 'AbstractCrashAwareJournal_v.rs', 'AbstractCrashAwareMap_v.rs')],
     [('two-phase commit transitions', A + 'AbstractCrashAwareSystem_v.rs')],
     VN + 'Enabledness and effect witnesses are proved for the transitions; unconditional liveness (fair scheduling) is not claimed.', V)
prop('S03', 'The trusted map specification means what a key-value store user expects',
     'In the specification that the whole proof stack is measured against, a query returns the value most recently put for that key (or the default), each request is answered once with its own identity, versions only grow, a sync promises the version current when it was requested, and a crash keeps some version between the last promised one and the newest. Every version of the history that is still live agrees with the operations that made it.',
     ['histories', 'inputs', 'crash_points'], 'every state and operation of the specification and every history of versions',
     NOT_RUN + 'the specification file at all: an error there silently weakens every theorem above it.',
     [SP + 'spec/MapSpec_t.rs', SP + 'spec/FloatingSeq_t.rs'], [('map and crash-tolerant asynchronous map specification', SP + 'spec/MapSpec_t.rs'), ('sequence with a moving active start', SP + 'spec/FloatingSeq_t.rs')],
     VN + 'The harness states each clause of the meaning as a two-sided lemma (what a step must do, and that it can).', V)
prop('S04', 'Messages and keys obey the algebra that lets updates be stored unmerged',
     'Applying a stack of updates to a key gives the same value whether updates are combined early or late: merging is associative, the empty update is neutral, a definition hides everything older, and an update adds to what lies below it. Keys are totally ordered, and a total key map always answers for every key, with an insertion changing exactly that key.',
     ['inputs', 'histories'], 'all messages, deltas, values and keys',
     'The pinned suite verifies these functions only as far as their own weak signatures; the algebraic laws over all values are stated nowhere in it.',
     [SP + 'spec/Messages_t.rs', SP + 'spec/KeyType_t.rs', SP + 'spec/TotalKMMap_t.rs'], [('message merge', SP + 'spec/Messages_t.rs'), ('key order', SP + 'spec/KeyType_t.rs'), ('total key map', SP + 'spec/TotalKMMap_t.rs')],
     VN, V)
prop('S05', 'Replaying the journal reproduces exactly the operations recorded',
     'The logical journal is a contiguous run of numbered updates: concatenating adjoining runs, cutting a run at any point and discarding an old or new part lose, invent or reorder nothing. Replaying a run onto the map it starts from gives the same map as applying its updates one by one, and replaying two adjoining parts in turn is the same as replaying the whole.',
     ['histories', 'inputs', 'crash_points'], 'all message histories, cut points and stamped maps',
     NOT_RUN + 'all lengths and cut points of a history.',
     [A + 'MsgHistory_v.rs', A + 'StampedMap_v.rs'], [('message history', A + 'MsgHistory_v.rs'), ('map stamped with its sequence number', A + 'StampedMap_v.rs')],
     VN, V)

MA = SP + 'marshalling/'
MN = VN + ('Harnesses in vp/harness/m_*.rs state the byte-level meaning independently and prove the code\'s contracts equal to it; where the repository guards a body with assume(false) the hints remove it, so the body is really proved. '
           'A bounded differential run of the compiled code (vp/driver) supplies failing inputs and stands in (never counted as proved) for a body whose proof a rewrite loses. ')
MT = 'The tests re-verify each function only against its own contract (several bodies sit behind assume(false)); nothing ties the contracts to '
prop('M01', 'Integers are stored little-endian in exactly their width and read back intact',
     'Writing an 8-, 16-, 32- or 64-bit integer puts its little-endian bytes at the requested offset, reports the offset just past them and leaves every other byte of the buffer unchanged. Reading gives back the value written, accepts any slice at least as wide as the integer and rejects every shorter one; sizes, maxima and conversions to and from usize are exact.',
     ['inputs'], 'all four widths, all values, buffers, offsets and slices', MT + 'the bytes on disk for all values and offsets.',
     [MA + x for x in ('IntegerMarshalling_v.rs', 'StaticallySized_v.rs', 'UniformSized_v.rs')],
     [('integer format', MA + 'IntegerMarshalling_v.rs'), ('fixed sizes', MA + 'UniformSized_v.rs')], MN, V)
prop('M02', 'Fixed-size element sequences: element i lives at i times the element size',
     'A packed sequence of fixed-size elements has exactly as many elements as fit in its slice; element i occupies its own byte range, getting it returns what was written there, and setting it changes those bytes only. Marshalling a sequence and parsing the result returns the same sequence, and out-of-range indices are refused, never read.',
     ['inputs', 'histories'], 'all element formats meeting the contract, sequences, slices and indices', MT + 'positions and unchanged bytes for all lengths and indices.',
     [MA + x for x in ('UniformSizedSeq_v.rs', 'SeqMarshalling_v.rs', 'Marshalling_v.rs', 'math_v.rs')],
     [('uniform sequence format', MA + 'UniformSizedSeq_v.rs'), ('sequence contract', MA + 'SeqMarshalling_v.rs')], MN, V)
prop('M03', 'Length-prefixed sequences grow, shrink and parse without losing elements',
     'A length-prefixed sequence in a fixed-size block stores its count in front; append adds exactly one element after the others and only when both the block and the length field have room, resize changes only the count, and set changes only that element. Marshalling then parsing returns the same sequence, and a block whose stored count exceeds its capacity, or that is too short, is rejected rather than trusted.',
     ['inputs', 'histories'], 'all element and length types, block sizes, contents (including corrupt counts) and indices', MT + 'capacity limits, corrupt counts and untouched bytes for all shapes; append, set and resize are not in the stable tests at all.',
     [MA + x for x in ('ResizableUniformSizedSeq_v.rs', 'SeqMarshalling_v.rs', 'math_v.rs')],
     [('resizable sequence format', MA + 'ResizableUniformSizedSeq_v.rs')], MN, V)
prop('M04', 'Variable-size element tables never overlap and survive every append',
     'A block of variable-size elements keeps a boundary table growing up and element data growing down; in a well-formed block the table and the elements never overlap, and each element is the bytes between its two boundaries. An append succeeds exactly when the new boundary and the data fit, stores the new element, keeps every earlier one intact and keeps the block well-formed; a malformed table is refused instead of yielding a wrong or out-of-bounds element.',
     ['inputs', 'histories'], 'all element formats, boundary and length types, block sizes and contents', MT + 'boundary tables of all shapes, including corrupt ones.',
     [MA + x for x in ('VariableSizedElementSeq_v.rs', 'SeqMarshalling_v.rs', 'math_v.rs')],
     [('variable-size sequence format', MA + 'VariableSizedElementSeq_v.rs')], MN, V)
prop('M05', 'Key-value pairs are stored unambiguously: key length, key, value',
     'A key-value pair is stored as the key length, the key bytes and then the value bytes, takes exactly that much room and touches nothing else. Reading it back returns the same key and value, and a slice too short for its length field or for the key it announces is rejected.',
     ['inputs'], 'all keys up to the length type\'s maximum, values, offsets and (corrupt) slices', MT + 'the joint layout for all lengths and corrupt prefixes.',
     [MA + 'KVPairFormat_v.rs'], [('pair format', MA + 'KVPairFormat_v.rs')], MN, V)
prop('M06', 'Slices compose: a sub-slice denotes exactly that part of the bytes',
     'Taking a sub-slice, dropping a prefix, or interpreting one slice inside another selects exactly the stated bytes of the underlying buffer, stays inside it, and composes: the bytes of a sub-slice of a slice are the sub-range of that slice\'s bytes.',
     ['inputs'], 'all slices, offsets and buffers', MT + 'composition of slices.',
     [MA + 'Slice_v.rs', MA + 'Marshalling_v.rs'], [('slices', MA + 'Slice_v.rs'), ('marshalling contract', MA + 'Marshalling_v.rs')], MN, V)
prop('M07', 'Buffer offsets, set and map helpers, and division arithmetic are exact',
     'The bookkeeping that records how far each child has been flushed adjusts, splits and extends child by child as stated, and the shared helpers on sets, maps, sequences and integer division (unions over sequences, restriction, alignment, multiplication and division bounds) say exactly what their names promise for all inputs.',
     ['inputs', 'histories'], 'all offset vectors, sets, maps, sequences and integers', 'The tests verify each helper against its own contract only; an edit that weakens a contract together with its body still passes.',
     [SP + 'betree/BufferOffsets_v.rs', SP + 'betree/Utils_v.rs', MA + 'math_v.rs'],
     [('flush offsets', SP + 'betree/BufferOffsets_v.rs'), ('set and map helpers', SP + 'betree/Utils_v.rs'), ('arithmetic', MA + 'math_v.rs')], MN, V)
J, L, B = SP + 'journal/', SP + 'allocation_layer/', SP + 'betree/'
prop('S06', 'The on-disk journal is a chain of records that reads back as the logical journal',
     'Whether seen as a list of page records or as records linked by pointers on a disk, the journal denotes one contiguous history of updates: marshalling part of the tail into a new record, discarding old entries and freezing for a commit change only the representation or exactly the stated range of the history, freshly put messages go at the end, reading back returns the message stored for its sequence number, and no pointer dangles or cycles. Every behaviour of the linked journal is one of the paged journal, and every behaviour of that is one of the abstract journal.',
     ['histories', 'inputs', 'crash_points'], 'every journal state reachable by puts, marshals, freezes, discards and recoveries, of any size',
     NOT_RUN + 'all chains of records, boundaries and frozen depths.',
     [J + x for x in ('PagedJournal_v.rs', 'PagedJournalRefinement_v.rs', 'LinkedJournal_v.rs', 'LinkedJournalRefinement_v.rs')],
     [('record chain', J + 'PagedJournal_v.rs'), ('pointers on disk', J + 'LinkedJournal_v.rs'), ('refinements', J + 'LinkedJournalRefinement_v.rs')], VN, V)
prop('S07', 'The journal knows exactly which pages and units its records live in',
     'The journal\'s index from sequence numbers to pages, and then to allocation units, always agrees with the record chain on disk: every record still needed is listed and kept, a new record goes only to a free page and never overwrites a live one, and discarding old entries releases exactly the units that hold no record still needed. Every behaviour of the journal with this bookkeeping is a behaviour of the linked journal without it.',
     ['histories', 'inputs', 'crash_points'], 'every reachable journal state, choice of free page and discard point',
     NOT_RUN + 'all layouts of records over pages and units, and all discard points.',
     [L + x for x in ('Likes_v.rs', 'LikesJournal_v.rs', 'LikesJournalRefinement_v.rs', 'AllocationJournal_v.rs', 'AllocationJournalRefinement_v.rs')],
     [('page bookkeeping', L + 'LikesJournal_v.rs'), ('unit bookkeeping', L + 'AllocationJournal_v.rs'), ('refinements', L + 'AllocationJournalRefinement_v.rs')], VN, V)
prop('S08', 'The allocation-level journal survives crashes and never reuses a durable page',
     'With a durable image, an image being committed and a live journal sharing one disk, a crash at any moment leaves the durable journal intact and recovery restores exactly it; units of the durable or in-flight image are not handed out again until a commit makes them free; completing a commit makes exactly the frozen image durable. Every behaviour is one of the abstract crash-tolerant journal, both for separate disk images and for the one shared disk.',
     ['crash_points', 'histories', 'schedules'], 'every interleaving of journal operations, commit phases and crashes',
     NOT_RUN + 'all orders of commits, discards, crashes and recoveries.',
     [L + x for x in ('AllocationCrashAwareJournal_v.rs', 'AllocationCrashAwareJournalRefinement_v.rs', 'UnifiedCrashAwareJournal_v.rs', 'UnifiedCrashAwareJournalRefinement_v.rs')],
     [('crash-aware journal', L + 'AllocationCrashAwareJournal_v.rs'), ('shared disk', L + 'UnifiedCrashAwareJournal_v.rs'), ('refinements', L + 'UnifiedCrashAwareJournalRefinement_v.rs')], VN, V)
prop('S14', 'Page allocation never hands out a page twice and accounts for whole units',
     'Within an allocation unit a page is handed out only if it is free, is then reserved, and is not handed out again until it is freed; pages marked as in use stay so; a unit is given back only when nothing in it is outstanding. The executable allocator hands out the pages of its unit one after another, each once, and matches that specification step for step. The unit and page arithmetic used throughout (units of a set of addresses, page ranges, address order) is exact.',
     ['histories', 'inputs'], 'every sequence of allocator operations, units, pages and address sets',
     NOT_RUN + 'all allocation histories.',
     [L + 'MiniAllocator_v.rs', SP + 'exec/MiniAllocator_v.rs', SP + 'disk/GenericDisk_v.rs'],
     [('allocator specification', L + 'MiniAllocator_v.rs'), ('executable allocator', SP + 'exec/MiniAllocator_v.rs'), ('addresses', SP + 'disk/GenericDisk_v.rs')],
     VN + 'For four executable functions whose own contracts say too little, vp/hints.py adds postconditions, which the real bodies are proved to meet.', V)

prop('S09', 'Buffers, memtable and abstract tree keep the newest value of every key',
     'Looking a key up in a buffer, a sequence of buffers or the memtable gives what merging, oldest first, every message put for that key gives, and no other key is affected; filtering a buffer or starting later in a sequence drops exactly what it says. A key range contains exactly the keys between its ends. The abstract tree built from them answers every query with the value the sequential map has after the same puts, whatever flushes, splits, merges and freezes happen in between, and never refuses a query or a put.',
     ['histories', 'inputs'], 'every history of puts, queries, flushes, splits, compactions and freezes, every key and buffer',
     NOT_RUN + 'all histories of operations on the tree.',
     [B + f for f in ('Buffer_v.rs', 'BufferSeq_v.rs', 'Memtable_v.rs', 'OffsetMap_v.rs', 'Domain_v.rs', 'LinkedSeq_v.rs', 'PagedBetree_v.rs', 'PagedBetreeRefinement_v.rs')],
     [('buffers', B + 'BufferSeq_v.rs'), ('memtable', B + 'Memtable_v.rs'), ('abstract tree', B + 'PagedBetree_v.rs'), ('refinement', B + 'PagedBetreeRefinement_v.rs')], VN, V)
prop('S10', 'Pivot trees answer every query as the abstract tree does',
     'Pivots route every key of a node to exactly one child, whose range contains it. A flush moves what the node says about the keys of one child into that child and touches no other; a split cuts a child at the split key, leaves every answer alone and keeps the parts ranges adjacent; growing keeps the whole key space covered. With buffers kept in place and marked as flushed, collecting or merging buffers changes no answer. Every history of the tree is a history of the abstract one, and no query, put, flush, merge or freeze is ever refused where it should be possible.',
     ['histories', 'inputs'], 'every history of puts, queries, flushes, splits, compactions and freezes, every key and tree',
     NOT_RUN + 'all tree shapes and histories.',
     [B + f for f in ('PivotTable_v.rs', 'SplitRequest_v.rs', 'PivotBetree_v.rs', 'PivotBetreeRefinement_v.rs', 'FilteredBetree_v.rs', 'FilteredBetreeRefinement_v.rs')],
     [('pivots', B + 'PivotTable_v.rs'), ('pivot tree', B + 'PivotBetree_v.rs'), ('refinement of the pivot tree', B + 'PivotBetreeRefinement_v.rs'), ('tree with flushed-buffer marks', B + 'FilteredBetree_v.rs'), ('its refinement', B + 'FilteredBetreeRefinement_v.rs')],
     VN + 'Histories start from a stored tree that covers the whole key space or is empty; every frozen tree is shown to be one.', V)

prop('S11', 'The tree on disk means the tree, and no storage still in use is ever reused',
     'A tree stored as nodes and buffers at disk addresses, linked by pointers, denotes node by node the tree of the layer above, and every history of the stored tree is a history of that tree. Updates go to fresh addresses only and never change a stored node or buffer in place. Pointer counts, kept address by address and unit by unit, always equal the number of pointers in the tree: what the tree can reach is counted and on the disk, and what is not counted is not reachable, so collecting uncounted storage loses nothing, and nothing in use is handed out again. Every step of the layer above remains possible.',
     ['histories', 'inputs'], 'every history of puts, queries, flushes, splits, compactions, freezes and collections, every stored tree and choice of addresses',
     NOT_RUN + 'all stored trees, address choices and histories.',
     [B + f for f in ('BufferDisk_v.rs', 'LinkedBetree_v.rs', 'LinkedBetreeRefinement_v.rs')] + [L + f for f in ('Likes_v.rs', 'LikesBetree_v.rs', 'LikesBetreeRefinement_v.rs', 'AllocationBetree_v.rs', 'AllocationBetreeRefinement_v.rs')],
     [('stored tree', B + 'LinkedBetree_v.rs'), ('its refinement', B + 'LinkedBetreeRefinement_v.rs'), ('buffers on disk', B + 'BufferDisk_v.rs'), ('pointer counts', L + 'LikesBetree_v.rs'), ('counts by allocation unit', L + 'AllocationBetree_v.rs'), ('refinement of the unit counts', L + 'AllocationBetreeRefinement_v.rs')],
     VN + 'Histories start from a stored tree without dangling pointers that covers the whole key space or is empty; every frozen tree is shown to be one.', V)

prop('S12', 'A B+ tree finds exactly what was written to it, in memory and on disk',
     'A search of a B+ tree returns the message stored for the key in one of its leaves, or none if no leaf holds the key. Inserting a pair or appending a sorted run changes the answers for exactly the keys written; growing at the root and splitting a node change no answer. Every tree built by any sequence of these steps stays well formed: leaf keys strictly sorted, pivots sorted and separating the children, both halves of a split non-empty and divided at the pivot. The tree stored on disk as linked pages means the same tree step by step; a step writes only the pages it names, uses only fresh pages for new nodes, leaves no dangling pointer and no cycle, and the tree means the same on any larger disk. Every key can always be inserted, and a leaf below an index node with two keys can always be split.',
     ['histories', 'inputs'], 'every sequence of inserts, appends, growths and splits, every tree shape, key and page address',
     NOT_RUN + 'all trees, keys and construction sequences.',
     [B + f for f in ('PivotBranch_v.rs', 'PivotBranchRefinement_v.rs', 'LinkedBranch_v.rs', 'LinkedBranch_v/Refinement_v.rs')],
     [('tree in memory', B + 'PivotBranch_v.rs'), ('its proofs', B + 'PivotBranchRefinement_v.rs'), ('tree on disk', B + 'LinkedBranch_v.rs'), ('its refinement', B + 'LinkedBranch_v/Refinement_v.rs')],
     VN, V)

prop('S15', 'Branches built in the background join the tree without losing or leaking storage',
     'A branch built in its own allocation units answers with the last message written for each key, keeps every page in a unit it owns, gives back only units that hold none of its pages, and once sealed records exactly the units it occupies. The tree whose buffers are such branches takes, over every history of puts, queries, branch building, memtable flushes, splits, flushes, compactions and aborts, only steps of the tree with abstract buffers; a finished compaction holds for every key what its inputs held. No unit ever serves two of: tree nodes, sealed branches, branches being built. Each step takes only unused units, gives back only units nothing uses any more, and accounts for every unit: none is leaked and none appears from nowhere.',
     ['histories', 'inputs'], 'every history of the tree and its background builders, every choice of pages and units',
     NOT_RUN + 'all histories, branch contents and unit choices.',
     [L + f for f in ('AllocationBranch_v.rs', 'AllocationBranchBetree_v.rs', 'AllocationBranchBetreeRefinement_v.rs')],
     [('branch under construction', L + 'AllocationBranch_v.rs'), ('tree with branches', L + 'AllocationBranchBetree_v.rs'), ('its refinement', L + 'AllocationBranchBetreeRefinement_v.rs')],
     VN + 'The assume(false) the repository leaves in the compaction case of next_refines is replaced by a proof. A branch\'s summary page can be allocated only in a unit that already holds a page of it.', V)

II = SP + 'implementation/'
prop('S13', 'The running store survives crashes as the map specification says',
     'The store that runs against an asynchronous disk, keeping a history of versions in memory and writing one superblock at a time, shows its clients exactly the behaviours of the crash-tolerant map: requests are executed on the newest version and answered with their own identity, a sync is answered only once the version it asked for is on the disk, a superblock write moves the durable version to the version frozen when it was started, and after a crash at any moment recovery restores the version last landed on the disk. Its handlers of puts, no-ops and syncs change the state exactly so, and its memory always holds the history it stands for.',
     ['schedules', 'crash_points', 'histories', 'inputs'], 'every interleaving of client requests, syncs, disk completions, crashes and recoveries',
     NOT_RUN + 'all orders of disk completions, syncs and crashes.',
     [II + x for x in ('AtomicState_v.rs', 'ConcreteProgramModel_v.rs', 'ModelRefinement_v.rs', 'Implementation_v.rs', 'MultisetMapRelation_v.rs', 'DiskLayout_v.rs')] + [SP + 'trusted/SystemModel_t.rs'],
     [('program state machine', II + 'AtomicState_v.rs'), ('interpretation', II + 'ModelRefinement_v.rs'), ('executable handlers', II + 'Implementation_v.rs')],
     VN + 'The repository guards its own refinement with assume(false); harness i_sys proves it with an invariant of its own, assuming that the (unimplemented) superblock codec reads back what was written and that clients use a sync identifier once. '
     'The bodies of recover and handle_disk_response end in assume(false) and the query handler is commented out in the repository: these are not claimed.', V)

prop('S16', 'The cached journal over an asynchronous disk is the journal of the specification',
     'The journal whose pages live in a cache over an asynchronous disk behaves as the linked journal, whatever the cache and the disk do in between: a read sees the newest version of a page; a page that is not on the disk yet never leaves the cache; a page is written back by one request at a time, which carries its contents, and is not changed until that request is answered; a journal that was frozen for a commit is on the disk, stays there while the journal uses it, and a journal started from the disk after a crash is the frozen one; putting, discarding, marshalling and freezing are possible whenever the specification says so.',
     ['schedules', 'crash_points', 'histories', 'inputs'], 'every interleaving of journal steps with page loads, write-backs, evictions and disk completions',
     NOT_RUN + 'all orders of cache and disk steps.',
     [II + x for x in ('Cache_v.rs', 'CachedJournal_v.rs', 'JournalModel_v.rs', 'JournalCoordinationSystem_v.rs', 'JournalCoordinationRefinement_v.rs')],
     [('page cache', II + 'Cache_v.rs'), ('journal over pages', II + 'CachedJournal_v.rs'), ('journal, cache and disk together', II + 'JournalCoordinationSystem_v.rs'), ('interpretation', II + 'JournalCoordinationRefinement_v.rs')],
     VN + 'The repository guards the invariant of the cache and the interpretation of its slots with assume(false); both are proved here, and harness c_co proves the refinement of every step with an interpretation of its own. '
     'Assumed: the (unimplemented) page codec reads back the record that was written.', V)

EX = 'Splinter/src/example/'
prop('S17', 'The concurrent bank moves money atomically and answers each request once',
     'The example bank serves transfers from many threads at once as if one after the other: a transfer that is reported done took its amount from one account, which held it, and gave exactly that to another; a refused one changed nothing and was refused only because an account does not exist, the two are the same, the money is missing or the receiver would overflow. The money of all accounts together never changes. A reply carries the identifier of its request; no request is answered twice and none unasked. The stored amount of an account is always the one the specification has for it, and concurrent transfers do not block each other for good.',
     ['schedules', 'histories', 'inputs'], 'every interleaving of requests, transfers and replies on any number of accounts',
     NOT_RUN + 'all schedules of concurrent transfers.',
     [EX + x for x in ('SimpleBank_v.rs', 'Bank_v.rs', 'BankObligations_v.rs', 'BankContract_t.rs', 'BankSpec_t.rs')],
     [('running code', EX + 'SimpleBank_v.rs'), ('sharded state machine', EX + 'Bank_v.rs'), ('refinement', EX + 'BankObligations_v.rs')],
     VN + 'vstd\'s RwLock and the code the state machine macro generates are trusted. Bounded, never counted as proved: that every transfer comes to an end (locks released and taken in order) is only run, with up to 8 threads against an oracle; no contract here expresses it.', V)

prop('D01', 'The write-ahead log example never loses a synced entry, whatever the crash',
     'The example log, run on a disk that may tear off any unfinished write at a crash, always shows its user a log that the abstract crash-safe log would show: entries in order, nothing that was reported durable is lost, and recovery reads back exactly what the superblock covers.',
     ['crash_points', 'schedules', 'histories'], 'every interleaving of disk completions, client steps and crashes',
     NOT_RUN + 'every order of disk completions and crashes.',
     ['examples/log/DiskLog.dfy', 'examples/log/DiskLogSystem.dfy', 'examples/log/DiskLogSystemInv.dfy', 'examples/log/DiskLogSystemCrashSafeLogRefinement.dfy', 'examples/log/LogSpec.dfy', 'examples/log/CrashSafeLog.dfy'],
     [('log implementation as a state machine', 'examples/log/DiskLog.dfy'), ('invariant', 'examples/log/DiskLogSystemInv.dfy'), ('refinement', 'examples/log/DiskLogSystemCrashSafeLogRefinement.dfy')], DN, D)
prop('D02', 'Persistent, frozen and live versions give at-least-synced crash recovery',
     'The three-version discipline (durable, being written, live) is a faithful crash-tolerant store: the durable version only moves to a version that was frozen, a crash returns to the durable one, and a sync is acknowledged only when the durable version covers it. A system of disk views following the same discipline refines it step for step.',
     ['crash_points', 'schedules', 'histories'], 'every sequence of advances, freezes, commits, syncs and crashes',
     NOT_RUN + 'all orders of freezing, commit, crash and sync.',
     ['MapSpec/ThreeStateVersioned.s.dfy', 'MapSpec/ThreeStateVersionedMap.s.dfy', 'Versions/StatesView.i.dfy', 'Versions/StatesViewMap.i.dfy', 'Versions/VOp.i.dfy'],
     [('three-version state machine', 'MapSpec/ThreeStateVersioned.s.dfy'), ('views of the versions', 'Versions/StatesView.i.dfy')], DN, D)
prop('D03', 'The dictionary specification: queries, successors and asynchronous requests',
     'The sequential dictionary answers a query with the stored or default value, a write changes one key only, and a range query returns exactly the keys of the range that have values, in order, with a correct end bound. Its asynchronous wrapper answers every request once, with a result the dictionary gave between request and reply.',
     ['inputs', 'histories', 'schedules'], 'all dictionaries, requests, ranges and request interleavings',
     NOT_RUN + 'the specification the proof stack is measured against.',
     ['MapSpec/MapSpec.s.dfy', 'MapSpec/AsyncMap.i.dfy', 'MapSpec/UI.s.dfy', 'MapSpec/UIStateMachine.s.dfy', 'Spec/AtomicStateMachine.s.dfy', 'lib/Lang/System/SeqComparison.s.dfy'],
     [('dictionary specification', 'MapSpec/MapSpec.s.dfy'), ('key comparison', 'lib/Lang/System/SeqComparison.s.dfy')], DN, D)
prop('D04', 'Block allocation hands out only free blocks, and bitmaps count exactly',
     'A bitmap behaves as the set of its marked positions: setting or clearing one position changes no other, and unions and membership are those of the sets. The allocator reports a block as available only if no in-memory, durable, frozen or outstanding-write record uses it, so no live block is ever overwritten; the word-level bit tricks compute the same bits as the sets.',
     ['inputs', 'histories'], 'all bitmaps, positions, allocator states and 64-bit words',
     NOT_RUN + 'every bitmap size and allocator state, nor all 2^64 words.',
     ['lib/DataStructures/BitmapModel.i.dfy', 'Impl/BlockAllocatorModel.i.dfy', 'lib/Base/BitsetLemmas.i.dfy'],
     [('bitmap', 'lib/DataStructures/BitmapModel.i.dfy'), ('block allocator', 'Impl/BlockAllocatorModel.i.dfy'), ('bit-vector facts', 'lib/Base/BitsetLemmas.i.dfy')],
     DN + 'The 64-bit-integer duplicates of the bit-vector lemmas that Dafny 2.3 cannot finish are not claimed.', D)
prop('D05', 'Little-endian packing and native array operations are exact and in bounds',
     'Packing a 32- or 64-bit number and unpacking it returns the number, in little-endian byte order, for single values and arrays; array copies and comparisons read and write exactly the bytes asked for and nothing outside the ranges they are given.',
     ['inputs'], 'all words, byte sequences, offsets and lengths',
     NOT_RUN + 'all words and offsets.',
     ['lib/Lang/System/PackedInts.s.dfy', 'lib/Base/PackedIntsLib.i.dfy', 'lib/Lang/System/Bits.s.dfy', 'lib/Lang/System/NativeArrays.s.dfy', 'lib/Lang/System/Arithmetic.s.dfy'],
     [('packing', 'lib/Base/PackedIntsLib.i.dfy'), ('native arrays', 'lib/Lang/System/NativeArrays.s.dfy')], DN + 'Extern (C++) bodies behind these contracts are trusted.', D)
prop('D06', 'The Dafny marshalling helpers compute exact sizes and reversible flattenings',
     'The helper definitions used to lay out arrays and maps on disk are exact: lengths and sums agree with the data, flattening and re-splitting sequences are inverse, and prefix or suffix operations keep every element in its place.',
     ['inputs'], 'all sequences and maps',
     NOT_RUN + 'all sequence lengths and shapes.',
     ['lib/Marshalling/Util.i.dfy', 'lib/Marshalling/Seqs.i.dfy', 'lib/Marshalling/Maps.i.dfy'], [('marshalling helpers', 'lib/Marshalling/Util.i.dfy')], DN, D)
prop('D10', 'Disk regions never overlap and every location belongs to one region',
     'The disk layout assigns superblocks, indirection tables, journal and nodes to disjoint byte ranges inside the disk: two valid node locations are equal or disjoint, a valid location has one region and its alignment, and node addresses and block numbers map to one another without loss or overflow.',
     ['inputs', 'configurations'], 'all addresses, lengths and locations',
     NOT_RUN + 'all address pairs.',
     ['PivotBetree/Bounds.i.dfy', 'BlockCacheSystem/DiskLayout.i.dfy', 'BlockCacheSystem/AsyncSectorDiskModelTypes.i.dfy'], [('disk layout', 'BlockCacheSystem/DiskLayout.i.dfy'), ('bounds', 'PivotBetree/Bounds.i.dfy')], DN, D)

# properties listed but not claimed
NA = []
