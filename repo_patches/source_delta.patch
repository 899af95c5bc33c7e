From 8e7e2a51c077f2b2ee21a4554aa65d64d81ec983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 1/7] fix: CoordinationSystem commit_start must step the
 journal and the map

The transition required the pre-states of the journal and the map to step to
themselves under CommitStartLabel.  CrashTolerantJournal::commit_start requires
in_flight to be None before and sets it to Some after, so no state can step to
itself and no commit could ever start: nothing could ever become durable after
mkfs and no sync request covering a put could be answered.  Step to new states,
as the Dafny CoordinationSystem.CommitStart does.
---
 .../AbstractCrashAwareSystemRefinement_v.rs               | 2 +-
 .../src/abstract_system/AbstractCrashAwareSystem_v.rs     | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs b/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
index 5a66632..c190786 100644
--- a/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
+++ b/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
@@ -723,7 +723,7 @@ verus! {
             v.inv(),
             CoordinationSystem::State::next(v, vp, label),
             CoordinationSystem::State::next_by(v, vp, label, step),
-            matches!(step, CoordinationSystem::Step::commit_start(_)),
+            matches!(step, CoordinationSystem::Step::commit_start(..)),
         ensures
             vp.inv()
     {
diff --git a/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs b/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
index c1f7e24..42c89f1 100644
--- a/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
+++ b/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
@@ -526,6 +526,8 @@ state_machine!{ CoordinationSystem {
   transition! {
     commit_start(
       label: Label,
+      new_journal: CrashTolerantJournal::State,
+      new_mapadt: CrashTolerantMap::State,
       new_boundary_lsn: LSN,
     ) {
       require pre.ephemeral is Some;
@@ -536,7 +538,7 @@ state_machine!{ CoordinationSystem {
 
       require CrashTolerantJournal::State::next(
         pre.journal,
-        pre.journal,
+        new_journal,
         CrashTolerantJournal::Label::CommitStartLabel {
           new_boundary_lsn: new_boundary_lsn,
           max_lsn: pre_ephemeral.map_lsn,
@@ -545,12 +547,14 @@ state_machine!{ CoordinationSystem {
 
       require CrashTolerantMap::State::next(
         pre.mapadt,
-        pre.mapadt,
+        new_mapadt,
         CrashTolerantMap::Label::CommitStartLabel {
           new_boundary_lsn: new_boundary_lsn,
         }
       );
 
+      update journal = new_journal;
+      update mapadt = new_mapadt;
       update superblock_in_flight = true;
 
       // ephemeral unchanged
-- 
2.43.0


From e21a3399b83bbfd98242e2403468dd77cae116ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 2/7] fix: reject an impossible stored length before allocating
 for it

ResizableUniformSizedElementSeqFormat::try_parse passed the length field of
unvalidated input straight to Vec::with_capacity, so a corrupt field made the
parse abort (capacity overflow / allocation failure) instead of returning None.
---
 Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
index 87f6ff5..8a44852 100644
--- a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
+++ b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
@@ -528,6 +528,11 @@ impl<EltFormat: Marshal + UniformSized, LenType: IntFormattable>
         match self.try_length(dslice, data) {
             None => { None },
             Some(len) => {
+                if self.max_length < len {
+                    // The stored length can't be genuine; don't size an allocation by it.
+                    assert( !self.gettable(dslice@.i(data@), self.max_length as int) );    // trigger
+                    return None;
+                }
                 let mut i: usize = 0;
                 let mut result:Vec<EltFormat::U> = Vec::with_capacity(len);
                 while i < len
-- 
2.43.0


From d4fb45cfa338f56d5be61245aef2cd9a7da1b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 3/7] fix: a branch buffer contains a key exactly when its
 contents do

BranchNode::linked_contains was true for the keys whose query is the no-op
message, i.e. for the keys the branch does not hold. A finished compaction was
therefore required to drop the keys its inputs hold, and its value for them was
left unconstrained. Say what the Buffer trait says of every buffer: the key is
in the contents.
---
 Splinter/src/allocation_layer/AllocationBranch_v.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Splinter/src/allocation_layer/AllocationBranch_v.rs b/Splinter/src/allocation_layer/AllocationBranch_v.rs
index 840468a..1b3dd60 100644
--- a/Splinter/src/allocation_layer/AllocationBranch_v.rs
+++ b/Splinter/src/allocation_layer/AllocationBranch_v.rs
@@ -28,7 +28,7 @@ pub type BranchNode = Node<Summary>;
 impl Buffer for BranchNode {
     open spec fn linked_contains(self, dv: BufferDisk<Self>, addr: Address, key: Key) -> bool 
     {
-        self.linked_query(dv, addr, key) == Message::Update{ delta: nop_delta() }
+        self.i(dv, addr).contains(key)
     }
 
     open spec fn linked_query(self, dv: BufferDisk<Self>, addr: Address, key: Key) -> Message 
-- 
2.43.0


From f0542be1881a22ad5298a92fff47f97a751cf7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:07 +0000
Subject: [PATCH 4/7] fix: Cache: write a page back with one request at a time

---
 Splinter/src/implementation/Cache_v.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Splinter/src/implementation/Cache_v.rs b/Splinter/src/implementation/Cache_v.rs
index 0b7121e..dd12215 100644
--- a/Splinter/src/implementation/Cache_v.rs
+++ b/Splinter/src/implementation/Cache_v.rs
@@ -214,6 +214,7 @@ state_machine!{ Cache {
         require !requests.is_empty();
         require responses == empty_responses();
 
+        require requests.is_injective();
         require requests.dom().disjoint(pre.outstanding_reqs.dom());
         require pre.valid_writeback_requests(requests);
 
-- 
2.43.0


From 9fa29d6d28d11514a9afe94b7857abc00c9b6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:09 +0000
Subject: [PATCH 5/7] fix: Cache invariant covers reserved and loading slots,
 and says what an outstanding request is for

---
 Splinter/src/implementation/Cache_v.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/Splinter/src/implementation/Cache_v.rs b/Splinter/src/implementation/Cache_v.rs
index dd12215..481e996 100644
--- a/Splinter/src/implementation/Cache_v.rs
+++ b/Splinter/src/implementation/Cache_v.rs
@@ -309,6 +309,7 @@ state_machine!{ Cache {
         &&& self.outstanding_reqs.values() <= self.lookup_map.values()
         &&& self.outstanding_reqs.is_injective()
         &&& self.outstanding_reqs_non_empty_slots()
+        &&& self.outstanding_reqs_busy_slots()
 
         // do we also need to require self.outstanding
         // NOTE(disk): 1 outstanding IO for each loading/writeback page, reserved & filled (!writeback) -> 0 I/O
@@ -316,11 +317,11 @@ state_machine!{ Cache {
 
     pub open spec fn build_lookup_map(self) -> Map<Address, Slot>
     {
-        let filled_slot_addr_map = Map::new(
-            |slot| self.entries.contains_key(slot) && self.entries[slot] is Filled,
+        let slot_addr_map = Map::new(
+            |slot| self.non_empty_slot(slot),
             |slot| self.entries[slot].get_addr()
         );
-        filled_slot_addr_map.invert()
+        slot_addr_map.invert()
     }
 
     pub open spec fn non_empty_slot(self, slot: Slot) -> bool
@@ -342,7 +343,8 @@ state_machine!{ Cache {
         let lookup_map = self.build_lookup_map();
         &&& lookup_map.is_injective()
         &&& forall |addr| #[trigger] lookup_map.contains_key(addr) 
-            <==> self.non_empty_slot(lookup_map[addr]) 
+            ==> self.non_empty_slot(lookup_map[addr]) 
+                && self.entries[lookup_map[addr]].get_addr() == addr
         &&& forall |slot| #[trigger] self.non_empty_slot(slot)
             ==> lookup_map.contains_key(self.entries[slot].get_addr()) 
                 && lookup_map[self.entries[slot].get_addr()] == slot
@@ -356,6 +358,19 @@ state_machine!{ Cache {
             ==> #[trigger] self.non_empty_slot(self.outstanding_reqs[id])
     }
 
+    // a slot waiting for the disk is being loaded or written back
+    pub open spec fn busy_slot(self, slot: Slot) -> bool
+    {
+        self.entries[slot] is Loading
+            || (self.entries[slot] is Filled && self.status_map[slot] is Writeback)
+    }
+
+    pub open spec fn outstanding_reqs_busy_slots(self) -> bool
+    {
+        forall |id| #[trigger] self.outstanding_reqs.contains_key(id)
+            ==> self.busy_slot(self.outstanding_reqs[id])
+    }
+
     // pub open spec fn outstanding_reqs_unique_slots(self) -> bool
     // {
     //     forall |id1, id2| #[trigger] self.outstanding_reqs.contains_key(id1)
-- 
2.43.0


From 23d81f5c28f291be88df1ace99c1d6bc8ed5c094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:02 +0000
Subject: [PATCH 6/7] fix: JournalCoordinationSystem: a put extends the journal

---
 .../implementation/JournalCoordinationSystem_v.rs    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Splinter/src/implementation/JournalCoordinationSystem_v.rs b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
index 8df8b14..1ca3d5d 100644
--- a/Splinter/src/implementation/JournalCoordinationSystem_v.rs
+++ b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
@@ -187,10 +187,11 @@ state_machine!{ JournalCoordinationSystem{
         require CachedJournal::State::next(pre.journal, pre.journal, journal_lbl);
     }}
 
-    transition!{ put(lbl: Label) {
+    transition!{ put(lbl: Label, new_journal: CachedJournal::State) {
         require let Label::Put{messages} = lbl;
         let journal_lbl = CachedJournal::Label::Put{messages};
-        require CachedJournal::State::next(pre.journal, pre.journal, journal_lbl);
+        require CachedJournal::State::next(pre.journal, new_journal, journal_lbl);
+        update journal = new_journal;
     }}
 
     transition!{ discard_old(lbl: Label, new_journal: CachedJournal::State, discard_addrs: Set<Address>) {
@@ -363,7 +364,12 @@ state_machine!{ JournalCoordinationSystem{
     fn query_end_lsn_inductive(pre: Self, post: Self, lbl: Label) { }
    
     #[inductive(put)]
-    fn put_inductive(pre: Self, post: Self, lbl: Label) { }
+    fn put_inductive(pre: Self, post: Self, lbl: Label, new_journal: CachedJournal::State) 
+    {
+        reveal(CachedJournal::State::next);
+        reveal(CachedJournal::State::next_by);
+        assert(pre.ephemeral_tj() == post.ephemeral_tj());
+    }
    
     #[inductive(discard_old)]
     fn discard_old_inductive(pre: Self, post: Self, lbl: Label, new_journal: CachedJournal::State, discard_addrs: Set<Address>) 
-- 
2.43.0


From d50696476920b1ce2c13956e2767f01a509c3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 7/7] fix: CachedJournal: discarding names the end of the whole
 journal, as its specification does

---
 Splinter/src/implementation/CachedJournal_v.rs             | 6 +++---
 Splinter/src/implementation/JournalCoordinationSystem_v.rs | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/Splinter/src/implementation/CachedJournal_v.rs b/Splinter/src/implementation/CachedJournal_v.rs
index f30ade8..c371b60 100644
--- a/Splinter/src/implementation/CachedJournal_v.rs
+++ b/Splinter/src/implementation/CachedJournal_v.rs
@@ -173,10 +173,10 @@ state_machine!{ CachedJournal {
 
     transition!{ discard_old(lbl: Label) {
         require lbl is DiscardOld;
-        require lbl->require_end == pre.marshalled_seq_end();
-        require pre.seq_start() <= lbl->start_lsn <= lbl->require_end;
+        require lbl->require_end == pre.seq_end();
+        require pre.seq_start() <= lbl->start_lsn <= pre.marshalled_seq_end();
 
-        let new_freshest_rec = if lbl->start_lsn == lbl->require_end { None } else { pre.freshest_rec };
+        let new_freshest_rec = if lbl->start_lsn == pre.marshalled_seq_end() { None } else { pre.freshest_rec };
         let new_lsn_addr_index = lsn_addr_index_discard_up_to(pre.lsn_addr_index, lbl->start_lsn);
         require lbl->discard_addrs == pre.lsn_addr_index.values() - new_lsn_addr_index.values();
 
diff --git a/Splinter/src/implementation/JournalCoordinationSystem_v.rs b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
index 1ca3d5d..f04af50 100644
--- a/Splinter/src/implementation/JournalCoordinationSystem_v.rs
+++ b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
@@ -401,11 +401,10 @@ state_machine!{ JournalCoordinationSystem{
             let root = pre_tj.freshest_rec.unwrap();
             let last_lsn = (pre_tj.seq_end() - 1) as nat;
 
-            assert(pre_tj.seq_end() == lbl->require_end);
             assert(pre.journal.lsn_addr_index.contains_key(last_lsn));
             assert(pre.journal.lsn_addr_index[last_lsn] == root);
 
-            if lbl->start_lsn != lbl->require_end {
+            if lbl->start_lsn != pre_tj.seq_end() {
                 assert(post.journal.lsn_addr_index.contains_key(last_lsn)); // witness
                 assert(post.journal.lsn_addr_index.contains_value(root));
                 assert(!discard_addrs.contains(root));
-- 
2.43.0

