"""Proof overlay: hints added to functions of the current /repo tree.

Every hint is ghost text (assert / proof block / loop invariant) inserted into
the text extracted from /repo, or the *removal* of an `assume`.  A hint never
adds an assumption and never touches an executable token."""
import os
import re

M = 'marshalling/'

def rotted(o, rel, fn, text='', impl=None, rx=r'assume\(\s*false\s*\);'):
    """replace an `assume(false)` by proof text"""
    o.hint(rel, fn, text, at=('replace', rx), impl=impl, optional=True)

def apply(o):
    marshalling(o)
    layers(o)
    impl_seq(o)
    cache(o)
    bank(o)
    spec_hints(o)

def marshalling(o):
    o.hint(M + 'Slice_v.rs', 'drop', '{r}.start == self.start + count, {r}.end == self.end,', at='ensures', impl=r'\bSlice\b')
    F = M + 'IntegerMarshalling_v.rs'
    rotted(o, F, 'exec_parse')
    rotted(o, F, 'usize64_workaround', rx=r'assume\([^;]*;')
    F = M + 'UniformSizedSeq_v.rs'
    rotted(o, F, 'try_parse')
    rotted(o, F, 'exec_marshall')
    F = M + 'ResizableUniformSizedSeq_v.rs'
    rotted(o, F, 'try_length', rx=r'assume\([^;]*\);')
    rotted(o, F, 'try_parse')
    rotted(o, F, 'exec_marshall')
    F = M + 'VariableSizedElementSeq_v.rs'
    rotted(o, F, 'appendable_implies_bdyf_appendable', rx=r'assume\(\s*false\s*\);[^;]*;')
    rotted(o, F, 'appendable_implies_bdyf_appendable', rx=r'assume\([^;]*\);')
    rotted(o, F, 'exec_well_formed')
    F = M + 'ResizableUniformSizedSeq_v.rs'
    o.hint(F, 'exec_set', """
        proof {
            let od = dslice@.i(old(data)@); let nd = dslice@.i(data@);
            assert(self.get_data(nd, idx as int) =~= data@.subrange(
                dslice@.start + self.size_of_length_field() + idx * self.eltf.uniform_size(),
                dslice@.start + self.size_of_length_field() + idx * self.eltf.uniform_size() + self.eltf.uniform_size()));
            assert forall |i| i != idx as int implies self.preserves_entry(od, i, nd) by { }
            assert(self.lengthable(od) ==> { &&& self.lengthable(nd) &&& self.length(nd) == self.length(od) });
            assert(forall |i| i != idx as int ==> self.preserves_entry(od, i, nd));
            assert(self.sets(od, idx as int, value.deepv(), nd));
        }
    """, at='end', impl='SeqMarshal')
    o.hint(F, 'resize', """
        proof {
            let od = dslice@.i(old(data)@); let nd = dslice@.i(data@);
            assert forall |i| self.preserves_entry(od, i, nd) by { }
            assert(self.lengthable(nd));
            assert(self.length(nd) == newlen);
            assert(forall |i| self.preserves_entry(od, i, nd));
            assert(self.resizes(od, newlen as int, nd));
        }
    """, at='end', impl='SeqMarshal')
    o.hint(F, 'exec_append', """ let ghost vp_d0 = data@; let ghost vp_len = self.length(dslice@.i(data@)); """, at='start', impl='SeqMarshal')
    o.hint(F, 'exec_append', """
        let ghost vp_d1 = data@;
        proof {
            let od = dslice@.i(vp_d0); let nd = dslice@.i(vp_d1);
            assert(self.resizes(od, vp_len + 1, nd));
            assert(forall |i| self.preserves_entry(od, i, nd));
        }
    """, at=('after', r'self\.resize\([^;]*;'), impl='SeqMarshal')
    o.hint(F, 'exec_append', """
        proof {
            let od = dslice@.i(vp_d0); let md = dslice@.i(vp_d1); let nd = dslice@.i(data@);
            assert(self.sets(md, vp_len, value.deepv(), nd));
            assert(self.length(nd) == vp_len + 1);
            assert forall |i| i != vp_len implies self.preserves_entry(od, i, nd) by {
                assert(self.preserves_entry(od, i, md));
                assert(self.preserves_entry(md, i, nd));
            }
            assert(forall |i| i != vp_len ==> self.preserves_entry(od, i, nd));
            assert(self.appends(od, value.deepv(), nd));
        }
    """, at='end', impl='SeqMarshal')
    VS = M + 'VariableSizedElementSeq_v.rs'
    o.hint(VS, 'appendable_implies_bdyf_appendable', """
        let l = self.length(data); let b = BdyType::uniform_size() as int;
        self.bdyf.eltf.uniform_size_ensures();
        self.bdyf.parsable_length_bounds(data);
        self.bdyf.length_ensures(data);
        let room = self.bdyf.total_size as int - self.bdyf.size_of_length_field() as int;
        assert(self.elements_start(data) <= self.total_size());
        assert(l * b + b <= room);
        assert((l + 1) * b == l * b + b) by(nonlinear_arith);
        inequality_move_divisor(l + 1, room, b);
        mul_le(l + 1, b);
    """, at='start')


def layers(o):
    o.hint('allocation_layer/AllocationJournalRefinement_v.rs', 'discard_old_refines', """
        assert forall |addr: Address| #[trigger] i_keep_addrs.contains(addr) implies keep_addrs.contains(addr) by {
            let lsn = choose |lsn: LSN| #[trigger] lsn_addr_index_post.contains_key(lsn) && lsn_addr_index_post[lsn] == addr;
            assert(lsn_addr_index_post.contains_key(lsn) && lsn_addr_index_post[lsn] == addr);
            assert(start_lsn <= lsn);
            assert(self.i().lsn_addr_index.contains_key(lsn) && self.i().lsn_addr_index[lsn] == addr);
            assert(self.tj().disk_view.build_lsn_addr_index(self.tj().freshest_rec)[lsn].au
                == self.tj().disk_view.build_lsn_au_index_page_walk(self.tj().freshest_rec)[lsn]);
            assert(self.lsn_au_index.contains_key(lsn) && self.lsn_au_index[lsn] == addr.au);
            assert(post.lsn_au_index.contains_key(lsn));
            assert(post.lsn_au_index[lsn] == addr.au);
            assert(post.lsn_au_index.values().contains(addr.au));
            assert(self.tj().disk_view.entries.contains_key(addr));
            assert(addr.wf());
        }
""", at=('before', r'assert\(\s*i_keep_addrs\s*<=\s*keep_addrs\s*\)'))
    # Well-foundedness of the infinitary child map.  The repository relied on a
    # rule hard-wired into the verifier for vstd's (infinite) Map; the installed
    # verifier no longer applies it to IMap, so it is restated as an axiom for
    # exactly this (strictly positive) datatype.  Listed in the trusted base.
    o.insert_items('betree/PagedBetree_v.rs', """
pub mod vp_ax {
use super::*;
pub broadcast axiom fn vp_betree_child_decreases(m: IMap<Key, BetreeNode>, key: Key)
    requires m.dom().contains(key),
    ensures #[trigger] (decreases_to!(m => m[key]));
}
broadcast use vp_ax::vp_betree_child_decreases;
""")
    o.insert_items('betree/PagedBetreeRefinement_v.rs', """
broadcast use crate::betree::PagedBetree_v::vp_ax::vp_betree_child_decreases;
""")
    for f in ('implementation/ModelRefinement_v.rs',):
        o.insert_items(f, "broadcast use crate::vp_lib::vp_group;\n")
    # the executable page allocator: the repository only promises well-formedness of these three
    X = 'exec/MiniAllocator_v.rs'
    o.file_sub(X, r'fn empty\(\) -> Self\s*\{', 'fn empty() -> (out: Self) ensures out.wf(), out.allocs is None, out@ == MiniAllocator_v::MiniAllocator::empty() {')
    o.hint(X, 'new', '{r}.au == au, {r}.observed == 0, {r}.reserved == 0,', at='ensures', impl=r'\bPageAllocator\b')
    o.hint(X, 'add_aus', '''self.allocs is Some, self.allocs.unwrap().au == au, self.allocs.unwrap().observed == 0, self.allocs.unwrap().reserved == 0, ''', at='ensures', impl=r'\bMiniAllocator\b')
    # and does not say that the page handed out was free
    o.hint(X, 'allocate_and_observe', '''old(self)@.can_allocate({r}@), ''', at='ensures', impl=r'\bMiniAllocator\b')
    o.hint('allocation_layer/AllocationJournal_v.rs', 'frozen_journal_is_valid_image', """
        let cropped = pre.tj().crop(depth);
        let nb = frozen_journal.tj.seq_start();
        let fl = ISet::new(|lsn: LSN| nb <= lsn && lsn < cropped.discard_old(nb).seq_end());
        let fi = pre.lsn_au_index.restrict(fl);
        let sl = ISet::new(|lsn: LSN| nb <= lsn < pre.tj().disk_view.tj_at(frozen_journal.tj.freshest_rec).seq_end());
        assert(cropped.discard_old(nb).seq_end() == frozen_journal.tj.seq_end());
        if frozen_journal.tj.freshest_rec is Some { assert(fl =~= sl); }
        assert(cropped.disk_view == pre.tj().disk_view);
        assert(sub_dv.entries =~= frozen_journal.tj.disk_view.entries);
    """, at=('before', r'assert\(\s*sub_dv\s*=~='))
    o.hint('betree/PivotBetreeRefinement_v.rs', 'split_commutes_with_i_nonsplit', """
        self->pivots.route_lemma(key);
        let vc = child_idx as int;
        assert(self.valid_child_index(child_idx));
        assert(r != vc);
        let nr = if r < vc { r } else { r + 1 };
        assert(result->pivots.pivots[nr] == self->pivots.pivots[r]);
        assert(result->pivots.pivots[nr + 1] == self->pivots.pivots[r + 1]);
        result->pivots.route_is_lemma(key, nr);
        assert(result->children[nr] == self->children[r]);
        self.i_children_lemma();
        result.i_children_lemma();
        assert(result.i_child(key) == self.i_child(key));
        assert(self.i().child(key) == self.i_child(key));
    """, at=('before', r'assert\(\s*result\.i_children\(\)\.map\[key\]'))
    # the repository assumes the refinement of a finished compaction; it is proved here
    o.insert_items('allocation_layer/AllocationBranchBetreeRefinement_v.rs', ABB_COMPACT)
    o.hint('allocation_layer/AllocationBranchBetreeRefinement_v.rs', 'next_refines', """
                vp_compact_complete_refines(pre, post, lbl, new_betree, path, start, end, vp_i, vp_b, vp_n, path_addrs);
    """, at=('replace', r'assume\(\s*false\s*\)\s*;'))
    o.file_sub('allocation_layer/AllocationBranchBetreeRefinement_v.rs',
        r'Step::internal_compact_complete\([^)]*\)\s*=>', 'Step::internal_compact_complete(new_betree, path, start, end, vp_i, vp_b, vp_n, path_addrs) =>')
    o.hint('betree/LinkedBetreeRefinement_v.rs', 'substitute_commutes_with_i', """
            self.substitute_ensures(replacement, path_addrs);
            assert(self.linked.dv.entries <= replacement.dv.entries);
            assert(replacement.dv.entries <= result.dv.entries);
            vp_submap_trans(self.linked.dv.entries, replacement.dv.entries, result.dv.entries);
    """, at=('before', r'assert\(\s*self\.linked\.dv\.is_sub_disk\(result\.dv\)\s*\)'))
    o.insert_items('betree/LinkedBetreeRefinement_v.rs', """
proof fn vp_submap_trans<K, V>(a: IMap<K, V>, b: IMap<K, V>, c: IMap<K, V>)
    requires a <= b, b <= c,
    ensures a <= c,
{
    assert forall |k: K| #[trigger] a.dom().contains(k) implies c.dom().contains(k) && a[k] == c[k] by {
        assert(b.dom().contains(k));
    }
}
""")
    o.hint('betree/PivotBranchRefinement_v.rs', 'lemma_insert_leaf_is_correct', """
        assert forall |x: Key| #[trigger] post.all_keys().contains(x) <==> node.all_keys().insert(key).contains(x) by {
            let r = node.route(key);
            if node.all_keys().contains(x) && x != key {
                let j = choose |j: int| 0 <= j < node->keys.len() && node->keys[j] == x;
                if j <= r { assert(post->keys[j] == x); } else { assert(post->keys[j+1] == x); }
            }
            if x == key { assert(post->keys[r+1] == key); }
            if post.all_keys().contains(x) && x != key {
                let j = choose |j: int| 0 <= j < post->keys.len() && post->keys[j] == x;
                if j <= r { assert(node->keys[j] == x); } else { assert(node->keys[j-1] == x); }
            }
        }
        assert(post.all_keys() =~= node.all_keys().insert(key));
    """, at=('before', r'assert\(post\.all_keys\(\) =~~='), nth=1)
    o.hint('journal/LinkedJournalRefinement_v.rs', 'discard_interp', """
        if post.iptr(ptr) is Some {
            let a = post.iptr(ptr).unwrap();
            let b = PagedJournal_v::JournalRecord::discard_old_journal_rec(self.iptr(ptr), lsn).unwrap();
            assert(a.message_seq =~~= b.message_seq);
            let nx = self.entries[ptr.unwrap()].cropped_prior(lsn);
            assert(*a.prior_rec == post.iptr(nx));
            assert(post.iptr(None) is None);
            reveal_with_fuel(PagedJournal_v::JournalRecord::discard_old_journal_rec, 2);
            if lsn < self.entries[ptr.unwrap()].message_seq.seq_start {
                assert(*self.iptr(ptr).unwrap().prior_rec == self.iptr(nx));
                assert(*a.prior_rec == *b.prior_rec);
            } else {
                assert(*b.prior_rec is None);
            }
        }
    """, at=('before', r'let result ='), impl='DiskView')

def impl_seq(o):
    """what the executable handlers do to the store's state (their own contracts promise only the invariant)"""
    F = 'implementation/Implementation_v.rs'
    I = r'impl\s+Implementation\b'
    o.hint(F, 'handle_noop', 'self.i() == old(self).i(),', at='ensures', impl=I)
    o.hint(F, 'handle_put', """
        self.i() == (AtomicState{ history: self.i().history, ..old(self).i() }),
        self.i().history.len() == old(self).i().history.len() + 1,
        self.i().history.get_prefix(old(self).i().history.len()) == old(self).i().history,
        self.i().mapspec().kmmap == old(self).i().mapspec().kmmap.insert(req.input->PutInput_key, Message::Define{value: req.input->value}),
    """, at='ensures', impl=I)
    o.hint(F, 'handle_sync_request', """
        self.i() == (AtomicState{ sync_req_map: old(self).i().sync_req_map.insert(req.id, (old(self).i().history.len() - 1) as nat),
            in_flight: self.i().in_flight, ..old(self).i() }),
        self.i().in_flight is Some,
        old(self).i().in_flight is Some ==> self.i().in_flight == old(self).i().in_flight,
        old(self).i().in_flight is None ==> self.i().in_flight->0.version == old(self).i().history.len() - 1,
        self.vp_owes(req),
        forall|r: Request| old(self).vp_owes(r) ==> #[trigger] self.vp_owes(r),
    """, at='ensures', impl=I)
    o.hint(F, 'handle_sync_request', "broadcast use vstd::seq_lib::lemma_seq_contains_after_push;", at='start', impl=I)
    o.hint(F, 'maybe_launch_superblock', """
        self.i() == (AtomicState{ in_flight: self.i().in_flight, ..old(self).i() }),
        old(self).i().in_flight is Some ==> self.i() == old(self).i(),
        self.vp_waiting() == (if old(self).i().in_flight is Some { old(self).vp_waiting() } else { 0 }),
        old(self).vp_waiting() > 0 ==> self.i().in_flight is Some,
        old(self).i().in_flight is None && old(self).vp_waiting() > 0 ==> self.i().in_flight->0.version == old(self).i().history.len() - 1,
        old(self).vp_waiting() == 0 ==> self.i() == old(self).i(),
        forall|r: Request| old(self).vp_owes(r) ==> #[trigger] self.vp_owes(r),
    """, at='ensures', impl=I)
    o.hint(F, 'send_superblock', """
        self.i() == (AtomicState{ in_flight: self.i().in_flight, ..old(self).i() }),
        self.i().in_flight is Some && self.i().in_flight->0.version == old(self).i().history.len() - 1,
        self.sync_requests.satisfied_reqs@ == old(self).sync_requests.deferred_reqs@,
        self.sync_requests.deferred_reqs@.len() == 0,
    """, at='ensures', impl=I)
    LOOP = r'ready_reqs@ == old\(ready_reqs\)@\.take\(ready_reqs@\.len\(\) as int\),'
    if re.search(r'fn deliver_inflight_replies\b[\s\S]{0,1600}?\bloop\s+invariant[\s\S]{0,900}?' + LOOP + r'\s*\{', o.read(F)):
        o.hint(F, 'deliver_inflight_replies', """
        ready_reqs@.len() == 0,
        self.i() == (AtomicState{ sync_req_map: self.i().sync_req_map, ..old(self).i() }),
        forall|k: int| 0 <= k < old(ready_reqs)@.len() ==> !self.i().sync_req_map.contains_key(#[trigger] old(ready_reqs)@[k].id),
        self.sync_requests.deferred_reqs@ == old(self).sync_requests.deferred_reqs@,
    """, at='ensures', impl=I)
        o.hint(F, 'deliver_inflight_replies', """
            self.i() == (AtomicState{ sync_req_map: self.i().sync_req_map, ..old(self).i() }),
            forall|k: int| ready_reqs@.len() <= k < old(ready_reqs)@.len() ==> !self.i().sync_req_map.contains_key(#[trigger] old(ready_reqs)@[k].id),
""", at=('after', LOOP), impl=I)
    o.insert_items(F, """

impl Implementation {
    /// syncs waiting for the next superblock
    pub closed spec fn vp_waiting(self) -> int { self.sync_requests.deferred_reqs@.len() as int }

    /// the client that sent r waits for its sync to be acknowledged
    pub closed spec fn vp_owes(self, r: Request) -> bool {
        self.sync_requests.deferred_reqs@.contains(r) || self.sync_requests.satisfied_reqs@.contains(r)
    }
}
""")

def cache(o):
    """the repository assumes that every step of the page cache keeps its invariant; it is proved here"""
    F = 'implementation/Cache_v.rs'
    o.insert_items(F, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'overlay', 'cache_items.rs.txt')).read())
    for step, args in [('reserve', '(new_slots_mapping)'), ('load_initiate', '(new_slots_mapping)'), ('load_complete', '()'), ('access', '()'),
                       ('writeback_initiate', '()'), ('writeback_complete', '()'), ('evict', '(evicted_slots)')]:
        rotted(o, F, step + '_inductive', """
        pre.vp_inv_is(); post.vp_inv_is();
        assert(Cache::State::next(pre, post, lbl)) by { reveal(Cache::State::next); reveal(Cache::State::next_by);
            assert(Cache::State::next_by(pre, post, lbl, Cache::Step::%s%s)); }
        Self::vp_keeps(pre, post, lbl);""" % (step, args))
    rotted(o, F, 'initialize_inductive', "post.vp_inv_is();")
    rotted(o, F, 'inv_next', "pre.vp_inv_is(); post.vp_inv_is(); Self::vp_keeps(pre, post, lbl);")
    rotted(o, F, 'build_lookup_map_ensures', """self.vp_lookup_is();
        let t = Cache::State { lookup_map: self.build_lookup_map(), ..self };
        assert forall |a: Address| #[trigger] self.build_lookup_map().contains_key(a) implies self.non_empty_slot(self.build_lookup_map()[a])
            && self.entries[self.build_lookup_map()[a]].get_addr() == a by { assert(t.lookup_map.contains_key(a)); assert(t.non_empty_slot(t.lookup_map[a])); }
        assert forall |s: Slot| #[trigger] self.non_empty_slot(s) implies self.build_lookup_map().contains_key(self.entries[s].get_addr())
            && self.build_lookup_map()[self.entries[s].get_addr()] == s by { assert(t.non_empty_slot(s)); }""")
    rotted(o, F, 'injective_map_property', "vp_invert(map);")
    # the records of a journal page are finitely many: the repository assumes it
    F = 'implementation/JournalCoordinationRefinement_v.rs'
    rotted(o, F, 'next_index_refines', """assert(lsns.finite()) by {
            self.ephemeral_tj().build_lsn_addr_index_ensures();
            reveal(TruncatedJournal::index_domain_valid);
            let all = ISet::new(|x: nat| x < self.ephemeral_tj().seq_end());
            vp_below_finite(self.ephemeral_tj().seq_end());
            assert(lsns.subset_of(all));
            vstd::iset_lib::lemma_iset_subset_finite(all, lsns);
        }""", rx=r'assume\(\s*lsns\.finite\(\)\s*\);')
    o.insert_items(F, """

proof fn vp_below_finite(n: nat)
    ensures ISet::new(|x: nat| x < n).finite(),
    decreases n,
{
    if n == 0 {
        assert(ISet::new(|x: nat| x < n) =~= ISet::<nat>::empty());
    } else {
        vp_below_finite((n - 1) as nat);
        assert(ISet::new(|x: nat| x < n) =~= ISet::new(|x: nat| x < (n - 1) as nat).insert((n - 1) as nat));
    }
}
""")

def spec_hints(o):
    F = 'spec/KeyType_t.rs'
    for name, strict in (('largest_lte_ensures', 'lte'), ('largest_lt_ensures', 'lt')):
        pass
    o.hint(F, 'largest_lte_ensures', """
        Self::lte_transitive_forall();
        if run.len() != 0 && !Key::lt(needle, run[0]) {
            let sub = run.subrange(1, run.len() as int);
            assert forall|i: int, j: int| 0 <= i <= j < sub.len() implies Key::lte(sub[i], sub[j]) by { assert(Key::lte(run[i+1], run[j+1])); }
            Self::largest_lte_ensures(sub, needle, out - 1);
            assert forall|i: int| 0 <= i <= out implies Key::lte(#[trigger] run[i], needle) by { if i > 0 { assert(sub[i-1] == run[i]); } }
            assert forall|i: int| out < i < run.len() implies Key::lt(needle, #[trigger] run[i]) by { assert(sub[i-1] == run[i]); }
            if run.contains(needle) {
                let k = choose|k: int| 0 <= k < run.len() && run[k] == needle;
                if k > 0 { assert(sub[k-1] == needle); assert(sub.contains(needle)); assert(sub[out-1] == run[out]); }
                else if out > 0 { assert(Key::lte(run[0], run[out])); assert(Key::lte(run[out], needle)); }
            }
        } else if run.len() != 0 {
            assert forall|i: int| out < i < run.len() implies Key::lt(needle, #[trigger] run[i]) by { assert(Key::lte(run[0], run[i])); }
            if run.contains(needle) { let k = choose|k: int| 0 <= k < run.len() && run[k] == needle; assert(Key::lte(run[0], run[k])); }
        }
    """, at=('replace', r'assume\(\s*false\s*\);'), impl=r'impl\s+Key\b', optional=True)
    o.hint(F, 'largest_lt_ensures', """
        if run.len() != 0 && !Key::lte(needle, run[0]) {
            let sub = run.subrange(1, run.len() as int);
            assert forall|i: int, j: int| 0 <= i <= j < sub.len() implies Key::lte(sub[i], sub[j]) by { assert(Key::lte(run[i+1], run[j+1])); }
            Self::largest_lt_ensures(sub, needle, out - 1);
            assert forall|i: int| 0 <= i <= out implies Key::lt(#[trigger] run[i], needle) by { if i > 0 { assert(sub[i-1] == run[i]); } }
            assert forall|i: int| out < i < run.len() implies Key::lte(needle, #[trigger] run[i]) by { assert(sub[i-1] == run[i]); }
            if run.contains(needle) { let k = choose|k: int| 0 <= k < run.len() && run[k] == needle; assert(k > 0); assert(sub[k-1] == needle); assert(sub.contains(needle)); assert(sub[out] == run[out+1]); }
        } else if run.len() != 0 {
            assert forall|i: int| out < i < run.len() implies Key::lte(needle, #[trigger] run[i]) by { assert(Key::lte(run[0], run[i])); }
            if run.contains(needle) { let k = choose|k: int| 0 <= k < run.len() && run[k] == needle; assert(Key::lte(run[0], run[k])); assert(run[0] == needle); }
        }
    """, at=('replace', r'assume\(\s*false\s*\);'), impl=r'impl\s+Key\b', optional=True)

ABB_COMPACT = """
proof fn vp_valid_domain_commutes(dv: BufferDisk<BranchNode>, node: BetreeNode, start: nat, end: nat, k: Key)
    requires
        start < end <= node.buffers.len(),
        forall |i| start <= i < end ==> dv.entries.contains_key(#[trigger] node.buffers[i]),
    ensures
        dv.valid_compact_key_domain(node, start, end, k) <==> dv.i().valid_compact_key_domain(node, start, end, k),
{
    broadcast use crate::vp_lib::vp_group;
    let slice = node.buffers.slice(start as int, end as int);
    let m = node.make_offset_map().decrement(start);
    assert forall |idx: int| 0 <= idx < slice.len() implies
        #[trigger] dv.queryable_contains(slice[idx], k) == dv.i().queryable_contains(slice[idx], k) by {
        assert(slice[idx] == node.buffers[start + idx]);
    }
    assert forall |idx: int| #[trigger] dv.key_in_buffer_filtered(slice, m, 0, k, idx) == dv.i().key_in_buffer_filtered(slice, m, 0, k, idx) by {
        if 0 <= idx < slice.len() {
            assert(dv.queryable_contains(slice[idx], k) == dv.i().queryable_contains(slice[idx], k));
        }
    }
    if dv.valid_compact_key_domain(node, start, end, k) {
        let idx = choose |idx| #[trigger] dv.key_in_buffer_filtered(slice, m, 0, k, idx);
        assert(dv.i().key_in_buffer_filtered(slice, m, 0, k, idx));
    }
    if dv.i().valid_compact_key_domain(node, start, end, k) {
        let idx = choose |idx| #[trigger] dv.i().key_in_buffer_filtered(slice, m, 0, k, idx);
        assert(dv.key_in_buffer_filtered(slice, m, 0, k, idx));
    }
}

proof fn vp_compact_value_commutes(dv: BufferDisk<BranchNode>, node: BetreeNode, start: nat, end: nat, k: Key)
    requires
        start < end <= node.buffers.len(),
        node.flushed_ofs(k) <= end,
        forall |i| start <= i < end ==> #[trigger] dv.get_branch(node.buffers[i]).inv(),
    ensures
        dv.compact_key_value(node, start, end, k) == dv.i().compact_key_value(node, start, end, k),
{
    broadcast use crate::vp_lib::vp_group;
    let slice = node.buffers.slice(start as int, end as int);
    let from = if node.flushed_ofs(k) <= start { 0 } else { node.flushed_ofs(k) - start };
    assert forall |i: int| from <= i < slice.len() implies #[trigger] dv.get_branch(slice[i]).inv() by {
        assert(slice[i] == node.buffers[start + i]);
    }
    dv.query_from_refines(slice, k, from);
}

// where a path leads on disk depends on the replacement only through its root and its nodes
proof fn vp_substitute_dv<T>(path: Path<T>, r1: LinkedBetree<T>, r2: LinkedBetree<T>, path_addrs: PathAddrs)
    requires r1.root == r2.root, r1.dv == r2.dv,
    ensures
        path.substitute(r1, path_addrs).dv == path.substitute(r2, path_addrs).dv,
        path.substitute(r1, path_addrs).root == path.substitute(r2, path_addrs).root,
    decreases path.depth,
{
    broadcast use crate::vp_lib::vp_group;
    if path.depth > 0 {
        vp_substitute_dv(path.subpath(), r1, r2, path_addrs.subrange(1, path_addrs.len() as int));
    }
}

proof fn vp_substitute_buffer_dv<T>(path: Path<T>, r: LinkedBetree<T>, path_addrs: PathAddrs)
    ensures path.substitute(r, path_addrs).buffer_dv == r.buffer_dv,
    decreases path.depth,
{
    broadcast use crate::vp_lib::vp_group;
}

proof fn vp_sub_get(a: BufferDisk<SimpleBuffer>, b: BufferDisk<SimpleBuffer>, addr: Address)
    requires a.is_sub_disk(b), a.entries.contains_key(addr),
    ensures b.entries.contains_key(addr), a.entries[addr] == b.entries[addr],
{
    broadcast use crate::vp_lib::vp_group;
    if b.entries.dom().contains(addr) { assert(a.entries.dom().contains(addr)); } else { assert(a.entries.dom().contains(addr)); }
}

proof fn vp_union_wf(a: LinkedBranch_v::DiskView<Summary>, b: LinkedBranch_v::DiskView<Summary>)
    requires a.wf(), b.wf(), a.entries.dom().disjoint(b.entries.dom()),
    ensures (LinkedBranch_v::DiskView{entries: a.entries.union_prefer_right(b.entries)}).wf(),
{
    broadcast use crate::vp_lib::vp_group;
    let u = LinkedBranch_v::DiskView{entries: a.entries.union_prefer_right(b.entries)};
    assert forall |addr| #[trigger] u.entries.contains_key(addr) implies u.entries[addr].wf() && u.node_has_valid_child_address(u.entries[addr]) by {
        if b.entries.contains_key(addr) {
            assert(u.entries[addr] == b.entries[addr]);
            assert(b.node_has_valid_child_address(b.entries[addr]));
        } else {
            assert(a.entries.contains_key(addr));
            assert(u.entries[addr] == a.entries[addr]);
            assert(a.node_has_valid_child_address(a.entries[addr]));
        }
    }
}

proof fn vp_target_reachable(path: Path<BranchNode>)
    requires path.valid(), path.linked.acyclic(), path.target().has_root(),
    ensures path.linked.reachable_betree_addrs().contains(path.target().root.unwrap()),
    decreases path.depth,
{
    broadcast use crate::vp_lib::vp_group;
    let ranking = path.linked.the_ranking();
    path.linked.reachable_betree_addrs_using_ranking_closed(ranking);
    if path.depth > 0 {
        path.target_ensures();
        let r = path.linked.root().pivots.route(path.key) as nat;
        path.linked.root().pivots.route_lemma(path.key);
        assert(path.linked.root().valid_child_index(r));
        assert(path.subpath().linked == path.linked.child_at_idx(r));
        path.linked.child_at_idx_reachable_addrs_ensures(r);
        vp_target_reachable(path.subpath());
        path.linked.child_at_idx_reachable_addrs_ensures(r);
    }
}

    // every buffer of a reachable node is a sealed branch
    proof fn vp_target_buffers(st: AllocationBranchBetree::State, path: Path<BranchNode>)
        requires st.inv(), path.valid(), path.linked == st.betree.linked, path.target().has_root(),
        ensures
            forall |i| 0 <= i < path.target().root().buffers.len() ==>
                #[trigger] st.betree.linked.buffer_dv.get_branch(path.target().root().buffers[i]).inv()
                && st.betree.linked.buffer_dv.entries.contains_key(path.target().root().buffers[i]),
    {
    broadcast use crate::vp_lib::vp_group;
        let linked = st.betree.linked;
        let (tree_likes, branch_likes) = linked.transitive_likes();
        let ranking = linked.the_ranking();
        path.target_ensures();
        linked.i_valid();
        vp_target_reachable(path);
        assert forall |i| 0 <= i < path.target().root().buffers.len() implies
            #[trigger] linked.buffer_dv.get_branch(path.target().root().buffers[i]).inv()
            && linked.buffer_dv.entries.contains_key(path.target().root().buffers[i]) by {
            let a = path.target().root().buffers[i];
            assert(path.target().root().buffers.contains(a));
            assert(linked.reachable_buffer(path.target().root.unwrap(), a));
            assert(branch_likes.dom().contains(a));
            assert(linked.buffer_dv.get_branch(a).valid_sealed_branch());
        }
    }

    proof fn vp_compact_complete_refines(pre: AllocationBranchBetree::State, post: AllocationBranchBetree::State, lbl: AllocationBranchBetree::Label,
        new_betree: LinkedBetreeVars::State<BranchNode>, path: Path<BranchNode>, start: nat, end: nat,
        input_idx: int, branch_idx: int, new_node_addr: Address, path_addrs: PathAddrs)
    requires
        pre.inv(),
        post.inv(),
        AllocationBranchBetree::State::internal_compact_complete(pre, post, lbl, new_betree, path, start, end, input_idx, branch_idx, new_node_addr, path_addrs),
    ensures
        AllocationBetree::State::next(pre.i(), post.i(), lbl.i()),
    {
    broadcast use crate::vp_lib::vp_group;
        reveal(AllocationBetree::State::next);
        reveal(AllocationBetree::State::next_by);
        let new_branch = pre.wip_branches[branch_idx].branch.unwrap();
        let new_addrs = TwoAddrs{addr1: new_node_addr, addr2: new_branch.root};
        let i_buffer = new_branch.root().i(new_betree.linked.buffer_dv, new_addrs.addr2);
        let node = path.target().root();

        assert(pre.betree.linked.is_fresh(new_addrs.repr() + path_addrs.to_set().to_iset())) by {
            to_aus_domain(path_addrs.to_set().to_iset());
            to_aus_domain(new_addrs.repr());
            AllocationBranch::alloc_aus_ensures(pre.wip_branches, branch_idx);
        }
        path.i_ensures();
        path.target_ensures();
        pre.betree.post_compact_ensures(path, start, end, new_branch.root(), new_addrs, path_addrs);
        path.i_substitute_ensures(path.target().compact(start, end, new_branch.root(), new_addrs), path_addrs);

        pre.inv_implies_wf_branch_dv();
        post.inv_implies_wf_branch_dv();

        let compacted = LinkedBetreeVars::State::post_compact(path, start, end, new_branch.root(), new_addrs, path_addrs);
        let i_compacted = LinkedBetreeVars::State::post_compact(path.i(), start, end, i_buffer, new_addrs, path_addrs);
        let pre_dv = pre.betree.linked.buffer_dv;
        let new_dv = new_betree.linked.buffer_dv;
        AllocationBranch::alloc_aus_ensures(pre.wip_branches, branch_idx);
        post.inv_branch_summary_ensures();

        // the new root is a live, sealed branch of the new disk
        compacted.valid_view_ensures(new_betree.linked);
        compacted.valid_view_implies_same_transitive_likes(post.betree.linked);
        LikesBetree::State::post_compact_likes_ensures(pre.betree, new_betree, path, start, end, new_branch.root(), new_addrs, path_addrs);
        assert(new_dv.get_branch(new_addrs.addr2).valid_sealed_branch()) by {
            let (_, post_branch_likes) = post.betree.linked.transitive_likes();
            assert(post_branch_likes.count(new_addrs.addr2) > 0);
            assert(post_branch_likes.dom().contains(new_addrs.addr2));
        }
        // the domain and range conditions of the compaction
        assert(path.i().target().can_compact(start, end, i_buffer, new_betree.i().linked.buffer_dv, new_addrs)) by {
            vp_target_buffers(pre, path);
            assert forall |i| start <= i < end implies pre_dv.entries.contains_key(#[trigger] node.buffers[i]) by {
                assert(pre_dv.get_branch(node.buffers[i]).inv());
            }
            assert forall |k: Key| i_buffer.linked_contains(new_dv.i(), new_addrs.addr2, k) <==>
                #[trigger] pre_dv.i().valid_compact_key_domain(node, start, end, k) by {
                vp_valid_domain_commutes(pre_dv, node, start, end, k);
                assert(pre_dv.valid_compact_key_domain(node, start, end, k) <==> new_branch.root().linked_contains(new_dv, new_addrs.addr2, k));
            }
            assert(path.i().target().compact_buffer_valid_domain(start, end, i_buffer, new_dv.i(), new_addrs.addr2));
            assert forall |k: Key| i_buffer.linked_contains(new_dv.i(), new_addrs.addr2, k) implies
                #[trigger] i_buffer.linked_query(new_dv.i(), new_addrs.addr2, k) == pre_dv.i().compact_key_value(node, start, end, k) by {
                assert(new_branch.root().linked_contains(new_dv, new_addrs.addr2, k));
                assert(pre_dv.valid_compact_key_domain(node, start, end, k));
                vp_compact_value_commutes(pre_dv, node, start, end, k);
                assert(new_branch.root().linked_query(new_dv, new_addrs.addr2, k) == pre_dv.compact_key_value(node, start, end, k));
                new_dv.query_refines(new_addrs.addr2, k);
            }
            assert(path.i().target().compact_buffer_valid_range(start, end, i_buffer, new_dv.i(), new_addrs.addr2));
        }
        vp_substitute_dv(path.i(), path.target().compact(start, end, new_branch.root(), new_addrs).i(),
            path.i().target().compact(start, end, i_buffer, new_addrs), path_addrs);
        vp_substitute_buffer_dv(path.i(), path.i().target().compact(start, end, i_buffer, new_addrs), path_addrs);
        vp_substitute_buffer_dv(path, path.target().compact(start, end, new_branch.root(), new_addrs), path_addrs);
        assert(i_compacted.dv == compacted.dv);
        assert(i_compacted.valid_view(new_betree.i().linked)) by {
            assert(i_compacted.buffer_dv == pre.i().betree.linked.buffer_dv.modify_disk(new_addrs.addr2, i_buffer));
            // what the new disk keeps of the old one keeps its meaning
            let full_dv = BufferDisk{entries: pre_dv.entries.union_prefer_right(new_branch.disk_view.entries)};
            assert(pre_dv.is_sub_disk(full_dv)) by {
                assert forall |a: Address| #[trigger] pre_dv.entries.contains_key(a) implies !new_branch.disk_view.entries.contains_key(a) by {
                    if new_branch.disk_view.entries.contains_key(a) {
                        assert(new_branch.full_repr().contains(a));
                        assert(new_branch.get_summary().contains(a.au));
                        assert(summary_aus(pre.branch_summary).contains(a.au));
                        assert(pre.branch_allocator_aus().contains(a.au));
                    }
                }
            }
            assert(pre.wip_branches[branch_idx].inv());
            assert(new_branch.disk_view.wf());
            vp_union_wf(pre_dv.to_branch_disk(), new_branch.disk_view);
            assert(full_dv.to_branch_disk().wf());
            assert(new_dv.is_sub_disk(full_dv));
            pre_dv.i_preserves_sub_disk(full_dv);
            new_dv.i_preserves_sub_disk(full_dv);
            assert forall |a: Address| #[trigger] new_dv.i().entries.contains_key(a) && i_compacted.buffer_dv.entries.contains_key(a)
                implies new_dv.i().entries[a] == i_compacted.buffer_dv.entries[a] by {
                if a != new_addrs.addr2 {
                    assert(pre_dv.i().entries.dom().contains(a));
                    assert(new_dv.i().entries.dom().contains(a));
                    vp_sub_get(pre_dv.i(), full_dv.i(), a);
                    vp_sub_get(new_dv.i(), full_dv.i(), a);
                    assert(pre_dv.i().entries[a] == full_dv.i().entries[a]);
                    assert(new_dv.i().entries[a] == full_dv.i().entries[a]);
                }
            }
        }
        let (new_betree_aus, new_buffer_aus) = AllocationBetree::State::internal_compact_complete_au_likes(
            path.i(), start, end, new_addrs, path_addrs, pre.betree_aus, pre.branch_aus);
        assert(new_betree_aus == post.betree_aus && new_buffer_aus == post.branch_aus);
        assert(restrict_domain_au(i_compacted.dv.entries, new_betree_aus.dom().to_iset()) <= new_betree.i().linked.dv.entries.dom());
        assert forall |a: Address| #[trigger] restrict_domain_au(i_compacted.buffer_dv.entries, new_buffer_aus.dom().to_iset()).contains(a)
            implies new_betree.i().linked.buffer_dv.repr().contains(a) by {
            assert(summary_aus(post.branch_summary).contains(a.au));
            if a != new_addrs.addr2 { assert(pre_dv.entries.contains_key(a)); }
        }
        assert(AllocationBetree::State::internal_compact_complete(pre.i(), post.i(), lbl.i(), new_betree.i(), path.i(), start, end, i_buffer, new_addrs, path_addrs));
        assert(AllocationBetree::State::next_by(pre.i(), post.i(), lbl.i(),
            AllocationBetree::Step::internal_compact_complete(new_betree.i(), path.i(), start, end, i_buffer, new_addrs, path_addrs)));
    }
"""

# ---- example: the bank.  What an answer means, in terms of what the two locks guard.
def bank(ov):
    f = 'example/SimpleBank_v.rs'
    ov.insert_items(f, '''
pub closed spec fn vp_held(b: SimpleBank, i: int, v: int) -> bool {
    0 <= i < b.accounts.len() && exists |info: AccountInfo| #[trigger] b.accounts[i].inv(info) && info.amt as int == v
}
pub closed spec fn vp_could(b: SimpleBank, i: Input) -> bool {
    &&& i.from != i.to
    &&& exists |f: AccountInfo, t: AccountInfo| #[trigger] b.accounts[i.from as int].inv(f) && #[trigger] b.accounts[i.to as int].inv(t)
        && f.amt >= i.amt && t.amt + i.amt <= u32::MAX
    &&& i.from < b.accounts.len() && i.to < b.accounts.len()
}
/// why a transfer may be refused
pub closed spec fn vp_could_not(b: SimpleBank, i: Input) -> bool {
    ||| i.from == i.to || i.from >= b.accounts.len() || i.to >= b.accounts.len()
    ||| exists |f: AccountInfo, t: AccountInfo| #[trigger] b.accounts[i.from as int].inv(f) && #[trigger] b.accounts[i.to as int].inv(t)
        && (f.amt < i.amt || t.amt + i.amt > u32::MAX)
}
''')
    ov.hint(f, 'maybe_transfer', '{r}.0.id == req.id, {r}.0.output.succeeded ==> vp_could(*self, req.input), !{r}.0.output.succeeded ==> vp_could_not(*self, req.input), ', at='ensures')
    ov.hint(f, 'failed_reply', '{r}.0.id == req.id, !{r}.0.output.succeeded, ', at='ensures')
    ov.hint(f, '_new', 'forall |vp_i: usize| {r}.valid_id(vp_i) <==> vp_i < total_accounts, {r}.instance().total_accounts() == total_accounts as nat, {r}.instance().total_amount() == (initial_amount as nat) * (total_accounts as nat), ', at='ensures')
    ov.hint(f, '_new', ' accounts.len() <= total_accounts, ', at=('after', r'\binvariant\b'), optional=True)
    ov.hint(f, 'check_value', 'vp_held(*self, id as int, {r} as int), ', at='ensures')
    ov.hint('example/BankObligations_v.rs', 'init_refines', 'broadcast use vstd::multiset::group_multiset_axioms; assert(forall |vp_q: Request| pre.bank.requests.count(vp_q) == 0); assert(forall |vp_q: Reply| pre.bank.replies.count(vp_q) == 0); ')
