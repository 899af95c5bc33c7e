//@ in: implementation/JournalCoordinationRefinement_v.rs
use vstd::prelude::*;
use crate::abstract_system::StampedMap_v::LSN;
use crate::abstract_system::MsgHistory_v::MsgHistory;
verus! {

// The journal whose pages live in a cache over an asynchronous disk is the linked journal, whatever the cache and
// the disk do in between: reads see the newest page, a frozen journal is on the disk, no record is ever lost.

type CO = JournalCoordinationSystem::State;
type CL = JournalCoordinationSystem::Label;
type LJ = LinkedJournal::State;
type LJL = LinkedJournal::Label;

pub open spec fn vp_lj(s: CO) -> LJ {
    LinkedJournal::State { truncated_journal: s.ephemeral_tj(), unmarshalled_tail: s.journal.unmarshalled_tail }
}
pub open spec fn vp_frozen(s: CO, f: JournalSnapShot) -> TruncatedJournal {
    TruncatedJournal { freshest_rec: f.freshest_rec, disk_view: DiskView { boundary_lsn: f.boundary_lsn, entries: s.ephemeral_disk().entries } }
}
pub open spec fn vp_lbl(s: CO, l: CL) -> LJL {
    match l {
        JournalCoordinationSystem::Label::ReadForRecovery { messages } => LinkedJournal::Label::ReadForRecovery { messages },
        JournalCoordinationSystem::Label::FreezeForCommit { frozen } => LinkedJournal::Label::FreezeForCommit { frozen_journal: vp_frozen(s, frozen) },
        JournalCoordinationSystem::Label::QueryEndLsn { end_lsn } => LinkedJournal::Label::QueryEndLsn { end_lsn },
        JournalCoordinationSystem::Label::Put { messages } => LinkedJournal::Label::Put { messages },
        JournalCoordinationSystem::Label::DiscardOld { start_lsn, require_end } => LinkedJournal::Label::DiscardOld { start_lsn, require_end },
        JournalCoordinationSystem::Label::Internal {} => LinkedJournal::Label::Internal {},
    }
}

pub proof fn vp_inv_step(v: CO, w: CO, l: CL)
    requires v.inv(), JournalCoordinationSystem::State::next(v, w, l),
    ensures w.inv(),
{
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    match choose|s: JournalCoordinationSystem::Step| JournalCoordinationSystem::State::next_by(v, w, l, s) {
        JournalCoordinationSystem::Step::read_for_recovery(r) => { JournalCoordinationSystem::State::read_for_recovery_inductive(v, w, l, r); }
        JournalCoordinationSystem::Step::freeze_for_commit(d, r) => { JournalCoordinationSystem::State::freeze_for_commit_inductive(v, w, l, d, r); }
        JournalCoordinationSystem::Step::query_end_lsn() => { JournalCoordinationSystem::State::query_end_lsn_inductive(v, w, l); }
        JournalCoordinationSystem::Step::put(j) => { JournalCoordinationSystem::State::put_inductive(v, w, l, j); }
        JournalCoordinationSystem::Step::discard_old(j, d) => { JournalCoordinationSystem::State::discard_old_inductive(v, w, l, j, d); }
        JournalCoordinationSystem::Step::journal_marshal(j, c, a, r) => { JournalCoordinationSystem::State::journal_marshal_inductive(v, w, l, j, c, a, r); }
        JournalCoordinationSystem::Step::cache_disk_ops(c, d, q, r) => { JournalCoordinationSystem::State::cache_disk_ops_inductive(v, w, l, c, d, q, r); }
        JournalCoordinationSystem::Step::cache_internal(c) => { JournalCoordinationSystem::State::cache_internal_inductive(v, w, l, c); }
        JournalCoordinationSystem::Step::disk_internal(d) => { JournalCoordinationSystem::State::disk_internal_inductive(v, w, l, d); }
        _ => {}
    }
}

// a read of the cache is a read of the newest version of the page
pub proof fn vp_read_is_newest(v: CO, c: Cache::State, reads: IMap<Address, RawPage>, writes: IMap<Address, RawPage>, a: Address)
    requires v.inv(), Cache::State::next(v.cache, c, Cache::Label::Access { reads, writes }), reads.contains_key(a), v.ephemeral_disk().entries.contains_key(a),
    ensures raw_page_to_record(reads[a]) == v.ephemeral_disk().entries[a],
{
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    v.cache.build_lookup_map_ensures();
    let cl = Cache::Label::Access { reads, writes };
    assert(Cache::State::access(v.cache, c, cl));
    assert(cl->reads == reads);
    assert(cl->reads.contains_key(a));
    let s = v.cache.lookup_map[a];
    assert(v.cache.valid_read(a, reads[a]));
    assert(v.cache.non_empty_slot(s));
    assert(v.cache.status_map.contains_key(s));
    if v.cache.status_map[s] is Clean { assert(v.cache.valid_clean_slot(s)); }
}

// what a frozen journal consists of is already on the disk: it survives losing the cache
pub proof fn vp_frozen_is_durable(v: CO, w: CO, l: CL)
    requires v.inv(), JournalCoordinationSystem::State::next(v, w, l), l is FreezeForCommit,
    ensures
        w == v,
        vp_frozen(v, l->frozen).decodable(),
        v.journal.boundary_lsn <= l->frozen.boundary_lsn,
        forall|a: Address| #[trigger] vp_frozen(v, l->frozen).build_tight().disk_view.entries.contains_key(a) ==>
            v.disk.content.contains_key(a) && raw_page_to_record(v.disk.content[a]) == v.ephemeral_disk().entries[a],
{
    vp_inv_step(v, w, l);
    vp_freeze(v, w, l);
    let fj = vp_frozen(v, l->frozen);
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let step = choose|s: JournalCoordinationSystem::Step| JournalCoordinationSystem::State::next_by(v, w, l, s);
    assert(step is freeze_for_commit);
    let fd = step.arrow_freeze_for_commit_0(); let reads = step.arrow_freeze_for_commit_1();
    assert forall|a: Address| #[trigger] fj.build_tight().disk_view.entries.contains_key(a) implies
            v.disk.content.contains_key(a) && raw_page_to_record(v.disk.content[a]) == v.ephemeral_disk().entries[a] by {
        fj.disk_view.build_tight_ensures(fj.freshest_rec);
        vp_frozen_pages(v, w, l, fd, reads, a);
        assert(fd.contains(a));
        assert(v.ephemeral_disk().entries.contains_key(a));
        v.cache.build_lookup_map_ensures();
        assert(!v.cache.valid_dirty_addr(a)) by {
            if v.cache.valid_dirty_addr(a) { assert(v.cache.lookup_map.contains_key(a)); }
        }
    }
}

// the freeze step itself
proof fn vp_freeze(v: CO, w: CO, l: CL)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::next(v, w, l), l is FreezeForCommit,
    ensures LinkedJournal::State::next(vp_lj(v), vp_lj(w), vp_lbl(v, l)), w == v, vp_frozen(v, l->frozen).decodable(), v.journal.boundary_lsn <= l->frozen.boundary_lsn,
{
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    let step = choose|s: JournalCoordinationSystem::Step| JournalCoordinationSystem::State::next_by(v, w, l, s);
    assert(step is freeze_for_commit);
    let fd = step.arrow_freeze_for_commit_0(); let reads = step.arrow_freeze_for_commit_1();
    assert(w == v);
    let d = vp_freeze_facts(v, w, l, fd, reads);
    let tj = v.ephemeral_tj();
    let fj = vp_frozen(v, l->frozen);
    let ct = tj.crop(d);
    let bdy = fj.seq_start();
    let pd = ct.discard_old(bdy);
    assert(pd =~= fj);
    pd.disk_view.build_tight_ensures(pd.freshest_rec);
    assert(ct.valid_discard_old(bdy, fj));
    assert(LinkedJournal::State::next_by(vp_lj(v), vp_lj(w), vp_lbl(v, l), LinkedJournal::Step::freeze_for_commit(d))) by { reveal(LinkedJournal::State::next_by); }
    reveal(LinkedJournal::State::next);
}

proof fn vp_freeze_facts(v: CO, w: CO, l: CL, fd: ISet<Address>, reads: IMap<Address, RawPage>) -> (d: nat)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::freeze_for_commit(v, w, l, fd, reads),
    ensures ({
        let tj = v.ephemeral_tj(); let fj = vp_frozen(v, l->frozen); let ct = tj.crop(d);
        &&& tj.disk_view.can_crop(tj.freshest_rec, d)
        &&& fj.decodable() && ct.decodable()
        &&& ct.freshest_rec == l->frozen.freshest_rec
        &&& tj.disk_view.boundary_lsn <= fj.seq_start()
        &&& ct.can_discard_to(fj.seq_start())
        &&& (ct.freshest_rec is Some ==> fj.seq_start() < ct.seq_end())
        &&& fd == v.journal.lsn_addr_index.restrict(ISet::new(|x: LSN| fj.seq_start() <= x && x < ct.seq_end())).values()
    }),
{
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    let jl = CachedJournal::Label::FreezeForCommit { frozen: l->frozen, frozen_domain: fd, reads: to_journal_reads(reads) };
    let js = choose|s: CachedJournal::Step| CachedJournal::State::next_by(v.journal, w.journal, jl, s);
    let d = js.arrow_freeze_for_commit_0();
    let tj = v.ephemeral_tj();
    let fj = vp_frozen(v, l->frozen);
    if tj.freshest_rec is Some { vp_root_indexed(v); }
    v.can_crop_ptr_after_index_refines(tj.freshest_rec, d);
    tj.crop_ensures(d);
    let ct = tj.crop(d);
    let p = ct.freshest_rec;
    if p is Some {
        assert(to_journal_reads(reads).contains_key(p.unwrap()));
        vp_read_is_newest(v, v.cache, reads, IMap::empty(), p.unwrap());
    }
    assert(fj.disk_view.valid_ranking(v.ephemeral_disk().the_ranking()));
    let fl = ISet::new(|lsn: LSN| l->frozen.boundary_lsn <= lsn && lsn < ct.seq_end());
    assert(fl =~= ISet::new(|x: LSN| fj.seq_start() <= x && x < ct.seq_end()));
    d
}

proof fn vp_root_indexed(v: CO)
    requires v.inv(), v.journal.freshest_rec is Some,
    ensures v.journal.lsn_addr_index.contains_value(v.journal.freshest_rec.unwrap()),
{
    let tj = v.ephemeral_tj();
    tj.build_lsn_addr_index_ensures();
    let x = (tj.seq_end() - 1) as nat;
    let r = v.journal.freshest_rec.unwrap();
    assert(v.journal.lsn_addr_index.contains_key(x) && v.journal.lsn_addr_index[x] == r) by { reveal(TruncatedJournal::index_domain_valid); }
}

proof fn vp_frozen_pages(v: CO, w: CO, l: CL, fd: ISet<Address>, reads: IMap<Address, RawPage>, a: Address)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::freeze_for_commit(v, w, l, fd, reads), vp_frozen(v, l->frozen).build_tight().disk_view.entries.contains_key(a),
    ensures fd.contains(a), v.ephemeral_disk().entries.contains_key(a),
{
    let d = vp_freeze_facts(v, w, l, fd, reads);
    let tj = v.ephemeral_tj(); let fj = vp_frozen(v, l->frozen); let ct = tj.crop(d);
    if fj.freshest_rec is None { return; }
    fj.disk_view.build_tight_domain_is_build_lsn_addr_index_range(fj.freshest_rec);
    assert(fj.build_lsn_addr_index().values().contains(a));
    let x = choose|x: LSN| #[trigger] fj.build_lsn_addr_index().contains_key(x) && fj.build_lsn_addr_index()[x] == a;
    fj.disk_view.sub_disk_with_newer_lsn_repr_index(ct.disk_view, fj.freshest_rec);
    tj.disk_view.cropped_ptr_build_sub_index(tj.freshest_rec, ct.freshest_rec, d);
    assert(fj.disk_view.build_lsn_addr_index(fj.freshest_rec) <= ct.disk_view.build_lsn_addr_index(fj.freshest_rec));
    assert(fj.build_lsn_addr_index() == fj.disk_view.build_lsn_addr_index(fj.freshest_rec));
    assert(ct.build_lsn_addr_index() == ct.disk_view.build_lsn_addr_index(fj.freshest_rec));
    assert(ct.build_lsn_addr_index() <= tj.build_lsn_addr_index());
    assert(ct.build_lsn_addr_index().contains_key(x) && ct.build_lsn_addr_index()[x] == a);
    assert(v.journal.lsn_addr_index.contains_key(x) && v.journal.lsn_addr_index[x] == a);
    assert(fj.seq_start() <= x < fj.seq_end());
    let r = v.journal.lsn_addr_index.restrict(ISet::new(|x: LSN| fj.seq_start() <= x && x < ct.seq_end()));
    assert(r.contains_key(x) && r[x] == a);
    fj.disk_view.build_tight_ensures(fj.freshest_rec);
}

pub proof fn vp_step(v: CO, w: CO, l: CL)
    requires v.inv(), JournalCoordinationSystem::State::next(v, w, l),
    ensures w.inv(), vp_lj(v).inv(), vp_lj(w).inv(), LinkedJournal::State::next(vp_lj(v), vp_lj(w), vp_lbl(v, l)),
{
    vp_inv_step(v, w, l);
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    match choose|s: JournalCoordinationSystem::Step| JournalCoordinationSystem::State::next_by(v, w, l, s) {
        JournalCoordinationSystem::Step::read_for_recovery(r) => { vp_recovery(v, w, l, r); }
        JournalCoordinationSystem::Step::freeze_for_commit(d, r) => { vp_freeze(v, w, l); }
        JournalCoordinationSystem::Step::query_end_lsn() => {
            reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
            assert(LinkedJournal::State::next_by(vp_lj(v), vp_lj(w), vp_lbl(v, l), LinkedJournal::Step::query_end_lsn())) by { reveal(LinkedJournal::State::next_by); }
        }
        JournalCoordinationSystem::Step::put(j) => {
            reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
            assert(w.ephemeral_tj() =~= v.ephemeral_tj());
            assert(LinkedJournal::State::next_by(vp_lj(v), vp_lj(w), vp_lbl(v, l), LinkedJournal::Step::put())) by { reveal(LinkedJournal::State::next_by); }
        }
        JournalCoordinationSystem::Step::discard_old(j, d) => { vp_discard(v, w, l, j, d); }
        JournalCoordinationSystem::Step::journal_marshal(j, c, a, r) => { vp_marshal(v, w, l, j, c, a, r); }
        JournalCoordinationSystem::Step::cache_disk_ops(c, d, q, r) => { vp_disk_ops(v, w, l, c, d, q, r); vp_nothing(v, w, l); }
        JournalCoordinationSystem::Step::cache_internal(c) => { vp_cache_internal(v, w, l, c); vp_nothing(v, w, l); }
        JournalCoordinationSystem::Step::disk_internal(d) => { vp_disk_internal(v, w, l, d); vp_nothing(v, w, l); }
        _ => {}
    }
    reveal(LinkedJournal::State::next);
}

proof fn vp_nothing(v: CO, w: CO, l: CL)
    requires v.inv(), w.inv(), l is Internal, w.journal == v.journal, w.ephemeral_disk() == v.ephemeral_disk(),
    ensures LinkedJournal::State::next(vp_lj(v), vp_lj(w), vp_lbl(v, l)), vp_lj(w) == vp_lj(v),
{
    assert(LinkedJournal::State::next_by(vp_lj(v), vp_lj(w), vp_lbl(v, l), LinkedJournal::Step::internal_no_op())) by { reveal(LinkedJournal::State::next_by); }
    reveal(LinkedJournal::State::next);
}

proof fn vp_recovery(v: CO, w: CO, l: CL, r: IMap<Address, RawPage>)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::read_for_recovery(v, w, l, r),
    ensures LinkedJournal::State::next(vp_lj(v), vp_lj(w), vp_lbl(v, l)),
{
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    let m = l.arrow_ReadForRecovery_messages();
    let jl = CachedJournal::Label::ReadForRecovery { messages: m, reads: to_journal_reads(r) };
    let js = choose|s: CachedJournal::Step| CachedJournal::State::next_by(v.journal, w.journal, jl, s);
    let d = js.arrow_read_for_recovery_0();
    let tj = v.ephemeral_tj();
    if tj.freshest_rec is Some { vp_root_indexed(v); }
    v.can_crop_ptr_after_index_refines(tj.freshest_rec, d);
    tj.disk_view.pointer_after_crop_ensures(tj.freshest_rec, d);
    let p = tj.disk_view.pointer_after_crop(tj.freshest_rec, d);
    assert(p is Some && tj.disk_view.entries.contains_key(p.unwrap()));
    assert(to_journal_reads(r).contains_key(p.unwrap()));
    vp_read_is_newest(v, v.cache, r, IMap::empty(), p.unwrap());
    assert(m == tj.disk_view.entries[p.unwrap()].message_seq.maybe_discard_old(tj.disk_view.boundary_lsn));
    assert(LinkedJournal::State::next_by(vp_lj(v), vp_lj(w), vp_lbl(v, l), LinkedJournal::Step::read_for_recovery(d))) by { reveal(LinkedJournal::State::next_by); }
    reveal(LinkedJournal::State::next);
}

proof fn vp_discard(v: CO, w: CO, l: CL, j: CachedJournal::State, d: ISet<Address>)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::discard_old(v, w, l, j, d),
    ensures LinkedJournal::State::next(vp_lj(v), vp_lj(w), vp_lbl(v, l)),
{
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    let tj = v.ephemeral_tj(); let n = w.ephemeral_tj();
    let b = l->start_lsn;
    lsn_addr_index_discard_up_to_ensures(v.journal.lsn_addr_index, b);
    let p = tj.discard_old(b);
    assert(n.freshest_rec == p.freshest_rec);
    assert(v.dirty_journal_cache() =~= w.dirty_journal_cache());
    assert forall|a: Address| #[trigger] n.disk_view.entries.contains_key(a) implies tj.disk_view.entries.contains_key(a) && tj.disk_view.entries[a] == n.disk_view.entries[a] by {
        if !w.dirty_journal_cache().contains_key(a) {
            assert(w.journal.lsn_addr_index.contains_value(a));
            let x = choose|x: LSN| w.journal.lsn_addr_index.contains_key(x) && #[trigger] w.journal.lsn_addr_index[x] == a;
            assert(v.journal.lsn_addr_index.contains_key(x) && v.journal.lsn_addr_index[x] == a);
        }
    }
    assert(n.disk_view.is_sub_disk(p.disk_view));
    assert(p.disk_view.wf());
    assert(p.disk_view.valid_ranking(tj.disk_view.the_ranking()));
    n.disk_view.sub_disk_repr_index(p.disk_view, n.freshest_rec);
    p.disk_view.build_tight_domain_is_build_lsn_addr_index_range(p.freshest_rec);
    p.disk_view.build_tight_ensures(p.freshest_rec);
    let t = p.build_tight();
    assert(t.disk_view.entries.dom() =~= n.disk_view.entries.dom());
    assert(t.disk_view.is_sub_disk(n.disk_view));
    let t0 = v.journal.unmarshalled_tail;
    assert(t0.bounded_discard(b).msgs =~= t0.msgs);
    assert(t0.bounded_discard(b) == t0);
    assert(tj.valid_discard_old(b, n));
    assert(LinkedJournal::State::next_by(vp_lj(v), vp_lj(w), vp_lbl(v, l), LinkedJournal::Step::discard_old(n))) by { reveal(LinkedJournal::State::next_by); }
    reveal(LinkedJournal::State::next);
}

proof fn vp_marshal(v: CO, w: CO, l: CL, j: CachedJournal::State, c: Cache::State, a: Address, r: JournalRecord)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::journal_marshal(v, w, l, j, c, a, r),
    ensures LinkedJournal::State::next(vp_lj(v), vp_lj(w), vp_lbl(v, l)),
{
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let ws = IMap::empty().insert(a, r);
    let jl = CachedJournal::Label::JournalMarshal { writes: ws };
    let js = choose|s: CachedJournal::Step| CachedJournal::State::next_by(v.journal, w.journal, jl, s);
    let cut = js.arrow_internal_journal_marshal_0(); let na = js.arrow_internal_journal_marshal_1();
    let msgs = v.journal.unmarshalled_tail.discard_recent(cut);
    let nr = JournalRecord { message_seq: msgs, prior_rec: v.journal.freshest_rec };
    assert(jl->writes == IMap::empty().insert(na, nr));
    assert(ws.contains_key(na) && ws[na] == nr);
    assert(ws.contains_key(a));
    assert(IMap::<Address, JournalRecord>::empty().insert(na, nr).contains_key(a));
    assert(na == a && nr == r);
    let cl = Cache::Label::Access { reads: IMap::empty(), writes: to_cache_writes(ws) };
    assert(Cache::State::access(v.cache, w.cache, cl));
    assert(cl->writes.contains_key(a));
    v.cache.build_lookup_map_ensures();
    w.cache.build_lookup_map_ensures();
    journal_unmarshall_marshall(nr);
    let slot = v.cache.lookup_map[a];
    assert(v.cache.lookup_map.restrict(cl->writes.dom()) =~= IMap::empty().insert(a, slot));
    assert(v.cache.lookup_map.restrict(cl->writes.dom()).contains_key(a));
    let sl = v.cache.lookup_map.restrict(cl->writes.dom()).values();
    assert(sl =~= ISet::empty().insert(slot));
    lsn_addr_index_append_record_ensures(v.journal.lsn_addr_index, msgs, a);
    assert(lsn_disjoint(v.journal.lsn_addr_index.dom(), msgs)) by {
        v.ephemeral_tj().build_lsn_addr_index_ensures();
        reveal(TruncatedJournal::index_domain_valid);
    }
    assert(w.journal.lsn_addr_index.values() == v.journal.lsn_addr_index.values() + ISet::empty().insert(a));
    assert(w.dirty_journal_cache().dom() =~= v.dirty_journal_cache().dom() + ISet::empty().insert(a));
    assert(w.dirty_journal_cache() =~= v.dirty_journal_cache().insert(a, nr));
    assert forall|x: Address| x != a implies (v.journal.lsn_addr_index.contains_value(x) <==> w.journal.lsn_addr_index.contains_value(x)) by {
        assert(v.journal.lsn_addr_index.values().contains(x) <==> v.journal.lsn_addr_index.contains_value(x));
        assert(w.journal.lsn_addr_index.values().contains(x) <==> w.journal.lsn_addr_index.contains_value(x));
    }
    assert(w.ephemeral_disk().entries =~= v.ephemeral_disk().entries.insert(a, nr));
    assert(w.ephemeral_tj() == v.ephemeral_tj().append_record(a, msgs));
    assert(!v.ephemeral_disk().entries.contains_key(a)) by {
        assert(v.journal.lsn_addr_index.values().contains(a) <==> v.ephemeral_tj().disk_view.entries.dom().contains(a));
    }
    assert(LinkedJournal::State::next_by(vp_lj(v), vp_lj(w), vp_lbl(v, l), LinkedJournal::Step::internal_journal_marshal(cut, a))) by { reveal(LinkedJournal::State::next_by); }
    reveal(LinkedJournal::State::next);
}

proof fn vp_disk_ops(v: CO, w: CO, l: CL, c: Cache::State, d: AsyncDisk::State, q: IMap<ID, DiskRequest>, r: IMap<ID, DiskResponse>)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::cache_disk_ops(v, w, l, c, d, q, r),
    ensures w.journal == v.journal, w.ephemeral_disk() == v.ephemeral_disk(), w.disk.content == v.disk.content, l is Internal,
{
    reveal(AsyncDisk::State::next); reveal(AsyncDisk::State::next_by);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let cl = Cache::Label::DiskOps { requests: q, responses: r };
    let cs = choose|s: Cache::Step| Cache::State::next_by(v.cache, w.cache, cl, s);
    v.cache.build_lookup_map_ensures();
    w.cache.build_lookup_map_ensures();
    if cs is load_initiate || cs is writeback_initiate {
        if cs is load_initiate { injective_map_property(cs.arrow_load_initiate_0()); injective_map_property(q); }
        assert forall|a: Address| #[trigger] w.cache.valid_dirty_addr(a) implies v.cache.valid_dirty_addr(a) by {
            let s = w.cache.lookup_map[a];
            assert(w.cache.non_empty_slot(s));
            assert(w.cache.status_map.contains_key(s));
            assert(w.cache.entries[s] is Filled);
            assert(v.cache.entries[s] is Filled);
            assert(v.cache.non_empty_slot(s));
            assert(w.cache.entries[s].get_addr() == a);
            assert(v.cache.entries[s] == w.cache.entries[s]);
            assert(v.cache.lookup_map.contains_key(a));
            assert(v.cache.non_empty_slot(v.cache.lookup_map[a]));
            assert(v.cache.entries[v.cache.lookup_map[a]].get_addr() == a);
            assert(v.cache.lookup_map[a] == s);
            if cs is writeback_initiate {
                let o = IMap::new(|id: ID| q.contains_key(id), |id: ID| v.cache.lookup_map[q[id]->to]);
                if o.contains_value(s) {
                    let id = choose|id: ID| o.contains_key(id) && #[trigger] o[id] == s;
                    assert(q.contains_value(q[id]));
                }
            } else {
                assert(v.cache.status_map[s] == w.cache.status_map[s]);
            }
        }
        assert(v.ephemeral_disk() == w.ephemeral_disk());
    } else {
        injective_map_property(v.cache.outstanding_reqs.restrict(r.dom()));
        injective_map_property(v.cache.lookup_map);
        assert forall|a: Address| #[trigger] w.cache.valid_dirty_addr(a) implies v.cache.valid_dirty_addr(a) by {
            let s = w.cache.lookup_map[a];
            assert(v.cache.lookup_map.contains_key(a));
            assert(v.cache.status_map.contains_key(s));
            assert(w.cache.status_map.contains_key(s));
        }
        assert(v.ephemeral_disk() == w.ephemeral_disk());
    }
}

proof fn vp_cache_internal(v: CO, w: CO, l: CL, c: Cache::State)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::cache_internal(v, w, l, c),
    ensures w.journal == v.journal, w.ephemeral_disk() == v.ephemeral_disk(), w.disk == v.disk, l is Internal,
{
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let cs = choose|s: Cache::Step| Cache::State::next_by(v.cache, w.cache, Cache::Label::Internal {}, s);
    v.cache.build_lookup_map_ensures();
    w.cache.build_lookup_map_ensures();
    match cs {
        Cache::Step::reserve(m) => {
            injective_map_property(m);
            assert(forall|a: Address| #[trigger] w.cache.valid_dirty_addr(a) ==> v.cache.valid_dirty_addr(a));
            assert(w.dirty_journal_cache() =~= v.dirty_journal_cache());
        }
        Cache::Step::evict(e) => {
            let ea = IMap::new(|s: Slot| e.contains(s), |s: Slot| v.cache.entries[s].get_addr()).values();
            assert forall|a: Address| true implies (v.cache.valid_dirty_addr(a) <==> w.cache.valid_dirty_addr(a)) by {
                if ea.contains(a) {
                    let s = choose|s: Slot| #[trigger] e.contains(s) && v.cache.entries[s].get_addr() == a;
                    assert(v.cache.non_empty_slot(s));
                    assert(!v.cache.valid_dirty_addr(a));
                    assert(!w.cache.valid_dirty_addr(a));
                }
            }
            assert(w.dirty_journal_cache() =~= v.dirty_journal_cache());
        }
        _ => {}
    }
    assert(w.ephemeral_disk() == v.ephemeral_disk());
}

proof fn vp_disk_internal(v: CO, w: CO, l: CL, d: AsyncDisk::State)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::disk_internal(v, w, l, d),
    ensures w.journal == v.journal, w.cache == v.cache, w.ephemeral_disk() == v.ephemeral_disk(), l is Internal,
{
    reveal(AsyncDisk::State::next); reveal(AsyncDisk::State::next_by);
    let ds = choose|s: AsyncDisk::Step| AsyncDisk::State::next_by(v.disk, w.disk, AsyncDisk::Label::Internal {}, s);
    if ds is process_write {
        let id = ds.get_process_write_0();
        assert(v.cache.outstanding_reqs.contains_key(id));
        let s = v.cache.outstanding_reqs[id];
        assert(v.cache.non_empty_slot(s));
        v.cache.build_lookup_map_ensures();
        assert(v.cache.lookup_map.contains_key(v.cache.entries[s].get_addr()));
        assert(v.dirty_journal_cache().contains_key(v.cache.entries[s].get_addr()));
        assert(v.ephemeral_disk().entries =~= w.ephemeral_disk().entries);
    }
}

// it starts as the journal that was read from the disk
pub proof fn vp_init(s: CO, disk: AsyncDisk::State, cache: Cache::State, journal: CachedJournal::State, snap: JournalSnapShot, reads: IMap<Address, RawPage>)
    requires JournalCoordinationSystem::State::initialize(s, disk, cache, journal, snap, reads),
    ensures
        s.inv(),
        LinkedJournal::State::initialize(vp_lj(s), s.ephemeral_tj()),
        s.ephemeral_tj().freshest_rec == snap.freshest_rec, s.ephemeral_disk().boundary_lsn == snap.boundary_lsn,
        forall|a: Address| reads.contains_key(a) <==> #[trigger] s.ephemeral_disk().entries.contains_key(a),
        forall|a: Address| #[trigger] reads.contains_key(a) ==> s.ephemeral_disk().entries[a] == raw_page_to_record(reads[a]),
{
    JournalCoordinationSystem::State::initialize_inductive(s, disk, cache, journal, snap, reads);
    assert forall|a: Address| reads.contains_key(a) <==> #[trigger] s.ephemeral_disk().entries.contains_key(a) by {
        assert(s.journal.lsn_addr_index.values().contains(a) <==> s.ephemeral_tj().disk_view.entries.dom().contains(a));
        assert(reads.dom().contains(a) <==> s.journal.lsn_addr_index.values().contains(a));
    }
    let jc = Cache::Label::Access { reads, writes: IMap::empty() };
    assert forall|a: Address| #[trigger] reads.contains_key(a) implies s.ephemeral_disk().entries[a] == raw_page_to_record(reads[a]) by {
        assert(s.ephemeral_disk().entries.contains_key(a));
        vp_read_is_newest(s, s.cache, reads, IMap::empty(), a);
    }
}

// every history, from the start
pub open spec fn vp_history(ss: Seq<CO>, ls: Seq<CL>) -> bool {
    ss.len() == ls.len() + 1
    && (exists|d: AsyncDisk::State, c: Cache::State, j: CachedJournal::State, n: JournalSnapShot, r: IMap<Address, RawPage>| JournalCoordinationSystem::State::initialize(ss[0], d, c, j, n, r))
    && forall|i: int| 0 <= i < ls.len() ==> JournalCoordinationSystem::State::next(#[trigger] ss[i], ss[i + 1], ls[i])
}
pub proof fn vp_every_history(ss: Seq<CO>, ls: Seq<CL>, n: int)
    requires vp_history(ss, ls), 0 <= n < ss.len(),
    ensures
        ss[n].inv(), vp_lj(ss[n]).inv(),
        LinkedJournal::State::initialize(vp_lj(ss[0]), vp_lj(ss[0]).truncated_journal),
        forall|i: int| 0 <= i < n ==> LinkedJournal::State::next(vp_lj(#[trigger] ss[i]), vp_lj(ss[i + 1]), vp_lbl(ss[i], ls[i])),
    decreases n
{
    if n == 0 {
        let (d, c, j, m, r) = choose|d: AsyncDisk::State, c: Cache::State, j: CachedJournal::State, m: JournalSnapShot, r: IMap<Address, RawPage>| JournalCoordinationSystem::State::initialize(ss[0], d, c, j, m, r);
        vp_init(ss[0], d, c, j, m, r);
    } else {
        vp_every_history(ss, ls, n - 1);
        assert(JournalCoordinationSystem::State::next(ss[n - 1], ss[n - 1 + 1], ls[n - 1]));
        vp_step(ss[n - 1], ss[n], ls[n - 1]);
    }
}

// a page of the journal that is on the disk stays there as it is while the journal uses it
pub proof fn vp_saved_stays(v: CO, w: CO, l: CL, a: Address)
    requires
        v.inv(), JournalCoordinationSystem::State::next(v, w, l),
        v.journal.lsn_addr_index.contains_value(a), w.journal.lsn_addr_index.contains_value(a), !v.cache.valid_dirty_addr(a),
    ensures
        !w.cache.valid_dirty_addr(a), v.disk.content.contains_key(a), w.disk.content.contains_key(a),
        raw_page_to_record(w.disk.content[a]) == raw_page_to_record(v.disk.content[a]),
{
    vp_inv_step(v, w, l);
    assert(v.journal.lsn_addr_index.values().contains(a) && w.journal.lsn_addr_index.values().contains(a));
    assert(v.ephemeral_disk().entries.contains_key(a) && w.ephemeral_disk().entries.contains_key(a));
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    v.cache.build_lookup_map_ensures(); w.cache.build_lookup_map_ensures();
    match choose|s: JournalCoordinationSystem::Step| JournalCoordinationSystem::State::next_by(v, w, l, s) {
        JournalCoordinationSystem::Step::journal_marshal(j, c, b, r) => { vp_marshal_keeps(v, w, l, j, c, b, r, a); }
        JournalCoordinationSystem::Step::cache_disk_ops(c, d, q, r) => { vp_disk_ops(v, w, l, c, d, q, r); vp_disk_ops_dirty(v, w, l, c, d, q, r, a); }
        JournalCoordinationSystem::Step::cache_internal(c) => { vp_cache_internal(v, w, l, c); vp_cache_internal_dirty(v, w, l, c, a); }
        JournalCoordinationSystem::Step::disk_internal(d) => { vp_disk_internal(v, w, l, d); }
        _ => {}
    }
}

proof fn vp_marshal_keeps(v: CO, w: CO, l: CL, j: CachedJournal::State, c: Cache::State, a: Address, r: JournalRecord, x: Address)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::journal_marshal(v, w, l, j, c, a, r), v.journal.lsn_addr_index.contains_value(x), !v.cache.valid_dirty_addr(x),
    ensures !w.cache.valid_dirty_addr(x), w.disk == v.disk,
{
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let ws = IMap::empty().insert(a, r);
    let jl = CachedJournal::Label::JournalMarshal { writes: ws };
    let js = choose|s: CachedJournal::Step| CachedJournal::State::next_by(v.journal, w.journal, jl, s);
    let na = js.arrow_internal_journal_marshal_1();
    assert(ws.contains_key(a));
    assert(jl->writes.contains_key(a));
    assert(na == a);
    assert(x != a);
    let cl = Cache::Label::Access { reads: IMap::empty(), writes: to_cache_writes(ws) };
    assert(Cache::State::access(v.cache, w.cache, cl));
    v.cache.build_lookup_map_ensures();
    let t = v.cache.lookup_map.restrict(cl->writes.dom());
    if v.cache.lookup_map.contains_key(x) && t.values().contains(v.cache.lookup_map[x]) {
        let y = choose|y: Address| t.contains_key(y) && #[trigger] t[y] == v.cache.lookup_map[x];
        assert(y == a);
        assert(v.cache.entries[v.cache.lookup_map[x]].get_addr() == x);
        assert(v.cache.entries[v.cache.lookup_map[a]].get_addr() == a);
    }
}

proof fn vp_disk_ops_dirty(v: CO, w: CO, l: CL, c: Cache::State, d: AsyncDisk::State, q: IMap<ID, DiskRequest>, r: IMap<ID, DiskResponse>, a: Address)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::cache_disk_ops(v, w, l, c, d, q, r),
    ensures w.cache.valid_dirty_addr(a) ==> v.cache.valid_dirty_addr(a),
{
    reveal(AsyncDisk::State::next); reveal(AsyncDisk::State::next_by);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let cl = Cache::Label::DiskOps { requests: q, responses: r };
    let cs = choose|s: Cache::Step| Cache::State::next_by(v.cache, w.cache, cl, s);
    v.cache.build_lookup_map_ensures();
    w.cache.build_lookup_map_ensures();
    if w.cache.valid_dirty_addr(a) {
        let s = w.cache.lookup_map[a];
        assert(w.cache.non_empty_slot(s));
        assert(w.cache.status_map.contains_key(s));
        assert(w.cache.entries[s] is Filled);
        assert(w.cache.entries[s].get_addr() == a);
        if cs is load_complete {
            let o = v.cache.outstanding_reqs.restrict(r.dom());
            injective_map_property(o);
            assert(!o.invert().contains_key(s));
        }
        assert(v.cache.entries[s] == w.cache.entries[s]);
        assert(v.cache.non_empty_slot(s));
        assert(v.cache.lookup_map.contains_key(a));
        assert(v.cache.lookup_map[a] == s);
        if cs is writeback_initiate {
            let o = IMap::new(|id: ID| q.contains_key(id), |id: ID| v.cache.lookup_map[q[id]->to]);
            if o.contains_value(s) {
                let id = choose|id: ID| o.contains_key(id) && #[trigger] o[id] == s;
                assert(q.contains_value(q[id]));
            }
        }
    }
}

proof fn vp_cache_internal_dirty(v: CO, w: CO, l: CL, c: Cache::State, a: Address)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::cache_internal(v, w, l, c),
    ensures w.cache.valid_dirty_addr(a) ==> v.cache.valid_dirty_addr(a),
{
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let cs = choose|s: Cache::Step| Cache::State::next_by(v.cache, w.cache, Cache::Label::Internal {}, s);
    v.cache.build_lookup_map_ensures();
    w.cache.build_lookup_map_ensures();
    if w.cache.valid_dirty_addr(a) {
        let s = w.cache.lookup_map[a];
        assert(w.cache.non_empty_slot(s));
        assert(w.cache.status_map.contains_key(s));
        assert(w.cache.entries[s] is Filled);
        assert(w.cache.entries[s].get_addr() == a);
        assert(v.cache.entries[s] == w.cache.entries[s]);
        assert(v.cache.non_empty_slot(s));
        assert(v.cache.lookup_map.contains_key(a));
        assert(v.cache.lookup_map[a] == s);
    }
}

// no step of the cache or the disk changes the journal
pub proof fn vp_moving_pages_changes_nothing(v: CO, w: CO, l: CL, a: Address)
    requires v.inv(), JournalCoordinationSystem::State::next(v, w, l), w.journal == v.journal,
    ensures vp_lj(w) == vp_lj(v),
{
    vp_inv_step(v, w, l);
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    match choose|s: JournalCoordinationSystem::Step| JournalCoordinationSystem::State::next_by(v, w, l, s) {
        JournalCoordinationSystem::Step::journal_marshal(j, c, b, r) => {
            reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
        }
        JournalCoordinationSystem::Step::cache_disk_ops(c, d, q, r) => { vp_disk_ops(v, w, l, c, d, q, r); }
        JournalCoordinationSystem::Step::cache_internal(c) => { vp_cache_internal(v, w, l, c); }
        JournalCoordinationSystem::Step::disk_internal(d) => { vp_disk_internal(v, w, l, d); }
        _ => { assert(v.dirty_journal_cache() =~= w.dirty_journal_cache()); assert(v.ephemeral_disk() =~= w.ephemeral_disk()); }
    }
}

// ---- what the journal can always do

pub proof fn vp_can_put(v: CO, m: MsgHistory) -> (w: CO)
    requires v.inv(), m.wf(), m.seq_start == v.journal.unmarshalled_tail.seq_end,
    ensures
        JournalCoordinationSystem::State::next(v, w, JournalCoordinationSystem::Label::Put { messages: m }),
        w.journal.unmarshalled_tail == v.journal.unmarshalled_tail.concat(m), w.cache == v.cache, w.disk == v.disk, w.ephemeral_tj() == v.ephemeral_tj(),
{
    let j = CachedJournal::State { unmarshalled_tail: v.journal.unmarshalled_tail.concat(m), ..v.journal };
    let w = JournalCoordinationSystem::State { journal: j, ..v };
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    assert(CachedJournal::State::next_by(v.journal, j, CachedJournal::Label::Put { messages: m }, CachedJournal::Step::put()));
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    assert(JournalCoordinationSystem::State::next_by(v, w, JournalCoordinationSystem::Label::Put { messages: m }, JournalCoordinationSystem::Step::put(j)));
    assert(w.ephemeral_tj() =~= v.ephemeral_tj());
    w
}

pub proof fn vp_can_query(v: CO)
    requires v.inv(),
    ensures JournalCoordinationSystem::State::next(v, v, JournalCoordinationSystem::Label::QueryEndLsn { end_lsn: v.journal.unmarshalled_tail.seq_end }),
{
    let e = v.journal.unmarshalled_tail.seq_end;
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    assert(CachedJournal::State::next_by(v.journal, v.journal, CachedJournal::Label::QueryEndLsn { end_lsn: e }, CachedJournal::Step::query_end_lsn()));
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    assert(JournalCoordinationSystem::State::next_by(v, v, JournalCoordinationSystem::Label::QueryEndLsn { end_lsn: e }, JournalCoordinationSystem::Step::query_end_lsn()));
}

// the tail is marshalled into a fresh page that the cache holds for it, up to any cut
pub proof fn vp_can_marshal(v: CO, cut: LSN, a: Address) -> (w: CO)
    requires
        v.inv(), v.journal.unmarshalled_tail.seq_start < cut <= v.journal.unmarshalled_tail.seq_end,
        !v.journal.lsn_addr_index.contains_value(a), v.cache.lookup_map.contains_key(a), v.cache.entries[v.cache.lookup_map[a]] is Reserved,
    ensures
        JournalCoordinationSystem::State::next(v, w, JournalCoordinationSystem::Label::Internal {}),
        w.journal.freshest_rec == Some(a), w.journal.unmarshalled_tail.seq_start == cut, w.journal.unmarshalled_tail.seq_end == v.journal.unmarshalled_tail.seq_end,
        w.ephemeral_disk().entries.contains_key(a), w.ephemeral_disk().entries[a].message_seq == v.journal.unmarshalled_tail.discard_recent(cut), w.ephemeral_disk().entries[a].prior_rec == v.journal.freshest_rec,
{
    let t = v.journal.unmarshalled_tail;
    let msgs = t.discard_recent(cut);
    let r = JournalRecord { message_seq: msgs, prior_rec: v.journal.freshest_rec };
    let j = CachedJournal::State { freshest_rec: Some(a), unmarshalled_tail: t.discard_old(cut), lsn_addr_index: lsn_addr_index_append_record(v.journal.lsn_addr_index, msgs, a), ..v.journal };
    let ws = IMap::empty().insert(a, r);
    let jl = CachedJournal::Label::JournalMarshal { writes: ws };
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    assert(CachedJournal::State::next_by(v.journal, j, jl, CachedJournal::Step::internal_journal_marshal(cut, a)));
    let cl = Cache::Label::Access { reads: IMap::empty(), writes: to_cache_writes(ws) };
    let sl = v.cache.lookup_map.restrict(cl->writes.dom()).values();
    let c = Cache::State {
        entries: v.cache.entries.union_prefer_right(IMap::new(|s: Slot| sl.contains(s), |s: Slot| Entry::Filled { addr: v.cache.entries[s].get_addr(), data: cl->writes[v.cache.entries[s].get_addr()] })),
        status_map: v.cache.status_map.union_prefer_right(IMap::new(|s: Slot| sl.contains(s), |s: Slot| Status::Dirty)),
        ..v.cache
    };
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    assert forall|x: Address| #[trigger] cl->writes.contains_key(x) implies v.cache.valid_write(x) by { assert(ws.contains_key(x)); assert(x == a); }
    assert(Cache::State::next_by(v.cache, c, cl, Cache::Step::access()));
    let w = JournalCoordinationSystem::State { journal: j, cache: c, ..v };
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    let l = JournalCoordinationSystem::Label::Internal {};
    assert(JournalCoordinationSystem::State::next_by(v, w, l, JournalCoordinationSystem::Step::journal_marshal(j, c, a, r)));
    vp_inv_step(v, w, l);
    vp_marshal_page(v, w, l, j, c, a, r);
    w
}

proof fn vp_marshal_page(v: CO, w: CO, l: CL, j: CachedJournal::State, c: Cache::State, a: Address, r: JournalRecord)
    requires v.inv(), w.inv(), JournalCoordinationSystem::State::journal_marshal(v, w, l, j, c, a, r),
    ensures w.ephemeral_disk().entries.contains_key(a), w.ephemeral_disk().entries[a] == r,
{
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let ws = IMap::empty().insert(a, r);
    let cl = Cache::Label::Access { reads: IMap::empty(), writes: to_cache_writes(ws) };
    assert(Cache::State::access(v.cache, w.cache, cl));
    assert(ws.contains_key(a) && ws[a] == r);
    assert(cl->writes.contains_key(a));
    v.cache.build_lookup_map_ensures();
    w.cache.build_lookup_map_ensures();
    journal_unmarshall_marshall(r);
    let slot = v.cache.lookup_map[a];
    let t = v.cache.lookup_map.restrict(cl->writes.dom());
    assert(t.contains_key(a) && t[a] == slot);
    assert(t.values().contains(slot));
    assert(w.cache.valid_dirty_addr(a));
    assert(w.dirty_journal_cache().contains_key(a));
    assert(v.cache.entries[slot].get_addr() == a);
}

// when its pages are on the disk and the newest is at hand, the whole journal can be frozen
pub proof fn vp_can_freeze(v: CO)
    requires
        v.inv(),
        forall|a: Address| v.journal.lsn_addr_index.contains_value(a) && #[trigger] v.cache.lookup_map.contains_key(a) ==>
            v.cache.entries[v.cache.lookup_map[a]] is Filled && v.cache.status_map[v.cache.lookup_map[a]] is Clean,
        v.journal.freshest_rec is Some ==> v.cache.lookup_map.contains_key(v.journal.freshest_rec.unwrap()),
    ensures
        JournalCoordinationSystem::State::next(v, v, JournalCoordinationSystem::Label::FreezeForCommit { frozen: JournalSnapShot { boundary_lsn: v.journal.boundary_lsn, freshest_rec: v.journal.freshest_rec } }),
{
    let f = JournalSnapShot { boundary_lsn: v.journal.boundary_lsn, freshest_rec: v.journal.freshest_rec };
    let l = JournalCoordinationSystem::Label::FreezeForCommit { frozen: f };
    let p = v.journal.freshest_rec;
    let reads: IMap<Address, RawPage> = if p is Some { IMap::empty().insert(p.unwrap(), v.cache.entries[v.cache.lookup_map[p.unwrap()]]->data) } else { IMap::empty() };
    v.cache.build_lookup_map_ensures();
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let cl = Cache::Label::Access { reads, writes: IMap::empty() };
    if p is Some { vp_root_indexed(v); }
    assert forall|a: Address| #[trigger] reads.contains_key(a) implies v.cache.valid_read(a, reads[a]) by { assert(a == p.unwrap()); }
    assert(v.cache.lookup_map.restrict(cl->writes.dom()) =~= IMap::empty());
    let ws = v.cache.lookup_map.restrict(cl->writes.dom()).values();
    assert(ws =~= ISet::empty());
    assert(v.cache.entries.union_prefer_right(IMap::new(|s: Slot| ws.contains(s), |s: Slot| Entry::Filled { addr: v.cache.entries[s].get_addr(), data: cl->writes[v.cache.entries[s].get_addr()] })) =~= v.cache.entries);
    assert(v.cache.status_map.union_prefer_right(IMap::new(|s: Slot| ws.contains(s), |s: Slot| Status::Dirty)) =~= v.cache.status_map);
    assert(Cache::State::next_by(v.cache, v.cache, cl, Cache::Step::access()));
    let jr = to_journal_reads(reads);
    let e: LSN = if p is Some { jr[p.unwrap()].message_seq.seq_end } else { v.journal.boundary_lsn };
    let fd = v.journal.lsn_addr_index.restrict(ISet::new(|x: LSN| f.boundary_lsn <= x && x < e)).values();
    assert forall|a: Address| #[trigger] fd.contains(a) implies v.journal.lsn_addr_index.contains_value(a) by {
        let r = v.journal.lsn_addr_index.restrict(ISet::new(|x: LSN| f.boundary_lsn <= x && x < e));
        let x = choose|x: LSN| r.contains_key(x) && #[trigger] r[x] == a;
        assert(v.journal.lsn_addr_index.contains_key(x) && v.journal.lsn_addr_index[x] == a);
    }
    assert(Cache::State::next_by(v.cache, v.cache, Cache::Label::EvictableCheck { addrs: fd }, Cache::Step::evictable()));
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    if p is Some {
        assert(reads.contains_key(p.unwrap()));
        assert(jr.contains_key(p.unwrap()));
        vp_read_is_newest(v, v.cache, reads, IMap::empty(), p.unwrap());
        assert(v.ephemeral_tj().seq_end() == e);
    }
    let jl = CachedJournal::Label::FreezeForCommit { frozen: f, frozen_domain: fd, reads: jr };
    assert(CachedJournal::State::next_by(v.journal, v.journal, jl, CachedJournal::Step::freeze_for_commit(0)));
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    assert(JournalCoordinationSystem::State::next_by(v, v, l, JournalCoordinationSystem::Step::freeze_for_commit(fd, reads)));
}

// old records can be discarded as soon as their pages are saved
pub proof fn vp_can_discard(v: CO, b: LSN) -> (w: CO)
    requires
        v.inv(), v.journal.boundary_lsn <= b <= v.journal.unmarshalled_tail.seq_start,
        forall|a: Address| v.journal.lsn_addr_index.contains_value(a) && #[trigger] v.cache.lookup_map.contains_key(a) ==>
            v.cache.entries[v.cache.lookup_map[a]] is Filled && v.cache.status_map[v.cache.lookup_map[a]] is Clean,
    ensures
        JournalCoordinationSystem::State::next(v, w, JournalCoordinationSystem::Label::DiscardOld { start_lsn: b, require_end: v.journal.unmarshalled_tail.seq_end }),
        w.journal.boundary_lsn == b, w.journal.unmarshalled_tail == v.journal.unmarshalled_tail, w.cache == v.cache, w.disk == v.disk,
{
    let e = v.journal.unmarshalled_tail.seq_end;
    let ix = lsn_addr_index_discard_up_to(v.journal.lsn_addr_index, b);
    let d = v.journal.lsn_addr_index.values() - ix.values();
    let j = CachedJournal::State { boundary_lsn: b, freshest_rec: if b == v.journal.unmarshalled_tail.seq_start { None } else { v.journal.freshest_rec }, lsn_addr_index: ix, ..v.journal };
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
    assert(CachedJournal::State::next_by(v.journal, j, CachedJournal::Label::DiscardOld { start_lsn: b, require_end: e, discard_addrs: d }, CachedJournal::Step::discard_old()));
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    assert forall|a: Address| #[trigger] d.contains(a) implies v.journal.lsn_addr_index.contains_value(a) by {}
    assert(Cache::State::next_by(v.cache, v.cache, Cache::Label::EvictableCheck { addrs: d }, Cache::Step::evictable()));
    let w = JournalCoordinationSystem::State { journal: j, ..v };
    let l = JournalCoordinationSystem::Label::DiscardOld { start_lsn: b, require_end: e };
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    assert(JournalCoordinationSystem::State::next_by(v, w, l, JournalCoordinationSystem::Step::discard_old(j, d)));
    w
}

// what a put adds is in the journal, discarding takes only what is older, and nothing else changes its ends
pub proof fn vp_ends(v: CO, w: CO, l: CL)
    requires v.inv(), JournalCoordinationSystem::State::next(v, w, l),
    ensures
        l is Put ==> l.arrow_Put_messages().seq_start == vp_lj(v).seq_end() && vp_lj(w).seq_end() == l.arrow_Put_messages().seq_end,
        !(l is Put) ==> vp_lj(w).seq_end() == vp_lj(v).seq_end(),
        l is DiscardOld ==> w.journal.boundary_lsn == l->start_lsn && v.journal.boundary_lsn <= l->start_lsn && l->require_end == vp_lj(v).seq_end(),
        !(l is DiscardOld) ==> w.journal.boundary_lsn == v.journal.boundary_lsn,
        l is QueryEndLsn ==> l->end_lsn == vp_lj(v).seq_end(),
        l is ReadForRecovery || l is FreezeForCommit || l is QueryEndLsn ==> w == v,
{
    reveal(JournalCoordinationSystem::State::next); reveal(JournalCoordinationSystem::State::next_by);
    reveal(CachedJournal::State::next); reveal(CachedJournal::State::next_by);
}

proof fn vp_index_from_reads(dv: DiskView, root: Pointer, e: LSN)
    requires dv.buildable(root), e == dv.seq_end(root),
    ensures build_lsn_addr_index_from_reads(dv.entries, dv.boundary_lsn, root, e) == dv.build_lsn_addr_index(root),
    decreases e,
{
    if root is Some {
        let m = dv.entries[root.unwrap()].message_seq;
        let b: LSN = if dv.boundary_lsn >= m.seq_start { dv.boundary_lsn } else { m.seq_start };
        vp_index_from_reads(dv, dv.entries[root.unwrap()].cropped_prior(dv.boundary_lsn), b);
    }
}

// after a crash: from the disk alone, a journal starts that is the frozen one
pub proof fn vp_recover(v: CO, l: CL, d: AsyncDisk::State, c: Cache::State) -> (s: CO)
    requires
        v.inv(), JournalCoordinationSystem::State::next(v, v, l), l is FreezeForCommit,
        d.inv(), d.requests =~= IMap::empty(), d.responses =~= IMap::empty(),
        c.inv(), c.outstanding_reqs =~= IMap::empty(), forall|a: Address| !#[trigger] c.valid_dirty_addr(a), c.clean_pages_agree_with_disk(d.content),
        // the pages of the frozen journal are on the disk as they were, and have been loaded
        forall|a: Address| #[trigger] vp_frozen(v, l->frozen).build_tight().disk_view.entries.contains_key(a) ==>
            d.content.contains_key(a) && d.content[a] == v.disk.content[a] && c.valid_read(a, d.content[a]),
    ensures
        s.inv(), s.disk == d, s.cache == c,
        s.ephemeral_tj() == vp_frozen(v, l->frozen).build_tight(),
        LinkedJournal::State::initialize(vp_lj(s), vp_frozen(v, l->frozen).build_tight()),
        exists|j: CachedJournal::State, r: IMap<Address, RawPage>| JournalCoordinationSystem::State::initialize(s, d, c, j, l->frozen, r),
{
    vp_frozen_is_durable(v, v, l);
    let fj = vp_frozen(v, l->frozen);
    let t = fj.build_tight();
    let f = l->frozen;
    fj.disk_view.build_tight_ensures(fj.freshest_rec);
    fj.disk_view.build_tight_is_awesome(fj.freshest_rec);
    assert(t.disk_view.is_nondangling_pointer(t.freshest_rec)) by { if f.freshest_rec is Some { assert(t.disk_view.entries.contains_key(f.freshest_rec.unwrap())); } }
    assert(t.wf());
    let reads = IMap::new(|a: Address| t.disk_view.entries.contains_key(a), |a: Address| d.content[a]);
    let jr = to_journal_reads(reads);
    assert(jr =~= t.disk_view.entries) by {
        assert forall|a: Address| #[trigger] t.disk_view.entries.contains_key(a) implies jr.contains_key(a) && jr[a] == t.disk_view.entries[a] by {
            assert(reads.contains_key(a));
            assert(fj.disk_view.entries.contains_key(a));
        }
    }
    assert(JournalCoordinationSystem::State::tj_from_reads_and_snapshot(f, reads) =~= t);
    let e = t.seq_end();
    vp_index_from_reads(t.disk_view, f.freshest_rec, e);
    let j = CachedJournal::State { boundary_lsn: f.boundary_lsn, freshest_rec: f.freshest_rec, lsn_addr_index: build_lsn_addr_index_from_reads(jr, f.boundary_lsn, f.freshest_rec, e), unmarshalled_tail: MsgHistory::empty_history_at(e) };
    assert(CachedJournal::State::initialize(j, jr, f));
    fj.disk_view.build_tight_domain_is_build_lsn_addr_index_range(fj.freshest_rec);
    t.disk_view.sub_disk_repr_index(fj.disk_view, f.freshest_rec);
    assert(reads.dom() =~= j.lsn_addr_index.values());
    let cl = Cache::Label::Access { reads, writes: IMap::empty() };
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    assert(c.lookup_map.restrict(cl->writes.dom()) =~= IMap::empty());
    let ws = c.lookup_map.restrict(cl->writes.dom()).values();
    assert(ws =~= ISet::empty());
    assert(c.entries.union_prefer_right(IMap::new(|s: Slot| ws.contains(s), |s: Slot| Entry::Filled { addr: c.entries[s].get_addr(), data: cl->writes[c.entries[s].get_addr()] })) =~= c.entries);
    assert(c.status_map.union_prefer_right(IMap::new(|s: Slot| ws.contains(s), |s: Slot| Status::Dirty)) =~= c.status_map);
    assert forall|a: Address| #[trigger] reads.contains_key(a) implies c.valid_read(a, reads[a]) by { assert(t.disk_view.entries.contains_key(a)); }
    assert(Cache::State::next_by(c, c, cl, Cache::Step::access()));
    let s = JournalCoordinationSystem::State { disk: d, cache: c, journal: j };
    assert forall|a: Address| #[trigger] reads.dom().contains(a) implies d.content.dom().contains(a) by { assert(t.disk_view.entries.contains_key(a)); }
    assert(JournalCoordinationSystem::State::initialize(s, d, c, j, f, reads));
    vp_init(s, d, c, j, f, reads);
    assert(s.ephemeral_disk().entries =~= t.disk_view.entries);
    assert(s.ephemeral_tj() =~= t);
    s
}

// the assumptions above do not contradict each other
proof fn vpfail_inv(v: CO) requires v.inv(), ensures false, {}
proof fn vpfail_step(v: CO, w: CO, l: CL) requires v.inv(), JournalCoordinationSystem::State::next(v, w, l), ensures false, { vp_step(v, w, l); }
proof fn vpfail_frozen(v: CO, w: CO, l: CL) requires v.inv(), JournalCoordinationSystem::State::next(v, w, l), l is FreezeForCommit, l->frozen.freshest_rec is Some, ensures false, { vp_frozen_is_durable(v, w, l); }
proof fn vpfail_marshal(v: CO, cut: LSN, a: Address)
    requires v.inv(), v.journal.unmarshalled_tail.seq_start < cut <= v.journal.unmarshalled_tail.seq_end,
        !v.journal.lsn_addr_index.contains_value(a), v.cache.lookup_map.contains_key(a), v.cache.entries[v.cache.lookup_map[a]] is Reserved,
    ensures false, { let w = vp_can_marshal(v, cut, a); vp_step(v, w, JournalCoordinationSystem::Label::Internal {}); }
}
