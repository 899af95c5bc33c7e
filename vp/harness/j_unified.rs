//@ in: allocation_layer/UnifiedCrashAwareJournalRefinement_v.rs
use vstd::prelude::*;
use crate::disk::GenericDisk_v::*;
use crate::abstract_system::StampedMap_v::LSN;
use crate::abstract_system::MsgHistory_v::*;
use crate::allocation_layer::MiniAllocator_v::*;
use crate::allocation_layer::AllocationCrashAwareJournalRefinement_v::*;
verus! {

type CJ = UnifiedCrashAwareJournal::State;
type CJL = UnifiedCrashAwareJournal::Label;
type TL = AllocationCrashAwareJournal::Label;

pub proof fn vp_labels(l: CJL)
    ensures
        l is LoadEphemeralFromPersistent ==> l.i() == TL::LoadEphemeralFromPersistent,
        l is ReadForRecovery ==> l.i() == (TL::ReadForRecovery{ records: l.arrow_ReadForRecovery_records() }),
        l is QueryEndLsn ==> l.i() == (TL::QueryEndLsn{ end_lsn: l->end_lsn }),
        l is Put ==> l.i() == (TL::Put{ records: l.arrow_Put_records() }),
        l is Internal ==> l.i() == (TL::Internal{ allocs: l->allocs, deallocs: l.arrow_Internal_deallocs() }),
        l is QueryLsnPersistence ==> l.i() == (TL::QueryLsnPersistence{ sync_lsn: l->sync_lsn }),
        l is CommitStart ==> l.i() == (TL::CommitStart{ new_boundary_lsn: l->new_boundary_lsn, max_lsn: l->max_lsn }),
        l is CommitComplete ==> l.i() == (TL::CommitComplete{ require_end: l->require_end, discarded: l->discarded }),
        l is Crash ==> l.i() == (TL::Crash{ keep_in_flight: l->keep_in_flight }),
{
}
pub proof fn vp_inv(v: CJ, w: CJ, l: CJL)
    requires v.inv(), UnifiedCrashAwareJournal::State::next(v, w, l),
    ensures w.inv(),
{
    reveal(UnifiedCrashAwareJournal::State::next); reveal(UnifiedCrashAwareJournal::State::next_by);
    let step = choose|s: UnifiedCrashAwareJournal::Step| UnifiedCrashAwareJournal::State::next_by(v, w, l, s);
    match step {
        UnifiedCrashAwareJournal::Step::load_ephemeral_from_persistent(ne) => { UnifiedCrashAwareJournal::State::load_ephemeral_from_persistent_inductive(v, w, l, ne); }
        UnifiedCrashAwareJournal::Step::put(ne) => { UnifiedCrashAwareJournal::State::put_inductive(v, w, l, ne); }
        UnifiedCrashAwareJournal::Step::internal(ne, nd) => { UnifiedCrashAwareJournal::State::internal_inductive(v, w, l, ne, nd); }
        UnifiedCrashAwareJournal::Step::commit_start(fj, d) => { UnifiedCrashAwareJournal::State::commit_start_inductive(v, w, l, fj, d); }
        UnifiedCrashAwareJournal::Step::commit_complete(ne, nd) => { UnifiedCrashAwareJournal::State::commit_complete_inductive(v, w, l, ne, nd); }
        UnifiedCrashAwareJournal::Step::crash() => { UnifiedCrashAwareJournal::State::crash_inductive(v, w, l); }
        _ => {}
    }
}
pub proof fn vp_step(v: CJ, w: CJ, l: CJL)
    requires v.inv(), UnifiedCrashAwareJournal::State::next(v, w, l),
    ensures w.inv(), AllocationCrashAwareJournal::State::next(v.i(), w.i(), l.i()),
{
    vp_inv(v, w, l);
    v.next_refines(w, l);
}
pub proof fn vp_init(v: CJ)
    requires UnifiedCrashAwareJournal::State::initialize(v),
    ensures v.inv(), AllocationCrashAwareJournal::State::initialize(v.i()), v.ephemeral is Unknown, v.inflight is None,
{
    UnifiedCrashAwareJournal::State::initialize_inductive(v);
    v.init_refines();
}
pub open spec fn vp_exec(ss: Seq<CJ>, ls: Seq<CJL>) -> bool {
    &&& ss.len() == ls.len() + 1
    &&& UnifiedCrashAwareJournal::State::initialize(ss[0])
    &&& forall|k: int| 0 <= k < ls.len() ==> UnifiedCrashAwareJournal::State::next(#[trigger] ss[k], ss[k + 1], ls[k])
}
proof fn vp_tail(ss: Seq<CJ>, ls: Seq<CJL>, n: nat)
    requires vp_exec(ss, ls), n <= ls.len(),
    ensures forall|k: int| 0 <= k <= n ==> (#[trigger] ss[k]).inv(),
    decreases n
{
    if n > 0 { vp_tail(ss, ls, (n - 1) as nat); assert(ss[n - 1].inv()); assert(UnifiedCrashAwareJournal::State::next(ss[n - 1], ss[n - 1 + 1], ls[n - 1])); vp_step(ss[n - 1], ss[n as int], ls[n - 1]); }
    else { vp_init(ss[0]); }
}
pub proof fn vp_every_history(ss: Seq<CJ>, ls: Seq<CJL>)
    requires vp_exec(ss, ls),
    ensures
        AllocationCrashAwareJournal::State::initialize(ss[0].i()),
        forall|k: int| 0 <= k < ss.len() ==> (#[trigger] ss[k]).inv(),
        forall|k: int| 0 <= k < ls.len() ==> AllocationCrashAwareJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), ls[k].i()),
{
    vp_init(ss[0]);
    vp_tail(ss, ls, ls.len());
    assert forall|k: int| 0 <= k < ls.len() implies AllocationCrashAwareJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), ls[k].i()) by { vp_step(ss[k], ss[k + 1], ls[k]); }
}
// a live page of the durable or in-flight journal is never overwritten, and never leaves the disk
pub proof fn vp_durable(v: CJ, w: CJ, l: CJL)
    requires v.inv(), UnifiedCrashAwareJournal::State::next(v, w, l),
    ensures
        w.inv(),
        w.persistent == v.persistent || (v.inflight == Some(w.persistent) && (l is CommitComplete || (l is Crash && l->keep_in_flight))),
        l is CommitComplete ==> v.inflight == Some(w.persistent) && w.inflight is None,
        l is Crash ==> w.ephemeral is Unknown && w.inflight is None && w.dv == v.dv,
        l is Crash && !l->keep_in_flight ==> w.persistent == v.persistent,
        l is Crash && l->keep_in_flight && v.inflight is Some ==> v.inflight == Some(w.persistent),
        !(l is CommitStart) && !(l is CommitComplete) && !(l is Crash) ==> w.inflight == v.inflight,
        l is CommitStart ==> v.inflight is None && w.inflight is Some && w.inflight.unwrap().boundary_lsn == l->new_boundary_lsn
            && v.persistent.seq_end(v.dv) <= w.inflight.unwrap().seq_end(w.dv) && w.dv == v.dv && w.ephemeral == v.ephemeral,
        l is LoadEphemeralFromPersistent ==> w.ephemeral is Known && w.ephemeral->v.image == v.persistent && w.ephemeral->v.unmarshalled_tail.is_empty(),
        l is QueryLsnPersistence ==> l->sync_lsn <= v.persistent.seq_end(v.dv),
        forall|a: Address| #[trigger] v.dv.entries.contains_key(a) && w.dv.entries.contains_key(a) ==> w.dv.entries[a] == v.dv.entries[a],
        !(l is CommitComplete) ==> w.persistent.i(w.dv) == v.persistent.i(v.dv) || l is Crash,
        l is CommitComplete ==> w.persistent.i(w.dv) == v.inflight.unwrap().i(v.dv),
        v.inflight is Some && w.inflight is Some ==> w.inflight.unwrap().i(w.dv) == v.inflight.unwrap().i(v.dv),
{
    vp_step(v, w, l);
    reveal(UnifiedCrashAwareJournal::State::next); reveal(UnifiedCrashAwareJournal::State::next_by);
    reveal(AllocationCrashAwareJournal::State::next); reveal(AllocationCrashAwareJournal::State::next_by);
    reveal(AllocationJournal::State::next); reveal(AllocationJournal::State::next_by);
    reveal(LinkedJournal_v::LinkedJournal::State::next); reveal(LinkedJournal_v::LinkedJournal::State::next_by);
}
pub proof fn vp_state_meaning(v: CJ)
    requires v.inv(),
    ensures
        v.i().inv(),
        v.i().persistent.valid_image(), v.i().persistent.tj.freshest_rec == v.persistent.freshest_rec, v.i().persistent.first == v.persistent.first,
        v.i().persistent.tj.seq_start() == v.persistent.boundary_lsn,
        v.i().persistent.tj.disk_view.entries.submap_of(v.dv.entries),
        (v.i().inflight is Some) == (v.inflight is Some),
        v.inflight is Some ==> v.i().inflight.unwrap().tj.freshest_rec == v.inflight.unwrap().freshest_rec && v.i().inflight.unwrap().tj.seq_start() == v.inflight.unwrap().boundary_lsn,
        (v.i().ephemeral is Known) == (v.ephemeral is Known),
        v.ephemeral is Known ==> v.i().ephemeral->v.tj().disk_view.entries == v.dv.entries && v.i().ephemeral->v.tj().freshest_rec == v.ephemeral->v.image.freshest_rec
            && v.i().ephemeral->v.journal.unmarshalled_tail == v.ephemeral->v.unmarshalled_tail,
{
    v.persistent.tight_dv_preserves_valid_image(v.dv);
    if v.inflight is Some { v.inflight.unwrap().tight_dv_preserves_valid_image(v.dv); }
}
// end to end: what a client of the journal on disk can see is the crash-tolerant journal of the specification
pub proof fn vp_end_to_end(v: CJ, w: CJ, l: CJL)
    requires v.inv(), UnifiedCrashAwareJournal::State::next(v, w, l),
    ensures w.inv(), crate::abstract_system::AbstractCrashAwareJournal_v::CrashTolerantJournal::State::next(v.i().i(), w.i().i(), l.i().i()),
{
    vp_step(v, w, l);
    vp_state_meaning(v); vp_state_meaning(w);
    v.i().next_refines(w.i(), l.i());
}
pub proof fn vp_load_enabled(v: CJ) -> (w: CJ)
    requires v.inv(), v.ephemeral is Unknown,
    ensures UnifiedCrashAwareJournal::State::next(v, w, UnifiedCrashAwareJournal::Label::LoadEphemeralFromPersistent), w.ephemeral is Known,
{
    reveal(UnifiedCrashAwareJournal::State::next); reveal(UnifiedCrashAwareJournal::State::next_by);
    let p = v.persistent;
    let tj = p.to_tj(v.dv);
    let ne = EphemeralState{ image: p, unmarshalled_tail: MsgHistory::empty_history_at(tj.seq_end()), lsn_au_index: tj.build_lsn_au_index(p.first), mini_allocator: MiniAllocator::empty() };
    let w = UnifiedCrashAwareJournal::State{ ephemeral: Ephemeral::Known{ v: ne }, dv: p.tight_dv(v.dv), ..v };
    assert(UnifiedCrashAwareJournal::State::next_by(v, w, UnifiedCrashAwareJournal::Label::LoadEphemeralFromPersistent, UnifiedCrashAwareJournal::Step::load_ephemeral_from_persistent(ne)));
    w
}
pub proof fn vp_crash_enabled(v: CJ, keep: bool) -> (w: CJ)
    requires v.inv(),
    ensures UnifiedCrashAwareJournal::State::next(v, w, UnifiedCrashAwareJournal::Label::Crash{ keep_in_flight: keep }),
{
    reveal(UnifiedCrashAwareJournal::State::next); reveal(UnifiedCrashAwareJournal::State::next_by);
    let w = UnifiedCrashAwareJournal::State{ ephemeral: Ephemeral::Unknown, inflight: None,
        persistent: if keep && v.inflight is Some { v.inflight.unwrap() } else { v.persistent }, ..v };
    assert(UnifiedCrashAwareJournal::State::next_by(v, w, UnifiedCrashAwareJournal::Label::Crash{ keep_in_flight: keep }, UnifiedCrashAwareJournal::Step::crash()));
    w
}
pub proof fn vpfail_inv_consistent(v: CJ)
    requires v.inv(), v.ephemeral is Known, v.inflight is Some, v.inflight.unwrap().freshest_rec is Some,
    ensures false,
{
}
pub proof fn vpfail_step_consistent(v: CJ, w: CJ, l: CJL)
    requires v.inv(), UnifiedCrashAwareJournal::State::next(v, w, l), l is CommitComplete,
    ensures false,
{
    vp_step(v, w, l);
}
}
