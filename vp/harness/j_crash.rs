//@ in: allocation_layer/AllocationCrashAwareJournalRefinement_v.rs
use vstd::prelude::*;
use crate::disk::GenericDisk_v::*;
use crate::abstract_system::StampedMap_v::LSN;
use crate::abstract_system::MsgHistory_v::*;
use crate::allocation_layer::AllocationJournal_v::*;
use crate::allocation_layer::MiniAllocator_v::*;
verus! {

type CJ = AllocationCrashAwareJournal::State;
type CJL = AllocationCrashAwareJournal::Label;
type TL = CrashTolerantJournal::Label;

pub proof fn vp_labels(l: CJL)
    ensures
        l is LoadEphemeralFromPersistent ==> l.i() == TL::LoadEphemeralFromPersistentLabel,
        l is ReadForRecovery ==> l.i() == (TL::ReadForRecoveryLabel{ records: l.arrow_ReadForRecovery_records() }),
        l is QueryEndLsn ==> l.i() == (TL::QueryEndLsnLabel{ end_lsn: l->end_lsn }),
        l is Put ==> l.i() == (TL::PutLabel{ records: l.arrow_Put_records() }),
        l is Internal ==> l.i() == TL::InternalLabel,
        l is QueryLsnPersistence ==> l.i() == (TL::QueryLsnPersistenceLabel{ sync_lsn: l->sync_lsn }),
        l is CommitStart ==> l.i() == (TL::CommitStartLabel{ new_boundary_lsn: l->new_boundary_lsn, max_lsn: l->max_lsn }),
        l is CommitComplete ==> l.i() == (TL::CommitCompleteLabel{ require_end: l->require_end }),
        l is Crash ==> l.i() == (TL::CrashLabel{ keep_in_flight: l->keep_in_flight }),
{
}
pub proof fn vp_inv(v: CJ, w: CJ, l: CJL)
    requires v.inv(), AllocationCrashAwareJournal::State::next(v, w, l),
    ensures w.inv(),
{
    reveal(AllocationCrashAwareJournal::State::next); reveal(AllocationCrashAwareJournal::State::next_by);
    let step = choose|s: AllocationCrashAwareJournal::Step| AllocationCrashAwareJournal::State::next_by(v, w, l, s);
    match step {
        AllocationCrashAwareJournal::Step::load_ephemeral_from_persistent(nj) => { AllocationCrashAwareJournal::State::load_ephemeral_from_persistent_inductive(v, w, l, nj); }
        AllocationCrashAwareJournal::Step::put(nj) => { AllocationCrashAwareJournal::State::put_inductive(v, w, l, nj); }
        AllocationCrashAwareJournal::Step::internal(nj) => { AllocationCrashAwareJournal::State::internal_inductive(v, w, l, nj); }
        AllocationCrashAwareJournal::Step::commit_start(fj) => { AllocationCrashAwareJournal::State::commit_start_inductive(v, w, l, fj); }
        AllocationCrashAwareJournal::Step::commit_complete(nj) => { AllocationCrashAwareJournal::State::commit_complete_inductive(v, w, l, nj); }
        _ => {}
    }
}
pub proof fn vp_step(v: CJ, w: CJ, l: CJL)
    requires v.inv(), AllocationCrashAwareJournal::State::next(v, w, l),
    ensures w.inv(), CrashTolerantJournal::State::next(v.i(), w.i(), l.i()),
{
    vp_inv(v, w, l);
    v.next_refines(w, l);
}
pub proof fn vp_init(v: CJ)
    requires AllocationCrashAwareJournal::State::initialize(v),
    ensures v.inv(), CrashTolerantJournal::State::initialize(v.i()), v.ephemeral is Unknown, v.inflight is None,
{
    AllocationCrashAwareJournal::State::initialize_inductive(v);
    v.init_refines();
}
pub open spec fn vp_exec(ss: Seq<CJ>, ls: Seq<CJL>) -> bool {
    &&& ss.len() == ls.len() + 1
    &&& AllocationCrashAwareJournal::State::initialize(ss[0])
    &&& forall|k: int| 0 <= k < ls.len() ==> AllocationCrashAwareJournal::State::next(#[trigger] ss[k], ss[k + 1], ls[k])
}
proof fn vp_tail(ss: Seq<CJ>, ls: Seq<CJL>, n: nat)
    requires vp_exec(ss, ls), n <= ls.len(),
    ensures forall|k: int| 0 <= k <= n ==> (#[trigger] ss[k]).inv(),
    decreases n
{
    if n > 0 { vp_tail(ss, ls, (n - 1) as nat); assert(ss[n - 1].inv()); assert(AllocationCrashAwareJournal::State::next(ss[n - 1], ss[n - 1 + 1], ls[n - 1])); vp_step(ss[n - 1], ss[n as int], ls[n - 1]); }
    else { vp_init(ss[0]); }
}
pub proof fn vp_every_history(ss: Seq<CJ>, ls: Seq<CJL>)
    requires vp_exec(ss, ls),
    ensures
        CrashTolerantJournal::State::initialize(ss[0].i()),
        forall|k: int| 0 <= k < ss.len() ==> (#[trigger] ss[k]).inv(),
        forall|k: int| 0 <= k < ls.len() ==> CrashTolerantJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), ls[k].i()),
{
    vp_init(ss[0]);
    vp_tail(ss, ls, ls.len());
    assert forall|k: int| 0 <= k < ls.len() implies CrashTolerantJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), ls[k].i()) by { vp_step(ss[k], ss[k + 1], ls[k]); }
}
// the durable journal changes only when a commit completes or a crash keeps the image in flight
pub proof fn vp_durable(v: CJ, w: CJ, l: CJL)
    requires v.inv(), AllocationCrashAwareJournal::State::next(v, w, l),
    ensures
        w.persistent == v.persistent || (v.inflight == Some(w.persistent) && (l is CommitComplete || (l is Crash && l->keep_in_flight))),
        l is CommitComplete ==> v.inflight == Some(w.persistent) && w.inflight is None,
        l is Crash ==> w.ephemeral is Unknown && w.inflight is None,
        l is Crash && !l->keep_in_flight ==> w.persistent == v.persistent,
        l is Crash && l->keep_in_flight && v.inflight is Some ==> v.inflight == Some(w.persistent),
        !(l is CommitStart) && !(l is CommitComplete) && !(l is Crash) ==> w.inflight == v.inflight,
        l is CommitStart ==> v.inflight is None && w.inflight is Some && w.inflight.unwrap().valid_image()
            && w.inflight.unwrap().tj.seq_start() == l->new_boundary_lsn && v.persistent.tj.seq_end() <= w.inflight.unwrap().tj.seq_end()
            && w.ephemeral == v.ephemeral,
        l is LoadEphemeralFromPersistent ==> w.ephemeral is Known && w.ephemeral->v.tj() == v.persistent.tj && w.ephemeral->v.journal.unmarshalled_tail.is_empty(),
        l is QueryLsnPersistence ==> l->sync_lsn <= v.persistent.tj.seq_end(),
        // fresh units never hold anything durable, in flight or in memory
        l is Internal ==> l->allocs.disjoint(v.persistent.accessible_aus()) && l->allocs.disjoint(v.ephemeral->v.accessible_aus()),
        l is Internal && v.inflight is Some ==> l->allocs.disjoint(v.inflight.unwrap().accessible_aus()),
        // a commit gives back only units the running journal no longer uses
        l is CommitComplete ==> forall|au: AU| #[trigger] l->discarded.contains(au) ==> !w.ephemeral->v.lsn_au_index.values().contains(au) && v.ephemeral->v.lsn_au_index.values().contains(au),
{
    vp_inv(v, w, l);
    reveal(AllocationCrashAwareJournal::State::next); reveal(AllocationCrashAwareJournal::State::next_by);
    reveal(AllocationJournal::State::next); reveal(AllocationJournal::State::next_by);
}
// and the journal can be used: load, put, freeze, crash are always there when they should be
pub proof fn vp_load_enabled(v: CJ) -> (w: CJ)
    requires v.inv(), v.ephemeral is Unknown,
    ensures AllocationCrashAwareJournal::State::next(v, w, AllocationCrashAwareJournal::Label::LoadEphemeralFromPersistent), w.ephemeral is Known,
{
    reveal(AllocationCrashAwareJournal::State::next); reveal(AllocationCrashAwareJournal::State::next_by);
    let t = v.persistent;
    let nj = AllocationJournal::State{
        journal: LinkedJournal::State{ truncated_journal: t.tj, unmarshalled_tail: MsgHistory::empty_history_at(t.tj.seq_end()) },
        lsn_au_index: t.tj.build_lsn_au_index(t.first), first: t.first, mini_allocator: MiniAllocator::empty() };
    let w = AllocationCrashAwareJournal::State{ ephemeral: crate::allocation_layer::AllocationCrashAwareJournal_v::Ephemeral::Known{ v: nj }, ..v };
    assert(AllocationCrashAwareJournal::State::next_by(v, w, AllocationCrashAwareJournal::Label::LoadEphemeralFromPersistent, AllocationCrashAwareJournal::Step::load_ephemeral_from_persistent(nj)));
    w
}
pub proof fn vp_put_enabled(v: CJ, m: MsgHistory) -> (w: CJ)
    requires v.inv(), v.ephemeral is Known, m.wf(), m.seq_start == v.ephemeral->v.journal.unmarshalled_tail.seq_end,
    ensures AllocationCrashAwareJournal::State::next(v, w, AllocationCrashAwareJournal::Label::Put{ records: m }),
{
    reveal(AllocationCrashAwareJournal::State::next); reveal(AllocationCrashAwareJournal::State::next_by);
    reveal(AllocationJournal::State::next); reveal(AllocationJournal::State::next_by);
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
    let e = v.ephemeral->v;
    let lj = LinkedJournal::State{ unmarshalled_tail: e.journal.unmarshalled_tail.concat(m), ..e.journal };
    let nj = AllocationJournal::State{ journal: lj, ..e };
    let al = AllocationJournal::Label::Put{ messages: m };
    assert(LinkedJournal::State::next_by(e.journal, lj, AllocationJournal::State::linked_lbl(al), LinkedJournal::Step::put()));
    assert(AllocationJournal::State::next_by(e, nj, al, AllocationJournal::Step::put(lj)));
    let w = AllocationCrashAwareJournal::State{ ephemeral: crate::allocation_layer::AllocationCrashAwareJournal_v::Ephemeral::Known{ v: nj }, ..v };
    assert(AllocationCrashAwareJournal::State::next_by(v, w, AllocationCrashAwareJournal::Label::Put{ records: m }, AllocationCrashAwareJournal::Step::put(nj)));
    w
}
pub proof fn vp_crash_enabled(v: CJ, keep: bool) -> (w: CJ)
    requires v.inv(),
    ensures AllocationCrashAwareJournal::State::next(v, w, AllocationCrashAwareJournal::Label::Crash{ keep_in_flight: keep }),
{
    reveal(AllocationCrashAwareJournal::State::next); reveal(AllocationCrashAwareJournal::State::next_by);
    let w = AllocationCrashAwareJournal::State{ ephemeral: crate::allocation_layer::AllocationCrashAwareJournal_v::Ephemeral::Unknown, inflight: None,
        persistent: if keep && v.inflight is Some { v.inflight.unwrap() } else { v.persistent } };
    assert(AllocationCrashAwareJournal::State::next_by(v, w, AllocationCrashAwareJournal::Label::Crash{ keep_in_flight: keep }, AllocationCrashAwareJournal::Step::crash()));
    w
}
pub proof fn vpfail_inv_consistent(v: CJ)
    requires v.inv(), v.ephemeral is Known, v.inflight is Some, v.inflight.unwrap().tj.freshest_rec is Some,
    ensures false,
{
}
pub proof fn vpfail_step_consistent(v: CJ, w: CJ, l: CJL)
    requires v.inv(), AllocationCrashAwareJournal::State::next(v, w, l), l is CommitComplete,
    ensures false,
{
    vp_step(v, w, l);
}
}
