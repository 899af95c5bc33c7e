//@ in: abstract_system/AbstractCrashAwareSystemRefinement_v.rs
use vstd::prelude::*;
verus! {
type Sys = CoordinationSystem::State;
type SysLbl = CoordinationSystem::Label;

pub open spec fn noop() -> SysLbl { CoordinationSystem::Label::Label{ ctam_label: CrashTolerantAsyncMap::Label::Noop } }
pub open spec fn syncop() -> SysLbl { CoordinationSystem::Label::Label{ ctam_label: CrashTolerantAsyncMap::Label::SyncOp } }
pub open spec fn replysync(id: SyncReqId) -> SysLbl { CoordinationSystem::Label::Label{ ctam_label: CrashTolerantAsyncMap::Label::ReplySyncOp{ sync_req_id: id } } }

// recovery done: the map has caught up with the journal
pub open spec fn recovered(v: Sys) -> bool {
    &&& v.inv()
    &&& v.ephemeral is Some
    &&& v.mapadt.ephemeral->v.stamped_map.seq_end == v.journal.ephemeral->v.journal.seq_end
}

proof fn freeze(v: Sys) -> (w: Sys)
    requires recovered(v), v.journal.in_flight is None,
    ensures CoordinationSystem::State::next(v, w, noop()), recovered(w), w.mapadt.in_flight is Some, w.journal == v.journal, w.ephemeral == v.ephemeral,
            w.superblock_in_flight == v.superblock_in_flight,
            v.mapadt.in_flight is Some ==> w == v
{
    reveal(CoordinationSystem::State::next); reveal(CoordinationSystem::State::next_by);
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by);
    reveal(CrashTolerantJournal::State::next); reveal(CrashTolerantJournal::State::next_by);
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    reveal(AbstractJournal::State::next); reveal(AbstractJournal::State::next_by);
    let am = v.mapadt.ephemeral->v;
    if v.mapadt.in_flight is Some {
        assert(AbstractMap::State::next_by(am, am, AbstractMap::Label::InternalLabel, AbstractMap::Step::internal()));
        assert(AbstractMap::State::next(am, am, AbstractMap::Label::InternalLabel));
        assert(v.mapadt == CrashTolerantMap::State{ ephemeral: AbstractCrashAwareMap_v::Ephemeral::Known{ v: am }, ..v.mapadt });
        assert(CrashTolerantMap::State::next_by(v.mapadt, v.mapadt, CrashTolerantMap::Label::InternalLabel, CrashTolerantMap::Step::ephemeral_internal(am)));
        assert(CoordinationSystem::State::next_by(v, v, noop(), CoordinationSystem::Step::map_internal(v.mapadt)));
        v
    } else {
        let m2 = CrashTolerantMap::State{ ephemeral: AbstractCrashAwareMap_v::Ephemeral::Known{ v: am }, in_flight: Some(am.stamped_map), ..v.mapadt };
        let w = CoordinationSystem::State{ mapadt: m2, ..v };
        let fl = AbstractMap::Label::FreezeAsLabel{ stamped_map: am.stamped_map };
        assert(AbstractMap::State::next_by(am, am, fl, AbstractMap::Step::freeze_as()));
        assert(AbstractMap::State::next(am, am, fl));
        assert(CrashTolerantMap::State::next_by(v.mapadt, m2, CrashTolerantMap::Label::InternalLabel, CrashTolerantMap::Step::freeze_map_internal(am.stamped_map, am)));
        assert(CrashTolerantMap::State::next(v.mapadt, m2, CrashTolerantMap::Label::InternalLabel));
        assert(CoordinationSystem::State::next_by(v, w, noop(), CoordinationSystem::Step::map_internal(m2)));
        inv_inductive(v, w, noop());
        w
    }
}

proof fn start(v: Sys) -> (w: Sys)
    requires recovered(v), v.mapadt.in_flight is Some, v.journal.in_flight is None,
    ensures CoordinationSystem::State::next(v, w, noop()), recovered(w), w.journal.in_flight is Some, w.ephemeral == v.ephemeral,
            w.journal.in_flight->0.seq_end == v.journal.ephemeral->v.journal.seq_end, w.superblock_in_flight,
            w.journal.ephemeral == v.journal.ephemeral,
{
    reveal(CoordinationSystem::State::next); reveal(CoordinationSystem::State::next_by);
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by);
    reveal(CrashTolerantJournal::State::next); reveal(CrashTolerantJournal::State::next_by);
    reveal(AbstractJournal::State::next); reveal(AbstractJournal::State::next_by);
    let b = v.mapadt.in_flight->0.seq_end;
    let aj = v.journal.ephemeral->v;
    let frozen = aj.journal.discard_old(b);
    let jl = CrashTolerantJournal::Label::CommitStartLabel{ new_boundary_lsn: b, max_lsn: v.ephemeral->0.map_lsn };
    let ml = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: b };
    let j2 = CrashTolerantJournal::State{ in_flight: Some(frozen), ..v.journal };
    let w = CoordinationSystem::State{ journal: j2, superblock_in_flight: true, ..v };
    assert(aj.journal.includes_subseq(frozen));
    let fl = AbstractJournal::Label::FreezeForCommitLabel{ frozen_journal: frozen };
    assert(AbstractJournal::State::next_by(aj, aj, fl, AbstractJournal::Step::freeze_for_commit()));
    assert(AbstractJournal::State::next(aj, aj, fl));
    assert(CrashTolerantJournal::State::next_by(v.journal, j2, jl, CrashTolerantJournal::Step::commit_start(frozen)));
    assert(CrashTolerantJournal::State::next(v.journal, j2, jl));
    assert(CrashTolerantMap::State::next_by(v.mapadt, v.mapadt, ml, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(v.mapadt, v.mapadt, ml));
    assert(CoordinationSystem::State::next_by(v, w, noop(), CoordinationSystem::Step::commit_start(j2, v.mapadt, b)));
    inv_inductive(v, w, noop());
    w
}

proof fn land(v: Sys) -> (w: Sys)
    requires recovered(v), v.superblock_in_flight,
    ensures CoordinationSystem::State::next(v, w, syncop()), recovered(w), !w.superblock_in_flight, w.journal == v.journal, w.mapadt == v.mapadt, w.ephemeral == v.ephemeral,
{
    reveal(CoordinationSystem::State::next); reveal(CoordinationSystem::State::next_by);
    let w = CoordinationSystem::State{ superblock_in_flight: false, ..v };
    assert(CoordinationSystem::State::next_by(v, w, syncop(), CoordinationSystem::Step::superblock_write_lands()));
    inv_inductive(v, w, syncop());
    w
}

proof fn complete(v: Sys) -> (w: Sys)
    requires recovered(v), v.journal.in_flight is Some, !v.superblock_in_flight,
    ensures CoordinationSystem::State::next(v, w, noop()), recovered(w), w.ephemeral == v.ephemeral,
            w.journal.persistent.seq_end == v.journal.in_flight->0.seq_end, w.journal.in_flight is None, w.mapadt.in_flight is None, !w.superblock_in_flight,
            w.journal.ephemeral->v.journal.seq_end == v.journal.ephemeral->v.journal.seq_end,
{
    reveal(CoordinationSystem::State::next); reveal(CoordinationSystem::State::next_by);
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by);
    reveal(CrashTolerantJournal::State::next); reveal(CrashTolerantJournal::State::next_by);
    reveal(AbstractJournal::State::next); reveal(AbstractJournal::State::next_by);
    let aj = v.journal.ephemeral->v;
    let s = v.journal.in_flight->0.seq_start;
    let aj2 = AbstractJournal::State{ journal: aj.journal.discard_old(s) };
    let dl = AbstractJournal::Label::DiscardOldLabel{ start_lsn: s, require_end: v.ephemeral->0.map_lsn };
    assert(AbstractJournal::State::next_by(aj, aj2, dl, AbstractJournal::Step::discard_old()));
    assert(AbstractJournal::State::next(aj, aj2, dl));
    let jl = CrashTolerantJournal::Label::CommitCompleteLabel{ require_end: v.ephemeral->0.map_lsn };
    let j2 = CrashTolerantJournal::State{ persistent: v.journal.in_flight->0, ephemeral: AbstractCrashAwareJournal_v::Ephemeral::Known{ v: aj2 }, in_flight: None };
    assert(CrashTolerantJournal::State::next_by(v.journal, j2, jl, CrashTolerantJournal::Step::commit_complete(aj2)));
    assert(CrashTolerantJournal::State::next(v.journal, j2, jl));
    let m2 = CrashTolerantMap::State{ persistent: v.mapadt.in_flight->0, in_flight: None, ..v.mapadt };
    assert(CrashTolerantMap::State::next_by(v.mapadt, m2, CrashTolerantMap::Label::CommitCompleteLabel, CrashTolerantMap::Step::commit_complete()));
    assert(CrashTolerantMap::State::next(v.mapadt, m2, CrashTolerantMap::Label::CommitCompleteLabel));
    let w = CoordinationSystem::State{ journal: j2, mapadt: m2, ..v };
    assert(CoordinationSystem::State::next_by(v, w, noop(), CoordinationSystem::Step::commit_complete(m2, j2)));
    inv_inductive(v, w, noop());
    w
}

pub open spec fn sync_can_reply(v: Sys, id: SyncReqId) -> bool {
    exists|w: Sys| CoordinationSystem::State::next(v, w, replysync(id))
}

pub open spec fn reaches(v: Sys, n: nat, w: Sys) -> bool
    decreases n
{
    if n == 0 { v == w }
    else { exists|u: Sys, lbl: SysLbl| (lbl == noop() || lbl == syncop()) && #[trigger] CoordinationSystem::State::next(v, u, lbl) && reaches(u, (n - 1) as nat, w) }
}

// one commit cycle from a quiescent state makes everything executed so far persistent
proof fn commit_cycle(v: Sys) -> (w: Sys)
    requires recovered(v), v.journal.in_flight is None,
    ensures reaches(v, 4, w), recovered(w), w.ephemeral == v.ephemeral, w.journal.in_flight is None,
            w.journal.persistent.seq_end == v.ephemeral->0.map_lsn,
{
    reveal_with_fuel(reaches, 5);
    assert(!v.superblock_in_flight);
    let a = freeze(v); let b = start(a); let c = land(b); let d = complete(c);
    assert(reaches(d, 0, d)); assert(reaches(c, 1, d)); assert(reaches(b, 2, d)); assert(reaches(a, 3, d));
    d
}

// From every recovered state, whatever commit is under way, the system can reach, by internal steps and the disk
// completing its write, a state in which everything executed so far is persistent.
pub proof fn vp_everything_executed_can_become_persistent(v: Sys)
    requires recovered(v),
    ensures exists|w: Sys, n: nat| #[trigger] reaches(v, n, w) && recovered(w) && w.ephemeral == v.ephemeral
        && w.journal.persistent.seq_end == v.ephemeral->0.map_lsn,
{
    reveal_with_fuel(reaches, 3);
    if v.journal.in_flight is None {
        let w = commit_cycle(v); assert(reaches(v, 4, w));
    } else if v.superblock_in_flight {
        let a = land(v); let b = complete(a); let w = commit_cycle(b);
        assert(reaches(a, 5, w)); assert(reaches(v, 6, w));
    } else {
        let b = complete(v); let w = commit_cycle(b);
        assert(reaches(v, 5, w));
    }
}

// ... and a sync request whose target is persistent can be answered.
pub proof fn vp_persistent_sync_can_be_answered(v: Sys, id: SyncReqId)
    requires v.inv(), v.ephemeral is Some, v.ephemeral->0.sync_reqs.dom().contains(id), v.ephemeral->0.sync_reqs[id] <= v.journal.persistent.seq_end,
    ensures sync_can_reply(v, id),
{
    reveal(CoordinationSystem::State::next); reveal(CoordinationSystem::State::next_by);
    reveal(CrashTolerantJournal::State::next); reveal(CrashTolerantJournal::State::next_by);
    let jl = CrashTolerantJournal::Label::QueryLsnPersistenceLabel{ sync_lsn: v.ephemeral->0.sync_reqs[id] };
    assert(CrashTolerantJournal::State::next_by(v.journal, v.journal, jl, CrashTolerantJournal::Step::query_lsn_persistence()));
    assert(CrashTolerantJournal::State::next(v.journal, v.journal, jl));
    let k = v.ephemeral->0;
    let w = CoordinationSystem::State{ ephemeral: Some(Known{ sync_reqs: k.sync_reqs.remove(id), ..k }), ..v };
    assert(CoordinationSystem::State::next_by(v, w, replysync(id), CoordinationSystem::Step::reply_sync(v.journal)));
    assert(CoordinationSystem::State::next(v, w, replysync(id)));
}

// After a crash the system can load its persistent state and replay the journal up to its end.
pub proof fn vp_recovery_can_complete(v: Sys)
    requires v.inv(), v.ephemeral is None,
    ensures exists|a: Sys, w: Sys| #[trigger] CoordinationSystem::State::next(v, a, noop()) && #[trigger] CoordinationSystem::State::next(a, w, noop()) && recovered(w)
        && w.ephemeral->0.map_lsn == v.journal.persistent.seq_end,
{
    reveal(CoordinationSystem::State::next); reveal(CoordinationSystem::State::next_by);
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by);
    reveal(CrashTolerantJournal::State::next); reveal(CrashTolerantJournal::State::next_by);
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    reveal(AbstractJournal::State::next); reveal(AbstractJournal::State::next_by);
    reveal(AbstractJournal::State::init); reveal(AbstractJournal::State::init_by);
    let aj = AbstractJournal::State{ journal: v.journal.persistent };
    assert(AbstractJournal::State::init_by(aj, AbstractJournal::Config::initialize(v.journal.persistent)));
    let j1 = CrashTolerantJournal::State{ ephemeral: AbstractCrashAwareJournal_v::Ephemeral::Known{ v: aj }, ..v.journal };
    let am = AbstractMap::State{ stamped_map: v.mapadt.persistent };
    let m1 = CrashTolerantMap::State{ ephemeral: AbstractCrashAwareMap_v::Ephemeral::Known{ v: am }, ..v.mapadt };
    let e = v.mapadt.persistent.seq_end;
    assert(CrashTolerantJournal::State::next_by(v.journal, j1, CrashTolerantJournal::Label::LoadEphemeralFromPersistentLabel, CrashTolerantJournal::Step::load_ephemeral_from_persistent(aj)));
    assert(CrashTolerantMap::State::next_by(v.mapadt, m1, CrashTolerantMap::Label::LoadEphemeralFromPersistentLabel{ end_lsn: e }, CrashTolerantMap::Step::load_ephemeral_from_persistent()));
    let k = Known{ progress: AsyncMap::State::init_ephemeral_state(), sync_reqs: IMap::empty(), map_lsn: e };
    let a = CoordinationSystem::State{ journal: j1, mapadt: m1, ephemeral: Some(k), superblock_in_flight: v.superblock_in_flight };
    assert(CoordinationSystem::State::next_by(v, a, noop(), CoordinationSystem::Step::load_ephemeral_from_persistent(j1, m1, e)));
    assert(CoordinationSystem::State::next(v, a, noop()));
    inv_inductive(v, a, noop());
    let rec = v.journal.persistent;
    let rl = AbstractJournal::Label::ReadForRecoveryLabel{ messages: rec };
    assert(AbstractJournal::State::next_by(aj, aj, rl, AbstractJournal::Step::read_for_recovery()));
    assert(AbstractJournal::State::next(aj, aj, rl));
    let jl = CrashTolerantJournal::Label::ReadForRecoveryLabel{ records: rec };
    assert(CrashTolerantJournal::State::next_by(j1, j1, jl, CrashTolerantJournal::Step::read_for_recovery()));
    assert(CrashTolerantJournal::State::next(j1, j1, jl));
    let am2 = AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(v.mapadt.persistent, rec) };
    let pl = AbstractMap::Label::PutLabel{ puts: rec };
    assert(AbstractMap::State::next_by(am, am2, pl, AbstractMap::Step::put()));
    assert(AbstractMap::State::next(am, am2, pl));
    let m2 = CrashTolerantMap::State{ ephemeral: AbstractCrashAwareMap_v::Ephemeral::Known{ v: am2 }, ..v.mapadt };
    let ml = CrashTolerantMap::Label::PutRecordsLabel{ records: rec };
    assert(CrashTolerantMap::State::next_by(m1, m2, ml, CrashTolerantMap::Step::put_records(am2)));
    assert(CrashTolerantMap::State::next(m1, m2, ml));
    MsgHistory::map_plus_history_lemma(v.mapadt.persistent, rec);
    let w = CoordinationSystem::State{ mapadt: m2, ephemeral: Some(Known{ map_lsn: rec.seq_end, ..k }), ..a };
    assert(CoordinationSystem::State::next_by(a, w, noop(), CoordinationSystem::Step::recover(j1, m2, rec)));
    assert(CoordinationSystem::State::next(a, w, noop()));
    inv_inductive(a, w, noop());
}

// Every client operation that is outstanding can be executed in a recovered state.
pub proof fn vp_put_can_execute(v: Sys, req: Request)
    requires recovered(v), v.ephemeral->0.progress.requests.contains(req), req.input is PutInput,
        !v.ephemeral->0.progress.replies.contains(Reply{ output: Output::PutOutput, id: req.id }),
    ensures exists|w: Sys| #[trigger] CoordinationSystem::State::next(v, w, CoordinationSystem::Label::Label{ ctam_label: CrashTolerantAsyncMap::Label::OperateOp{
        base_op: AsyncMap::Label::ExecuteOp{ req, reply: Reply{ output: Output::PutOutput, id: req.id } } } }) && recovered(w)
        && w.ephemeral->0.map_lsn == v.ephemeral->0.map_lsn + 1,
{
    reveal(CoordinationSystem::State::next); reveal(CoordinationSystem::State::next_by);
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by);
    reveal(CrashTolerantJournal::State::next); reveal(CrashTolerantJournal::State::next_by);
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    reveal(AbstractJournal::State::next); reveal(AbstractJournal::State::next_by);
    let reply = Reply{ output: Output::PutOutput, id: req.id };
    let lbl = CoordinationSystem::Label::Label{ ctam_label: CrashTolerantAsyncMap::Label::OperateOp{ base_op: AsyncMap::Label::ExecuteOp{ req, reply } } };
    let k = v.ephemeral->0;
    let msg = KeyedMessage{ key: req.input.arrow_PutInput_key(), message: Message::Define{ value: req.input.arrow_PutInput_value() } };
    let one = MsgHistory::singleton_at(k.map_lsn, msg);
    let aj = v.journal.ephemeral->v;
    let aj2 = AbstractJournal::State{ journal: aj.journal.concat(one) };
    let al = AbstractJournal::Label::PutLabel{ messages: one };
    assert(AbstractJournal::State::next_by(aj, aj2, al, AbstractJournal::Step::put()));
    assert(AbstractJournal::State::next(aj, aj2, al));
    let j2 = CrashTolerantJournal::State{ ephemeral: AbstractCrashAwareJournal_v::Ephemeral::Known{ v: aj2 }, ..v.journal };
    assert(CrashTolerantJournal::State::next_by(v.journal, j2, CrashTolerantJournal::Label::PutLabel{ records: one }, CrashTolerantJournal::Step::put(aj2)));
    assert(CrashTolerantJournal::State::next(v.journal, j2, CrashTolerantJournal::Label::PutLabel{ records: one }));
    let am = v.mapadt.ephemeral->v;
    let am2 = AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(am.stamped_map, one) };
    let pl = AbstractMap::Label::PutLabel{ puts: one };
    assert(AbstractMap::State::next_by(am, am2, pl, AbstractMap::Step::put()));
    assert(AbstractMap::State::next(am, am2, pl));
    let m2 = CrashTolerantMap::State{ ephemeral: AbstractCrashAwareMap_v::Ephemeral::Known{ v: am2 }, ..v.mapadt };
    assert(CrashTolerantMap::State::next_by(v.mapadt, m2, CrashTolerantMap::Label::PutRecordsLabel{ records: one }, CrashTolerantMap::Step::put_records(am2)));
    assert(CrashTolerantMap::State::next(v.mapadt, m2, CrashTolerantMap::Label::PutRecordsLabel{ records: one }));
    let w = CoordinationSystem::State{ journal: j2, mapadt: m2, ephemeral: Some(Known{ map_lsn: k.map_lsn + 1,
        progress: EphemeralState{ requests: k.progress.requests.remove(req), replies: k.progress.replies.insert(reply) }, ..k }), ..v };
    assert(CoordinationSystem::State::next_by(v, w, lbl, CoordinationSystem::Step::put(j2, m2)));
    assert(CoordinationSystem::State::next(v, w, lbl));
    inv_inductive(v, w, lbl);
    MsgHistory::map_plus_history_lemma(am.stamped_map, one);
}

pub proof fn vp_query_can_execute(v: Sys, req: Request)
    requires recovered(v), v.ephemeral->0.progress.requests.contains(req), req.input is QueryInput,
    ensures ({
        let val = v.mapadt.ephemeral->v.stamped_map.value[req.input.arrow_QueryInput_key()]->value;
        let reply = Reply{ output: Output::QueryOutput{ value: val }, id: req.id };
        !v.ephemeral->0.progress.replies.contains(reply) ==>
        exists|w: Sys| CoordinationSystem::State::next(v, w, CoordinationSystem::Label::Label{ ctam_label: CrashTolerantAsyncMap::Label::OperateOp{
            base_op: AsyncMap::Label::ExecuteOp{ req, reply } } })
    })
{
    reveal(CoordinationSystem::State::next); reveal(CoordinationSystem::State::next_by);
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by);
    reveal(CrashTolerantJournal::State::next); reveal(CrashTolerantJournal::State::next_by);
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    reveal(AbstractJournal::State::next); reveal(AbstractJournal::State::next_by);
    let key = req.input.arrow_QueryInput_key();
    let am = v.mapadt.ephemeral->v;
    let val = am.stamped_map.value[key]->value;
    let reply = Reply{ output: Output::QueryOutput{ value: val }, id: req.id };
    let lbl = CoordinationSystem::Label::Label{ ctam_label: CrashTolerantAsyncMap::Label::OperateOp{ base_op: AsyncMap::Label::ExecuteOp{ req, reply } } };
    let k = v.ephemeral->0;
    if !k.progress.replies.contains(reply) {
        let aj = v.journal.ephemeral->v;
        let al = AbstractJournal::Label::QueryEndLsnLabel{ end_lsn: k.map_lsn };
        assert(AbstractJournal::State::next_by(aj, aj, al, AbstractJournal::Step::observe_fresh_journal()));
        assert(AbstractJournal::State::next(aj, aj, al));
        let jl = CrashTolerantJournal::Label::QueryEndLsnLabel{ end_lsn: k.map_lsn };
        assert(CrashTolerantJournal::State::next_by(v.journal, v.journal, jl, CrashTolerantJournal::Step::query_end_lsn()));
        assert(CrashTolerantJournal::State::next(v.journal, v.journal, jl));
        let ql = AbstractMap::Label::QueryLabel{ end_lsn: k.map_lsn, key, value: val };
        assert(AbstractMap::State::next_by(am, am, ql, AbstractMap::Step::query()));
        assert(AbstractMap::State::next(am, am, ql));
        let ml = CrashTolerantMap::Label::QueryLabel{ end_lsn: k.map_lsn, key, value: val };
        assert(CrashTolerantMap::State::next_by(v.mapadt, v.mapadt, ml, CrashTolerantMap::Step::query(am)));
        assert(CrashTolerantMap::State::next(v.mapadt, v.mapadt, ml));
        let w = CoordinationSystem::State{ ephemeral: Some(Known{
            progress: EphemeralState{ requests: k.progress.requests.remove(req), replies: k.progress.replies.insert(reply) }, ..k }), ..v };
        assert(CoordinationSystem::State::next_by(v, w, lbl, CoordinationSystem::Step::query(v.journal, v.mapadt)));
        assert(CoordinationSystem::State::next(v, w, lbl));
    }
}

// A crash can happen in every state, and leaves a state from which recovery is possible.
pub proof fn vp_crash_always_possible(v: Sys)
    requires v.inv(),
    ensures exists|w: Sys| #[trigger] CoordinationSystem::State::next(v, w, CoordinationSystem::Label::Label{ ctam_label: CrashTolerantAsyncMap::Label::CrashOp }) && w.inv() && w.ephemeral is None,
{
    reveal(CoordinationSystem::State::next); reveal(CoordinationSystem::State::next_by);
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by);
    reveal(CrashTolerantJournal::State::next); reveal(CrashTolerantJournal::State::next_by);
    let keep = v.journal.in_flight is Some && !v.superblock_in_flight;
    let j2 = CrashTolerantJournal::State{ ephemeral: AbstractCrashAwareJournal_v::Ephemeral::Unknown, in_flight: None,
        persistent: if keep { v.journal.in_flight->0 } else { v.journal.persistent } };
    let m2 = CrashTolerantMap::State{ ephemeral: AbstractCrashAwareMap_v::Ephemeral::Unknown, in_flight: None,
        persistent: if keep { v.mapadt.in_flight->0 } else { v.mapadt.persistent } };
    let jl = CrashTolerantJournal::Label::CrashLabel{ keep_in_flight: keep };
    let ml = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: keep };
    assert(CrashTolerantJournal::State::next_by(v.journal, j2, jl, CrashTolerantJournal::Step::crash()));
    assert(CrashTolerantJournal::State::next(v.journal, j2, jl));
    assert(CrashTolerantMap::State::next_by(v.mapadt, m2, ml, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(v.mapadt, m2, ml));
    let w = CoordinationSystem::State{ journal: j2, mapadt: m2, ephemeral: None, superblock_in_flight: false };
    let lbl = CoordinationSystem::Label::Label{ ctam_label: CrashTolerantAsyncMap::Label::CrashOp };
    assert(CoordinationSystem::State::next_by(v, w, lbl, CoordinationSystem::Step::crash(j2, m2)));
    assert(CoordinationSystem::State::next(v, w, lbl));
    inv_inductive(v, w, lbl);
}

proof fn vpfail_recovered(v: Sys) requires recovered(v), v.journal.in_flight is Some, v.ephemeral->0.sync_reqs.dom().len() > 0 ensures false { vp_everything_executed_can_become_persistent(v); }
}
