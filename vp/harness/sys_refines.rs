//@ in: abstract_system/AbstractCrashAwareSystemRefinement_v.rs
use vstd::prelude::*;
use crate::spec::MapSpec_t;
verus! {

type Sys = CoordinationSystem::State;
type SysLbl = CoordinationSystem::Label;
type Spec = CrashTolerantAsyncMap::State;
type SpecLbl = CrashTolerantAsyncMap::Label;

pub open spec fn vp_sys_exec(ss: Seq<Sys>, ls: Seq<SysLbl>) -> bool {
    &&& ss.len() == ls.len() + 1
    &&& CoordinationSystem::State::init(ss[0])
    &&& forall|k: int| 0 <= k < ls.len() ==> CoordinationSystem::State::next(#[trigger] ss[k], ss[k + 1], ls[k])
}

pub open spec fn vp_spec_exec(ss: Seq<Spec>, ls: Seq<SysLbl>) -> bool {
    &&& ss.len() == ls.len() + 1
    &&& CrashTolerantAsyncMap::State::init(ss[0])
    &&& forall|k: int| 0 <= k < ls.len() ==> CrashTolerantAsyncMap::State::next(#[trigger] ss[k], ss[k + 1], ls[k]->ctam_label)
}

// every finite history of requests, replies, syncs and crashes of the journaled system is a history of the map spec
pub proof fn vp_every_history_is_a_spec_history(ss: Seq<Sys>, ls: Seq<SysLbl>)
    requires vp_sys_exec(ss, ls),
    ensures
        vp_spec_exec(ss.map_values(|s: Sys| s.i()), ls),
        forall|k: int| 0 <= k < ss.len() ==> (#[trigger] ss[k]).inv(),
    decreases ls.len(),
{
    let ts = ss.map_values(|s: Sys| s.i());
    if ls.len() == 0 {
        lemma_init_refines(ss[0]);
    } else {
        let n = (ls.len() - 1) as int;
        let ss0 = ss.take(n + 1); let ls0 = ls.take(n);
        assert forall|k: int| 0 <= k < ls0.len() implies CoordinationSystem::State::next(#[trigger] ss0[k], ss0[k + 1], ls0[k]) by {
            assert(CoordinationSystem::State::next(ss[k], ss[k + 1], ls[k]));
        }
        vp_every_history_is_a_spec_history(ss0, ls0);
        let ts0 = ss0.map_values(|s: Sys| s.i());
        assert(ss0[n].inv());
        assert(CoordinationSystem::State::next(ss[n], ss[n + 1], ls[n]));
        vp_step(ss[n], ss[n + 1], ls[n]);
        assert forall|k: int| 0 <= k < ls.len() implies CrashTolerantAsyncMap::State::next(#[trigger] ts[k], ts[k + 1], ls[k]->ctam_label) by {
            if k < n { assert(ts0[k] == ts[k] && ts0[k + 1] == ts[k + 1]); assert(ls0[k] == ls[k]);
                assert(CrashTolerantAsyncMap::State::next(ts0[k], ts0[k + 1], ls0[k]->ctam_label)); }
        }
        assert forall|k: int| 0 <= k < ss.len() implies (#[trigger] ss[k]).inv() by {
            if k <= n { assert(ss0[k] == ss[k]); }
        }
    }
}

pub proof fn vp_step(v: Sys, w: Sys, lbl: SysLbl)
    requires v.inv(), CoordinationSystem::State::next(v, w, lbl),
    ensures w.inv(), CrashTolerantAsyncMap::State::next(v.i(), w.i(), lbl->ctam_label),
{
    inv_inductive(v, w, lbl);
    next_refines(v, w, lbl);
}

// What the abstraction shows to a client is what the system holds: outstanding requests, undelivered replies and
// sync requests are the program's own, the newest version is the ephemeral map brought up to date by the journal,
// and the oldest is what the disk holds.
pub proof fn vp_abstraction_is_faithful(v: Sys)
    requires v.inv(),
    ensures
        v.ephemeral matches Some(k) ==> v.i().async_ephemeral == k.progress && v.i().sync_requests == k.sync_reqs,
        v.ephemeral is None ==> v.i().async_ephemeral.requests == ISet::<MapSpec_t::Request>::empty()
            && v.i().async_ephemeral.replies == ISet::<MapSpec_t::Reply>::empty() && v.i().sync_requests == IMap::<MapSpec_t::SyncReqId, nat>::empty(),
        v.ephemeral is Some && v.mapadt.ephemeral->v.stamped_map.seq_end == v.journal.ephemeral->v.journal.seq_end
            ==> v.i().versions.last().appv.kmmap == v.mapadt.ephemeral->v.stamped_map.value
                && v.i().versions.len() == v.mapadt.ephemeral->v.stamped_map.seq_end + 1,
        v.ephemeral is None ==> v.i().versions.len() == v.i().stable_index() + 1
            && v.i().versions.last().appv.kmmap == MsgHistory::map_plus_history(v.mapadt.persistent, v.journal.persistent).value,
        v.ephemeral is Some && v.journal.in_flight is None ==> v.i().stable_index() == v.journal.persistent.seq_end
            && v.i().versions.first_active_index() == v.journal.persistent.seq_end,
        v.ephemeral is Some && v.journal.in_flight is Some && v.superblock_in_flight ==> v.i().stable_index() == v.journal.persistent.seq_end,
        v.ephemeral is Some && v.journal.in_flight is Some && !v.superblock_in_flight ==> v.i().stable_index() == v.journal.in_flight->0.seq_end,
{
    if v.ephemeral is None {
        assert(v.journal.persistent.discard_recent(v.journal.persistent.seq_end) =~= v.journal.persistent);
    } else {
        if v.inflight_is_on_disk() { v.lemma_iversions_known_inflight_landed_relation(); }
    }
}

// Crashing leaves exactly the oldest version a client could rely on.
pub proof fn vp_crash_keeps_stable(v: Sys, w: Sys, lbl: SysLbl)
    requires v.inv(), CoordinationSystem::State::next(v, w, lbl), lbl->ctam_label is CrashOp,
    ensures
        w.ephemeral is None,
        w.i().versions.last() == v.i().versions[v.i().stable_index()],
        w.i().versions.len() == v.i().stable_index() + 1,
{
    vp_step(v, w, lbl);
    reveal(CrashTolerantAsyncMap::State::next);
    reveal(CrashTolerantAsyncMap::State::next_by);
    reveal(CoordinationSystem::State::next);
    reveal(CoordinationSystem::State::next_by);
}

proof fn vpfail_inv(v: Sys) requires v.inv(), v.ephemeral is Some ensures false { lemma_init_refines(v); }
proof fn vpfail_next(v: Sys, w: Sys, lbl: SysLbl) requires v.inv(), CoordinationSystem::State::next(v, w, lbl) ensures false { vp_step(v, w, lbl); }
}
