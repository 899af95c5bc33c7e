//@ in: implementation/Implementation_v.rs
use vstd::prelude::*;
verus! {

// What the executable store's invariant says about its memory: the journal it holds is, put by put, the history of
// map versions, and the syncs it holds are covered by the versions they are promised.

/// the map after the first n entries of the journal
pub open spec fn vp_replay(log: Seq<KeyedMessage>, n: int) -> TotalKMMap
    decreases n,
{
    if n <= 0 { TotalKMMap::empty() } else {
        let m = vp_replay(log, n - 1); let e = log[n - 1];
        m.insert(e.key, m[e.key].merge(e.message))
    }
}

pub proof fn vp_replay_is(j: Journal, n: int)
    requires j.seq_start == 0, 0 <= n <= j.msg_history@.len(),
    ensures j@.discard_recent(n as nat).apply_to_stamped_map(StampedMap_v::empty()) == (StampedMap { value: vp_replay(j.msg_history@, n), seq_end: n as nat }),
    decreases n,
{
    let h = j@.discard_recent(n as nat);
    assert(h.wf());
    if n > 0 {
        vp_replay_is(j, n - 1);
        assert(h.discard_recent((n - 1) as nat) =~= j@.discard_recent((n - 1) as nat));
    }
}

pub closed spec fn vp_holds(x: Implementation) -> bool { x.inv() }
pub closed spec fn vp_log(x: Implementation) -> Seq<KeyedMessage> { x.journal.msg_history@ }
pub closed spec fn vp_promised(x: Implementation) -> Seq<Request> { x.sync_requests.satisfied_reqs@ }
pub closed spec fn vp_deferred(x: Implementation) -> Seq<Request> { x.sync_requests.deferred_reqs@ }

pub proof fn vp_inv_means(x: Implementation)
    requires vp_holds(x),
    ensures
        x.i().recovery_state is RecoveryComplete,
        x.i().history.start == 0,
        x.i().history.entries.len() == vp_log(x).len() + 1,
        forall|k: int| 0 <= k <= vp_log(x).len() ==> (#[trigger] x.i().history.entries[k]).appv.kmmap == vp_replay(vp_log(x), k),
        x.i().in_flight is Some <==> vp_promised(x).len() > 0,
        forall|k: int| 0 <= k < vp_promised(x).len() ==> (#[trigger] vp_promised(x)[k]).input is SyncInput
            && x.i().sync_req_map[vp_promised(x)[k].id] <= x.i().in_flight->0.version,
        x.i().in_flight is Some ==> x.i().in_flight->0.version <= vp_log(x).len(),
        forall|k: int| 0 <= k < vp_deferred(x).len() ==> (#[trigger] vp_deferred(x)[k]).input is SyncInput
            && x.i().sync_req_map[vp_deferred(x)[k].id] <= vp_log(x).len(),
        forall|a: int, b: int| 0 <= a < vp_deferred(x).len() && 0 <= b < vp_deferred(x).len() && a != b ==> #[trigger] vp_deferred(x)[a].id != #[trigger] vp_deferred(x)[b].id,
        forall|a: int, b: int| 0 <= a < vp_promised(x).len() && 0 <= b < vp_deferred(x).len() ==> #[trigger] vp_promised(x)[a].id != #[trigger] vp_deferred(x)[b].id,
{
    assert forall|k: int| 0 <= k <= vp_log(x).len() implies (#[trigger] x.i().history.entries[k]).appv.kmmap == vp_replay(vp_log(x), k) by {
        vp_replay_is(x.journal, k);
    }
}

// the superblock written is the newest version, numbered by the operations it holds
pub proof fn vp_superblock_is(j: Journal)
    requires j.seq_start == 0,
    ensures (ISuperblock { journal: j })@.version_index == j.msg_history@.len(),
        (ISuperblock { journal: j })@.store.appv.kmmap == vp_replay(j.msg_history@, j.msg_history@.len() as int),
{
    vp_replay_is(j, j.msg_history@.len() as int);
    assert(j@.discard_recent(j.msg_history@.len() as nat) =~= j@);
}

pub proof fn vp_journal_is(j: Journal)
    ensures j@.seq_start == j.seq_start, j@.seq_end == j.seq_start + j.msg_history@.len(), j@.wf(),
        forall|k: nat| j.seq_start <= k < j@.seq_end ==> #[trigger] j@.msgs[k] == j.msg_history@[k - j.seq_start],
{
}

// a store that has just been created knows nothing and owes nobody
pub proof fn vp_fresh(x: Implementation)
    requires x.wf_init(),
    ensures x.i().recovery_state is Begin, vp_promised(x).len() == 0, vp_deferred(x).len() == 0,
{
}

// requests and replies of clients are requests and replies of the map specification, with the same identity
pub proof fn vp_requests_translate(req: Request, reply: Reply)
    ensures
        req.input is PutInput ==> req.mapspec_req().input == (crate::spec::MapSpec_t::Input::PutInput { key: req.input->PutInput_key, value: req.input->value }),
        req.input is QueryInput ==> req.mapspec_req().input == (crate::spec::MapSpec_t::Input::QueryInput { key: req.input->QueryInput_key }),
        req.input is NoopInput ==> req.mapspec_req().input is NoopInput,
        req.mapspec_req().id == req.id,
        reply.output is PutOutput ==> reply.mapspec_reply().output is PutOutput,
        reply.output is QueryOutput ==> reply.mapspec_reply().output == (crate::spec::MapSpec_t::Output::QueryOutput { value: reply.output->value }),
        reply.output is NoopOutput ==> reply.mapspec_reply().output is NoopOutput,
        reply.mapspec_reply().id == reply.id,
{
}

pub proof fn vpfail_inv(x: Implementation)
    requires vp_holds(x), x.i().in_flight is Some,
    ensures false,
{
}
}
