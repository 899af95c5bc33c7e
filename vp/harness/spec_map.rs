//@ in: spec/MapSpec_t.rs
use vstd::prelude::*;
verus! {

type Spec = CrashTolerantAsyncMap::State;
type Lbl = CrashTolerantAsyncMap::Label;

// every reply says what a plain map would say, and a put changes exactly its key
pub proof fn vp_execute_means_map(v: Spec, w: Spec, req: Request, reply: Reply)
    requires v.the_inv(), v.versions.last().appv.kmmap.wf(),
        CrashTolerantAsyncMap::State::next(v, w, CrashTolerantAsyncMap::Label::OperateOp{ base_op: AsyncMap::Label::ExecuteOp{ req, reply } }),
    ensures
        req.id == reply.id,
        v.async_ephemeral.requests.contains(req),
        w.async_ephemeral.requests == v.async_ephemeral.requests.remove(req),
        w.async_ephemeral.replies == v.async_ephemeral.replies.insert(reply),
        w.sync_requests == v.sync_requests,
        req.input is QueryInput ==> reply.output is QueryOutput,
        req.input is QueryInput ==> reply.output == (Output::QueryOutput{ value: v.versions.last().appv.kmmap.0[req.input.arrow_QueryInput_key()]->value }),
        req.input is QueryInput ==> w.versions.last() == v.versions.last(),
        req.input is PutInput ==> reply.output is PutOutput,
        req.input is PutInput ==> w.versions.last().appv.kmmap.0 == v.versions.last().appv.kmmap.0.insert(req.input.arrow_PutInput_key(), Message::Define{ value: req.input.arrow_PutInput_value() }),
        req.input is NoopInput ==> reply.output is NoopOutput && w.versions.last() == v.versions.last(),
        w.versions.last().appv.kmmap.wf(),
        w.versions.len() == v.versions.len() || w.versions.len() == v.versions.len() + 1,
        req.input is PutInput && v.versions.last().appv.kmmap.0[req.input.arrow_PutInput_key()] != (Message::Define{ value: req.input.arrow_PutInput_value() })
            ==> w.versions.len() == v.versions.len() + 1,
{
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
    reveal(AsyncMap::State::next); reveal(AsyncMap::State::next_by);
    reveal(MapSpec::State::next); reveal(MapSpec::State::next_by);
    v.versions.last().appv.kmmap.insert_lemma();
    let k = req.input.arrow_PutInput_key(); let m = Message::Define{ value: req.input.arrow_PutInput_value() };
    if req.input is PutInput {
        assert(v.versions.last().appv.kmmap.0.insert(k, m)[k] == m);
    }
}

pub proof fn vp_request_and_reply(v: Spec, w: Spec, lbl: Lbl)
    requires v.the_inv(), CrashTolerantAsyncMap::State::next(v, w, lbl), lbl is OperateOp, !(lbl->base_op is ExecuteOp),
    ensures
        w.versions.last() == v.versions.last(),
        w.sync_requests == v.sync_requests,
        lbl->base_op is RequestOp ==> w.async_ephemeral == (EphemeralState{ requests: v.async_ephemeral.requests.insert(lbl->base_op.arrow_RequestOp_req()), replies: v.async_ephemeral.replies }),
        lbl->base_op is ReplyOp ==> v.async_ephemeral.replies.contains(lbl->base_op.arrow_ReplyOp_reply())
            && w.async_ephemeral == (EphemeralState{ requests: v.async_ephemeral.requests, replies: v.async_ephemeral.replies.remove(lbl->base_op.arrow_ReplyOp_reply()) }),
{
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
    reveal(AsyncMap::State::next); reveal(AsyncMap::State::next_by);
}

// versions are only ever appended or forgotten from the two ends: no step rewrites history, and the stable point never moves back
pub proof fn vp_history_is_append_only(v: Spec, w: Spec, lbl: Lbl)
    requires v.the_inv(), CrashTolerantAsyncMap::State::next(v, w, lbl),
    ensures
        w.the_inv(),
        v.stable_index() <= w.stable_index(),
        forall|i: int| #![trigger v.versions[i]] #![trigger w.versions[i]] v.versions.is_active(i) && w.versions.is_active(i) ==> v.versions[i] == w.versions[i],
        !(lbl is CrashOp) ==> w.versions.len() >= v.versions.len(),
        !(lbl is SyncOp) ==> w.stable_index() == v.stable_index(),
        !(lbl is OperateOp) && !(lbl is CrashOp) ==> w.versions.len() == v.versions.len() && w.async_ephemeral == v.async_ephemeral,
{
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
    let step = choose|s: CrashTolerantAsyncMap::Step| CrashTolerantAsyncMap::State::next_by(v, w, lbl, s);
    match step {
        CrashTolerantAsyncMap::Step::operate(nv, ne) => {
            assert forall|i: int| v.versions.is_active(i) && w.versions.is_active(i) implies #[trigger] v.versions[i] == #[trigger] w.versions[i] by {
                if nv.drop_last() == v.versions { assert(nv.drop_last()[i] == nv[i]); }
            }
            if nv.drop_last() == v.versions && 0 < nv.len() {
                assert(nv.drop_last().len() == v.versions.len());
                if nv.len() - 1 <= nv.start { assert(nv.drop_last().entries.len() == 0); assert(false); }
            }
        }
        _ => {}
    }
}

// a crash falls back exactly to the stable version and forgets every outstanding request
pub proof fn vp_crash(v: Spec, w: Spec)
    requires v.the_inv(), CrashTolerantAsyncMap::State::next(v, w, CrashTolerantAsyncMap::Label::CrashOp),
    ensures
        w.versions.last() == v.versions[v.stable_index()],
        w.versions.len() == v.stable_index() + 1,
        w.async_ephemeral.requests == ISet::<Request>::empty(), w.async_ephemeral.replies == ISet::<Reply>::empty(),
        w.sync_requests == IMap::<SyncReqId, nat>::empty(),
{
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
}

// a sync request names the newest version, and is answered only when that version is stable
pub proof fn vp_sync_is_honest(v: Spec, w: Spec, lbl: Lbl)
    requires v.the_inv(), CrashTolerantAsyncMap::State::next(v, w, lbl),
    ensures
        lbl matches CrashTolerantAsyncMap::Label::ReqSyncOp{ sync_req_id } ==> !v.sync_requests.dom().contains(sync_req_id)
            && w.sync_requests == v.sync_requests.insert(sync_req_id, (v.versions.len() - 1) as nat),
        lbl matches CrashTolerantAsyncMap::Label::ReplySyncOp{ sync_req_id } ==> v.sync_requests.dom().contains(sync_req_id)
            && v.sync_requests[sync_req_id] <= v.stable_index() && w.sync_requests == v.sync_requests.remove(sync_req_id),
        lbl is SyncOp || lbl is Noop || lbl is OperateOp ==> w.sync_requests == v.sync_requests,
{
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
}

pub open spec fn vp_spec_run(ss: Seq<Spec>, ls: Seq<Lbl>) -> bool {
    &&& ss.len() == ls.len() + 1
    &&& ss[0].the_inv()
    &&& forall|k: int| 0 <= k < ls.len() ==> CrashTolerantAsyncMap::State::next(#[trigger] ss[k], ss[k + 1], ls[k])
}

proof fn run_facts(ss: Seq<Spec>, ls: Seq<Lbl>, a: int, b: int)
    requires vp_spec_run(ss, ls), 0 <= a <= b < ss.len(),
    ensures ss[a].the_inv(), ss[b].the_inv(), ss[a].stable_index() <= ss[b].stable_index(),
        forall|i: int| #![trigger ss[a].versions[i]] ss[a].stable_index() == i && ss[b].versions.is_active(i) ==> ss[a].versions[i] == ss[b].versions[i],
    decreases b
{
    if b > 0 {
        if a < b {
            run_facts(ss, ls, a, b - 1);
            assert(CrashTolerantAsyncMap::State::next(ss[b - 1], ss[b - 1 + 1], ls[b - 1]));
            vp_history_is_append_only(ss[b - 1], ss[b], ls[b - 1]);
        } else {
            run_facts(ss, ls, a - 1, b - 1);
            assert(CrashTolerantAsyncMap::State::next(ss[b - 1], ss[b - 1 + 1], ls[b - 1]));
            vp_history_is_append_only(ss[b - 1], ss[b], ls[b - 1]);
        }
    }
}

// durability over histories: once a sync has been answered, the stable point is at or past the version that was newest
// when it was asked for, in every later state, crash or no crash
pub proof fn vp_answered_sync_is_durable(ss: Seq<Spec>, ls: Seq<Lbl>, a: int, b: int, c: int, id: SyncReqId)
    requires vp_spec_run(ss, ls), 0 <= a < b < ls.len(), b < c < ss.len(),
        ls[a] == (CrashTolerantAsyncMap::Label::ReqSyncOp{ sync_req_id: id }),
        ls[b] == (CrashTolerantAsyncMap::Label::ReplySyncOp{ sync_req_id: id }),
        forall|k: int| a < k < b ==> ls[k] != (CrashTolerantAsyncMap::Label::ReqSyncOp{ sync_req_id: id }),
    ensures ss[a].versions.len() - 1 <= ss[c].stable_index(),
{
    run_facts(ss, ls, b, c); run_facts(ss, ls, 0, b);
    assert(CrashTolerantAsyncMap::State::next(ss[b], ss[b + 1], ls[b]));
    vp_sync_is_honest(ss[b], ss[b + 1], ls[b]);
    pending(ss, ls, a, b, id);
}

proof fn pending(ss: Seq<Spec>, ls: Seq<Lbl>, a: int, b: int, id: SyncReqId)
    requires vp_spec_run(ss, ls), 0 <= a < b < ss.len(), a < ls.len(),
        ls[a] == (CrashTolerantAsyncMap::Label::ReqSyncOp{ sync_req_id: id }),
        forall|k: int| a < k < b ==> ls[k] != (CrashTolerantAsyncMap::Label::ReqSyncOp{ sync_req_id: id }),
    ensures ss[b].sync_requests.dom().contains(id) ==> ss[b].sync_requests[id] == ss[a].versions.len() - 1,
    decreases b
{
    run_facts(ss, ls, 0, b - 1);
    assert(CrashTolerantAsyncMap::State::next(ss[b - 1], ss[b - 1 + 1], ls[b - 1]));
    vp_sync_is_honest(ss[b - 1], ss[b], ls[b - 1]);
    if b > a + 1 { pending(ss, ls, a, b - 1, id); }
    if ls[b - 1] is CrashOp { vp_crash(ss[b - 1], ss[b]); }
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
}

// the spec is not vacuous: each operation is possible
pub proof fn vp_spec_can_run(v: Spec, req: Request)
    requires v.the_inv(), v.versions.last().appv.kmmap.wf(), v.async_ephemeral.requests.contains(req), req.input is PutInput,
        !v.async_ephemeral.replies.contains(Reply{ output: Output::PutOutput, id: req.id }),
    ensures exists|w: Spec| CrashTolerantAsyncMap::State::next(v, w, CrashTolerantAsyncMap::Label::OperateOp{ base_op: AsyncMap::Label::ExecuteOp{ req, reply: Reply{ output: Output::PutOutput, id: req.id } } })
{
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
    reveal(AsyncMap::State::next); reveal(AsyncMap::State::next_by);
    reveal(MapSpec::State::next); reveal(MapSpec::State::next_by);
    let reply = Reply{ output: Output::PutOutput, id: req.id };
    let lbl = CrashTolerantAsyncMap::Label::OperateOp{ base_op: AsyncMap::Label::ExecuteOp{ req, reply } };
    let ml = MapSpec::Label::Put{ input: req.input, output: reply.output };
    let m0 = v.versions.last().appv;
    let m1 = MapSpec::State{ kmmap: m0.kmmap.insert(req.input.arrow_PutInput_key(), Message::Define{ value: req.input.arrow_PutInput_value() }) };
    assert(MapSpec::State::next_by(m0, m1, ml, MapSpec::Step::put()));
    assert(MapSpec::State::next(m0, m1, ml));
    let ne = EphemeralState{ requests: v.async_ephemeral.requests.remove(req), replies: v.async_ephemeral.replies.insert(reply) };
    let p1 = PersistentState{ appv: m1 };
    let a0 = AsyncMap::State{ persistent: v.versions.last(), ephemeral: v.async_ephemeral };
    let nv = v.versions.append(seq![p1]);
    let a1 = AsyncMap::State{ persistent: nv.last(), ephemeral: ne };
    assert(nv.last() == p1);
    assert(AsyncMap::State::next_by(a0, a1, AsyncMap::Label::ExecuteOp{ req, reply }, AsyncMap::Step::execute(ml, p1)));
    assert(AsyncMap::State::next(a0, a1, AsyncMap::Label::ExecuteOp{ req, reply }));
    assert(nv.drop_last() =~= v.versions);
    let w = CrashTolerantAsyncMap::State{ versions: nv, async_ephemeral: ne, sync_requests: v.sync_requests };
    assert(CrashTolerantAsyncMap::State::next_by(v, w, lbl, CrashTolerantAsyncMap::Step::operate(nv, ne)));
    assert(CrashTolerantAsyncMap::State::next(v, w, lbl));
}

pub proof fn vp_init(v: Spec)
    requires CrashTolerantAsyncMap::State::init(v),
    ensures v.the_inv(), v.stable_index() == 0, v.versions.len() == 1,
        v.versions.last().appv.kmmap.wf(),
        forall|k: Key| #[trigger] v.versions.last().appv.kmmap.0[k] == (Message::Define{ value: Value(0) }),
        v.sync_requests == IMap::<SyncReqId, nat>::empty(), v.async_ephemeral.requests == ISet::<Request>::empty(),
{
    reveal(CrashTolerantAsyncMap::State::init); reveal(CrashTolerantAsyncMap::State::init_by);
    assert(TotalKMMap::empty().dom() =~= total_domain());
}
proof fn vpfail_spec(v: Spec, w: Spec, lbl: Lbl) requires v.the_inv(), CrashTolerantAsyncMap::State::next(v, w, lbl) ensures false { vp_history_is_append_only(v, w, lbl); }
}
