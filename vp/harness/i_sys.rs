//@ in: implementation/ModelRefinement_v.rs
use vstd::prelude::*;
use crate::spec::FloatingSeq_t::*;
use crate::spec::TotalKMMap_t::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
verus! {
broadcast use crate::vp_lib::vp_group;

// The running store (program state machine + disk that completes requests in its own time + crashes), with an
// invariant and an interpretation of our own: what is on the disk is what the program believes is durable.

type Sys = SystemModel::State<ConcreteProgramModel>;
type Lbl = SystemModel::Label;
type Spec = CrashTolerantAsyncMap::State;
type SLbl = CrashTolerantAsyncMap::Label;

// the superblock codec: what was written is what is read back
pub open spec fn vp_codec() -> bool { forall|sb: Superblock| spec_unmarshall(#[trigger] spec_marshall(sb)) == sb }

pub open spec fn vp_at() -> Address { Address { au: 0, page: 0 } }
pub open spec fn vp_ready(s: Sys) -> bool { s.program.state.recovery_state is RecoveryComplete }
pub open spec fn vp_pending(s: Sys, id: ID) -> bool { s.disk.requests.contains_key(id) || s.disk.responses.contains_key(id) }
pub open spec fn vp_only(s: Sys, x: ID) -> bool {
    &&& forall|id: ID| #[trigger] s.disk.requests.contains_key(id) ==> id == x
    &&& forall|id: ID| #[trigger] s.disk.responses.contains_key(id) ==> id == x
}
pub open spec fn vp_one(s: Sys) -> bool {
    &&& forall|a: ID, b: ID| #[trigger] s.disk.requests.contains_key(a) && #[trigger] s.disk.requests.contains_key(b) ==> a == b
    &&& forall|a: ID, b: ID| #[trigger] s.disk.responses.contains_key(a) && #[trigger] s.disk.responses.contains_key(b) ==> a == b
    &&& forall|a: ID, b: ID| !(#[trigger] s.disk.requests.contains_key(a) && #[trigger] s.disk.responses.contains_key(b))
}
pub open spec fn vp_none(s: Sys) -> bool {
    &&& forall|id: ID| !#[trigger] s.disk.requests.contains_key(id)
    &&& forall|id: ID| !#[trigger] s.disk.responses.contains_key(id)
}
pub open spec fn vp_on_disk(s: Sys) -> Superblock { spec_unmarshall(s.disk.content[vp_at()]) }
pub open spec fn vp_landed(s: Sys) -> bool { s.program.state.in_flight is Some && s.disk.responses.contains_key(s.program.state.in_flight->0.req_id) }
pub open spec fn vp_version(s: Sys, v: int) -> Superblock { Superblock { version_index: v as nat, store: s.program.state.history.entries[v - s.program.state.history.start] } }

pub open spec fn vp_hist(s: Sys) -> bool {
    let st = s.program.state; let h = st.history;
    &&& h.entries.len() > 0
    &&& h.start == st.persistent_version
    &&& forall|i: int| 0 <= i < h.entries.len() ==> (#[trigger] h.entries[i]).appv.invariant()
    &&& (st.in_flight is Some ==> h.start <= st.in_flight->0.version < h.start + h.entries.len())
}

pub open spec fn vp_disk(s: Sys) -> bool {
    let st = s.program.state;
    &&& s.disk.content.contains_key(vp_at())
    &&& vp_on_disk(s).store.appv.invariant()
    &&& vp_one(s)
    &&& match st.recovery_state {
        RecoveryState::Begin => vp_none(s),
        RecoveryState::AwaitingSuperblock => {
            &&& forall|id: ID| #[trigger] s.disk.requests.contains_key(id) ==> s.disk.requests[id] == (DiskRequest::ReadReq { from: vp_at() })
            &&& forall|id: ID| #[trigger] s.disk.responses.contains_key(id) ==> s.disk.responses[id] == (DiskResponse::ReadResp { data: s.disk.content[vp_at()] })
        },
        RecoveryState::RecoveryComplete => {
            &&& (st.in_flight is None ==> vp_none(s) && vp_on_disk(s) == vp_version(s, st.persistent_version as int))
            &&& (st.in_flight is Some ==> {
                let id = st.in_flight->0.req_id; let v = st.in_flight->0.version as int;
                &&& vp_only(s, id) && vp_pending(s, id)
                &&& (s.disk.requests.contains_key(id) ==>
                        s.disk.requests[id] == (DiskRequest::WriteReq { to: vp_at(), data: spec_marshall(vp_version(s, v)) })
                        && vp_on_disk(s) == vp_version(s, st.persistent_version as int))
                &&& (s.disk.responses.contains_key(id) ==> s.disk.responses[id] == (DiskResponse::WriteResp {}) && vp_on_disk(s) == vp_version(s, v))
            })
        },
    }
}

pub open spec fn vp_ids(s: Sys) -> bool {
    &&& forall|r: Request| #[trigger] s.requests.count(r) > 0 ==> s.requests.count(r) == 1 && s.id_history.count(r.id) > 0
    &&& forall|r: Reply| #[trigger] s.replies.count(r) > 0 ==> s.replies.count(r) == 1 && s.id_history.count(r.id) > 0
    &&& forall|a: Request, b: Request| #[trigger] s.requests.count(a) > 0 && #[trigger] s.requests.count(b) > 0 && a.id == b.id ==> a == b
    &&& forall|a: Request, b: Reply| #[trigger] s.requests.count(a) > 0 && #[trigger] s.replies.count(b) > 0 ==> a.id != b.id
    &&& forall|a: Reply, b: Reply| #[trigger] s.replies.count(a) > 0 && #[trigger] s.replies.count(b) > 0 && a.id == b.id ==> a == b
}

pub open spec fn vp_inv(s: Sys) -> bool {
    &&& (vp_ready(s) ==> vp_hist(s))
    &&& vp_disk(s)
    &&& vp_ids(s)
}

// what the clients see
pub open spec fn vp_i(s: Sys) -> Spec {
    let st = s.program.state;
    let eph = EphemeralState { requests: s.requests.dom().to_iset(), replies: s.replies.dom().to_iset() };
    if vp_ready(s) {
        let h = st.history;
        let v = if vp_landed(s) { st.in_flight->0.version as int } else { st.persistent_version as int };
        CrashTolerantAsyncMap::State {
            versions: FloatingSeq { start: v as nat, entries: h.entries.skip(v - h.start) },
            async_ephemeral: eph,
            sync_requests: st.sync_req_map,
        }
    } else {
        let sb = vp_on_disk(s);
        CrashTolerantAsyncMap::State {
            versions: FloatingSeq { start: sb.version_index, entries: seq![sb.store] },
            async_ephemeral: eph,
            sync_requests: IMap::empty(),
        }
    }
}

pub open spec fn vp_lbl(s: Sys, t: Sys, l: Lbl) -> SLbl {
    match l {
        SystemModel::Label::AcceptRequest { req } => CrashTolerantAsyncMap::Label::OperateOp { base_op: AsyncMap::Label::RequestOp { req } },
        SystemModel::Label::DeliverReply { reply } => CrashTolerantAsyncMap::Label::OperateOp { base_op: AsyncMap::Label::ReplyOp { reply } },
        SystemModel::Label::ProgramUIOp { op: ProgramUserOp::Execute { req, reply } } => CrashTolerantAsyncMap::Label::OperateOp { base_op: AsyncMap::Label::ExecuteOp { req, reply } },
        SystemModel::Label::ProgramUIOp { op: ProgramUserOp::AcceptSyncRequest { sync_req_id } } => CrashTolerantAsyncMap::Label::ReqSyncOp { sync_req_id },
        SystemModel::Label::ProgramUIOp { op: ProgramUserOp::DeliverSyncReply { sync_req_id } } => CrashTolerantAsyncMap::Label::ReplySyncOp { sync_req_id },
        SystemModel::Label::Crash => CrashTolerantAsyncMap::Label::CrashOp {},
        SystemModel::Label::DiskInternal => if vp_ready(s) && !vp_landed(s) && vp_landed(t) { CrashTolerantAsyncMap::Label::SyncOp {} } else { CrashTolerantAsyncMap::Label::Noop {} },
        _ => CrashTolerantAsyncMap::Label::Noop {},
    }
}

// clients use each sync identifier once; a sync is answered only to whoever asked
pub open spec fn vp_env(s: Sys, l: Lbl) -> bool {
    match l {
        SystemModel::Label::ProgramUIOp { op: ProgramUserOp::AcceptSyncRequest { sync_req_id } } => !s.program.state.sync_req_map.contains_key(sync_req_id),
        SystemModel::Label::ProgramUIOp { op: ProgramUserOp::DeliverSyncReply { sync_req_id } } => s.program.state.sync_req_map.contains_key(sync_req_id),
        _ => true,
    }
}

pub proof fn vp_init(s: Sys)
    requires vp_codec(), SystemModel::State::initialize(s, s.program, s.disk),
    ensures vp_inv(s), CrashTolerantAsyncMap::State::initialize(vp_i(s)),
        vp_i(s).versions.start == 0, vp_i(s).versions.entries =~= seq![PersistentState { appv: my_init() }],
{
    let sb = Superblock { store: PersistentState { appv: my_init() }, version_index: 0 };
    assert(spec_unmarshall(spec_marshall(sb)) == sb);
    assert(vp_i(s).versions.entries =~= FloatingSeq::new(0, 1, |i: int| AsyncMap::State::init_persistent_state()).entries);
    assert(vp_i(s).async_ephemeral.requests =~= iset!{});
    assert(vp_i(s).async_ephemeral.replies =~= iset!{});
}

pub proof fn vp_step(s: Sys, t: Sys, l: Lbl)
    requires vp_codec(), vp_inv(s), vp_env(s, l), SystemModel::State::next(s, t, l),
    ensures vp_inv(t), CrashTolerantAsyncMap::State::next(vp_i(s), vp_i(t), vp_lbl(s, t, l)),
{
    reveal(SystemModel::State::next); reveal(SystemModel::State::next_by);
    let step = choose|step| SystemModel::State::next_by(s, t, l, step);
    match step {
        SystemModel::Step::accept_request() => vp_accept(s, t, l),
        SystemModel::Step::deliver_reply() => vp_reply(s, t, l),
        SystemModel::Step::program_execute(np) => vp_execute(s, t, l, np),
        SystemModel::Step::program_accept_sync_request(np) => {
            vp_same(s, t);
            reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
            assert(vp_i(t).versions =~= vp_i(s).versions);
            assert(CrashTolerantAsyncMap::State::next_by(vp_i(s), vp_i(t), vp_lbl(s, t, l), CrashTolerantAsyncMap::Step::req_sync()));
        },
        SystemModel::Step::program_deliver_sync_reply(np) => {
            vp_same(s, t);
            reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
            assert(vp_i(t).versions =~= vp_i(s).versions);
            assert(CrashTolerantAsyncMap::State::next_by(vp_i(s), vp_i(t), vp_lbl(s, t, l), CrashTolerantAsyncMap::Step::reply_sync()));
        },
        SystemModel::Step::program_disk(np, nd) => vp_io(s, t, l, np, nd),
        SystemModel::Step::program_internal(np) => { vp_same(s, t); vp_noop(s, t, l); },
        SystemModel::Step::disk_internal(nd) => vp_disk_step(s, t, l, nd),
        SystemModel::Step::crash(np, nd) => vp_crash(s, t, l, np, nd),
        SystemModel::Step::noop() => { vp_noop(s, t, l); },
        SystemModel::Step::accept_sync_request() => { vp_more_ids(s, t); vp_noop(s, t, l); },
        SystemModel::Step::deliver_sync_reply() => { vp_noop(s, t, l); },
        _ => { assert(false); },
    }
}

proof fn vp_noop(s: Sys, t: Sys, l: Lbl)
    requires vp_inv(s), vp_i(s) == vp_i(t), vp_lbl(s, t, l) is Noop,
    ensures CrashTolerantAsyncMap::State::next(vp_i(s), vp_i(t), vp_lbl(s, t, l)),
{
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
    assert(CrashTolerantAsyncMap::State::next_by(vp_i(s), vp_i(t), vp_lbl(s, t, l), CrashTolerantAsyncMap::Step::noop()));
}

// only the bookkeeping of syncs may differ
proof fn vp_same(s: Sys, t: Sys)
    requires vp_inv(s), t.disk == s.disk, t.requests == s.requests, t.replies == s.replies, t.id_history == s.id_history,
        t.program.state == (AtomicState { sync_req_map: t.program.state.sync_req_map, ..s.program.state }),
    ensures vp_inv(t),
{
}

proof fn vp_more_ids(s: Sys, t: Sys)
    requires vp_inv(s), t.disk == s.disk, t.requests == s.requests, t.replies == s.replies, t.program == s.program,
        exists|id: ID| t.id_history == s.id_history.insert(id),
    ensures vp_inv(t),
{
}

proof fn vp_accept(s: Sys, t: Sys, l: Lbl)
    requires vp_inv(s), SystemModel::State::accept_request(s, t, l),
    ensures vp_inv(t), CrashTolerantAsyncMap::State::next(vp_i(s), vp_i(t), vp_lbl(s, t, l)),
{
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
    reveal(AsyncMap::State::next); reveal(AsyncMap::State::next_by);
    let req = l->req; let i = vp_i(s); let j = vp_i(t);
    assert(s.requests.count(req) == 0);
    assert(j.versions =~= i.versions);
    assert(j.async_ephemeral.requests =~= i.async_ephemeral.requests.insert(req));
    assert(j.async_ephemeral.replies =~= i.async_ephemeral.replies);
    assert(AsyncMap::State::next_by(AsyncMap::State { persistent: i.versions.last(), ephemeral: i.async_ephemeral },
        AsyncMap::State { persistent: j.versions.last(), ephemeral: j.async_ephemeral }, AsyncMap::Label::RequestOp { req }, AsyncMap::Step::request()));
    assert(CrashTolerantAsyncMap::State::next_by(i, j, vp_lbl(s, t, l), CrashTolerantAsyncMap::Step::operate(j.versions, j.async_ephemeral)));
}

proof fn vp_reply(s: Sys, t: Sys, l: Lbl)
    requires vp_inv(s), SystemModel::State::deliver_reply(s, t, l),
    ensures vp_inv(t), CrashTolerantAsyncMap::State::next(vp_i(s), vp_i(t), vp_lbl(s, t, l)),
{
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
    reveal(AsyncMap::State::next); reveal(AsyncMap::State::next_by);
    let reply = l->reply; let i = vp_i(s); let j = vp_i(t);
    assert(s.replies.count(reply) > 0);
    assert(j.versions =~= i.versions);
    assert(j.async_ephemeral.replies =~= i.async_ephemeral.replies.remove(reply));
    assert(j.async_ephemeral.requests =~= i.async_ephemeral.requests);
    assert(AsyncMap::State::next_by(AsyncMap::State { persistent: i.versions.last(), ephemeral: i.async_ephemeral },
        AsyncMap::State { persistent: j.versions.last(), ephemeral: j.async_ephemeral }, AsyncMap::Label::ReplyOp { reply }, AsyncMap::Step::reply()));
    assert(CrashTolerantAsyncMap::State::next_by(i, j, vp_lbl(s, t, l), CrashTolerantAsyncMap::Step::operate(j.versions, j.async_ephemeral)));
}

proof fn vp_execute(s: Sys, t: Sys, l: Lbl, np: ConcreteProgramModel)
    requires vp_inv(s), SystemModel::State::program_execute(s, t, l, np),
    ensures vp_inv(t), CrashTolerantAsyncMap::State::next(vp_i(s), vp_i(t), vp_lbl(s, t, l)),
{
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
    reveal(AsyncMap::State::next); reveal(AsyncMap::State::next_by);
    let req = l->op->req; let reply = l->op->reply; let i = vp_i(s); let j = vp_i(t);
    let a = s.program.state; let b = t.program.state;
    assert(AtomicState::map_transition(a, b, req, reply));
    let h = a.history; let k = b.history;
    assert(k.get_prefix(h.len()) == h);
    assert(k.start == h.start);
    assert(k.entries.len() == h.entries.len() || k.entries.len() == h.entries.len() + 1);
    assert(k.entries.take(h.entries.len() as int) =~= h.entries);
    assert forall|n: int| 0 <= n < h.entries.len() implies k.entries[n] == h.entries[n] by { assert(k.entries.take(h.entries.len() as int)[n] == k.entries[n]); }
    MapSpec::State::inv_next(a.mapspec(), b.mapspec(), to_map_label(req, reply));
    assert(a.mapspec() == h.entries.last().appv);
    assert(b.mapspec() == k.entries.last().appv);
    assert(vp_hist(t));
    assert(vp_disk(t));
    assert(s.requests.count(req) > 0);
    assert(vp_ids(t));
    let v = i.versions.start as int;
    assert(j.versions.start == v);
    assert(i.versions.entries =~= h.entries.skip(v - h.start));
    assert(j.versions.entries =~= k.entries.skip(v - h.start));
    assert(i.versions.last() == h.entries.last());
    assert(j.versions.last() == k.entries.last());
    if k.entries.len() == h.entries.len() {
        assert(k.entries =~= h.entries);
        assert(j.versions =~= i.versions);
    } else {
        assert(j.versions.drop_last().entries =~= i.versions.entries);
        assert(j.versions.drop_last() =~= i.versions);
    }
    assert(j.async_ephemeral.requests =~= i.async_ephemeral.requests.remove(req));
    assert(s.replies.count(reply) == 0);
    assert(j.async_ephemeral.replies =~= i.async_ephemeral.replies.insert(reply));
    assert(AsyncMap::State::next_by(AsyncMap::State { persistent: i.versions.last(), ephemeral: i.async_ephemeral },
        AsyncMap::State { persistent: j.versions.last(), ephemeral: j.async_ephemeral }, AsyncMap::Label::ExecuteOp { req, reply },
        AsyncMap::Step::execute(to_map_label(req, reply), j.versions.last())));
    assert(CrashTolerantAsyncMap::State::next_by(i, j, vp_lbl(s, t, l), CrashTolerantAsyncMap::Step::operate(j.versions, j.async_ephemeral)));
}

proof fn vp_single<V>(id: ID, v: V)
    ensures multiset_to_map(Multiset::<(ID, V)>::empty().insert((id, v))) =~= imap![id => v],
        multiset_to_map(Multiset::<(ID, V)>::singleton((id, v))) =~= imap![id => v],
        multiset_to_map(Multiset::<(ID, V)>::empty()) =~= IMap::<ID, V>::empty(),
{
    let m = Multiset::<(ID, V)>::empty().insert((id, v));
    assert(m =~= Multiset::singleton((id, v)));
    assert(m.contains((id, v)));
    assert forall|p: (ID, V)| #[trigger] m.contains(p) implies p == (id, v) by {}
    let f = multiset_to_map(m);
    assert(f.contains_key(id));
}

proof fn vp_io(s: Sys, t: Sys, l: Lbl, np: ConcreteProgramModel, nd: DiskModel)
    requires vp_codec(), vp_inv(s), SystemModel::State::program_disk(s, t, l, np, nd),
    ensures vp_inv(t), CrashTolerantAsyncMap::State::next(vp_i(s), vp_i(t), vp_lbl(s, t, l)),
{
    reveal(AsyncDisk::State::next); reveal(AsyncDisk::State::next_by);
    let reqs = l->info.reqs; let resps = l->info.resps;
    let a = s.program.state; let b = t.program.state;
    assert(ConcreteProgramModel::valid_disk_transition(s.program, t.program, l->info));
    let ev = choose|ev| AtomicState::disk_transition(a, b, ev, reqs, resps);
    let dl = DiskLabel::DiskOps { requests: multiset_to_map(reqs), responses: multiset_to_map(resps) };
    assert(AsyncDisk::State::next_by(s.disk, nd, dl, AsyncDisk::Step::disk_ops()));
    let rq = multiset_to_map(reqs); let rs = multiset_to_map(resps);
    assert(t.disk.requests == s.disk.requests.union_prefer_right(rq));
    assert(t.disk.responses == s.disk.responses.remove_keys(rs.dom()));
    assert(t.disk.content == s.disk.content);
    match ev {
        DiskEvent::InitiateRecovery { req_id } => {
            vp_single(req_id, DiskRequest::ReadReq { from: vp_at() });
            vp_single(req_id, DiskResponse::WriteResp {});
            assert(resps =~= Multiset::empty());
            assert(rs =~= IMap::<ID, DiskResponse>::empty());
            assert(rq =~= imap![req_id => DiskRequest::ReadReq { from: vp_at() }]);
            assert(vp_inv(t));
            assert(vp_i(t) == vp_i(s));
        },
        DiskEvent::CompleteRecovery { req_id, raw_page } => {
            vp_single(req_id, DiskResponse::ReadResp { data: raw_page });
            vp_single(req_id, DiskRequest::ReadReq { from: vp_at() });
            assert(reqs =~= Multiset::empty());
            assert(rq =~= IMap::<ID, DiskRequest>::empty());
            assert(rs =~= imap![req_id => DiskResponse::ReadResp { data: raw_page }]);
            assert(rs.contains_key(req_id) && rs[req_id] == (DiskResponse::ReadResp { data: raw_page }));
            assert(rs <= s.disk.responses);
            assert(rs.dom().contains(req_id));
            assert(s.disk.responses.dom().contains(req_id));
            assert(s.disk.responses[req_id] == rs[req_id]);
            assert(raw_page == s.disk.content[vp_at()]);
            assert(vp_pending(s, req_id));
            assert forall|x: ID| !#[trigger] t.disk.requests.contains_key(x) && !#[trigger] t.disk.responses.contains_key(x) by {
                assert(s.disk.responses.contains_key(req_id));
            }
            let sb = spec_unmarshall(raw_page);
            assert(b.history.start == sb.version_index);
            assert(b.history.entries =~= seq![sb.store]);
            assert(vp_inv(t));
            assert(vp_i(t).versions.entries =~= seq![sb.store]);
            assert(vp_i(t) == vp_i(s));
        },
        DiskEvent::ExecuteSyncBegin { req_id } => {
            let sb = vp_version(s, a.history.start + a.history.entries.len() - 1);
            assert(a.ephemeral_sb() == sb);
            let w = DiskRequest::WriteReq { to: vp_at(), data: spec_marshall(sb) };
            vp_single(req_id, w);
            vp_single(req_id, DiskResponse::WriteResp {});
            assert(resps =~= Multiset::empty());
            assert(rs =~= IMap::<ID, DiskResponse>::empty());
            assert(rq =~= imap![req_id => w]);
            assert(b.in_flight->0.version == sb.version_index);
            assert(vp_pending(t, req_id));
            assert(vp_inv(t));
            assert(vp_i(t).versions =~= vp_i(s).versions);
            assert(vp_i(t) == vp_i(s));
        },
        DiskEvent::ExecuteSyncEnd {} => {
            let id = a.in_flight->0.req_id; let v = a.in_flight->0.version as int;
            vp_single(id, DiskResponse::WriteResp {});
            vp_single(id, DiskRequest::ReadReq { from: vp_at() });
            assert(reqs =~= Multiset::empty());
            assert(rq =~= IMap::<ID, DiskRequest>::empty());
            assert(rs =~= imap![id => DiskResponse::WriteResp {}]);
            assert(rs.contains_key(id));
            assert(s.disk.responses.contains_key(id));
            assert forall|x: ID| !#[trigger] t.disk.requests.contains_key(x) && !#[trigger] t.disk.responses.contains_key(x) by {
                assert(s.disk.responses.contains_key(id));
            }
            assert(b.history.entries =~= a.history.entries.skip(v - a.history.start));
            assert(vp_inv(t));
            assert(vp_i(t).versions.entries =~= vp_i(s).versions.entries);
            assert(vp_i(t) == vp_i(s));
        },
    }
    vp_noop(s, t, l);
}

proof fn vp_disk_step(s: Sys, t: Sys, l: Lbl, nd: DiskModel)
    requires vp_codec(), vp_inv(s), SystemModel::State::disk_internal(s, t, l, nd),
    ensures vp_inv(t), CrashTolerantAsyncMap::State::next(vp_i(s), vp_i(t), vp_lbl(s, t, l)),
{
    reveal(AsyncDisk::State::next); reveal(AsyncDisk::State::next_by);
    let step = choose|step| AsyncDisk::State::next_by(s.disk, nd, DiskLabel::Internal {}, step);
    let a = s.program.state;
    match step {
        AsyncDisk::Step::process_read(id) => {
            assert(vp_pending(s, id));
            assert(a.recovery_state is AwaitingSuperblock);
            assert(vp_inv(t));
            vp_noop(s, t, l);
        },
        AsyncDisk::Step::process_write(id) => {
            assert(vp_pending(s, id));
            assert(vp_ready(s));
            assert(a.in_flight is Some && a.in_flight->0.req_id == id);
            let v = a.in_flight->0.version as int;
            let sb = vp_version(s, v);
            assert(t.disk.content[vp_at()] == spec_marshall(sb));
            assert(spec_unmarshall(spec_marshall(sb)) == sb);
            assert(vp_version(t, v) == sb);
            assert(vp_inv(t));
            reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
            assert(vp_i(t).versions.entries =~= vp_i(s).versions.get_suffix(v).entries);
            assert(vp_i(t).versions =~= vp_i(s).versions.get_suffix(v));
            assert(CrashTolerantAsyncMap::State::next_by(vp_i(s), vp_i(t), vp_lbl(s, t, l), CrashTolerantAsyncMap::Step::sync(v)));
        },
        _ => { assert(false); },
    }
}

proof fn vp_crash(s: Sys, t: Sys, l: Lbl, np: ConcreteProgramModel, nd: DiskModel)
    requires vp_inv(s), SystemModel::State::crash(s, t, l, np, nd),
    ensures vp_inv(t), CrashTolerantAsyncMap::State::next(vp_i(s), vp_i(t), vp_lbl(s, t, l)),
{
    reveal(AsyncDisk::State::next); reveal(AsyncDisk::State::next_by);
    reveal(CrashTolerantAsyncMap::State::next); reveal(CrashTolerantAsyncMap::State::next_by);
    assert(t.program.state == AtomicState::init());
    assert(!vp_ready(t));
    assert(vp_inv(t));
    let i = vp_i(s); let j = vp_i(t);
    assert(i.versions.get_prefix(i.stable_index() + 1).entries =~= seq![i.versions.entries[0]]);
    assert(i.versions.entries[0] == vp_on_disk(s).store);
    assert(i.versions.start == vp_on_disk(s).version_index);
    assert(j.versions =~= i.versions.get_prefix(i.stable_index() + 1));
    assert(j.async_ephemeral.requests =~= iset!{});
    assert(j.async_ephemeral.replies =~= iset!{});
    assert(CrashTolerantAsyncMap::State::next_by(i, j, vp_lbl(s, t, l), CrashTolerantAsyncMap::Step::crash()));
}

// every history of the running store is a history of the crash-tolerant map
pub open spec fn vp_exec(ss: Seq<Sys>, ls: Seq<Lbl>) -> bool {
    &&& ss.len() == ls.len() + 1
    &&& SystemModel::State::initialize(ss[0], ss[0].program, ss[0].disk)
    &&& forall|k: int| 0 <= k < ls.len() ==> SystemModel::State::next(#[trigger] ss[k], ss[k + 1], ls[k]) && vp_env(ss[k], ls[k])
}

pub proof fn vp_every_history(ss: Seq<Sys>, ls: Seq<Lbl>)
    requires vp_codec(), vp_exec(ss, ls),
    ensures
        CrashTolerantAsyncMap::State::initialize(vp_i(ss[0])),
        forall|k: int| 0 <= k < ss.len() ==> vp_inv(#[trigger] ss[k]),
        forall|k: int| 0 <= k < ls.len() ==> CrashTolerantAsyncMap::State::next(vp_i(#[trigger] ss[k]), vp_i(ss[k + 1]), vp_lbl(ss[k], ss[k + 1], ls[k])),
    decreases ls.len(),
{
    if ls.len() == 0 { vp_init(ss[0]); } else {
        let n = (ls.len() - 1) as int;
        let s0 = ss.take(n + 1); let l0 = ls.take(n);
        assert forall|k: int| 0 <= k < l0.len() implies SystemModel::State::next(#[trigger] s0[k], s0[k + 1], l0[k]) && vp_env(s0[k], l0[k]) by {
            assert(SystemModel::State::next(ss[k], ss[k + 1], ls[k]));
        }
        vp_every_history(s0, l0);
        assert(s0[n] == ss[n]);
        assert(vp_inv(s0[n]));
        assert(SystemModel::State::next(ss[n], ss[n + 1], ls[n]) && vp_env(ss[n], ls[n]));
        vp_step(ss[n], ss[n + 1], ls[n]);
        assert(s0[0] == ss[0]);
        assert forall|k: int| 0 <= k < ls.len() implies CrashTolerantAsyncMap::State::next(vp_i(#[trigger] ss[k]), vp_i(ss[k + 1]), vp_lbl(ss[k], ss[k + 1], ls[k])) by {
            if k < n { assert(s0[k] == ss[k] && s0[k + 1] == ss[k + 1] && l0[k] == ls[k]);
                assert(CrashTolerantAsyncMap::State::next(vp_i(s0[k]), vp_i(s0[k + 1]), vp_lbl(s0[k], s0[k + 1], l0[k]))); }
        }
        assert forall|k: int| 0 <= k < ss.len() implies vp_inv(#[trigger] ss[k]) by { if k <= n { assert(s0[k] == ss[k]); } }
    }
}

// the interpretation and labels the repository states are these
pub proof fn vp_their_i(s: Sys, t: Sys, l: Lbl)
    requires vp_inv(s),
    ensures RefinementProof::i(s) == vp_i(s), SystemModel::State::next(s, t, l) ==> RefinementProof::i_lbl(s, t, l) == vp_lbl(s, t, l),
        l.label_correspondence(RefinementProof::i_lbl(s, t, l)),
{
    let a = RefinementProof::i(s); let b = vp_i(s);
    assert(a.versions.entries =~= b.versions.entries);
    assert(a.versions.start == b.versions.start);
    assert(a.sync_requests =~= b.sync_requests);
    reveal(SystemModel::State::next); reveal(SystemModel::State::next_by);
    RefinementProof::i_lbl_valid(s, t, l, RefinementProof::i_lbl(s, t, l));
}

// after a crash the store comes back to what the last completed superblock write holds, whatever was in flight
pub proof fn vp_recovers(s: Sys, t: Sys, u: Sys, v: Sys, id: ID, page: RawPage)
    requires vp_codec(), vp_inv(s), vp_ready(s), SystemModel::State::next(s, t, SystemModel::Label::Crash),
        vp_inv(v), v.disk.content == t.disk.content,
        AtomicState::complete_recovery(u.program.state, v.program.state, Multiset::empty(), Multiset::empty().insert((id, DiskResponse::ReadResp { data: page })), id, page),
        page == t.disk.content[vp_at()],
    ensures ({
        let x = s.program.state; let y = v.program.state;
        let keep = if vp_landed(s) { x.in_flight->0.version } else { x.persistent_version };
        &&& y.history.start == keep && y.history.entries =~= seq![x.history.entries[keep - x.history.start]]
        &&& y.persistent_version == keep && y.in_flight is None && y.sync_req_map =~= IMap::empty()
        &&& x.persistent_version <= keep < x.history.start + x.history.entries.len()
    }),
{
    reveal(SystemModel::State::next); reveal(SystemModel::State::next_by);
    reveal(AsyncDisk::State::next); reveal(AsyncDisk::State::next_by);
}

// nothing that was acknowledged is undone: an answered sync covers everything executed before it was asked for
pub proof fn vp_answered_is_durable(s: Sys, t: Sys, id: SyncReqId)
    requires vp_inv(s), SystemModel::State::next(s, t, SystemModel::Label::ProgramUIOp { op: ProgramUserOp::DeliverSyncReply { sync_req_id: id } }),
        s.program.state.sync_req_map.contains_key(id),
    ensures vp_ready(s), s.program.state.sync_req_map[id] <= s.program.state.persistent_version,
        s.program.state.sync_req_map[id] <= vp_on_disk(s).version_index,
        t.program.state.sync_req_map =~= s.program.state.sync_req_map.remove(id),
        t.program.state.history == s.program.state.history, t.program.state.in_flight == s.program.state.in_flight,
{
    reveal(SystemModel::State::next); reveal(SystemModel::State::next_by);
}

// what each step of the program does, and that it can be taken

pub open spec fn vp_put_post(a: AtomicState, key: Key, value: Value) -> AtomicState {
    AtomicState { history: FloatingSeq { start: a.history.start,
        entries: a.history.entries.push(PersistentState { appv: MapSpec::State { kmmap: a.history.entries.last().appv.kmmap.insert(key, Message::Define { value }) } }) }, ..a }
}

pub proof fn vp_put_enabled(a: AtomicState, id: ID, key: Key, value: Value)
    requires a.recovery_state is RecoveryComplete, a.history.entries.len() > 0,
    ensures AtomicState::map_transition(a, vp_put_post(a, key, value), Request { input: Input::PutInput { key, value }, id }, Reply { output: Output::PutOutput, id }),
{
    reveal(MapSpec::State::next); reveal(MapSpec::State::next_by);
    let b = vp_put_post(a, key, value);
    assert(b.history.get_prefix(a.history.len()).entries =~= a.history.entries);
    assert(b.history.get_prefix(a.history.len()) == a.history);
    assert(MapSpec::State::next_by(a.mapspec(), b.mapspec(), MapSpec::Label::Put { input: Input::PutInput { key, value }, output: Output::PutOutput }, MapSpec::Step::put()));
}

pub proof fn vp_put_only(a: AtomicState, b: AtomicState, req: Request, reply: Reply)
    requires AtomicState::map_transition(a, b, req, reply), a.history.entries.len() > 0,
    ensures
        a.recovery_state is RecoveryComplete, reply.id == req.id,
        b == (AtomicState { history: b.history, ..a }),
        b.history.start == a.history.start,
        a.history.entries.len() <= b.history.entries.len() <= a.history.entries.len() + 1,
        forall|k: int| 0 <= k < a.history.entries.len() ==> b.history.entries[k] == a.history.entries[k],
        req.input is PutInput ==> reply.output is PutOutput && b.history.entries.last().appv.kmmap == a.history.entries.last().appv.kmmap.insert(req.input->PutInput_key, Message::Define { value: req.input->value }),
        req.input is QueryInput ==> reply.output is QueryOutput && b.history.entries.last().appv == a.history.entries.last().appv
            && a.history.entries.last().appv.kmmap[req.input->QueryInput_key]->value == reply.output->value,
        req.input is NoopInput ==> reply.output is NoopOutput && b.history.entries.last().appv == a.history.entries.last().appv,
{
    reveal(MapSpec::State::next); reveal(MapSpec::State::next_by);
    assert(b.history.get_prefix(a.history.len()) == a.history);
    assert(b.history.entries.take(a.history.entries.len() as int) =~= a.history.entries);
    assert forall|k: int| 0 <= k < a.history.entries.len() implies b.history.entries[k] == a.history.entries[k] by {
        assert(b.history.entries.take(a.history.entries.len() as int)[k] == b.history.entries[k]);
    }
}

pub proof fn vp_query_enabled(a: AtomicState, id: ID, key: Key)
    requires a.recovery_state is RecoveryComplete, a.history.entries.len() > 0,
    ensures AtomicState::map_transition(a, a, Request { input: Input::QueryInput { key }, id }, Reply { output: Output::QueryOutput { value: a.history.entries.last().appv.kmmap[key]->value }, id }),
        AtomicState::map_transition(a, a, Request { input: Input::NoopInput, id }, Reply { output: Output::NoopOutput, id }),
{
    reveal(MapSpec::State::next); reveal(MapSpec::State::next_by);
    assert(a.history.get_prefix(a.history.len()).entries =~= a.history.entries);
    assert(a.history.get_prefix(a.history.len()) == a.history);
    assert(MapSpec::State::next_by(a.mapspec(), a.mapspec(), MapSpec::Label::Query { input: Input::QueryInput { key }, output: Output::QueryOutput { value: a.history.entries.last().appv.kmmap[key]->value } }, MapSpec::Step::query()));
    assert(MapSpec::State::next_by(a.mapspec(), a.mapspec(), MapSpec::Label::Noop { input: Input::NoopInput, output: Output::NoopOutput }, MapSpec::Step::noop()));
}

pub proof fn vp_sync_cycle_enabled(s: Sys, id: ID, sid: SyncReqId)
    requires vp_inv(s), vp_ready(s),
    ensures ({
        let a = s.program.state;
        let top = (a.history.start + a.history.entries.len() - 1) as nat;
        let asked = AtomicState { sync_req_map: a.sync_req_map.insert(sid, top), ..a };
        let begun = AtomicState { in_flight: Some(InflightInfo { version: top, req_id: id }), ..a };
        let w = DiskRequest::WriteReq { to: vp_at(), data: spec_marshall(vp_version(s, top as int)) };
        &&& AtomicState::accept_sync_request(a, asked, sid)
        &&& forall|b: AtomicState| AtomicState::accept_sync_request(a, b, sid) ==> b == asked
        &&& (a.in_flight is None ==> AtomicState::disk_transition(a, begun, DiskEvent::ExecuteSyncBegin { req_id: id }, Multiset::empty().insert((id, w)), Multiset::empty()))
        &&& (a.in_flight is Some ==> {
            let v = a.in_flight->0.version;
            AtomicState::disk_transition(a, AtomicState { in_flight: None, persistent_version: v,
                    history: FloatingSeq { start: v, entries: a.history.entries.skip(v - a.history.start) }, ..a },
                DiskEvent::ExecuteSyncEnd {}, Multiset::empty(), Multiset::empty().insert((a.in_flight->0.req_id, DiskResponse::WriteResp {})))
        })
        &&& (a.sync_req_map.contains_key(sid) && a.sync_req_map[sid] <= a.persistent_version ==>
            AtomicState::deliver_sync_reply(a, AtomicState { sync_req_map: a.sync_req_map.remove(sid), ..a }, sid))
    }),
{
    let a = s.program.state;
    let top = a.history.start + a.history.entries.len() - 1;
    assert(a.ephemeral_sb() == vp_version(s, top));
    let w = DiskRequest::WriteReq { to: vp_at(), data: spec_marshall(vp_version(s, top)) };
    assert(Multiset::<(ID, DiskRequest)>::empty().insert((id, w)) =~= Multiset::singleton((id, w)));
    assert(Multiset::<(ID, DiskResponse)>::empty().is_empty());
    if a.in_flight is Some {
        let v = a.in_flight->0.version as int; let rid = a.in_flight->0.req_id;
        assert(Multiset::<(ID, DiskResponse)>::empty().insert((rid, DiskResponse::WriteResp {})) =~= Multiset::singleton((rid, DiskResponse::WriteResp {})));
        assert(a.history.get_suffix(v).entries =~= a.history.entries.skip(v - a.history.start));
        assert(Multiset::<(ID, DiskRequest)>::empty().is_empty());
    }
}

pub proof fn vp_recovery_enabled(s: Sys, id: ID)
    requires vp_inv(s),
    ensures ({
        let a = s.program.state; let sb = vp_on_disk(s); let page = s.disk.content[vp_at()];
        &&& (a.recovery_state is Begin ==> AtomicState::disk_transition(a, AtomicState { recovery_state: RecoveryState::AwaitingSuperblock, ..a },
                DiskEvent::InitiateRecovery { req_id: id }, Multiset::empty().insert((id, DiskRequest::ReadReq { from: vp_at() })), Multiset::empty()))
        &&& (a.recovery_state is AwaitingSuperblock ==> AtomicState::disk_transition(a, AtomicState { recovery_state: RecoveryState::RecoveryComplete,
                history: FloatingSeq { start: sb.version_index, entries: seq![sb.store] }, in_flight: None, persistent_version: sb.version_index, sync_req_map: IMap::empty() },
                DiskEvent::CompleteRecovery { req_id: id, raw_page: page }, Multiset::empty(), Multiset::empty().insert((id, DiskResponse::ReadResp { data: page }))))
        &&& AtomicState::init().recovery_state is Begin
    }),
{
    let sb = vp_on_disk(s);
    assert(singleton_floating_seq(sb.version_index, sb.store.appv.kmmap).entries =~= seq![sb.store]);
    assert(Multiset::<(ID, DiskRequest)>::empty().is_empty());
    assert(Multiset::<(ID, DiskResponse)>::empty().is_empty());
}

// no user operation before recovery is complete
pub proof fn vp_not_before_recovery(a: AtomicState, b: AtomicState, req: Request, reply: Reply, sid: SyncReqId)
    ensures
        AtomicState::map_transition(a, b, req, reply) ==> a.recovery_state is RecoveryComplete,
        AtomicState::accept_sync_request(a, b, sid) ==> a.recovery_state is RecoveryComplete,
        AtomicState::deliver_sync_reply(a, b, sid) ==> a.recovery_state is RecoveryComplete,
{
}

pub proof fn vpfail_inv(s: Sys)
    requires vp_codec(), vp_inv(s), vp_ready(s), s.program.state.in_flight is Some,
    ensures false,
{
}
}
