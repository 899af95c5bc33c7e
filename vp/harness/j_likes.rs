//@ in: allocation_layer/LikesJournalRefinement_v.rs
use vstd::prelude::*;
use crate::disk::GenericDisk_v::*;
use crate::journal::LinkedJournal_v::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::abstract_system::StampedMap_v::LSN;
verus! {

type KJ = LikesJournal::State;
type KJL = LikesJournal::Label;

// meaning of the index: an in-memory sequence number points at exactly the record on disk that supplies it
pub open spec fn vp_supplier(d: DiskView, p: Pointer, x: LSN) -> Pointer
    decreases d.the_rank_of(p) when d.decodable(p) && d.acyclic()
{
    if p is None { None } else {
        let r = d.entries[p.unwrap()];
        if r.message_seq.seq_start <= x < r.message_seq.seq_end { p } else { vp_supplier(d, d.next(p), x) }
    }
}
proof fn vp_index(d: DiskView, p: Pointer)
    requires d.buildable(p),
    ensures
        forall|x: LSN| #[trigger] d.build_lsn_addr_index(p).contains_key(x) <==> d.boundary_lsn <= x < d.seq_end(p),
        forall|x: LSN| d.boundary_lsn <= x < d.seq_end(p) ==> vp_supplier(d, p, x) == Some(#[trigger] d.build_lsn_addr_index(p)[x]),
    decreases d.the_rank_of(p)
{
    if p is Some {
        let r = d.entries[p.unwrap()];
        vp_index(d, d.next(p));
        let ix = d.build_lsn_addr_index(p);
        let nx = d.build_lsn_addr_index(d.next(p));
        assert forall|x: LSN| d.boundary_lsn <= x < d.seq_end(p) implies vp_supplier(d, p, x) == Some(#[trigger] ix[x]) by {
            if x < r.message_seq.seq_start { assert(nx.contains_key(x)); assert(ix[x] == nx[x]); }
        }
        assert forall|x: LSN| #[trigger] ix.contains_key(x) <==> d.boundary_lsn <= x < d.seq_end(p) by { assert(nx.contains_key(x) <==> d.boundary_lsn <= x < d.seq_end(d.next(p))); }
    }
}
pub proof fn vp_state_meaning(v: KJ)
    requires v.inv(),
    ensures
        v.i() == v.journal, v.i().inv(),
        forall|x: LSN| #[trigger] v.lsn_addr_index.contains_key(x) <==> v.journal.truncated_journal.seq_start() <= x < v.journal.truncated_journal.seq_end(),
        forall|x: LSN| v.journal.truncated_journal.seq_start() <= x < v.journal.truncated_journal.seq_end() ==>
            vp_supplier(v.journal.truncated_journal.disk_view, v.journal.truncated_journal.freshest_rec, x) == Some(#[trigger] v.lsn_addr_index[x]),
{
    vp_index(v.journal.truncated_journal.disk_view, v.journal.truncated_journal.freshest_rec);
}
pub proof fn vp_labels(l: KJL)
    ensures
        l is ReadForRecovery ==> KJ::lbl_i(l) == (LinkedJournal::Label::ReadForRecovery{ messages: l->ReadForRecovery_messages }),
        l is FreezeForCommit ==> KJ::lbl_i(l) == (LinkedJournal::Label::FreezeForCommit{ frozen_journal: l->frozen_journal }),
        l is QueryEndLsn ==> KJ::lbl_i(l) == (LinkedJournal::Label::QueryEndLsn{ end_lsn: l->end_lsn }),
        l is Put ==> KJ::lbl_i(l) == (LinkedJournal::Label::Put{ messages: l->Put_messages }),
        l is DiscardOld ==> KJ::lbl_i(l) == (LinkedJournal::Label::DiscardOld{ start_lsn: l->start_lsn, require_end: l->require_end }),
        l is Internal ==> KJ::lbl_i(l) == (LinkedJournal::Label::Internal{}),
{
}
pub proof fn vp_inv(v: KJ, w: KJ, l: KJL)
    requires v.inv(), LikesJournal::State::next(v, w, l),
    ensures w.inv(),
{
    reveal(LikesJournal::State::next); reveal(LikesJournal::State::next_by);
    let step = choose|s: LikesJournal::Step| LikesJournal::State::next_by(v, w, l, s);
    match step {
        LikesJournal::Step::put(nj) => { LikesJournal::State::put_inductive(v, w, l, nj); }
        LikesJournal::Step::discard_old(nj) => { LikesJournal::State::discard_old_inductive(v, w, l, nj); }
        LikesJournal::Step::internal_journal_marshal(cut, a, nj) => { LikesJournal::State::internal_journal_marshal_inductive(v, w, l, cut, a, nj); }
        _ => {}
    }
}
pub proof fn vp_step(v: KJ, w: KJ, l: KJL)
    requires v.inv(), LikesJournal::State::next(v, w, l),
    ensures w.inv(), LinkedJournal::State::next(v.i(), w.i(), KJ::lbl_i(l)),
{
    vp_inv(v, w, l);
    v.next_refines(w, l);
}
pub proof fn vp_init(v: KJ, t: TruncatedJournal)
    requires LikesJournal::State::initialize(v, t),
    ensures v.inv(), LinkedJournal::State::initialize(v.i(), t),
{
    LikesJournal::State::initialize_inductive(v, t);
    v.init_refines(t);
}
pub open spec fn vp_exec(ss: Seq<KJ>, ls: Seq<KJL>, t: TruncatedJournal) -> bool {
    &&& ss.len() == ls.len() + 1
    &&& LikesJournal::State::initialize(ss[0], t)
    &&& forall|k: int| 0 <= k < ls.len() ==> LikesJournal::State::next(#[trigger] ss[k], ss[k + 1], ls[k])
}
proof fn vp_tail(ss: Seq<KJ>, ls: Seq<KJL>, t: TruncatedJournal, n: nat)
    requires vp_exec(ss, ls, t), n <= ls.len(),
    ensures forall|k: int| 0 <= k <= n ==> (#[trigger] ss[k]).inv(),
    decreases n
{
    if n > 0 { vp_tail(ss, ls, t, (n - 1) as nat); assert(ss[n - 1].inv()); assert(LikesJournal::State::next(ss[n - 1], ss[n - 1 + 1], ls[n - 1])); vp_step(ss[n - 1], ss[n as int], ls[n - 1]); }
    else { vp_init(ss[0], t); }
}
pub proof fn vp_every_history(ss: Seq<KJ>, ls: Seq<KJL>, t: TruncatedJournal)
    requires vp_exec(ss, ls, t),
    ensures
        forall|k: int| 0 <= k < ss.len() ==> (#[trigger] ss[k]).inv(),
        forall|k: int| 0 <= k < ls.len() ==> LinkedJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), KJ::lbl_i(ls[k])),
{
    vp_tail(ss, ls, t, ls.len());
    assert forall|k: int| 0 <= k < ls.len() implies LinkedJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), KJ::lbl_i(ls[k])) by { vp_step(ss[k], ss[k + 1], ls[k]); }
}
proof fn vp_supplier_live(d: DiskView, p: Pointer, x: LSN)
    requires d.decodable(p), d.acyclic(),
    ensures vp_supplier(d, p, x) is Some ==> d.entries.contains_key(vp_supplier(d, p, x).unwrap()),
    decreases d.the_rank_of(p)
{ if p is Some { vp_supplier_live(d, d.next(p), x); } }
// a page the index still needs is never given up, and one that is given up is no longer needed
pub proof fn vp_kept(v: KJ, w: KJ, l: KJL)
    requires v.inv(), LikesJournal::State::next(v, w, l),
    ensures
        w.inv(),
        w.lsn_addr_index.values().subset_of(w.journal.truncated_journal.disk_view.entries.dom()),
        l is DiscardOld ==> forall|x: LSN| #[trigger] w.lsn_addr_index.contains_key(x) <==> v.lsn_addr_index.contains_key(x) && l->start_lsn <= x,
        l is DiscardOld ==> forall|x: LSN| v.lsn_addr_index.contains_key(x) && l->start_lsn <= x ==> #[trigger] w.lsn_addr_index[x] == v.lsn_addr_index[x],
        !(l is DiscardOld) ==> forall|x: LSN| #[trigger] v.lsn_addr_index.contains_key(x) ==> w.lsn_addr_index.contains_key(x) && w.lsn_addr_index[x] == v.lsn_addr_index[x],
{
    vp_inv(v, w, l);
    vp_state_meaning(v); vp_state_meaning(w);
    let t = w.journal.truncated_journal;
    if t.freshest_rec is Some {
        assert forall|a: Address| w.lsn_addr_index.values().contains(a) implies t.disk_view.entries.dom().contains(a) by {
            let x = choose|x: LSN| w.lsn_addr_index.contains_key(x) && w.lsn_addr_index[x] == a;
            vp_supplier_live(t.disk_view, t.freshest_rec, x);
        }
    }
    reveal(LikesJournal::State::next); reveal(LikesJournal::State::next_by);
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
}
pub proof fn vp_put_enabled(v: KJ, m: MsgHistory) -> (w: KJ)
    requires v.inv(), m.wf(), m.seq_start == v.journal.unmarshalled_tail.seq_end,
    ensures LikesJournal::State::next(v, w, LikesJournal::Label::Put{ messages: m }),
{
    reveal(LikesJournal::State::next); reveal(LikesJournal::State::next_by);
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
    let nj = LinkedJournal::State{ unmarshalled_tail: v.journal.unmarshalled_tail.concat(m), ..v.journal };
    let w = LikesJournal::State{ journal: nj, ..v };
    let l = LikesJournal::Label::Put{ messages: m };
    assert(LinkedJournal::State::next_by(v.journal, nj, KJ::lbl_i(l), LinkedJournal::Step::put()));
    assert(LikesJournal::State::next_by(v, w, l, LikesJournal::Step::put(nj)));
    w
}
pub proof fn vp_marshal_enabled(v: KJ, cut: LSN, a: Address) -> (w: KJ)
    requires v.inv(), v.journal.unmarshalled_tail.seq_start < cut <= v.journal.unmarshalled_tail.seq_end, !v.journal.truncated_journal.disk_view.entries.contains_key(a),
    ensures LikesJournal::State::next(v, w, LikesJournal::Label::Internal{}),
        forall|x: LSN| v.journal.unmarshalled_tail.seq_start <= x < cut ==> #[trigger] w.lsn_addr_index.contains_key(x) && w.lsn_addr_index[x] == a,
{
    reveal(LikesJournal::State::next); reveal(LikesJournal::State::next_by);
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
    let m = v.journal.unmarshalled_tail.discard_recent(cut);
    let nj = LinkedJournal::State{ truncated_journal: v.journal.truncated_journal.append_record(a, m), unmarshalled_tail: v.journal.unmarshalled_tail.discard_old(cut) };
    let w = LikesJournal::State{ journal: nj, lsn_addr_index: lsn_addr_index_append_record(v.lsn_addr_index, m, a) };
    let l = LikesJournal::Label::Internal{};
    assert(LinkedJournal::State::next_by(v.journal, nj, KJ::lbl_i(l), LinkedJournal::Step::internal_journal_marshal(cut, a)));
    assert(LikesJournal::State::next_by(v, w, l, LikesJournal::Step::internal_journal_marshal(cut, a, nj)));
    w
}
pub proof fn vp_query_enabled(v: KJ)
    requires v.inv(),
    ensures LikesJournal::State::next(v, v, LikesJournal::Label::QueryEndLsn{ end_lsn: v.journal.unmarshalled_tail.seq_end }),
{
    reveal(LikesJournal::State::next); reveal(LikesJournal::State::next_by);
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
    let l = LikesJournal::Label::QueryEndLsn{ end_lsn: v.journal.unmarshalled_tail.seq_end };
    assert(LinkedJournal::State::next_by(v.journal, v.journal, KJ::lbl_i(l), LinkedJournal::Step::query_end_lsn()));
    assert(LikesJournal::State::next_by(v, v, l, LikesJournal::Step::query_end_lsn()));
}
pub proof fn vpfail_inv_consistent(v: KJ)
    requires v.inv(), v.journal.truncated_journal.freshest_rec is Some,
    ensures false,
{
    vp_state_meaning(v);
}
pub proof fn vpfail_step_consistent(v: KJ, w: KJ)
    requires v.inv(), LikesJournal::State::next(v, w, LikesJournal::Label::Internal{}), v != w,
    ensures false,
{
    vp_step(v, w, LikesJournal::Label::Internal{});
}
}
