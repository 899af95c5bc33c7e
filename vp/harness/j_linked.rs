//@ in: journal/LinkedJournalRefinement_v.rs
use vstd::prelude::*;
use crate::journal::PagedJournalRefinement_v::*;
use crate::abstract_system::AbstractJournal_v::AbstractJournal;
verus! {

type LJ = LinkedJournal::State;
type LJL = LinkedJournal::Label;

// the message the on-disk chain of records holds for a sequence number
pub open spec fn vp_on_disk(d: DiskView, p: Pointer, x: LSN) -> Option<KeyedMessage>
    decreases d.the_rank_of(p) when d.decodable(p) && d.acyclic()
{
    if p is None { None } else {
        let r = d.entries[p.unwrap()];
        if r.message_seq.seq_start <= x < r.message_seq.seq_end { Some(r.message_seq.msgs[x]) } else { vp_on_disk(d, d.next(p), x) }
    }
}
proof fn vp_chain(d: DiskView, p: Pointer)
    requires d.decodable(p), d.acyclic(), d.block_in_bounds(p),
    ensures ({
        let r = d.iptr(p);
        let h = PagedJournal_v::JournalRecord::i_opt(r, d.boundary_lsn);
        &&& (r is Some) == (p is Some)
        &&& (r is Some ==> r.unwrap().valid(d.boundary_lsn))
        &&& h.wf() && h.seq_start == d.boundary_lsn && h.seq_end == d.seq_end(p)
        &&& forall|x: LSN| d.boundary_lsn <= x < h.seq_end ==> vp_on_disk(d, p, x) == Some(#[trigger] h.msgs[x])
    }),
    decreases d.the_rank_of(p)
{
    if p is Some {
        d.iptr_output_valid(p);
        let rec = d.iptr(p).unwrap();
        rec.i_lemma(d.boundary_lsn);
        let h = rec.i(d.boundary_lsn);
        let m = d.entries[p.unwrap()].message_seq;
        if rec.message_seq.can_discard_to(d.boundary_lsn) {
            assert forall|x: LSN| d.boundary_lsn <= x < h.seq_end implies vp_on_disk(d, p, x) == Some(#[trigger] h.msgs[x]) by { assert(m.msgs.contains_key(x)); }
        } else {
            vp_chain(d, d.next(p));
            let ph = PagedJournal_v::JournalRecord::i_opt(*rec.prior_rec, d.boundary_lsn);
            assert forall|x: LSN| d.boundary_lsn <= x < h.seq_end implies vp_on_disk(d, p, x) == Some(#[trigger] h.msgs[x]) by {
                if x < m.seq_start { assert(ph.msgs.contains_key(x)); assert(h.msgs[x] == ph.msgs[x]); }
            }
        }
    }
}
// the abstract journal behind a linked journal, message by message
pub proof fn vp_state_meaning(v: LJ)
    requires v.inv(),
    ensures
        v.i().wf(),
        v.i().i().journal.wf(),
        v.i().i().journal.seq_start == v.truncated_journal.disk_view.boundary_lsn,
        v.i().i().journal.seq_end == v.unmarshalled_tail.seq_end,
        forall|x: LSN| v.truncated_journal.disk_view.boundary_lsn <= x < v.unmarshalled_tail.seq_start ==>
            Some(#[trigger] v.i().i().journal.msgs[x]) == vp_on_disk(v.truncated_journal.disk_view, v.truncated_journal.freshest_rec, x),
        forall|x: LSN| v.unmarshalled_tail.seq_start <= x < v.unmarshalled_tail.seq_end ==>
            #[trigger] v.i().i().journal.msgs[x] == v.unmarshalled_tail.msgs[x],
{
    let t = v.truncated_journal;
    vp_chain(t.disk_view, t.freshest_rec);
    v.iwf();
    let h = v.i().truncated_journal.i();
    assert(h == PagedJournal_v::JournalRecord::i_opt(t.disk_view.iptr(t.freshest_rec), t.disk_view.boundary_lsn));
    assert forall|x: LSN| t.disk_view.boundary_lsn <= x < v.unmarshalled_tail.seq_start implies
            Some(#[trigger] v.i().i().journal.msgs[x]) == vp_on_disk(t.disk_view, t.freshest_rec, x) by { assert(h.msgs.contains_key(x)); assert(v.i().i().journal.msgs[x] == h.msgs[x]); }
}
pub proof fn vp_labels(l: LJL)
    ensures
        l is ReadForRecovery ==> l.i() == (PagedJournal::Label::ReadForRecovery{ messages: l->ReadForRecovery_messages }),
        l is FreezeForCommit ==> l.i() is FreezeForCommit && l.i()->frozen_journal == l->frozen_journal.i(),
        l is QueryEndLsn ==> l.i() == (PagedJournal::Label::QueryEndLsn{ end_lsn: l->end_lsn }),
        l is Put ==> l.i() == (PagedJournal::Label::Put{ messages: l->Put_messages }),
        l is DiscardOld ==> l.i() == (PagedJournal::Label::DiscardOld{ start_lsn: l->start_lsn, require_end: l->require_end }),
        l is Internal ==> l.i() is Internal,
{
}
pub proof fn vp_step(v: LJ, w: LJ, l: LJL)
    requires v.inv(), LinkedJournal::State::next(v, w, l),
    ensures w.inv(), PagedJournal::State::next(v.i(), w.i(), l.i()),
{
    assert(w.inv()) by {
        reveal(LinkedJournal::State::next);
        let step = choose|s: LinkedJournal::Step| LinkedJournal::State::next_by(v, w, l, s);
        v.inv_next(w, l, step);
    }
    v.next_refines(w, l);
}
pub proof fn vp_init(v: LJ, t: TruncatedJournal)
    requires LinkedJournal::State::initialize(v, t),
    ensures v.inv(), PagedJournal::State::initialize(v.i(), t.i()), v.unmarshalled_tail.is_empty(), v.truncated_journal == t,
{
    v.init_refines(t);
}
pub open spec fn vp_exec(ss: Seq<LJ>, ls: Seq<LJL>, t: TruncatedJournal) -> bool {
    &&& ss.len() == ls.len() + 1
    &&& LinkedJournal::State::initialize(ss[0], t)
    &&& forall|k: int| 0 <= k < ls.len() ==> LinkedJournal::State::next(#[trigger] ss[k], ss[k + 1], ls[k])
}
proof fn vp_tail(ss: Seq<LJ>, ls: Seq<LJL>, t: TruncatedJournal, n: nat)
    requires vp_exec(ss, ls, t), n <= ls.len(),
    ensures forall|k: int| 0 <= k <= n ==> (#[trigger] ss[k]).inv(),
    decreases n
{
    if n > 0 { vp_tail(ss, ls, t, (n - 1) as nat); assert(ss[n - 1].inv()); assert(LinkedJournal::State::next(ss[n - 1], ss[n - 1 + 1], ls[n - 1])); vp_step(ss[n - 1], ss[n as int], ls[n - 1]); }
    else { vp_init(ss[0], t); }
}
pub proof fn vp_every_history(ss: Seq<LJ>, ls: Seq<LJL>, t: TruncatedJournal)
    requires vp_exec(ss, ls, t),
    ensures
        forall|k: int| 0 <= k < ss.len() ==> (#[trigger] ss[k]).inv(),
        forall|k: int| 0 <= k < ls.len() ==> PagedJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), ls[k].i()),
{
    vp_tail(ss, ls, t, ls.len());
    assert forall|k: int| 0 <= k < ls.len() implies PagedJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), ls[k].i()) by {
        vp_step(ss[k], ss[k + 1], ls[k]);
    }
}
// what a step may do to the records on disk: a live record never changes or disappears
pub proof fn vp_disk(v: LJ, w: LJ, l: LJL)
    requires v.inv(), LinkedJournal::State::next(v, w, l),
    ensures
        !(l is DiscardOld) && !(l is Internal) ==> w.truncated_journal == v.truncated_journal,
        l is Internal ==> v.truncated_journal.disk_view.entries.submap_of(w.truncated_journal.disk_view.entries),
        l is DiscardOld ==> w.truncated_journal.disk_view.entries.submap_of(v.truncated_journal.disk_view.entries),
        l is DiscardOld ==> w.truncated_journal.disk_view.boundary_lsn == l->start_lsn && l->require_end == v.unmarshalled_tail.seq_end && w.unmarshalled_tail.seq_end == v.unmarshalled_tail.seq_end,
        l is Put ==> w.unmarshalled_tail == v.unmarshalled_tail.concat(l->Put_messages) && l->Put_messages.seq_start == v.unmarshalled_tail.seq_end,
        l is FreezeForCommit ==> l->frozen_journal.disk_view.entries.submap_of(v.truncated_journal.disk_view.entries)
            && l->frozen_journal.decodable() && v.truncated_journal.disk_view.boundary_lsn <= l->frozen_journal.disk_view.boundary_lsn,
{
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
}
// nothing a user relies on is switched off
pub proof fn vp_put_enabled(v: LJ, m: MsgHistory) -> (w: LJ)
    requires v.inv(), m.wf(), m.seq_start == v.unmarshalled_tail.seq_end,
    ensures LinkedJournal::State::next(v, w, LinkedJournal::Label::Put{ messages: m }),
{
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
    let w = LinkedJournal::State{ unmarshalled_tail: v.unmarshalled_tail.concat(m), ..v };
    assert(LinkedJournal::State::next_by(v, w, LinkedJournal::Label::Put{ messages: m }, LinkedJournal::Step::put()));
    w
}
pub proof fn vp_query_enabled(v: LJ)
    requires v.inv(),
    ensures LinkedJournal::State::next(v, v, LinkedJournal::Label::QueryEndLsn{ end_lsn: v.unmarshalled_tail.seq_end }),
{
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
    assert(LinkedJournal::State::next_by(v, v, LinkedJournal::Label::QueryEndLsn{ end_lsn: v.unmarshalled_tail.seq_end }, LinkedJournal::Step::query_end_lsn()));
}
pub proof fn vp_marshal_enabled(v: LJ, cut: LSN, a: Address) -> (w: LJ)
    requires v.inv(), v.unmarshalled_tail.seq_start < cut <= v.unmarshalled_tail.seq_end, !v.truncated_journal.disk_view.entries.contains_key(a),
    ensures LinkedJournal::State::next(v, w, LinkedJournal::Label::Internal{}), w.truncated_journal.freshest_rec == Some(a), w.unmarshalled_tail.seq_start == cut,
{
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
    let w = LinkedJournal::State{ truncated_journal: v.truncated_journal.append_record(a, v.unmarshalled_tail.discard_recent(cut)), unmarshalled_tail: v.unmarshalled_tail.discard_old(cut) };
    assert(LinkedJournal::State::next_by(v, w, LinkedJournal::Label::Internal{}, LinkedJournal::Step::internal_journal_marshal(cut, a)));
    w
}
pub proof fn vp_freeze_enabled(v: LJ)
    requires v.inv(),
    ensures LinkedJournal::State::next(v, v, LinkedJournal::Label::FreezeForCommit{ frozen_journal: v.truncated_journal.build_tight() })
        || v.truncated_journal.seq_end() == v.truncated_journal.seq_start(),
{
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
    let t = v.truncated_journal;
    if t.seq_end() != t.seq_start() {
        let f = t.build_tight();
        t.disk_view.build_tight_is_awesome(t.freshest_rec);
        t.disk_view.build_tight_ensures(t.freshest_rec);
        assert(t.crop(0) == t);
        assert(t.discard_old(t.seq_start()) == t);
        assert(f.decodable());
        assert(t.valid_discard_old(t.seq_start(), f));
        assert(LinkedJournal::State::next_by(v, v, LinkedJournal::Label::FreezeForCommit{ frozen_journal: f }, LinkedJournal::Step::freeze_for_commit(0)));
    }
}
pub proof fn vp_mkfs()
    ensures TruncatedJournal::mkfs().decodable(), TruncatedJournal::mkfs().i() == PagedJournal_v::mkfs(), TruncatedJournal::mkfs().seq_start() == 0, TruncatedJournal::mkfs().seq_end() == 0,
{ TruncatedJournal::mkfs_refines(); }
// must not be provable: the invariant does not make a non-empty journal impossible
pub proof fn vpfail_inv_consistent(v: LJ)
    requires v.inv(), v.truncated_journal.freshest_rec is Some,
    ensures false,
{
}
pub proof fn vpfail_step_consistent(v: LJ, w: LJ)
    requires v.inv(), LinkedJournal::State::next(v, w, LinkedJournal::Label::Internal{}), v.truncated_journal != w.truncated_journal,
    ensures false,
{
    vp_step(v, w, LinkedJournal::Label::Internal{});
}
}
