//@ in: journal/PagedJournalRefinement_v.rs
use vstd::prelude::*;
verus! {

type PJ = PagedJournal::State;
type PJL = PagedJournal::Label;
type AJ = AbstractJournal::State;
type AJL = AbstractJournal::Label;

// which message the chain of records stores for a sequence number: the newest record that covers it
pub open spec fn vp_covers(h: MsgHistory, x: LSN) -> bool { h.seq_start <= x < h.seq_end }
pub open spec fn vp_msg_at(r: Option<JournalRecord>, x: LSN) -> Option<KeyedMessage>
    decreases r
{
    match r {
        None => None,
        Some(rec) => if vp_covers(rec.message_seq, x) { Some(rec.message_seq.msgs[x]) } else { vp_msg_at(*rec.prior_rec, x) },
    }
}
// the abstract journal a paged journal stands for, record by record
pub proof fn vp_interpretation(r: Option<JournalRecord>, b: LSN)
    requires r is Some ==> r.unwrap().valid(b),
    ensures ({
        let h = JournalRecord::i_opt(r, b);
        &&& h.wf()
        &&& h.seq_start == b
        &&& h.seq_end == (if r is Some { r.unwrap().message_seq.seq_end } else { b })
        &&& forall|x: LSN| b <= x < h.seq_end ==> vp_msg_at(r, x) == Some(#[trigger] h.msgs[x])
    }),
    decreases r
{
    if r is Some {
        let rec = r.unwrap();
        rec.i_lemma(b);
        let h = rec.i(b);
        if rec.message_seq.can_discard_to(b) {
            assert forall|x: LSN| b <= x < h.seq_end implies vp_msg_at(r, x) == Some(#[trigger] h.msgs[x]) by { assert(vp_covers(rec.message_seq, x)); }
        } else {
            vp_interpretation(*rec.prior_rec, b);
            let p = JournalRecord::i_opt(*rec.prior_rec, b);
            assert forall|x: LSN| b <= x < h.seq_end implies vp_msg_at(r, x) == Some(#[trigger] h.msgs[x]) by {
                if x < rec.message_seq.seq_start { assert(p.msgs.contains_key(x)); assert(h.msgs[x] == p.msgs[x]); }
            }
        }
    }
}
pub proof fn vp_state_meaning(v: PJ)
    requires v.wf(),
    ensures
        v.i().journal.wf(),
        v.i().journal.seq_start == v.truncated_journal.boundary_lsn,
        v.i().journal.seq_end == v.unmarshalled_tail.seq_end,
        forall|x: LSN| v.truncated_journal.boundary_lsn <= x < v.unmarshalled_tail.seq_start ==>
            Some(#[trigger] v.i().journal.msgs[x]) == vp_msg_at(v.truncated_journal.freshest_rec, x),
        forall|x: LSN| v.unmarshalled_tail.seq_start <= x < v.unmarshalled_tail.seq_end ==>
            #[trigger] v.i().journal.msgs[x] == v.unmarshalled_tail.msgs[x],
{
    vp_interpretation(v.truncated_journal.freshest_rec, v.truncated_journal.boundary_lsn);
    let h = v.truncated_journal.i();
    assert(h == JournalRecord::i_opt(v.truncated_journal.freshest_rec, v.truncated_journal.boundary_lsn));
    assert forall|x: LSN| v.truncated_journal.boundary_lsn <= x < v.unmarshalled_tail.seq_start implies
            Some(#[trigger] v.i().journal.msgs[x]) == vp_msg_at(v.truncated_journal.freshest_rec, x) by { assert(h.msgs.contains_key(x)); assert(v.i().journal.msgs[x] == h.msgs[x]); }
}
pub proof fn vp_labels(l: PJL)
    ensures
        l is ReadForRecovery ==> l.i() == (AbstractJournal::Label::ReadForRecoveryLabel{ messages: l->ReadForRecovery_messages }),
        l is FreezeForCommit ==> l.i() is FreezeForCommitLabel && l.i()->frozen_journal == l->frozen_journal.i(),
        l is QueryEndLsn ==> l.i() == (AbstractJournal::Label::QueryEndLsnLabel{ end_lsn: l->end_lsn }),
        l is Put ==> l.i() == (AbstractJournal::Label::PutLabel{ messages: l->Put_messages }),
        l is DiscardOld ==> l.i() == (AbstractJournal::Label::DiscardOldLabel{ start_lsn: l->start_lsn, require_end: l->require_end }),
        l is Internal ==> l.i() is InternalLabel,
{
}
pub proof fn vp_step(v: PJ, w: PJ, l: PJL)
    requires v.wf(), PagedJournal::State::next(v, w, l),
    ensures w.wf(), AbstractJournal::State::next(v.i(), w.i(), l.i()),
{ v.next_refines(w, l); }
pub proof fn vp_init(v: PJ, t: TruncatedJournal)
    requires PagedJournal::State::initialize(v, t),
    ensures v.wf(), AbstractJournal::State::initialize(v.i(), v.i().journal), v.i().journal == t.i(),
{
    v.init_refines(t);
    vp_interpretation(t.freshest_rec, t.boundary_lsn);
    assert(v.i().journal.msgs =~= t.i().msgs);
}
// what each kind of step does to the user-visible history
pub proof fn vp_effect(v: PJ, w: PJ, l: PJL)
    requires v.wf(), PagedJournal::State::next(v, w, l),
    ensures
        l is Put ==> l->Put_messages.seq_start == v.i().journal.seq_end && w.i().journal == v.i().journal.concat(l->Put_messages),
        l is Internal || l is ReadForRecovery || l is FreezeForCommit || l is QueryEndLsn ==> w.i() == v.i(),
        l is QueryEndLsn ==> l->end_lsn == v.i().journal.seq_end,
        l is DiscardOld ==> w.i().journal == v.i().journal.discard_old(l->start_lsn) && l->require_end == v.i().journal.seq_end,
        l is ReadForRecovery ==> v.i().journal.includes_subseq(l->ReadForRecovery_messages),
        l is FreezeForCommit ==> v.i().journal.includes_subseq(l->frozen_journal.i()),
{
    v.next_refines(w, l);
    reveal(AbstractJournal::State::next); reveal(AbstractJournal::State::next_by);
}
pub open spec fn vp_exec(ss: Seq<PJ>, ls: Seq<PJL>) -> bool {
    &&& ss.len() == ls.len() + 1
    &&& PagedJournal::State::init(ss[0])
    &&& forall|k: int| 0 <= k < ls.len() ==> PagedJournal::State::next(#[trigger] ss[k], ss[k + 1], ls[k])
}
pub proof fn vp_every_history(ss: Seq<PJ>, ls: Seq<PJL>)
    requires vp_exec(ss, ls),
    ensures
        AbstractJournal::State::init(ss[0].i()),
        forall|k: int| 0 <= k < ss.len() ==> (#[trigger] ss[k]).wf(),
        forall|k: int| 0 <= k < ls.len() ==> AbstractJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), ls[k].i()),
    decreases ls.len(),
{
    reveal(PagedJournal::State::init); reveal(PagedJournal::State::init_by);
    reveal(AbstractJournal::State::init); reveal(AbstractJournal::State::init_by);
    let t = ss[0].truncated_journal;
    assert(PagedJournal::State::initialize(ss[0], t)) by {
        let step = choose|s: PagedJournal::Config| PagedJournal::State::init_by(ss[0], s);
        match step { PagedJournal::Config::initialize(x) => {} _ => {} }
    }
    vp_init(ss[0], t);
    assert(AbstractJournal::State::init_by(ss[0].i(), AbstractJournal::Config::initialize(ss[0].i().journal)));
    vp_tail(ss, ls, ls.len());
    assert forall|k: int| 0 <= k < ls.len() implies AbstractJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), ls[k].i()) by {
        vp_step(ss[k], ss[k + 1], ls[k]);
    }
}
proof fn vp_tail(ss: Seq<PJ>, ls: Seq<PJL>, n: nat)
    requires vp_exec(ss, ls), ss[0].wf(), n <= ls.len(),
    ensures forall|k: int| 0 <= k <= n ==> (#[trigger] ss[k]).wf(),
    decreases n
{
    if n > 0 { vp_tail(ss, ls, (n - 1) as nat); assert(ss[n - 1].wf()); assert(PagedJournal::State::next(ss[n - 1], ss[n - 1 + 1], ls[n - 1])); vp_step(ss[n - 1], ss[n as int], ls[n - 1]); }
}
// nothing a user relies on is switched off
pub proof fn vp_put_enabled(v: PJ, m: MsgHistory) -> (w: PJ)
    requires v.wf(), m.wf(), m.seq_start == v.seq_end(),
    ensures PagedJournal::State::next(v, w, PagedJournal::Label::Put{ messages: m }),
{
    reveal(PagedJournal::State::next); reveal(PagedJournal::State::next_by);
    let w = PagedJournal::State{ unmarshalled_tail: v.unmarshalled_tail.concat(m), ..v };
    assert(PagedJournal::State::next_by(v, w, PagedJournal::Label::Put{ messages: m }, PagedJournal::Step::put()));
    w
}
pub proof fn vp_query_enabled(v: PJ)
    requires v.wf(),
    ensures PagedJournal::State::next(v, v, PagedJournal::Label::QueryEndLsn{ end_lsn: v.i().journal.seq_end }),
{
    vp_state_meaning(v);
    reveal(PagedJournal::State::next); reveal(PagedJournal::State::next_by);
    assert(PagedJournal::State::next_by(v, v, PagedJournal::Label::QueryEndLsn{ end_lsn: v.i().journal.seq_end }, PagedJournal::Step::query_end_lsn()));
}
pub proof fn vp_discard_enabled(v: PJ, lsn: LSN) -> (w: PJ)
    requires v.wf(), v.truncated_journal.boundary_lsn <= lsn <= v.unmarshalled_tail.seq_end,
    ensures PagedJournal::State::next(v, w, PagedJournal::Label::DiscardOld{ start_lsn: lsn, require_end: v.unmarshalled_tail.seq_end }),
{
    reveal(PagedJournal::State::next); reveal(PagedJournal::State::next_by);
    let l = PagedJournal::Label::DiscardOld{ start_lsn: lsn, require_end: v.unmarshalled_tail.seq_end };
    let c = v.unmarshalled_tail.seq_start <= lsn;
    let w = PagedJournal::State{
        unmarshalled_tail: if c { v.unmarshalled_tail.discard_old(lsn) } else { v.unmarshalled_tail },
        truncated_journal: if c { TruncatedJournal{ boundary_lsn: lsn, freshest_rec: None } } else { v.truncated_journal.discard_old_defn(lsn) } };
    assert(PagedJournal::State::next_by(v, w, l, PagedJournal::Step::discard_old()));
    w
}
pub proof fn vp_marshal_enabled(v: PJ, cut: LSN) -> (w: PJ)
    requires v.wf(), v.unmarshalled_tail.seq_start < cut <= v.unmarshalled_tail.seq_end,
    ensures PagedJournal::State::next(v, w, PagedJournal::Label::Internal{}), w.unmarshalled_tail.seq_start == cut,
        w.truncated_journal.seq_end() == cut, w.i() == v.i(),
{
    reveal(PagedJournal::State::next); reveal(PagedJournal::State::next_by);
    let w = PagedJournal::State{
        truncated_journal: v.truncated_journal.append_record(v.unmarshalled_tail.discard_recent(cut)),
        unmarshalled_tail: v.unmarshalled_tail.discard_old(cut) };
    assert(PagedJournal::State::next_by(v, w, PagedJournal::Label::Internal{}, PagedJournal::Step::internal_journal_marshal(cut)));
    vp_effect(v, w, PagedJournal::Label::Internal{});
    w
}
// the whole marshalled journal can be frozen, from any live boundary on
pub proof fn vp_freeze_enabled(v: PJ, b: LSN) -> (f: TruncatedJournal)
    requires v.wf(), v.truncated_journal.boundary_lsn <= b <= v.unmarshalled_tail.seq_start,
    ensures f.boundary_lsn == b, f.wf(), f.seq_end() == v.unmarshalled_tail.seq_start,
        PagedJournal::State::next(v, v, PagedJournal::Label::FreezeForCommit{ frozen_journal: f }),
{
    reveal(PagedJournal::State::next); reveal(PagedJournal::State::next_by);
    let t = v.truncated_journal;
    let f = t.discard_old_defn(b);
    if t.freshest_rec is Some && b < t.seq_end() {
        t.freshest_rec.unwrap().new_boundary_valid(t.boundary_lsn, b);
        JournalRecord::discard_old_journal_rec_ensures(t.freshest_rec, b);
    }
    assert(t.crop_head_records(0) == t);
    assert(PagedJournal::State::next_by(v, v, PagedJournal::Label::FreezeForCommit{ frozen_journal: f }, PagedJournal::Step::freeze_for_commit(0)));
    f
}
// recovery can read the newest record (cut at the boundary)
pub proof fn vp_recovery_reads(v: PJ)
    requires v.wf(), v.truncated_journal.freshest_rec is Some,
        v.truncated_journal.freshest_rec.unwrap().message_seq.seq_start <= v.truncated_journal.boundary_lsn
            || *v.truncated_journal.freshest_rec.unwrap().prior_rec is Some,
    ensures PagedJournal::State::next(v, v, PagedJournal::Label::ReadForRecovery{
        messages: v.truncated_journal.freshest_rec.unwrap().message_seq.maybe_discard_old(v.truncated_journal.boundary_lsn) }),
{
    reveal(PagedJournal::State::next); reveal(PagedJournal::State::next_by);
    reveal_with_fuel(JournalRecord::can_crop_head_records, 3); reveal_with_fuel(JournalRecord::opt_rec_can_crop_head_records, 3);
    reveal_with_fuel(JournalRecord::crop_head_records, 3); reveal_with_fuel(JournalRecord::valid, 3);
    let t = v.truncated_journal;
    let m = t.freshest_rec.unwrap().message_seq.maybe_discard_old(t.boundary_lsn);
    assert(t.freshest_rec.unwrap().can_crop_head_records(t.boundary_lsn, 1));
    assert(PagedJournal::State::next_by(v, v, PagedJournal::Label::ReadForRecovery{ messages: m }, PagedJournal::Step::read_for_recovery(0)));
}
pub proof fn vpfail_step(v: PJ, w: PJ, l: PJL)
    requires v.wf(), PagedJournal::State::next(v, w, l),
    ensures false,
{ v.next_refines(w, l); }
pub proof fn vpfail_wf(v: PJ) requires v.wf(), v.truncated_journal.freshest_rec is Some ensures false {}

} // verus!
