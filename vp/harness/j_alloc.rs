//@ in: allocation_layer/AllocationJournalRefinement_v.rs
use vstd::prelude::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::allocation_layer::MiniAllocator_v::*;
verus! {

type GJ = AllocationJournal::State;
type GJL = AllocationJournal::Label;

pub proof fn vp_labels(l: GJL)
    ensures
        l is ReadForRecovery ==> l.i() == (LikesJournal::Label::ReadForRecovery{ messages: l->ReadForRecovery_messages }),
        l is FreezeForCommit ==> l.i() == (LikesJournal::Label::FreezeForCommit{ frozen_journal: l->frozen_journal.tj }),
        l is QueryEndLsn ==> l.i() == (LikesJournal::Label::QueryEndLsn{ end_lsn: l->end_lsn }),
        l is Put ==> l.i() == (LikesJournal::Label::Put{ messages: l->Put_messages }),
        l is DiscardOld ==> l.i() == (LikesJournal::Label::DiscardOld{ start_lsn: l->start_lsn, require_end: l->require_end }),
        l is InternalAllocations ==> l.i() == (LikesJournal::Label::Internal{}),
{
}
pub proof fn vp_step(v: GJ, w: GJ, l: GJL)
    requires v.inv(), AllocationJournal::State::next(v, w, l),
    ensures w.inv(), LikesJournal::State::next(v.i(), w.i(), l.i()),
{
    AllocationJournal::State::inv_next(v, w, l);
    v.next_refines(w, l);
}
pub proof fn vp_init(v: GJ, j: LinkedJournal::State, m: JournalImage)
    requires AllocationJournal::State::initialize(v, j, m),
    ensures v.inv(), LikesJournal::State::initialize(v.i(), m.tj), v.mini_allocator == MiniAllocator::empty(),
{
    AllocationJournal::State::initialize_inductive(v, j, m);
    v.init_refines(j, m);
}
pub open spec fn vp_exec(ss: Seq<GJ>, ls: Seq<GJL>, j: LinkedJournal::State, m: JournalImage) -> bool {
    &&& ss.len() == ls.len() + 1
    &&& AllocationJournal::State::initialize(ss[0], j, m)
    &&& forall|k: int| 0 <= k < ls.len() ==> AllocationJournal::State::next(#[trigger] ss[k], ss[k + 1], ls[k])
}
proof fn vp_tail(ss: Seq<GJ>, ls: Seq<GJL>, j: LinkedJournal::State, m: JournalImage, n: nat)
    requires vp_exec(ss, ls, j, m), n <= ls.len(),
    ensures forall|k: int| 0 <= k <= n ==> (#[trigger] ss[k]).inv(),
    decreases n
{
    if n > 0 { vp_tail(ss, ls, j, m, (n - 1) as nat); assert(ss[n - 1].inv()); assert(AllocationJournal::State::next(ss[n - 1], ss[n - 1 + 1], ls[n - 1])); vp_step(ss[n - 1], ss[n as int], ls[n - 1]); }
    else { vp_init(ss[0], j, m); }
}
pub proof fn vp_every_history(ss: Seq<GJ>, ls: Seq<GJL>, j: LinkedJournal::State, m: JournalImage)
    requires vp_exec(ss, ls, j, m),
    ensures
        forall|k: int| 0 <= k < ss.len() ==> (#[trigger] ss[k]).inv(),
        forall|k: int| 0 <= k < ls.len() ==> LikesJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), ls[k].i()),
{
    vp_tail(ss, ls, j, m, ls.len());
    assert forall|k: int| 0 <= k < ls.len() implies LikesJournal::State::next((#[trigger] ss[k]).i(), ss[k + 1].i(), ls[k].i()) by { vp_step(ss[k], ss[k + 1], ls[k]); }
}
// every live sequence number is in the index, at the allocation unit of a record that really holds it
pub proof fn vp_state_meaning(v: GJ, x: LSN)
    requires v.inv(),
    ensures
        v.i().journal == v.journal,
        v.lsn_au_index.contains_key(x) <==> v.tj().seq_start() <= x < v.tj().seq_end(),
        v.lsn_au_index.contains_key(x) ==> v.i().lsn_addr_index.contains_key(x) && v.lsn_au_index[x] == v.i().lsn_addr_index[x].au,
        v.lsn_au_index.contains_key(x) ==> exists|a: Address| a.wf() && a.au == v.lsn_au_index[x] && #[trigger] v.tj().disk_view.addr_supports_lsn(a, x),
{
    let d = v.tj().disk_view;
    let r = v.tj().freshest_rec;
    d.build_lsn_au_index_equiv_page_walk(r, v.first);
    d.build_lsn_au_index_page_walk_consistency(r);
    d.build_lsn_au_index_page_walk_domain(r);
    v.tj().build_lsn_au_index_ensures(v.first);
    assert(d.tj_at(r) == v.tj());
    if v.lsn_au_index.contains_key(x) { d.build_lsn_au_index_page_walk_exist_valid_entries(r); let a = d.instantiate_index_keys_exist_valid_entries(v.lsn_au_index, x); }
}
// nothing live is outside the units the journal owns, and nothing live can be handed out again
pub proof fn vp_owned(v: GJ, a: Address)
    requires v.inv(), v.tj().disk_view.entries.contains_key(a),
    ensures a.wf(), v.lsn_au_index.values().contains(a.au), v.accessible_aus().contains(a.au), !v.mini_allocator.can_allocate(a),
{
    assert(v.tj().disk_view.entries.dom().contains(a));
}
pub proof fn vp_effect(v: GJ, w: GJ, l: GJL)
    requires v.inv(), AllocationJournal::State::next(v, w, l),
    ensures
        w.inv(),
        // a new record goes on a page that held nothing, in a unit the journal already owned
        forall|a: Address| #[trigger] w.tj().disk_view.entries.contains_key(a) && !v.tj().disk_view.entries.contains_key(a) ==>
            v.mini_allocator.allocs.contains_key(a.au) && v.mini_allocator.can_allocate(a) && l is InternalAllocations,
        // a live record never changes
        forall|a: Address| #[trigger] v.tj().disk_view.entries.contains_key(a) && w.tj().disk_view.entries.contains_key(a) ==>
            w.tj().disk_view.entries[a] == v.tj().disk_view.entries[a],
        // units come only from the label, and none is claimed twice
        l is InternalAllocations ==> l->allocs.disjoint(v.lsn_au_index.values()) || l->allocs.is_empty(),
        l is InternalAllocations ==> l->allocs.disjoint(v.mini_allocator.allocs.dom()),
        l is InternalAllocations ==> w.accessible_aus().subset_of(v.accessible_aus() + l->allocs),
        !(l is InternalAllocations) ==> w.accessible_aus().subset_of(v.accessible_aus()),
        // what is given back: exactly the units no live sequence number needs any more
        l is DiscardOld ==> forall|au: AU| #[trigger] l.arrow_DiscardOld_deallocs().contains(au) <==> v.lsn_au_index.values().contains(au) && !w.lsn_au_index.values().contains(au),
        l is DiscardOld ==> forall|au: AU| #[trigger] l.arrow_DiscardOld_deallocs().contains(au) ==> !w.accessible_aus().contains(au),
        l is DiscardOld ==> forall|au: AU| v.accessible_aus().contains(au) && !w.accessible_aus().contains(au) ==> #[trigger] l.arrow_DiscardOld_deallocs().contains(au),
{
    AllocationJournal::State::inv_next(v, w, l);
    reveal(AllocationJournal::State::next); reveal(AllocationJournal::State::next_by);
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
    let step = choose|s: AllocationJournal::Step| AllocationJournal::State::next_by(v, w, l, s);
    match step {
        AllocationJournal::Step::internal_journal_marshal(cut, addr, nj) => {
            let m = v.journal.unmarshalled_tail.discard_recent(cut);
            assert(v.mini_allocator.allocs.contains_key(addr.au));
            assert forall|au: AU| w.accessible_aus().contains(au) implies (v.accessible_aus() + l->allocs).contains(au) by {
                if w.lsn_au_index.values().contains(au) {
                    let x = choose|x: LSN| w.lsn_au_index.contains_key(x) && w.lsn_au_index[x] == au;
                    if v.lsn_au_index.contains_key(x) && v.lsn_au_index[x] == au { } else { assert(au == addr.au); }
                }
            }
        }
        AllocationJournal::Step::discard_old(nj) => {
            assert forall|au: AU| w.lsn_au_index.values().contains(au) implies v.lsn_au_index.values().contains(au) by {
                let x = choose|x: LSN| w.lsn_au_index.contains_key(x) && w.lsn_au_index[x] == au;
                assert(v.lsn_au_index.contains_key(x) && v.lsn_au_index[x] == au);
            }
            assert(w.accessible_aus().subset_of(v.accessible_aus()));
        }
        _ => {}
    }
}
pub proof fn vp_put_enabled(v: GJ, m: MsgHistory) -> (w: GJ)
    requires v.inv(), m.wf(), m.seq_start == v.journal.unmarshalled_tail.seq_end,
    ensures AllocationJournal::State::next(v, w, AllocationJournal::Label::Put{ messages: m }),
{
    reveal(AllocationJournal::State::next); reveal(AllocationJournal::State::next_by);
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
    let nj = LinkedJournal::State{ unmarshalled_tail: v.journal.unmarshalled_tail.concat(m), ..v.journal };
    let w = AllocationJournal::State{ journal: nj, ..v };
    let l = AllocationJournal::Label::Put{ messages: m };
    assert(LinkedJournal::State::next_by(v.journal, nj, AllocationJournal::State::linked_lbl(l), LinkedJournal::Step::put()));
    assert(AllocationJournal::State::next_by(v, w, l, AllocationJournal::Step::put(nj)));
    w
}
pub proof fn vp_fill_enabled(v: GJ, aus: ISet<AU>) -> (w: GJ)
    requires v.inv(), aus.disjoint(v.mini_allocator.allocs.dom()), aus.disjoint(v.lsn_au_index.values()),
    ensures AllocationJournal::State::next(v, w, AllocationJournal::Label::InternalAllocations{ allocs: aus, deallocs: ISet::empty() }),
        aus.subset_of(w.mini_allocator.allocs.dom()),
{
    reveal(AllocationJournal::State::next); reveal(AllocationJournal::State::next_by);
    let l = AllocationJournal::Label::InternalAllocations{ allocs: aus, deallocs: ISet::empty() };
    let w = AllocationJournal::State{ mini_allocator: v.mini_allocator.add_aus(aus), ..v };
    assert(AllocationJournal::State::next_by(v, w, l, AllocationJournal::Step::internal_mini_allocator_fill()));
    w
}
pub proof fn vp_query_enabled(v: GJ)
    requires v.inv(),
    ensures AllocationJournal::State::next(v, v, AllocationJournal::Label::QueryEndLsn{ end_lsn: v.journal.unmarshalled_tail.seq_end }),
{
    reveal(AllocationJournal::State::next); reveal(AllocationJournal::State::next_by);
    reveal(LinkedJournal::State::next); reveal(LinkedJournal::State::next_by);
    let l = AllocationJournal::Label::QueryEndLsn{ end_lsn: v.journal.unmarshalled_tail.seq_end };
    assert(LinkedJournal::State::next_by(v.journal, v.journal, AllocationJournal::State::linked_lbl(l), LinkedJournal::Step::query_end_lsn()));
    assert(AllocationJournal::State::next_by(v, v, l, AllocationJournal::Step::query_end_lsn()));
}
// records can be written as soon as there is a unit to write in
pub proof fn vp_marshal_enabled(v: GJ, cut: LSN, au: AU) -> (w: GJ)
    requires v.inv(), v.journal.unmarshalled_tail.seq_start < cut <= v.journal.unmarshalled_tail.seq_end,
        v.mini_allocator.curr is None, v.mini_allocator.allocs.contains_key(au), v.mini_allocator.allocs[au].all_pages_free(), (Address{ au: au, page: 0 }).wf(),
    ensures AllocationJournal::State::next(v, w, AllocationJournal::Label::InternalAllocations{ allocs: ISet::empty(), deallocs: ISet::empty() }),
        w.tj().seq_end() == cut,
{
    reveal(AllocationJournal::State::next); reveal(AllocationJournal::State::next_by);
    let a = Address{ au: au, page: 0 };
    let m = v.journal.unmarshalled_tail.discard_recent(cut);
    let nj = LinkedJournal::State{ truncated_journal: v.tj().append_record(a, m), unmarshalled_tail: v.journal.unmarshalled_tail.discard_old(cut) };
    let w = AllocationJournal::State{ journal: nj, lsn_au_index: lsn_au_index_append_record(v.lsn_au_index, m, au),
        first: if v.tj().freshest_rec is Some { v.first } else { au }, mini_allocator: v.mini_allocator.allocate(a).observe(a) };
    let l = AllocationJournal::Label::InternalAllocations{ allocs: ISet::empty(), deallocs: ISet::empty() };

    assert(v.mini_allocator.tight_next_addr(v.tj().freshest_rec, a));
    assert(AllocationJournal::State::next_by(v, w, l, AllocationJournal::Step::internal_journal_marshal(cut, a, nj)));
    w
}
pub proof fn vpfail_inv_consistent(v: GJ)
    requires v.inv(), v.tj().freshest_rec is Some,
    ensures false,
{
}
pub proof fn vpfail_step_consistent(v: GJ, w: GJ, l: GJL)
    requires v.inv(), AllocationJournal::State::next(v, w, l), v.tj() != w.tj(),
    ensures false,
{
    vp_step(v, w, l);
}
}
