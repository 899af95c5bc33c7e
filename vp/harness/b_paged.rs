//@ in: betree/PagedBetreeRefinement_v.rs
use vstd::prelude::*;
verus! {
broadcast use crate::betree::PagedBetree_v::vp_ax::vp_betree_child_decreases;
type PB = PagedBetree::State;
type PBL = PagedBetree::Label;
type AM = AbstractMap::State;
type AML = AbstractMap::Label;

// what the tree answers for a key: the default value, with every buffer on the path to it applied, deepest first
pub open spec fn vp_look(n: BetreeNode, k: Key) -> Message
    recommends n.wf() decreases n when n.wf()
{ if n is Nil { Message::Define{ value: default_value() } } else { vp_look(n->children.map[k], k).merge(n->buffer.query(k)) } }
pub proof fn vp_meaning(n: BetreeNode, k: Key)
    requires n.wf(),
    ensures n.i_at(k) == vp_look(n, k), n.i()[k] == vp_look(n, k), vp_look(n, k) is Define,
    decreases n
{
    n.build_query_receipt_valid(k);
    if n is Node { vp_meaning(n.child(k), k); }
    assert(n.i_at(k) == vp_look(n, k));
}
pub proof fn vp_state_meaning(v: PB, k: Key)
    requires v.wf(),
    ensures v.i().stamped_map.seq_end == v.memtable.seq_end, v.i().stamped_map.value[k] == vp_look(v.root, k).merge(v.memtable.query(k)),
        v.i().stamped_map.value[k] is Define,
{
    vp_meaning(v.root, k);
    v.root.merge_buffer_lemma(v.memtable.buffer, k);
    let t = v.root.push_memtable(v.memtable).value;
    if v.root is Nil { assert(t->children.wf()); }
    assert(t.wf());
    vp_meaning(t, k);
}
pub open spec fn vp_lbl(l: PBL) -> AML {
    match l {
        PBL::Query{ end_lsn, key, value } => AML::QueryLabel{ end_lsn, key, value },
        PBL::Put{ puts } => AML::PutLabel{ puts },
        PBL::FreezeAs{ stamped_betree } => AML::FreezeAsLabel{ stamped_map: Stamped{ value: stamped_betree.value.i(), seq_end: stamped_betree.seq_end } },
        PBL::Internal{} => AML::InternalLabel,
    }
}
pub proof fn vp_step(v: PB, w: PB, l: PBL)
    requires v.wf(), PagedBetree::State::next(v, w, l),
    ensures w.wf(), AbstractMap::State::next(v.i(), w.i(), vp_lbl(l)),
{ v.next_refines(w, l); assert(l.i() == vp_lbl(l)); }
pub proof fn vp_init(v: PB, s: StampedBetree, k: Key)
    requires PagedBetree::State::initialize(v, s),
    ensures v.wf(), v.memtable.is_empty(), v.i().stamped_map.seq_end == s.seq_end, v.i().stamped_map.value[k] == vp_look(s.value, k),
        AbstractMap::State::initialize(v.i(), Stamped{ value: s.value.i(), seq_end: s.seq_end }),
{ v.init_refines(s); vp_state_meaning(v, k); vp_meaning(s.value, k); }
pub open spec fn vp_exec(s: Seq<PB>, t: Seq<PBL>) -> bool { s.len() == t.len() + 1 && forall|i: int| 0 <= i < t.len() ==> PagedBetree::State::next(#[trigger] s[i], s[i + 1], t[i]) }
pub proof fn vp_every_history(s: Seq<PB>, t: Seq<PBL>, b: StampedBetree, n: nat)
    requires vp_exec(s, t), PagedBetree::State::initialize(s[0], b), n <= t.len(),
    ensures s[n as int].wf(), forall|i: int| 0 <= i < n ==> AbstractMap::State::next(#[trigger] s[i].i(), s[i + 1].i(), vp_lbl(t[i])),
    decreases n
{
    if n == 0 { vp_init(s[0], b, arbitrary()); }
    else { vp_every_history(s, t, b, (n - 1) as nat); let i = n - 1; assert(PagedBetree::State::next(s[i], s[i + 1], t[i])); vp_step(s[i], s[i + 1], t[i]); }
}
// what each operation does, in terms of answers
pub proof fn vp_effect(v: PB, w: PB, l: PBL, k: Key)
    requires v.wf(), PagedBetree::State::next(v, w, l),
    ensures
        w.wf(),
        l is Query ==> w == v && l->end_lsn == v.memtable.seq_end && (Message::Define{ value: l->value }) == vp_look(v.root, l->key).merge(v.memtable.query(l->key)),
        l is Internal ==> vp_look(w.root, k).merge(w.memtable.query(k)) == vp_look(v.root, k).merge(v.memtable.query(k)) && w.memtable.seq_end == v.memtable.seq_end,
        l is FreezeAs ==> w == v && v.memtable.is_empty() && l->stamped_betree.seq_end == v.memtable.seq_end && vp_look(l->stamped_betree.value, k) == vp_look(v.root, k).merge(v.memtable.query(k)),
        l is Put ==> w.root == v.root && w.memtable == v.memtable.apply_puts(l->puts) && l->puts.wf() && l->puts.seq_start == v.memtable.seq_end,
{
    vp_step(v, w, l);
    vp_state_meaning(v, k); vp_state_meaning(w, k);
    reveal(PagedBetree::State::next); reveal(PagedBetree::State::next_by);
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    if l is Query { vp_state_meaning(v, l->key); vp_meaning(v.root, l->key); }
    if l is FreezeAs { vp_meaning(l->stamped_betree.value, k); }
    if l is Internal { assert(w.i().stamped_map == v.i().stamped_map); }
}
// structure of the tree operations
pub proof fn vp_flush(n: BetreeNode, s: ISet<Key>, k: Key)
    requires n.wf(), n is Node,
    ensures
        n.flush(s).wf(), vp_look(n.flush(s), k) == vp_look(n, k),
        s.contains(k) ==> !n.flush(s)->buffer.contains(k),
        !s.contains(k) ==> n.flush(s)->buffer.query(k) == n->buffer.query(k) && n.flush(s).child(k) == n.child(k),
        s.contains(k) ==> n.flush(s).child(k)->buffer.query(k) == (if n.child(k) is Nil { Message::Update{ delta: nop_delta() } } else { n.child(k)->buffer.query(k) }).merge(n->buffer.query(k)),
{
    n.flush_wf(s);
    if s.contains(k) {
        n.child(k).merge_buffer_lemma(n->buffer.apply_filter(s), k);
        vp_meaning(n.child(k), k); vp_meaning(n.flush(s).child(k), k);
    }
}
pub proof fn vp_split(n: BetreeNode, s: ISet<Key>, t: ISet<Key>, k: Key)
    requires n.wf(), n is Node,
    ensures n.split(s, t).wf(), vp_look(n.split(s, t), k) == vp_look(n, k), n.split(s, t)->buffer == n->buffer,
{
    n.split_wf(s, t);
    vp_meaning(n.child(k), k); vp_meaning(n.split(s, t).child(k), k);
    if s.contains(k) { n.child(k).apply_filter_equivalence(s, k); } else if t.contains(k) { n.child(k).apply_filter_equivalence(t, k); }
}
// replacing a subtree: only keys routed to it can see the difference
pub proof fn vp_substitute(p: Path, r: BetreeNode, k: Key)
    requires p.valid(), r.wf(), forall|x: Key| vp_look(p.target(), x) == vp_look(r, x),
    ensures p.substitute(r).wf(), vp_look(p.substitute(r), k) == vp_look(p.node, k),
{
    p.target_wf();
    assert forall|x: Key| #[trigger] p.target().i().0[x] == r.i().0[x] by { vp_meaning(p.target(), x); vp_meaning(r, x); }
    assert(p.target().i().0 =~= r.i().0);
    p.substitute_equivalence(r);
    vp_meaning(p.node, k); vp_meaning(p.substitute(r), k);
}
// and it can be used
pub proof fn vp_query_enabled(v: PB, k: Key) -> (l: PBL)
    requires v.wf(),
    ensures l is Query, l->key == k, PagedBetree::State::next(v, v, l),
{
    reveal(PagedBetree::State::next); reveal(PagedBetree::State::next_by);
    let r = v.root.build_query_receipt(k);
    v.root.build_query_receipt_valid(k);
    vp_meaning(v.root, k);
    let m = r.result().merge(v.memtable.query(k));
    let l = PBL::Query{ end_lsn: v.memtable.seq_end, key: k, value: m->value };
    assert(PagedBetree::State::next_by(v, v, l, PagedBetree::Step::query(r)));
    l
}
pub proof fn vp_put_enabled(v: PB, h: MsgHistory) -> (w: PB)
    requires v.wf(), h.wf(), h.seq_start == v.memtable.seq_end,
    ensures PagedBetree::State::next(v, w, PBL::Put{ puts: h }), w.memtable.seq_end == h.seq_end,
{
    reveal(PagedBetree::State::next); reveal(PagedBetree::State::next_by);
    let w = PagedBetree::State{ memtable: v.memtable.apply_puts(h), ..v };
    v.memtable.apply_puts_end(h);
    assert(PagedBetree::State::next_by(v, w, PBL::Put{ puts: h }, PagedBetree::Step::put()));
    w
}
pub proof fn vp_freeze_enabled(v: PB) -> (w: PB)
    requires v.wf(),
    ensures PagedBetree::State::next(v, w, PBL::Internal{}), PagedBetree::State::next(w, w, PBL::FreezeAs{ stamped_betree: Stamped{ value: w.root, seq_end: v.memtable.seq_end } }),
{
    let w = PagedBetree::State{ memtable: v.memtable.drain(), root: v.root.push_memtable(v.memtable).value };
    reveal(PagedBetree::State::next); reveal(PagedBetree::State::next_by);
    assert(PagedBetree::State::next_by(v, w, PBL::Internal{}, PagedBetree::Step::internal_flush_memtable()));
    vp_step(v, w, PBL::Internal{});
    let l = PBL::FreezeAs{ stamped_betree: Stamped{ value: w.root, seq_end: v.memtable.seq_end } };
    assert(PagedBetree::State::next_by(w, w, l, PagedBetree::Step::freeze_as()));
    w
}
pub proof fn vp_internal_enabled(v: PB, p: Path, s: ISet<Key>, t: ISet<Key>)
    requires v.wf(), p.valid(), p.node == v.root,
    ensures
        PagedBetree::State::next(v, PagedBetree::State{ root: p.substitute(p.target().flush(s)), ..v }, PBL::Internal{}),
        PagedBetree::State::next(v, PagedBetree::State{ root: p.substitute(p.target().split(s, t)), ..v }, PBL::Internal{}),
        PagedBetree::State::next(v, PagedBetree::State{ root: BetreeNode::Node{ buffer: SimpleBuffer::empty(), children: constant_child_map(v.root) }, ..v }, PBL::Internal{}),
{
    reveal(PagedBetree::State::next); reveal(PagedBetree::State::next_by);
    assert(PagedBetree::State::next_by(v, PagedBetree::State{ root: p.substitute(p.target().flush(s)), ..v }, PBL::Internal{}, PagedBetree::Step::internal_flush(p, s)));
    assert(PagedBetree::State::next_by(v, PagedBetree::State{ root: p.substitute(p.target().split(s, t)), ..v }, PBL::Internal{}, PagedBetree::Step::internal_split(p, s, t)));
    assert(PagedBetree::State::next_by(v, PagedBetree::State{ root: BetreeNode::Node{ buffer: SimpleBuffer::empty(), children: constant_child_map(v.root) }, ..v }, PBL::Internal{}, PagedBetree::Step::internal_grow()));
}
pub proof fn vpfail_step(v: PB, w: PB, l: PBL) requires v.wf(), PagedBetree::State::next(v, w, l) ensures false { vp_step(v, w, l); }
pub proof fn vpfail_nochange(v: PB, w: PB, l: PBL) requires v.wf(), PagedBetree::State::next(v, w, l) ensures w == v
{ reveal(PagedBetree::State::next); reveal(PagedBetree::State::next_by); }
}
