//@ in: betree/PivotBetreeRefinement_v.rs
use vstd::prelude::*;
use crate::spec::Messages_t::{Message, default_value, nop_delta};
use crate::abstract_system::MsgHistory_v::MsgHistory;
verus! {
broadcast use crate::betree::PagedBetree_v::vp_ax::vp_betree_child_decreases;
type VB = PivotBetree::State;
type VBL = PivotBetree::Label;
type PG = PagedBetree::State;
type PGL = PagedBetree::Label;

pub open spec fn vp_start(n: BetreeNode, i: int) -> Element { n->pivots.pivots[i] }
// the answer for a key: walk down the pivots, apply every buffer met on the way, deepest first
pub open spec fn vp_look(n: BetreeNode, k: Key) -> Message
    recommends n.wf() decreases n when n.wf()
{
    if n is Nil { Message::Define{ value: default_value() } }
    else { (if n->pivots.bounded_key(k) && 0 <= n->pivots.route(k) < n->children.len() { vp_look(n->children[n->pivots.route(k)], k) } else { Message::Define{ value: default_value() } }).merge(n->buffer.query(k)) }
}
pub proof fn vp_meaning(n: BetreeNode, k: Key)
    requires n.wf(),
    ensures n.i().wf(), n.i().i_at(k) == vp_look(n, k),
    decreases n
{
    n.i_wf();
    if n is Node {
        n.i_children_lemma();
        assert(n.i().child(k) == n.i_child(k));
        if n->pivots.bounded_key(k) {
            n->pivots.route_lemma(k);
            assert(n.valid_child_index(n->pivots.route(k) as nat));
            vp_meaning(n.child(k), k);
        }
    }
}
pub open spec fn vp_lbl(l: VBL) -> PGL {
    match l {
        VBL::Query{ end_lsn, key, value } => PGL::Query{ end_lsn, key, value },
        VBL::Put{ puts } => PGL::Put{ puts },
        VBL::FreezeAs{ stamped_betree } => PGL::FreezeAs{ stamped_betree: Stamped{ value: stamped_betree.value.i(), seq_end: stamped_betree.seq_end } },
        VBL::Internal{} => PGL::Internal{},
    }
}
pub open spec fn vp_inv(v: VB) -> bool { v.root.wf() && (v.root is Node ==> v.root.my_domain() == total_domain()) }
pub proof fn vp_step(v: VB, w: VB, l: VBL)
    requires vp_inv(v), PivotBetree::State::next(v, w, l),
    ensures vp_inv(w), PagedBetree::State::next(v.i(), w.i(), vp_lbl(l)), v.i().memtable == v.memtable, v.i().root == v.root.i(),
{ v.next_refines(w, l); assert(l.i() == vp_lbl(l)); }
pub open spec fn vp_image(s: StampedBetree) -> bool { s.value.wf() && (s.value is Node ==> s.value.my_domain() == total_domain()) }
// trees frozen by a run, and the empty image, are the images a run starts from
pub proof fn vp_images(v: VB, w: VB, s: StampedBetree)
    requires vp_inv(v), PivotBetree::State::next(v, w, VBL::FreezeAs{ stamped_betree: s }),
    ensures vp_image(s), vp_image(empty_image()), s.seq_end == v.memtable.seq_end, v.memtable.is_empty(), s.value == v.root,
{ reveal(PivotBetree::State::next); reveal(PivotBetree::State::next_by); }
pub proof fn vp_init(v: VB, s: StampedBetree, k: Key)
    requires PivotBetree::State::initialize(v, s), vp_image(s),
    ensures vp_inv(v), v.memtable.is_empty(), v.memtable.seq_end == s.seq_end, v.root == s.value,
        PagedBetree::State::initialize(v.i(), Stamped{ value: s.value.i(), seq_end: s.seq_end }),
{ v.init_refines(s); }
pub open spec fn vp_exec(s: Seq<VB>, t: Seq<VBL>) -> bool { s.len() == t.len() + 1 && forall|i: int| 0 <= i < t.len() ==> PivotBetree::State::next(#[trigger] s[i], s[i + 1], t[i]) }
pub proof fn vp_every_history(s: Seq<VB>, t: Seq<VBL>, b: StampedBetree, n: nat)
    requires vp_exec(s, t), PivotBetree::State::initialize(s[0], b), vp_image(b), n <= t.len(),
    ensures vp_inv(s[n as int]), forall|i: int| 0 <= i < n ==> PagedBetree::State::next(#[trigger] s[i].i(), s[i + 1].i(), vp_lbl(t[i])),
    decreases n
{
    if n == 0 { vp_init(s[0], b, arbitrary()); }
    else { vp_every_history(s, t, b, (n - 1) as nat); let i = n - 1; assert(PivotBetree::State::next(s[i], s[i + 1], t[i])); vp_step(s[i], s[i + 1], t[i]); }
}
pub proof fn vp_flush(n: BetreeNode, c: nat, k: Key)
    requires n.can_flush(c),
    ensures
        n.flush(c).wf(), n.flush(c)->pivots == n->pivots, n.flush(c)->children.len() == n->children.len(),
        forall|i: int| 0 <= i < n->children.len() && i != c ==> #[trigger] n.flush(c)->children[i] == n->children[i],
        n.child_domain(c).contains(k) ==> !n.flush(c)->buffer.contains(k),
        !n.child_domain(c).contains(k) ==> n.flush(c)->buffer.query(k) == n->buffer.query(k),
        n->children[c as int] is Node && n.child_domain(c).contains(k) ==> n.flush(c)->children[c as int]->buffer.query(k) == n->children[c as int]->buffer.query(k).merge(n->buffer.query(k)),
        n->children[c as int] is Nil && n.child_domain(c).contains(k) ==> n.flush(c)->children[c as int]->buffer.query(k) == n->buffer.query(k),
{ n.flush_wf(c); }
// a split cuts one child in two: the halves' ranges meet at the split key and nothing else moves
pub proof fn vp_split(n: BetreeNode, r: SplitRequest, k: Key)
    requires n.can_split_parent(r),
    ensures ({
        let c = r.get_child_idx() as int;
        let s = n.split_parent(r);
        let e = vp_start(s, c + 1);
        &&& s.wf() && s.my_domain() == n.my_domain() && s->buffer == n->buffer && s->children.len() == n->children.len() + 1
        &&& s->children[c] is Node && s->children[c + 1] is Node
        &&& s->children[c].my_domain() == (Domain::Domain{ start: vp_start(n, c), end: e })
        &&& s->children[c + 1].my_domain() == (Domain::Domain{ start: e, end: vp_start(n, c + 1) })
        &&& forall|i: int| 0 <= i < c ==> #[trigger] s->children[i] == n->children[i]
        &&& forall|i: int| c < i < n->children.len() ==> s->children[i + 1] == #[trigger] n->children[i]
        &&& s->children[c].my_domain().contains(k) ==> s->children[c]->buffer.query(k) == n->children[c]->buffer.query(k)
        &&& s->children[c + 1].my_domain().contains(k) ==> s->children[c + 1]->buffer.query(k) == n->children[c]->buffer.query(k)
        &&& !s->children[c].my_domain().contains(k) ==> !s->children[c]->buffer.contains(k)
        &&& !s->children[c + 1].my_domain().contains(k) ==> !s->children[c + 1]->buffer.contains(k)
        &&& (r is SplitLeaf ==> e == to_element(r->split_key))
        &&& (r is SplitIndex ==> e == n->children[c]->pivots.pivots[r->child_pivot_idx as int]
            && s->children[c]->children + s->children[c + 1]->children == n->children[c]->children)
    }),
{
    n.split_parent_wf(r);
    let c = r.get_child_idx() as int;
    let s = n.split_parent(r);
    assert(n.valid_child_index(c as nat));
    assert(s.valid_child_index(c as nat) && s.valid_child_index((c + 1) as nat));
    if r is SplitIndex {
        assert(s->children[c]->children + s->children[c + 1]->children =~= n->children[c]->children);
    }
}
pub proof fn vp_effect(v: VB, w: VB, l: VBL, k: Key)
    requires vp_inv(v), PivotBetree::State::next(v, w, l),
    ensures
        vp_inv(w),
        l is Query ==> w == v && l->end_lsn == v.memtable.seq_end && (Message::Define{ value: l->value }) == vp_look(v.root, l->key).merge(v.memtable.query(l->key)),
        l is Internal ==> w.memtable.seq_end == v.memtable.seq_end,
        l is FreezeAs ==> w == v && v.memtable.is_empty() && l->stamped_betree == (Stamped{ value: v.root, seq_end: v.memtable.seq_end }),
        l is Put ==> w.root == v.root && w.memtable == v.memtable.apply_puts(l->puts) && l->puts.wf() && l->puts.seq_start == v.memtable.seq_end,
{
    vp_step(v, w, l);
    reveal(PivotBetree::State::next); reveal(PivotBetree::State::next_by);
    if l is Query {
        let step = choose|s: PivotBetree::Step| PivotBetree::State::next_by(v, w, l, s);
        match step { PivotBetree::Step::query(r) => { vp_receipt(r, 0); } _ => {} }
    }
}
proof fn vp_receipt(r: QueryReceipt, i: int)
    requires r.valid(), 0 <= i < r.lines.len(),
    ensures r.lines[i].result == vp_look(r.lines[i].node, r.key),
    decreases r.lines.len() - i
{
    if i < r.lines.len() - 1 {
        vp_receipt(r, i + 1);
        assert(r.child_linked_at(i)); assert(r.result_linked_at(i));
        let n = r.lines[i].node;
        assert(n.key_in_domain(r.key));
        n->pivots.route_lemma(r.key);
        assert(r.lines[i].wf());
    }
}
// and it can be used: every key can be looked up, every batch put, every state frozen after a flush of the memtable
pub proof fn vp_build(n: BetreeNode, k: Key) -> (r: QueryReceipt)
    requires n.wf(), n is Node ==> n->pivots.bounded_key(k),
    ensures r.valid_for(n, k), r.result() == vp_look(n, k),
    decreases n
{
    if n is Nil {
        let r = QueryReceipt{ key: k, root: n, lines: seq![QueryReceiptLine{ node: n, result: Message::Define{ value: default_value() } }] };
        r
    } else {
        n->pivots.route_lemma(k);
        let i = n->pivots.route(k);
        assert(n.valid_child_index(i as nat));
        let c = n->children[i];
        assert(n.wf_children());
        assert(n->children[i as nat as int].wf());
        assert(c.wf() && c.local_structure());
        if c is Node { assert(n.linked_children()); assert(c.my_domain() == n.child_domain(i as nat)); }
        let q = vp_build(c, k);
        let r = QueryReceipt{ key: k, root: n, lines: seq![QueryReceiptLine{ node: n, result: q.result().merge(n->buffer.query(k)) }] + q.lines };
        assert forall|j: int| 0 <= j < r.lines.len() - 1 implies #[trigger] r.child_linked_at(j) by {
            assert(r.lines[j + 1] == q.lines[j]);
            if j > 0 { assert(q.child_linked_at(j - 1)); assert(r.lines[j] == q.lines[j - 1]); }
        }
        assert forall|j: int| 0 <= j < r.lines.len() - 1 implies #[trigger] r.result_linked_at(j) by {
            assert(r.lines[j + 1] == q.lines[j]);
            if j > 0 { assert(q.result_linked_at(j - 1)); assert(r.lines[j] == q.lines[j - 1]); }
        }
        assert forall|j: int| 0 <= j < r.lines.len() implies (#[trigger] r.lines[j]).wf() && (r.lines[j].node is Node <==> j < r.lines.len() - 1) by {
            if j > 0 { assert(r.lines[j] == q.lines[j - 1]); assert(q.lines[j - 1].wf()); }
        }
        assert forall|j: int| 0 <= j < r.lines.len() - 1 implies (#[trigger] r.lines[j]).node.key_in_domain(k) by {
            if j > 0 { assert(r.lines[j] == q.lines[j - 1]); assert(q.lines[j - 1].node.key_in_domain(k)); }
        }
        assert(r.lines[0].node == n);
        assert(r.lines.last() == q.lines.last());
        assert(r.structure());
        assert(r.all_lines_wf());
        assert(r.valid());
        r
    }
}
pub proof fn vp_query_enabled(v: VB, k: Key) -> (l: VBL)
    requires vp_inv(v),
    ensures l is Query, l->key == k, PivotBetree::State::next(v, v, l),
{
    reveal(PivotBetree::State::next); reveal(PivotBetree::State::next_by);
    let r = vp_build(v.root, k);
    assert(r.lines[0].wf());
    let m = r.result().merge(v.memtable.query(k));
    let l = VBL::Query{ end_lsn: v.memtable.seq_end, key: k, value: m->value };
    assert(PivotBetree::State::next_by(v, v, l, PivotBetree::Step::query(r)));
    l
}
pub proof fn vp_put_enabled(v: VB, h: MsgHistory) -> (w: VB)
    requires vp_inv(v), h.wf(), h.seq_start == v.memtable.seq_end,
    ensures PivotBetree::State::next(v, w, VBL::Put{ puts: h }), w.memtable.seq_end == h.seq_end,
{
    reveal(PivotBetree::State::next); reveal(PivotBetree::State::next_by);
    let w = PivotBetree::State{ memtable: v.memtable.apply_puts(h), ..v };
    v.memtable.apply_puts_end(h);
    assert(PivotBetree::State::next_by(v, w, VBL::Put{ puts: h }, PivotBetree::Step::put()));
    w
}
pub proof fn vp_freeze_enabled(v: VB) -> (w: VB)
    requires vp_inv(v),
    ensures PivotBetree::State::next(v, w, VBL::Internal{}), PivotBetree::State::next(w, w, VBL::FreezeAs{ stamped_betree: Stamped{ value: w.root, seq_end: v.memtable.seq_end } }),
{
    let w = PivotBetree::State{ memtable: v.memtable.drain(), root: v.root.push_memtable(v.memtable) };
    reveal(PivotBetree::State::next); reveal(PivotBetree::State::next_by);
    assert(PivotBetree::State::next_by(v, w, VBL::Internal{}, PivotBetree::Step::internal_flush_memtable()));
    vp_step(v, w, VBL::Internal{});
    let l = VBL::FreezeAs{ stamped_betree: Stamped{ value: w.root, seq_end: v.memtable.seq_end } };
    assert(PivotBetree::State::next_by(w, w, l, PivotBetree::Step::freeze_as()));
    w
}
pub proof fn vp_internal_enabled(v: VB, p: Path, c: nat, r: SplitRequest)
    requires vp_inv(v), p.valid(), p.node == v.root,
    ensures
        p.target().can_flush(c) ==> PivotBetree::State::next(v, PivotBetree::State{ root: p.substitute(p.target().flush(c)), ..v }, VBL::Internal{}),
        p.target().can_split_parent(r) ==> PivotBetree::State::next(v, PivotBetree::State{ root: p.substitute(p.target().split_parent(r)), ..v }, VBL::Internal{}),
        PivotBetree::State::next(v, PivotBetree::State{ root: v.root.grow(), ..v }, VBL::Internal{}),
{
    reveal(PivotBetree::State::next); reveal(PivotBetree::State::next_by);
    if p.target().can_flush(c) { assert(PivotBetree::State::next_by(v, PivotBetree::State{ root: p.substitute(p.target().flush(c)), ..v }, VBL::Internal{}, PivotBetree::Step::internal_flush(p, c))); }
    if p.target().can_split_parent(r) { assert(PivotBetree::State::next_by(v, PivotBetree::State{ root: p.substitute(p.target().split_parent(r)), ..v }, VBL::Internal{}, PivotBetree::Step::internal_split(p, r))); }
    assert(PivotBetree::State::next_by(v, PivotBetree::State{ root: v.root.grow(), ..v }, VBL::Internal{}, PivotBetree::Step::internal_grow()));
}
// when a leaf or index node can be split
pub proof fn vp_can_split(n: BetreeNode, k: Key, i: nat)
    requires n.wf(), n is Node,
    ensures
        n->children.len() == 1 && n->children[0] is Nil && n.my_domain().contains(k) && n.my_domain()->start != to_element(k) ==> n.can_split_leaf(k),
        (forall|j: int| 0 <= j < n->children.len() ==> #[trigger] n->children[j] is Node) && 0 < i < n->children.len() ==> n.can_split_index(i),
{}
pub proof fn vpfail_step(v: VB, w: VB, l: VBL) requires vp_inv(v), PivotBetree::State::next(v, w, l) ensures false { vp_step(v, w, l); }
pub proof fn vpfail_nochange(v: VB, w: VB, l: VBL) requires vp_inv(v), PivotBetree::State::next(v, w, l) ensures w == v
{ reveal(PivotBetree::State::next); reveal(PivotBetree::State::next_by); }
}
