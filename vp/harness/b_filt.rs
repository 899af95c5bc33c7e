//@ in: betree/FilteredBetreeRefinement_v.rs
use vstd::prelude::*;
use crate::spec::Messages_t::{Message, default_value, nop_delta};
use crate::abstract_system::MsgHistory_v::MsgHistory;
verus! {
broadcast use crate::betree::PagedBetree_v::vp_ax::vp_betree_child_decreases;
type VB = FilteredBetree::State;
type VBL = FilteredBetree::Label;
type PG = PivotBetree::State;
type PGL = PivotBetree::Label;

pub open spec fn vp_start(n: BetreeNode, i: int) -> Element { n->pivots.pivots[i] }
// what this node itself says about a key: its buffers not yet flushed to the child that owns the key
pub open spec fn vp_here(n: BetreeNode, k: Key) -> Message
    recommends n.wf(), n is Node
{
    if n->pivots.bounded_key(k) { n->buffers.query_from(k, n->flushed.offsets[n->pivots.route(k)] as int) } else { Message::Update{ delta: nop_delta() } }
}
pub open spec fn vp_look(n: BetreeNode, k: Key) -> Message
    recommends n.wf() decreases n when n.wf()
{
    if n is Nil { Message::Define{ value: default_value() } }
    else { (if n->pivots.bounded_key(k) && 0 <= n->pivots.route(k) < n->children.len() { vp_look(n->children[n->pivots.route(k)], k) } else { Message::Define{ value: default_value() } }).merge(vp_here(n, k)) }
}
pub open spec fn vp_plook(n: PivotBetree_v::BetreeNode, k: Key) -> Message
    recommends n.wf() decreases n when n.wf()
{
    if n is Nil { Message::Define{ value: default_value() } }
    else { (if n->pivots.bounded_key(k) && 0 <= n->pivots.route(k) < n->children.len() { vp_plook(n->children[n->pivots.route(k)], k) } else { Message::Define{ value: default_value() } }).merge(n->buffer.query(k)) }
}
pub proof fn vp_local(n: BetreeNode, k: Key)
    requires n.wf(), n is Node,
    ensures n.i().wf(), n.i() is Node, n.i()->buffer.query(k) == vp_here(n, k), n.i()->pivots == n->pivots, n.i()->children.len() == n->children.len(),
        forall|i: int| 0 <= i < n->children.len() ==> #[trigger] n.i()->children[i] == n->children[i].i(),
{
    n.i_wf(); n.i_children_lemma(); n.i_buffer_domain();
    assert forall|i: int| 0 <= i < n->children.len() implies #[trigger] n.i()->children[i] == n->children[i].i() by { assert(n.valid_child_index(i as nat)); }
    if n->pivots.bounded_key(k) { n.query_from_refines(k); }
}
pub proof fn vp_meaning(n: BetreeNode, k: Key)
    requires n.wf(),
    ensures n.i().wf(), n is Node <==> n.i() is Node, vp_plook(n.i(), k) == vp_look(n, k), n is Node ==> n.i().my_domain() == n.my_domain(),
    decreases n
{
    n.i_wf();
    if n is Node {
        vp_local(n, k);
        if n->pivots.bounded_key(k) {
            n->pivots.route_lemma(k);
            let i = n->pivots.route(k);
            assert(n.valid_child_index(i as nat));
            assert(n.wf_children());
            assert(n->children[i as nat as int].wf());
            vp_meaning(n->children[i], k);
            assert(n.i()->children[i] == n->children[i].i());
        }
    }
}
pub open spec fn vp_lbl(l: VBL) -> PGL {
    match l {
        VBL::Query{ end_lsn, key, value } => PGL::Query{ end_lsn, key, value },
        VBL::Put{ puts } => PGL::Put{ puts },
        VBL::FreezeAs{ stamped_betree } => PGL::FreezeAs{ stamped_betree: Stamped{ value: stamped_betree.value.i(), seq_end: stamped_betree.seq_end } },
        VBL::Internal{} => PGL::Internal{},
    }
}
pub open spec fn vp_inv(v: VB) -> bool { v.root.wf() && (v.root is Node ==> v.root.my_domain() == total_domain()) }
pub proof fn vp_step(v: VB, w: VB, l: VBL)
    requires vp_inv(v), FilteredBetree::State::next(v, w, l),
    ensures vp_inv(w), PivotBetree::State::next(v.i(), w.i(), vp_lbl(l)), v.i().memtable == v.memtable, v.i().root == v.root.i(),
{
    v.next_refines(w, l);
    reveal(FilteredBetree::State::next); reveal(FilteredBetree::State::next_by);
    assert(l.i() == vp_lbl(l));
}
pub open spec fn vp_image(s: StampedBetree) -> bool { s.value.wf() && (s.value is Node ==> s.value.my_domain() == total_domain()) }
pub proof fn vp_images(v: VB, w: VB, s: StampedBetree)
    requires vp_inv(v), FilteredBetree::State::next(v, w, VBL::FreezeAs{ stamped_betree: s }),
    ensures vp_image(s), vp_image(empty_image()), empty_image().value is Nil, empty_image().seq_end == 0, s.seq_end == v.memtable.seq_end, v.memtable.is_empty(), s.value == v.root,
{ reveal(FilteredBetree::State::next); reveal(FilteredBetree::State::next_by); }
pub proof fn vp_init(v: VB, s: StampedBetree)
    requires FilteredBetree::State::initialize(v, s), vp_image(s),
    ensures vp_inv(v), v.memtable.is_empty(), v.memtable.seq_end == s.seq_end, v.root == s.value,
        PivotBetree::State::initialize(v.i(), Stamped{ value: s.value.i(), seq_end: s.seq_end }),
{ v.init_refines(s); }
pub open spec fn vp_exec(s: Seq<VB>, t: Seq<VBL>) -> bool { s.len() == t.len() + 1 && forall|i: int| 0 <= i < t.len() ==> FilteredBetree::State::next(#[trigger] s[i], s[i + 1], t[i]) }
pub proof fn vp_every_history(s: Seq<VB>, t: Seq<VBL>, b: StampedBetree, n: nat)
    requires vp_exec(s, t), FilteredBetree::State::initialize(s[0], b), vp_image(b), n <= t.len(),
    ensures vp_inv(s[n as int]), forall|i: int| 0 <= i < n ==> PivotBetree::State::next(#[trigger] s[i].i(), s[i + 1].i(), vp_lbl(t[i])),
    decreases n
{
    if n == 0 { vp_init(s[0], b); }
    else { vp_every_history(s, t, b, (n - 1) as nat); let i = n - 1; assert(FilteredBetree::State::next(s[i], s[i + 1], t[i])); vp_step(s[i], s[i + 1], t[i]); }
}
// a flush hands the child's unseen buffers down; only that child and the node's own record of what it passed on change
pub proof fn vp_flush(n: BetreeNode, c: nat, gc: nat, k: Key)
    requires n.can_flush(c, gc),
    ensures
        n.flush(c, gc).wf(), n.flush(c, gc)->pivots == n->pivots, n.flush(c, gc)->children.len() == n->children.len(),
        forall|i: int| 0 <= i < n->children.len() && i != c ==> #[trigger] n.flush(c, gc)->children[i] == n->children[i],
        n.child_domain(c).contains(k) ==> vp_here(n.flush(c, gc), k) == (Message::Update{ delta: nop_delta() }),
        !n.child_domain(c).contains(k) ==> vp_here(n.flush(c, gc), k) == vp_here(n, k),
        n->children[c as int] is Node && n.child_domain(c).contains(k) ==> vp_here(n.flush(c, gc)->children[c as int], k) == vp_here(n->children[c as int], k).merge(vp_here(n, k)),
        n->children[c as int] is Nil && n.child_domain(c).contains(k) ==> n.flush(c, gc)->children[c as int] is Node && vp_here(n.flush(c, gc)->children[c as int], k) == vp_here(n, k),
        n.flush(c, gc)->buffers.len() + gc == n->buffers.len(),
{
    let f = n.flush(c, gc);
    n.flush_wf(c, gc); n.flush_commutes_with_i(c, gc);
    vp_local(n, k); vp_local(f, k);
    let u = n->flushed.update(c as int, n->buffers.len());
    assert(u.offsets[c as int] == n->buffers.len() && u.offsets[c as int] >= gc);
    assert(n.valid_child_index(c) && f.valid_child_index(c));
    assert(n.wf_children() && f.wf_children());
    assert(n->children[c as int].wf() && f->children[c as int].wf());
    vp_local(f->children[c as int], k);
    assert(f.i()->children[c as int] == f->children[c as int].i());
    assert(n.i()->children[c as int] == n->children[c as int].i());
    if n->children[c as int] is Node { vp_local(n->children[c as int], k); }
}
// a merge of some of a node's buffers changes no answer, and can always be done
pub proof fn vp_compact(n: BetreeNode, s: nat, e: nat, b: SimpleBuffer, k: Key)
    requires n.can_compact(s, e, b),
    ensures
        n.compact(s, e, b).wf(), vp_here(n.compact(s, e, b), k) == vp_here(n, k), vp_look(n.compact(s, e, b), k) == vp_look(n, k),
        n.compact(s, e, b)->pivots == n->pivots, n.compact(s, e, b)->children == n->children, n.compact(s, e, b)->buffers.len() == n->buffers.len() - (e - s) + 1,
{
    n.compact_wf(s, e, b); n.compact_commutes_with_i(s, e, b);
    vp_local(n, k); vp_local(n.compact(s, e, b), k);
    vp_meaning(n, k); vp_meaning(n.compact(s, e, b), k);
}
pub proof fn vp_compact_enabled(n: BetreeNode, s: nat, e: nat) -> (b: SimpleBuffer)
    requires n.wf(), n is Node, s < e <= n->buffers.len(),
    ensures n.can_compact(s, e, b),
{
    let om = n.make_offset_map().decrement(s);
    let sl = n->buffers.slice(s as int, e as int);
    let b = sl.i_filtered(om);
    sl.i_filtered_from_domain(om, 0);
    reveal(BetreeNode::valid_compact_key_domain);
    assert forall|k: Key| #[trigger] b.map.contains_key(k) <==> n.valid_compact_key_domain(s, e, k) by {}
    assert forall|k: Key| #![trigger b.query(k)] b.map.contains_key(k) implies ({
            let from = if n.flushed_ofs(k) <= s { 0 } else { n.flushed_ofs(k) - s };
            b.query(k) == sl.query_from(k, from) }) by {
        sl.query_from_same_as_i_filtered(k, 0, om);
    }
    b
}
// a split cuts one child in two: the halves' ranges meet at the split key and nothing else moves
pub proof fn vp_split(n: BetreeNode, r: SplitRequest, k: Key)
    requires n.can_split_parent(r),
    ensures ({
        let c = r.get_child_idx() as int;
        let s = n.split_parent(r);
        let e = vp_start(s, c + 1);
        &&& s.wf() && s.my_domain() == n.my_domain() && s->buffers == n->buffers && s->children.len() == n->children.len() + 1
        &&& vp_here(s, k) == vp_here(n, k)
        &&& s->children[c] is Node && s->children[c + 1] is Node
        &&& s->children[c].my_domain() == (Domain::Domain{ start: vp_start(n, c), end: e })
        &&& s->children[c + 1].my_domain() == (Domain::Domain{ start: e, end: vp_start(n, c + 1) })
        &&& forall|i: int| 0 <= i < c ==> #[trigger] s->children[i] == n->children[i]
        &&& forall|i: int| c < i < n->children.len() ==> s->children[i + 1] == #[trigger] n->children[i]
        &&& s->children[c].my_domain().contains(k) ==> vp_here(s->children[c], k) == vp_here(n->children[c], k)
        &&& s->children[c + 1].my_domain().contains(k) ==> vp_here(s->children[c + 1], k) == vp_here(n->children[c], k)
        &&& (r is SplitLeaf ==> e == to_element(r->split_key))
        &&& (r is SplitIndex ==> e == n->children[c]->pivots.pivots[r->child_pivot_idx as int]
            && s->children[c]->children + s->children[c + 1]->children == n->children[c]->children)
    }),
{
    n.split_parent_wf(r); n.split_parent_commutes_with_i(r);
    let c = r.get_child_idx() as int;
    let s = n.split_parent(r);
    assert(n.valid_child_index(c as nat));
    assert(s.valid_child_index(c as nat) && s.valid_child_index((c + 1) as nat));
    assert(n.wf_children() && s.wf_children());
    assert(n->children[c as nat as int].wf() && s->children[c as nat as int].wf() && s->children[(c + 1) as nat as int].wf());
    vp_local(n, k); vp_local(s, k);
    assert(n.i()->children[c] == n->children[c].i());
    assert(s.i()->children[c] == s->children[c].i());
    assert(s.i()->children[c + 1] == s->children[c + 1].i());
    vp_local(n->children[c], k); vp_local(s->children[c], k); vp_local(s->children[c + 1], k);
    if r is SplitIndex {
        assert(s->children[c]->children + s->children[c + 1]->children =~= n->children[c]->children);
    }
}
pub proof fn vp_effect(v: VB, w: VB, l: VBL)
    requires vp_inv(v), FilteredBetree::State::next(v, w, l),
    ensures
        vp_inv(w),
        l is Query ==> w == v && l->end_lsn == v.memtable.seq_end && (Message::Define{ value: l->value }) == vp_look(v.root, l->key).merge(v.memtable.query(l->key)),
        l is Internal ==> w.memtable.seq_end == v.memtable.seq_end,
        l is FreezeAs ==> w == v && v.memtable.is_empty() && l->stamped_betree == (Stamped{ value: v.root, seq_end: v.memtable.seq_end }),
        l is Put ==> w.root == v.root && w.memtable == v.memtable.apply_puts(l->puts) && l->puts.wf() && l->puts.seq_start == v.memtable.seq_end,
{
    vp_step(v, w, l);
    reveal(FilteredBetree::State::next); reveal(FilteredBetree::State::next_by);
    if l is Query {
        let step = choose|s: FilteredBetree::Step| FilteredBetree::State::next_by(v, w, l, s);
        match step { FilteredBetree::Step::query(r) => { vp_receipt(r, 0); } _ => {} }
    }
}
proof fn vp_receipt(r: QueryReceipt, i: int)
    requires r.valid(), 0 <= i < r.lines.len(),
    ensures r.lines[i].result == vp_look(r.lines[i].node, r.key),
    decreases r.lines.len() - i
{
    assert(r.lines[i as nat as int].node is Node <==> i < r.lines.len() - 1);
    if i < r.lines.len() - 1 {
        vp_receipt(r, i + 1);
        assert(r.child_linked_at(i)); assert(r.result_linked_at(i));
        let n = r.lines[i].node;
        assert(n.key_in_domain(r.key));
        n->pivots.route_lemma(r.key);
        assert(r.lines[i].wf());
    } else {
        assert(r.lines[i] == r.lines.last());
    }
}
pub proof fn vp_build(n: BetreeNode, k: Key) -> (r: QueryReceipt)
    requires n.wf(), n is Node ==> n->pivots.bounded_key(k),
    ensures r.valid_for(n, k), r.result() == vp_look(n, k),
    decreases n
{
    if n is Nil {
        let r = QueryReceipt{ key: k, root: n, lines: seq![QueryReceiptLine{ node: n, result: Message::Define{ value: default_value() } }] };
        r
    } else {
        n->pivots.route_lemma(k);
        let i = n->pivots.route(k);
        assert(n.valid_child_index(i as nat));
        let c = n->children[i];
        assert(n.wf_children());
        assert(n->children[i as nat as int].wf());
        assert(c.wf() && c.local_structure());
        if c is Node { assert(n.linked_children()); assert(c.my_domain() == n.child_domain(i as nat)); }
        let q = vp_build(c, k);
        let r = QueryReceipt{ key: k, root: n, lines: seq![QueryReceiptLine{ node: n, result: q.result().merge(vp_here(n, k)) }] + q.lines };
        assert forall|j: int| 0 <= j < r.lines.len() - 1 implies #[trigger] r.child_linked_at(j) by {
            assert(r.lines[j + 1] == q.lines[j]);
            if j > 0 { assert(q.child_linked_at(j - 1)); assert(r.lines[j] == q.lines[j - 1]); }
        }
        assert forall|j: int| 0 <= j < r.lines.len() - 1 implies #[trigger] r.result_linked_at(j) by {
            assert(r.lines[j + 1] == q.lines[j]);
            if j > 0 { assert(q.result_linked_at(j - 1)); assert(r.lines[j] == q.lines[j - 1]); }
        }
        assert forall|j: int| 0 <= j < r.lines.len() implies (#[trigger] r.lines[j]).wf() by {
            if j > 0 { assert(r.lines[j] == q.lines[j - 1]); assert(q.lines[j - 1].wf()); }
            else { assert(q.lines[0].wf()); vp_def(q.result(), vp_here(n, k)); }
        }
        assert forall|j: nat| j < r.lines.len() implies ((#[trigger] r.lines[j as int].node is Node) <==> j < r.lines.len() - 1) by {
            if j > 0 { assert(r.lines[j as int] == q.lines[j - 1]); let m = (j - 1) as nat; assert(q.lines[m as int].node is Node <==> m < q.lines.len() - 1); }
        }
        assert forall|j: int| 0 <= j < r.lines.len() - 1 implies (#[trigger] r.lines[j]).node.key_in_domain(k) by {
            if j > 0 { assert(r.lines[j] == q.lines[j - 1]); assert(q.lines[j - 1].node.key_in_domain(k)); }
        }
        assert(r.lines[0].node == n);
        assert(r.lines.last() == q.lines.last());
        assert(r.structure());
        assert(r.all_lines_wf());
        assert(r.valid());
        r
    }
}
proof fn vp_def(a: Message, b: Message) requires a is Define ensures a.merge(b) is Define {}
pub proof fn vp_query_enabled(v: VB, k: Key) -> (l: VBL)
    requires vp_inv(v),
    ensures l is Query, l->key == k, FilteredBetree::State::next(v, v, l),
{
    reveal(FilteredBetree::State::next); reveal(FilteredBetree::State::next_by);
    let r = vp_build(v.root, k);
    assert(r.lines[0].wf());
    let m = r.result().merge(v.memtable.query(k));
    let l = VBL::Query{ end_lsn: v.memtable.seq_end, key: k, value: m->value };
    assert(FilteredBetree::State::next_by(v, v, l, FilteredBetree::Step::query(r)));
    l
}
pub proof fn vp_put_enabled(v: VB, h: MsgHistory) -> (w: VB)
    requires vp_inv(v), h.wf(), h.seq_start == v.memtable.seq_end,
    ensures FilteredBetree::State::next(v, w, VBL::Put{ puts: h }), w.memtable.seq_end == h.seq_end,
{
    reveal(FilteredBetree::State::next); reveal(FilteredBetree::State::next_by);
    let w = FilteredBetree::State{ memtable: v.memtable.apply_puts(h), ..v };
    v.memtable.apply_puts_end(h);
    assert(FilteredBetree::State::next_by(v, w, VBL::Put{ puts: h }, FilteredBetree::Step::put()));
    w
}
pub proof fn vp_freeze_enabled(v: VB) -> (w: VB)
    requires vp_inv(v),
    ensures FilteredBetree::State::next(v, w, VBL::Internal{}), FilteredBetree::State::next(w, w, VBL::FreezeAs{ stamped_betree: Stamped{ value: w.root, seq_end: v.memtable.seq_end } }),
{
    let w = FilteredBetree::State{ memtable: v.memtable.drain(), root: v.root.push_memtable(v.memtable) };
    reveal(FilteredBetree::State::next); reveal(FilteredBetree::State::next_by);
    assert(FilteredBetree::State::next_by(v, w, VBL::Internal{}, FilteredBetree::Step::internal_flush_memtable()));
    vp_step(v, w, VBL::Internal{});
    let l = VBL::FreezeAs{ stamped_betree: Stamped{ value: w.root, seq_end: v.memtable.seq_end } };
    assert(FilteredBetree::State::next_by(w, w, l, FilteredBetree::Step::freeze_as()));
    w
}
pub proof fn vp_internal_enabled(v: VB, p: Path, c: nat, gc: nat, r: SplitRequest, s: nat, e: nat, b: SimpleBuffer)
    requires vp_inv(v), p.valid(), p.node == v.root,
    ensures
        p.target().can_flush(c, gc) ==> FilteredBetree::State::next(v, FilteredBetree::State{ root: p.substitute(p.target().flush(c, gc)), ..v }, VBL::Internal{}),
        p.target().can_split_parent(r) ==> FilteredBetree::State::next(v, FilteredBetree::State{ root: p.substitute(p.target().split_parent(r)), ..v }, VBL::Internal{}),
        p.target().can_compact(s, e, b) ==> FilteredBetree::State::next(v, FilteredBetree::State{ root: p.substitute(p.target().compact(s, e, b)), ..v }, VBL::Internal{}),
        FilteredBetree::State::next(v, FilteredBetree::State{ root: v.root.grow(), ..v }, VBL::Internal{}),
{
    reveal(FilteredBetree::State::next); reveal(FilteredBetree::State::next_by);
    if p.target().can_flush(c, gc) { assert(FilteredBetree::State::next_by(v, FilteredBetree::State{ root: p.substitute(p.target().flush(c, gc)), ..v }, VBL::Internal{}, FilteredBetree::Step::internal_flush(p, c, gc))); }
    if p.target().can_split_parent(r) { assert(FilteredBetree::State::next_by(v, FilteredBetree::State{ root: p.substitute(p.target().split_parent(r)), ..v }, VBL::Internal{}, FilteredBetree::Step::internal_split(p, r))); }
    if p.target().can_compact(s, e, b) { assert(FilteredBetree::State::next_by(v, FilteredBetree::State{ root: p.substitute(p.target().compact(s, e, b)), ..v }, VBL::Internal{}, FilteredBetree::Step::internal_compact(p, s, e, b))); }
    assert(FilteredBetree::State::next_by(v, FilteredBetree::State{ root: v.root.grow(), ..v }, VBL::Internal{}, FilteredBetree::Step::internal_grow()));
}
pub proof fn vp_can(n: BetreeNode, k: Key, i: nat, c: nat, gc: nat)
    requires n.wf(), n is Node,
    ensures
        n->children.len() == 1 && n->children[0] is Nil && n->flushed.offsets[0] == 0 && n.my_domain().contains(k) && n.my_domain()->start != to_element(k) ==> n.can_split_leaf(k),
        (forall|j: int| 0 <= j < n->children.len() ==> #[trigger] n->children[j] is Node) && 0 < i < n->children.len() ==> n.can_split_index(i),
        c < n->children.len() && gc <= n->buffers.len() && (forall|j: int| 0 <= j < n->children.len() && j != c ==> gc <= #[trigger] n->flushed.offsets[j]) ==> n.can_flush(c, gc),
{
    if c < n->children.len() && gc <= n->buffers.len() && (forall|j: int| 0 <= j < n->children.len() && j != c ==> gc <= #[trigger] n->flushed.offsets[j]) {
        let u = n->flushed.update(c as int, n->buffers.len());
        assert forall|i: int| 0 <= i < u.offsets.len() implies gc <= #[trigger] u.offsets[i] by { if i != c { assert(u.offsets[i] == n->flushed.offsets[i]); } }
        assert(u.all_gte(gc));
    }
}
pub proof fn vpfail_step(v: VB, w: VB, l: VBL) requires vp_inv(v), FilteredBetree::State::next(v, w, l) ensures false { vp_step(v, w, l); }
pub proof fn vpfail_nochange(v: VB, w: VB, l: VBL) requires vp_inv(v), FilteredBetree::State::next(v, w, l) ensures w == v
{ reveal(FilteredBetree::State::next); reveal(FilteredBetree::State::next_by); }
}
