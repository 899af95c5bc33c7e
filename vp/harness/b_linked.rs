//@ in: betree/LinkedBetreeRefinement_v.rs
use vstd::prelude::*;
use crate::spec::Messages_t::{Message, default_value, nop_delta};
use crate::abstract_system::MsgHistory_v::MsgHistory;
verus! {
type LB = LinkedBetree<SimpleBuffer>;
type VS = LinkedBetreeVars::State<SimpleBuffer>;
type VL = LinkedBetreeVars::Label;
type VT = LinkedBetreeVars::Step<SimpleBuffer>;
type FS = FilteredBetree::State;
type FL = FilteredBetree::Label;

// ---- what a stored tree denotes: node by node, the tree of the layer above
pub proof fn vp_meaning(t: LB)
    requires t.acyclic(),
    ensures
        t.i().wf(),
        t.has_root() <==> t.i() is Node,
        t.has_root() ==> t.i()->pivots == t.root().pivots && t.i()->flushed == t.root().flushed
            && t.i()->children.len() == t.root().children.len()
            && t.i()->buffers.len() == t.root().buffers.len()
            && t.i().my_domain() == t.root().my_domain(),
        forall|i: int| t.has_root() && 0 <= i < t.root().children.len() ==> #[trigger] t.i()->children[i] == (LB{ root: t.root().children[i], dv: t.dv, buffer_dv: t.buffer_dv }).i(),
        forall|i: int| t.has_root() && 0 <= i < t.root().buffers.len() ==> #[trigger] t.i()->buffers.buffers[i] == t.buffer_dv.entries[t.root().buffers.addrs[i]],
{
    t.i_wf();
    if t.has_root() {
        t.i_children_lemma();
        assert forall|i: int| 0 <= i < t.root().children.len() implies #[trigger] t.i()->children[i] == (LB{ root: t.root().children[i], dv: t.dv, buffer_dv: t.buffer_dv }).i() by {
            assert(t.root().valid_child_index(i as nat));
        }
    }
}
pub open spec fn vp_lbl(l: VL) -> FL {
    match l {
        VL::Query{ end_lsn, key, value } => FL::Query{ end_lsn, key, value },
        VL::Put{ puts } => FL::Put{ puts },
        VL::FreezeAs{ stamped_betree } => FL::FreezeAs{ stamped_betree: Stamped{ value: stamped_betree.value.i(), seq_end: stamped_betree.seq_end } },
        VL::Internal{} => FL::Internal{},
    }
}
pub open spec fn vp_ok<T>(t: LinkedBetree<T>) -> bool {
    &&& t.acyclic()
    &&& forall|b: Address| #[trigger] t.reachable_buffer_addrs().contains(b) ==> t.buffer_dv.entries.contains_key(b)
    &&& (t.has_root() ==> t.root().my_domain() == total_domain())
}
// an address nothing on the disk uses
pub open spec fn vp_free<T>(t: LinkedBetree<T>, a: Address) -> bool { !t.dv.entries.contains_key(a) && !t.buffer_dv.entries.contains_key(a) }
pub open spec fn vp_free_seq<T>(t: LinkedBetree<T>, s: Seq<Address>) -> bool { forall|i: int| 0 <= i < s.len() ==> vp_free(t, #[trigger] s[i]) }
pub open spec fn vp_keeps<T>(t: LinkedBetree<T>, n: LinkedBetree<T>) -> bool { forall|b: Address| #[trigger] t.reachable_buffer_addrs().contains(b) ==> n.buffer_dv.entries.contains_key(b) }
// the steps the allocator above may take: fresh addresses, and no buffer thrown away that the new tree needs
pub open spec fn vp_strong<T: Buffer>(v: LinkedBetreeVars::State<T>, s: LinkedBetreeVars::Step<T>) -> bool {
    match s {
        LinkedBetreeVars::Step::internal_flush_memtable(b, n, a) => vp_free(v.linked, a.addr1) && vp_free(v.linked, a.addr2) && vp_keeps(v.linked.push_memtable(b, a), n),
        LinkedBetreeVars::Step::internal_grow(a) => vp_free(v.linked, a),
        LinkedBetreeVars::Step::internal_split(n, p, r, a, pa) => vp_free(v.linked, a.left) && vp_free(v.linked, a.right) && vp_free(v.linked, a.parent) && vp_free_seq(v.linked, pa)
            && vp_keeps(p.substitute(p.target().split_parent(r, a), pa), n),
        LinkedBetreeVars::Step::internal_flush(n, p, c, gc, a, pa) => vp_free(v.linked, a.addr1) && vp_free(v.linked, a.addr2) && vp_free_seq(v.linked, pa)
            && vp_keeps(p.substitute(p.target().flush(c, gc, a), pa), n),
        LinkedBetreeVars::Step::internal_compact(n, p, s, e, b, a, pa) => vp_free(v.linked, a.addr1) && vp_free(v.linked, a.addr2) && vp_free_seq(v.linked, pa)
            && vp_keeps(p.substitute(p.target().compact(s, e, b, a), pa), n),
        _ => true,
    }
}
proof fn vp_strong_is<T: Buffer>(v: LinkedBetreeVars::State<T>, s: LinkedBetreeVars::Step<T>)
    requires vp_strong(v, s),
    ensures v.strong_step(s),
{
    match s {
        LinkedBetreeVars::Step::internal_split(n, p, r, a, pa) => { vp_seq(v.linked, pa); }
        LinkedBetreeVars::Step::internal_flush(n, p, c, gc, a, pa) => { vp_seq(v.linked, pa); }
        LinkedBetreeVars::Step::internal_compact(n, p, s, e, b, a, pa) => { vp_seq(v.linked, pa); }
        _ => {}
    }
}
proof fn vp_seq<T>(t: LinkedBetree<T>, s: Seq<Address>)
    requires vp_free_seq(t, s), ensures t.is_fresh(s.to_iset()),
{
    assert forall|a: Address| s.to_iset().contains(a) implies !t.dv.entries.contains_key(a) && !t.buffer_dv.entries.contains_key(a) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(vp_free(t, s[i]));
    }
}
pub proof fn vp_safe<T: Buffer>(v: LinkedBetreeVars::State<T>, w: LinkedBetreeVars::State<T>, l: VL, s: LinkedBetreeVars::Step<T>)
    requires vp_ok(v.linked), vp_strong(v, s), LinkedBetreeVars::State::next_by(v, w, l, s),
    ensures vp_ok(w.linked),
{ vp_strong_is(v, s); LinkedBetreeVars::State::inv_next_by(v, w, l, s); }
pub proof fn vp_step(v: VS, w: VS, l: VL, s: VT)
    requires vp_ok(v.linked), vp_strong(v, s), LinkedBetreeVars::State::next_by(v, w, l, s),
    ensures vp_ok(w.linked), FilteredBetree::State::next(v.i(), w.i(), vp_lbl(l)), v.i().memtable == v.memtable, v.i().root == v.linked.i(),
{
    vp_safe(v, w, l, s); vp_strong_is(v, s);
    v.next_by_refines(w, l, s);
    if l is FreezeAs { vp_freeze(v, w, l, s); }
    assert(l.i() == vp_lbl(l));
}
proof fn vp_freeze<T: Buffer>(v: LinkedBetreeVars::State<T>, w: LinkedBetreeVars::State<T>, l: VL, s: LinkedBetreeVars::Step<T>)
    requires LinkedBetreeVars::State::next_by(v, w, l, s), l is FreezeAs, v.linked.acyclic(),
    ensures l->stamped_betree.value == v.linked.i_bdv(), l->stamped_betree.value.acyclic(), w == v,
{
    reveal(LinkedBetreeVars::State::next_by);
    let r = v.linked.the_ranking();
    assert(l->stamped_betree.value.valid_ranking(r));
}
pub open spec fn vp_image(v: VS) -> bool { vp_ok(v.linked) && v.memtable.is_empty() }
pub proof fn vp_init(v: VS, u: VS)
    requires LinkedBetreeVars::State::initialize(v, u),
    ensures vp_image(u), vp_ok(v.linked), v == u, FilteredBetree::State::initialize(v.i(), Stamped{ value: u.linked.i(), seq_end: u.memtable.seq_end }),
{ v.init_refines(u); }
pub proof fn vp_init_enabled(u: VS)
    requires vp_image(u),
    ensures LinkedBetreeVars::State::initialize(u, u),
{ }
pub proof fn vp_empty(v: VS)
    requires v.linked == empty_image().value, v.memtable == Memtable::empty_memtable(empty_image().seq_end),
    ensures vp_image(v), empty_image().seq_end == 0, v.linked.i() is Nil,
{
    let r = IMap::<Address, nat>::empty();
    assert(v.linked.valid_ranking(r));
    vp_meaning(v.linked);
}
pub open spec fn vp_exec(s: Seq<VS>, t: Seq<VL>, p: Seq<VT>) -> bool { s.len() == t.len() + 1 && p.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> LinkedBetreeVars::State::next_by(#[trigger] s[i], s[i + 1], t[i], p[i]) && vp_strong(s[i], p[i]) }
pub proof fn vp_every_history(s: Seq<VS>, t: Seq<VL>, p: Seq<VT>, u: VS, n: nat)
    requires vp_exec(s, t, p), LinkedBetreeVars::State::initialize(s[0], u), n <= t.len(),
    ensures vp_ok(s[n as int].linked), FilteredBetree::State::initialize(s[0].i(), Stamped{ value: u.linked.i(), seq_end: u.memtable.seq_end }),
        forall|i: int| 0 <= i < n ==> FilteredBetree::State::next(#[trigger] s[i].i(), s[i + 1].i(), vp_lbl(t[i])),
    decreases n
{
    vp_init(s[0], u);
    if n > 0 { vp_every_history(s, t, p, u, (n - 1) as nat); let i = n - 1; assert(LinkedBetreeVars::State::next_by(s[i], s[i + 1], t[i], p[i])); vp_step(s[i], s[i + 1], t[i], p[i]); }
}
pub proof fn vp_effect<T: Buffer>(v: LinkedBetreeVars::State<T>, w: LinkedBetreeVars::State<T>, l: VL, s: LinkedBetreeVars::Step<T>)
    requires vp_ok(v.linked), vp_strong(v, s), LinkedBetreeVars::State::next_by(v, w, l, s),
    ensures
        l is Query ==> w == v && l->end_lsn == v.memtable.seq_end,
        l is Internal ==> w.memtable.seq_end == v.memtable.seq_end,
        l is Internal && !(s is internal_flush_memtable) ==> w.memtable == v.memtable,
        l is FreezeAs ==> w == v && v.memtable.is_empty() && l->stamped_betree.seq_end == v.memtable.seq_end && l->stamped_betree.value == v.linked.i_bdv(),
        l is Put ==> w.linked == v.linked && w.memtable == v.memtable.apply_puts(l->puts) && l->puts.wf() && l->puts.seq_start == v.memtable.seq_end,
        s is internal_flush_memtable ==> w.memtable.is_empty(),
{ reveal(LinkedBetreeVars::State::next_by); }
// copy on write: a node or buffer that is on the disk before a step and after it is the same one
pub proof fn vp_copy_on_write<T: Buffer>(v: LinkedBetreeVars::State<T>, w: LinkedBetreeVars::State<T>, l: VL, s: LinkedBetreeVars::Step<T>, a: Address)
    requires vp_ok(v.linked), vp_strong(v, s), LinkedBetreeVars::State::next_by(v, w, l, s),
    ensures
        v.linked.dv.entries.contains_key(a) && w.linked.dv.entries.contains_key(a) ==> w.linked.dv.entries[a] == v.linked.dv.entries[a],
        v.linked.buffer_dv.entries.contains_key(a) && w.linked.buffer_dv.entries.contains_key(a) ==> w.linked.buffer_dv.entries[a] == v.linked.buffer_dv.entries[a],
{
    reveal(LinkedBetreeVars::State::next_by);
    vp_strong_is(v, s);
    match s {
        LinkedBetreeVars::Step::internal_flush_memtable(b, n, ad) => { vp_sub(v.linked, v.linked.push_memtable(b, ad), n, a); }
        LinkedBetreeVars::Step::internal_split(n, p, r, ad, pa) => {
            v.post_split_ensures(p, r, ad, pa); p.target_ensures(); vp_split_domain(p.target(), r, ad);
            p.substitute_ensures(p.target().split_parent(r, ad), pa);
            vp_sub(v.linked, p.substitute(p.target().split_parent(r, ad), pa), n, a);
        }
        LinkedBetreeVars::Step::internal_flush(n, p, c, gc, ad, pa) => {
            v.post_flush_ensures(p, c, gc, ad, pa); p.target_ensures();
            p.substitute_ensures(p.target().flush(c, gc, ad), pa);
            vp_sub(v.linked, p.substitute(p.target().flush(c, gc, ad), pa), n, a);
        }
        LinkedBetreeVars::Step::internal_compact(n, p, s, e, b, ad, pa) => {
            v.post_compact_ensures(p, s, e, b, ad, pa); p.target_ensures();
            p.substitute_ensures(p.target().compact(s, e, b, ad), pa);
            vp_sub(v.linked, p.substitute(p.target().compact(s, e, b, ad), pa), n, a);
        }
        LinkedBetreeVars::Step::internal_buffer_noop(n) => { vp_sub(v.linked, v.linked, n, a); }
        _ => {}
    }
}
proof fn vp_sub<T>(t: LinkedBetree<T>, u: LinkedBetree<T>, n: LinkedBetree<T>, a: Address)
    requires t.dv.is_sub_disk(u.dv), t.buffer_dv.is_sub_disk(u.buffer_dv), u.valid_view(n),
    ensures
        t.dv.entries.contains_key(a) && n.dv.entries.contains_key(a) ==> n.dv.entries[a] == t.dv.entries[a],
        t.buffer_dv.entries.contains_key(a) && n.buffer_dv.entries.contains_key(a) ==> n.buffer_dv.entries[a] == t.buffer_dv.entries[a],
{
    if t.dv.entries.contains_key(a) && n.dv.entries.contains_key(a) { assert(u.dv.entries.dom().contains(a)); assert(n.dv.entries.dom().contains(a)); assert(t.dv.entries.dom().contains(a)); }
    if t.buffer_dv.entries.contains_key(a) && n.buffer_dv.entries.contains_key(a) { assert(u.buffer_dv.entries.dom().contains(a)); assert(n.buffer_dv.entries.dom().contains(a)); assert(t.buffer_dv.entries.dom().contains(a)); }
}
proof fn vp_split_domain<T>(t: LinkedBetree<T>, r: SplitRequest, a: SplitAddrs)
    requires t.can_split_parent(r), a.no_duplicates(),
    ensures t.split_parent(r, a).root().my_domain() == t.root().my_domain(),
{ }
// ---- it can be used
pub open spec fn vp_look<T: Buffer>(t: LinkedBetree<T>, g: Ranking, k: Key) -> Message
    recommends t.valid_ranking(g) decreases t.get_rank(g)
{
    if t.has_root() && t.root().key_in_domain(k) && t.valid_ranking(g) && t.root().valid_child_index(t.root().pivots.route(k) as nat) && t.child_for_key(k).get_rank(g) < t.get_rank(g) {
        vp_look(t.child_for_key(k), g, k).merge(t.buffer_dv.query_from(t.root().buffers, k, t.root().flushed_ofs(k) as int))
    } else { Message::Define{ value: default_value() } }
}
proof fn vp_def(a: Message, b: Message) requires a is Define ensures a.merge(b) is Define {}
pub proof fn vp_build(t: LB, g: Ranking, k: Key) -> (r: QueryReceipt<SimpleBuffer>)
    requires t.acyclic(), t.valid_ranking(g), t.valid_buffer_dv(), t.has_root() ==> t.root().pivots.bounded_key(k),
    ensures r.valid_for(t, k), r.result() == vp_look(t, g, k), r.result() is Define,
    decreases t.get_rank(g)
{
    if !t.has_root() {
        let r = QueryReceipt{ key: k, linked: t, lines: seq![QueryReceiptLine{ linked: t, result: Message::Define{ value: default_value() } }] };
        assert(r.lines[0].linked.acyclic());
        r
    } else {
        t.root().pivots.route_lemma(k);
        let i = t.root().pivots.route(k);
        assert(t.root().valid_child_index(i as nat));
        t.valid_buffer_dv_throughout();
        t.child_at_idx_acyclic(i as nat);
        let c = t.child_for_key(k);
        assert(c == t.child_at_idx(i as nat));
        assert(t.child_at_idx(i as nat).valid_buffer_dv());
        if c.has_root() { assert(t.dv.child_linked(t.root(), i as nat)); assert(c.root().my_domain() == t.root().child_domain(i as nat)); }
        let q = vp_build(c, g, k);
        let m = t.buffer_dv.query_from(t.root().buffers, k, t.root().flushed_ofs(k) as int);
        vp_def(q.result(), m);
        let r = QueryReceipt{ key: k, linked: t, lines: seq![QueryReceiptLine{ linked: t, result: q.result().merge(m) }] + q.lines };
        assert forall|j: int| 0 < j < r.lines.len() implies #[trigger] r.lines[j] == q.lines[j - 1] by {}
        assert forall|j: nat| j < r.lines.len() implies (#[trigger] r.lines[j as int].linked.dv) == t.dv by { if j > 0 { let n = (j - 1) as nat; assert(q.lines[n as int].linked.dv == q.linked.dv); } }
        assert forall|j: nat| j < r.lines.len() implies (#[trigger] r.lines[j as int].linked.buffer_dv) == t.buffer_dv by { if j > 0 { let n = (j - 1) as nat; assert(q.lines[n as int].linked.buffer_dv == q.linked.buffer_dv); } }
        assert forall|j: nat| j < r.lines.len() implies ((#[trigger] r.lines[j as int].linked.has_root()) <==> j < r.lines.len() - 1) by { if j > 0 { let n = (j - 1) as nat; assert(q.lines[n as int].linked.has_root() <==> n < q.lines.len() - 1); } }
        assert(r.lines.last() == q.lines.last());
        assert(r.structure());
        assert forall|j: int| 0 <= j < r.lines.len() implies #[trigger] r.lines[j].wf() by { if j > 0 { assert(q.lines[j - 1].wf()); } }
        assert forall|j: int| 0 <= j < r.lines.len() implies #[trigger] r.lines[j].linked.acyclic() by { if j > 0 { assert(q.lines[j - 1].linked.acyclic()); } }
        assert forall|j: int| 0 <= j < r.lines.len() - 1 implies #[trigger] r.linked.buffer_dv.valid_buffers(r.node(j).buffers) by { if j > 0 { assert(q.linked.buffer_dv.valid_buffers(q.node(j - 1).buffers)); } }
        assert forall|j: int| 0 <= j < r.lines.len() - 1 implies #[trigger] r.node(j).key_in_domain(k) by { if j > 0 { assert(q.node(j - 1).key_in_domain(k)); } else { assert(t.dv.entries.contains_key(t.root.unwrap())); } }
        assert forall|j: int| 0 <= j < r.lines.len() - 1 implies #[trigger] r.child_linked_at(j) by { if j > 0 { assert(q.child_linked_at(j - 1)); } }
        assert forall|j: int| 0 <= j < r.lines.len() - 1 implies #[trigger] r.result_linked_at(j) by { if j > 0 { assert(q.result_linked_at(j - 1)); assert(r.result_at(j + 1) == q.result_at(j)); } }
        assert(r.all_lines_wf());
        r
    }
}
pub proof fn vp_query_enabled(v: VS, k: Key) -> (l: VL)
    requires vp_ok(v.linked),
    ensures l is Query, l->key == k, LinkedBetreeVars::State::next(v, v, l),
{
    reveal(LinkedBetreeVars::State::next); reveal(LinkedBetreeVars::State::next_by);
    let r = vp_build(v.linked, v.linked.the_ranking(), k);
    vp_def(r.result(), v.memtable.query(k));
    let m = r.result().merge(v.memtable.query(k));
    let l = VL::Query{ end_lsn: v.memtable.seq_end, key: k, value: m->value };
    assert(LinkedBetreeVars::State::next_by(v, v, l, LinkedBetreeVars::Step::query(r)));
    l
}
pub proof fn vp_put_enabled<T: Buffer>(v: LinkedBetreeVars::State<T>, h: MsgHistory) -> (w: LinkedBetreeVars::State<T>)
    requires h.wf(), h.seq_start == v.memtable.seq_end,
    ensures LinkedBetreeVars::State::next(v, w, VL::Put{ puts: h }), w.memtable.seq_end == h.seq_end,
{
    reveal(LinkedBetreeVars::State::next); reveal(LinkedBetreeVars::State::next_by);
    let w = LinkedBetreeVars::State{ memtable: v.memtable.apply_puts(h), ..v };
    v.memtable.apply_puts_end(h);
    assert(LinkedBetreeVars::State::next_by(v, w, VL::Put{ puts: h }, LinkedBetreeVars::Step::put()));
    w
}
proof fn vp_view_self<T>(t: LinkedBetree<T>) requires t.wf() ensures t.valid_view(t) { }
pub proof fn vp_freeze_enabled(v: VS, a: Address, b: Address) -> (r: (VS, VT))
    requires vp_ok(v.linked), vp_free(v.linked, a), vp_free(v.linked, b), a != b,
    ensures
        LinkedBetreeVars::State::next_by(v, r.0, VL::Internal{}, r.1), vp_strong(v, r.1), r.0.memtable.is_empty(), vp_ok(r.0.linked),
        LinkedBetreeVars::State::next_by(r.0, r.0, VL::FreezeAs{ stamped_betree: Stamped{ value: r.0.linked.i_bdv(), seq_end: v.memtable.seq_end } }, LinkedBetreeVars::Step::freeze_as()),
{
    reveal(LinkedBetreeVars::State::next_by);
    let ad = TwoAddrs{ addr1: a, addr2: b };
    let n = v.linked.push_memtable(v.memtable.buffer, ad);
    assert(v.linked.is_fresh(ad.repr()));
    v.linked.push_memtable_ensures(v.memtable.buffer, ad);
    vp_view_self(n);
    let w = LinkedBetreeVars::State{ memtable: v.memtable.drain(), linked: n };
    let s = LinkedBetreeVars::Step::internal_flush_memtable(v.memtable.buffer, n, ad);
    assert(n.no_dangling_buffer_ptr());
    assert(vp_strong(v, s));
    assert(LinkedBetreeVars::State::next_by(v, w, VL::Internal{}, s));
    vp_safe(v, w, VL::Internal{}, s);
    (w, s)
}
pub proof fn vp_grow_enabled<T: Buffer>(v: LinkedBetreeVars::State<T>, a: Address) -> (w: LinkedBetreeVars::State<T>)
    requires vp_ok(v.linked), vp_free(v.linked, a),
    ensures LinkedBetreeVars::State::next_by(v, w, VL::Internal{}, LinkedBetreeVars::Step::internal_grow(a)), vp_strong(v, LinkedBetreeVars::Step::<T>::internal_grow(a)),
        w.linked.has_root() && w.linked.root().children == seq![v.linked.root] && w.linked.root().buffers.len() == 0,
{
    reveal(LinkedBetreeVars::State::next_by);
    LinkedBetreeVars::State{ linked: v.linked.grow(a), ..v }
}
pub proof fn vp_internal_enabled(v: VS, p: Path<SimpleBuffer>, r: SplitRequest, c: nat, gc: nat, s: nat, e: nat, b: SimpleBuffer, sa: SplitAddrs, ta: TwoAddrs, pa: PathAddrs)
    requires vp_ok(v.linked), p.valid(), p.linked == v.linked, pa.no_duplicates(), pa.len() == p.depth, vp_free_seq(v.linked, pa),
        vp_free(v.linked, sa.left) && vp_free(v.linked, sa.right) && vp_free(v.linked, sa.parent), sa.left != sa.right && sa.right != sa.parent && sa.left != sa.parent, !pa.contains(sa.left) && !pa.contains(sa.right) && !pa.contains(sa.parent),
        vp_free(v.linked, ta.addr1) && vp_free(v.linked, ta.addr2) && ta.addr1 != ta.addr2 && !pa.contains(ta.addr1) && !pa.contains(ta.addr2),
    ensures
        p.target().can_split_parent(r) ==> ({ let n = p.substitute(p.target().split_parent(r, sa), pa); let t = VT::internal_split(n, p, r, sa, pa); LinkedBetreeVars::State::next_by(v, LinkedBetreeVars::State{ linked: n, ..v }, VL::Internal{}, t) && vp_strong(v, t) }),
        p.target().can_flush(c, gc) ==> ({ let n = p.substitute(p.target().flush(c, gc, ta), pa); let t = VT::internal_flush(n, p, c, gc, ta, pa); LinkedBetreeVars::State::next_by(v, LinkedBetreeVars::State{ linked: n, ..v }, VL::Internal{}, t) && vp_strong(v, t) }),
        ({ let n = p.substitute(p.target().compact(s, e, b, ta), pa); let t = VT::internal_compact(n, p, s, e, b, ta, pa); p.target().can_compact(s, e, b, n.buffer_dv, ta) ==> LinkedBetreeVars::State::next_by(v, LinkedBetreeVars::State{ linked: n, ..v }, VL::Internal{}, t) && vp_strong(v, t) }),
{
    reveal(LinkedBetreeVars::State::next_by);
    vp_seq(v.linked, pa);
    p.target_ensures();
    if p.target().can_split_parent(r) {
        v.post_split_ensures(p, r, sa, pa);
        let n = p.substitute(p.target().split_parent(r, sa), pa);
        vp_view_self(n);
    }
    if p.target().can_flush(c, gc) {
        v.post_flush_ensures(p, c, gc, ta, pa);
        let n = p.substitute(p.target().flush(c, gc, ta), pa);
        vp_view_self(n);
        assert(n.no_dangling_buffer_ptr());
    }
    let n = p.substitute(p.target().compact(s, e, b, ta), pa);
    if p.target().can_compact(s, e, b, n.buffer_dv, ta) {
        v.post_compact_ensures(p, s, e, b, ta, pa);
        vp_view_self(n);
        assert(n.no_dangling_buffer_ptr());
    }
}
// every node on the way to a key can be reached by a path while it is an index node
pub proof fn vp_path<T: Buffer>(t: LinkedBetree<T>, k: Key, d: nat)
    requires t.acyclic(), t.has_root(), t.root().pivots.bounded_key(k),
    ensures
        (Path{ linked: t, key: k, depth: 0 }).valid(), (Path{ linked: t, key: k, depth: 0 }).target() == t,
        (forall|i: int| 0 <= i < t.root().children.len() ==> #[trigger] t.root().children[i] is Some) && (Path{ linked: t.child_for_key(k), key: k, depth: d }).valid()
            ==> (Path{ linked: t, key: k, depth: d + 1 }).valid() && (Path{ linked: t, key: k, depth: d + 1 }).target() == (Path{ linked: t.child_for_key(k), key: k, depth: d }).target(),
{
    assert(t.dv.entries.contains_key(t.root.unwrap()));
    let q = Path{ linked: t, key: k, depth: d + 1 };
    assert(q.subpath() == Path{ linked: t.child_for_key(k), key: k, depth: d });
}
pub proof fn vp_can<T: Buffer>(t: LinkedBetree<T>, c: nat, gc: nat)
    requires t.wf(), t.has_root(), c < t.root().children.len(), t.root().children[c as int] is Some, gc <= t.root().buffers.len(),
        forall|j: int| 0 <= j < t.root().children.len() && j != c ==> gc <= #[trigger] t.root().flushed.offsets[j],
    ensures t.can_flush(c, gc),
{
    assert(t.dv.entries.contains_key(t.root.unwrap()));
    let u = t.root().flushed.update(c as int, t.root().buffers.len());
    assert forall|i: int| 0 <= i < u.offsets.len() implies gc <= #[trigger] u.offsets[i] by { if i != c { assert(u.offsets[i] == t.root().flushed.offsets[i]); } }
}
pub proof fn vpfail_step(v: VS, w: VS, l: VL, s: VT) requires vp_ok(v.linked), vp_strong(v, s), LinkedBetreeVars::State::next_by(v, w, l, s) ensures false { vp_step(v, w, l, s); }
pub proof fn vpfail_unfresh(v: VS, w: VS, l: VL, s: VT) requires vp_ok(v.linked), LinkedBetreeVars::State::next_by(v, w, l, s) ensures vp_ok(w.linked) { reveal(LinkedBetreeVars::State::next_by); }
}
