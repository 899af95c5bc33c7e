//@ in: allocation_layer/LikesBetreeRefinement_v.rs
use crate::betree::LinkedBetree_v::*;
use crate::betree::Domain_v::*;
use crate::betree::Buffer_v::*;
use crate::betree::Memtable_v::*;
use crate::allocation_layer::Likes_v::*;
use crate::betree::LinkedSeq_v::*;
verus! {
broadcast use crate::vp_lib::vp_group;
type LS = LikesBetree::State;
type LL = LikesBetree::Label;
type LT = LikesBetree::Step;
type VS = LinkedBetreeVars::State<SimpleBuffer>;
type VL = LinkedBetreeVars::Label;
type VT = LinkedBetreeVars::Step<SimpleBuffer>;

pub open spec fn vp_ok<T>(t: LinkedBetree<T>) -> bool {
    &&& t.acyclic()
    &&& forall|b: Address| #[trigger] t.reachable_buffer_addrs().contains(b) ==> t.buffer_dv.entries.contains_key(b)
    &&& (t.has_root() ==> t.root().my_domain() == total_domain())
}
// how often an address is pointed to from the tree (the root pointer counts once) ...
pub open spec fn vp_refs<T>(t: LinkedBetree<T>, g: Ranking, a: Address) -> nat
    decreases t.get_rank(g), 1nat, 0nat
{
    if t.has_root() && t.valid_ranking(g) { (if t.root == Some(a) { 1nat } else { 0nat }) + vp_refs_from(t, g, a, 0) } else { 0 }
}
pub open spec fn vp_refs_from<T>(t: LinkedBetree<T>, g: Ranking, a: Address, i: nat) -> nat
    decreases t.get_rank(g), 0nat, t.root().children.len() - i
{
    if i < t.root().children.len() && t.child_at_idx(i).get_rank(g) < t.get_rank(g) { vp_refs(t.child_at_idx(i), g, a) + vp_refs_from(t, g, a, i + 1) } else { 0 }
}
// ... and how often a buffer is pointed to, every visit to a node counting its list of buffers once
pub open spec fn vp_brefs<T>(t: LinkedBetree<T>, g: Ranking, b: Address) -> nat
    decreases t.get_rank(g), 1nat, 0nat
{
    if t.has_root() && t.valid_ranking(g) { t.root().buffers.addrs.to_multiset().count(b) + vp_brefs_from(t, g, b, 0) } else { 0 }
}
pub open spec fn vp_brefs_from<T>(t: LinkedBetree<T>, g: Ranking, b: Address, i: nat) -> nat
    decreases t.get_rank(g), 0nat, t.root().children.len() - i
{
    if i < t.root().children.len() && t.child_at_idx(i).get_rank(g) < t.get_rank(g) { vp_brefs(t.child_at_idx(i), g, b) + vp_brefs_from(t, g, b, i + 1) } else { 0 }
}
pub proof fn vp_tree<T>(t: LinkedBetree<T>, g: Ranking, a: Address)
    requires t.valid_ranking(g),
    ensures t.tree_likes(g).count(a) == vp_refs(t, g, a),
    decreases t.get_rank(g), 1nat, 0nat
{ if t.has_root() { vp_tree_from(t, g, a, 0); } }
proof fn vp_tree_from<T>(t: LinkedBetree<T>, g: Ranking, a: Address, i: nat)
    requires t.valid_ranking(g), t.has_root(), i <= t.root().children.len(),
    ensures t.children_likes(g, i).count(a) == vp_refs_from(t, g, a, i),
    decreases t.get_rank(g), 0nat, t.root().children.len() - i
{
    if i < t.root().children.len() {
        assert(t.root().valid_child_index(i));
        vp_tree(t.child_at_idx(i), g, a);
        vp_tree_from(t, g, a, i + 1);
    }
}
pub proof fn vp_bufs<T>(t: LinkedBetree<T>, g: Ranking, b: Address)
    requires t.valid_ranking(g),
    ensures t.buffer_likes(t.tree_likes(g)).count(b) == vp_brefs(t, g, b),
    decreases t.get_rank(g), 1nat, 0nat
{
    if t.has_root() {
        vp_bufs_from(t, g, b, 0);
        t.tree_likes_domain(g);
        t.root_buffer_likes_ensures();
        vp_below(t, g, 0);
        t.buffer_likes_additive(t.root_likes(), t.children_likes(g, 0));
    }
}
proof fn vp_below<T>(t: LinkedBetree<T>, g: Ranking, i: nat)
    requires t.valid_ranking(g), t.has_root(), i <= t.root().children.len(),
    ensures forall|a: Address| #[trigger] t.children_likes(g, i).count(a) > 0 ==> t.dv.entries.contains_key(a),
    decreases t.root().children.len() - i
{
    if i < t.root().children.len() {
        assert(t.root().valid_child_index(i));
        t.child_at_idx(i).tree_likes_domain(g);
        vp_below(t, g, i + 1);
        assert forall|a: Address| #[trigger] t.children_likes(g, i).count(a) > 0 implies t.dv.entries.contains_key(a) by {
            assert(t.children_likes(g, i).count(a) == t.child_at_idx(i).tree_likes(g).count(a) + t.children_likes(g, i + 1).count(a));
            if t.child_at_idx(i).tree_likes(g).count(a) > 0 { assert(t.child_at_idx(i).tree_likes(g).dom().to_iset().contains(a)); }
        }
    }
}
proof fn vp_bufs_from<T>(t: LinkedBetree<T>, g: Ranking, b: Address, i: nat)
    requires t.valid_ranking(g), t.has_root(), i <= t.root().children.len(),
    ensures t.buffer_likes(t.children_likes(g, i)).count(b) == vp_brefs_from(t, g, b, i),
    decreases t.get_rank(g), 0nat, t.root().children.len() - i
{
    if i < t.root().children.len() {
        assert(t.root().valid_child_index(i));
        let c = t.child_at_idx(i);
        vp_bufs(c, g, b);
        vp_bufs_from(t, g, b, i + 1);
        vp_below(t, g, i + 1);
        c.tree_likes_domain(g);
        c.subdisk_implies_same_buffer_likes(t, c.tree_likes(g));
        t.buffer_likes_additive(c.tree_likes(g), t.children_likes(g, i + 1));
    }
}
// the tree is sound, and the counts kept on the side are the tree's
pub open spec fn vp_inv(v: LS) -> bool {
    &&& vp_ok(v.betree.linked)
    &&& forall|a: Address| #[trigger] v.betree_likes.count(a) == vp_refs(v.betree.linked, v.betree.linked.the_ranking(), a)
    &&& forall|b: Address| #[trigger] v.buffer_likes.count(b) == vp_brefs(v.betree.linked, v.betree.linked.the_ranking(), b)
}
pub proof fn vp_inv_is(v: LS)
    ensures vp_inv(v) <==> v.inv(),
{
    let t = v.betree.linked;
    let g = t.the_ranking();
    if t.acyclic() {
        assert forall|a: Address| #[trigger] t.tree_likes(g).count(a) == vp_refs(t, g, a) by { vp_tree(t, g, a); }
        assert forall|b: Address| #[trigger] t.buffer_likes(t.tree_likes(g)).count(b) == vp_brefs(t, g, b) by { vp_bufs(t, g, b); }
        if vp_inv(v) { assert(v.betree_likes =~= t.tree_likes(g)); assert(v.buffer_likes =~= t.buffer_likes(t.tree_likes(g))); }
    }
}
// an address in use is counted, a counted address is in use and is on the disk
pub proof fn vp_live(v: LS, a: Address)
    requires vp_inv(v),
    ensures
        v.betree_likes.contains(a) <==> v.betree.linked.reachable_betree_addrs().contains(a),
        v.buffer_likes.contains(a) <==> v.betree.linked.reachable_buffer_addrs().contains(a),
        v.betree_likes.contains(a) ==> v.betree.linked.dv.entries.contains_key(a),
        v.buffer_likes.contains(a) ==> v.betree.linked.buffer_dv.entries.contains_key(a),
{
    vp_inv_is(v);
    let t = v.betree.linked;
    t.tree_likes_domain(t.the_ranking());
    t.buffer_likes_domain(v.betree_likes);
    assert(v.betree_likes.dom().to_iset().contains(a) <==> v.betree_likes.count(a) > 0);
    assert(v.buffer_likes.dom().to_iset().contains(a) <==> v.buffer_likes.count(a) > 0);
}
pub open spec fn vp_free<T>(t: LinkedBetree<T>, a: Address) -> bool { !t.dv.entries.contains_key(a) && !t.buffer_dv.entries.contains_key(a) }
pub open spec fn vp_free_seq<T>(t: LinkedBetree<T>, s: Seq<Address>) -> bool { forall|i: int| 0 <= i < s.len() ==> vp_free(t, #[trigger] s[i]) }
pub open spec fn vp_keeps<T>(t: LinkedBetree<T>, n: LinkedBetree<T>) -> bool { forall|b: Address| #[trigger] t.reachable_buffer_addrs().contains(b) ==> n.buffer_dv.entries.contains_key(b) }
// the step the layer below sees uses fresh addresses only and throws away no buffer the new tree needs
pub open spec fn vp_strong(v: VS, s: VT) -> bool {
    match s {
        LinkedBetreeVars::Step::internal_flush_memtable(b, n, a) => vp_free(v.linked, a.addr1) && vp_free(v.linked, a.addr2) && vp_keeps(v.linked.push_memtable(b, a), n),
        LinkedBetreeVars::Step::internal_grow(a) => vp_free(v.linked, a),
        LinkedBetreeVars::Step::internal_split(n, p, r, a, pa) => vp_free(v.linked, a.left) && vp_free(v.linked, a.right) && vp_free(v.linked, a.parent) && vp_free_seq(v.linked, pa)
            && vp_keeps(p.substitute(p.target().split_parent(r, a), pa), n),
        LinkedBetreeVars::Step::internal_flush(n, p, c, gc, a, pa) => vp_free(v.linked, a.addr1) && vp_free(v.linked, a.addr2) && vp_free_seq(v.linked, pa)
            && vp_keeps(p.substitute(p.target().flush(c, gc, a), pa), n),
        LinkedBetreeVars::Step::internal_compact(n, p, s, e, b, a, pa) => vp_free(v.linked, a.addr1) && vp_free(v.linked, a.addr2) && vp_free_seq(v.linked, pa)
            && vp_keeps(p.substitute(p.target().compact(s, e, b, a), pa), n),
        _ => true,
    }
}
proof fn vp_unfresh<T>(t: LinkedBetree<T>, s: ISet<Address>, a: Address) requires t.is_fresh(s), s.contains(a) ensures vp_free(t, a) {
    if t.dv.entries.contains_key(a) { assert(t.dv.entries.dom().contains(a)); } if t.buffer_dv.entries.contains_key(a) { assert(t.buffer_dv.entries.dom().contains(a)); } }
proof fn vp_unfresh_seq<T>(t: LinkedBetree<T>, s: Seq<Address>) requires t.is_fresh(s.to_iset()) ensures vp_free_seq(t, s) {
    assert forall|i: int| 0 <= i < s.len() implies vp_free(t, #[trigger] s[i]) by { assert(s.to_iset().contains(s[i])); vp_unfresh(t, s.to_iset(), s[i]); } }
proof fn vp_is_strong(v: VS, s: VT)
    requires v.strong_step(s),
    ensures vp_strong(v, s),
{
    match s {
        LinkedBetreeVars::Step::internal_flush_memtable(b, n, a) => { vp_unfresh(v.linked, a.repr(), a.addr1); vp_unfresh(v.linked, a.repr(), a.addr2); }
        LinkedBetreeVars::Step::internal_grow(a) => { vp_unfresh(v.linked, iset![a], a); }
        LinkedBetreeVars::Step::internal_split(n, p, r, a, pa) => { vp_unfresh(v.linked, a.repr(), a.left); vp_unfresh(v.linked, a.repr(), a.right); vp_unfresh(v.linked, a.repr(), a.parent); vp_unfresh_seq(v.linked, pa); }
        LinkedBetreeVars::Step::internal_flush(n, p, c, gc, a, pa) => { vp_unfresh(v.linked, a.repr(), a.addr1); vp_unfresh(v.linked, a.repr(), a.addr2); vp_unfresh_seq(v.linked, pa); }
        LinkedBetreeVars::Step::internal_compact(n, p, s, e, b, a, pa) => { vp_unfresh(v.linked, a.repr(), a.addr1); vp_unfresh(v.linked, a.repr(), a.addr2); vp_unfresh_seq(v.linked, pa); }
        _ => {}
    }
}
proof fn vp_inductive(v: LS, w: LS, l: LL)
    requires v.inv(), LikesBetree::State::next(v, w, l),
    ensures w.inv(),
{
    reveal(LikesBetree::State::next); reveal(LikesBetree::State::next_by);
    match choose|s: LT| LikesBetree::State::next_by(v, w, l, s) {
        LikesBetree::Step::likes_noop(n) => { LikesBetree::State::likes_noop_inductive(v, w, l, n); }
        LikesBetree::Step::internal_flush_memtable(n, a) => { LikesBetree::State::internal_flush_memtable_inductive(v, w, l, n, a); }
        LikesBetree::Step::internal_grow(n, a) => { LikesBetree::State::internal_grow_inductive(v, w, l, n, a); }
        LikesBetree::Step::internal_split(n, p, r, a, pa) => { LikesBetree::State::internal_split_inductive(v, w, l, n, p, r, a, pa); }
        LikesBetree::Step::internal_flush(n, p, c, gc, a, pa) => { LikesBetree::State::internal_flush_inductive(v, w, l, n, p, c, gc, a, pa); }
        LikesBetree::Step::internal_compact(n, p, s, e, b, a, pa) => { LikesBetree::State::internal_compact_inductive(v, w, l, n, p, s, e, b, a, pa); }
        LikesBetree::Step::internal_buffer_noop(n) => { LikesBetree::State::internal_buffer_noop_inductive(v, w, l, n); }
        LikesBetree::Step::internal_noop() => { LikesBetree::State::internal_noop_inductive(v, w, l); }
        _ => {}
    }
}
pub proof fn vp_step(v: LS, w: LS, l: LL) -> (s: VT)
    requires vp_inv(v), LikesBetree::State::next(v, w, l),
    ensures vp_inv(w), LinkedBetreeVars::State::next_by(v.betree, w.betree, l->linked_lbl, s), vp_strong(v.betree, s),
{
    vp_inv_is(v); vp_inv_is(w);
    vp_inductive(v, w, l);
    let s = LikesBetree::State::next_refines(v, w, l);
    vp_is_strong(v.betree, s);
    s
}
pub proof fn vp_init(v: LS, u: VS)
    requires LikesBetree::State::initialize(v, u), vp_ok(u.linked),
    ensures vp_inv(v), LinkedBetreeVars::State::initialize(v.betree, u), v.betree == u,
{ v.init_refines(u); vp_inv_is(v); }
pub proof fn vp_init_enabled(u: VS) -> (v: LS)
    requires vp_ok(u.linked), u.memtable.is_empty(),
    ensures LikesBetree::State::initialize(v, u), vp_inv(v),
{
    let (a, b) = u.linked.transitive_likes();
    let v = LikesBetree::State{ betree: u, betree_likes: a, buffer_likes: b };
    vp_inv_is(v);
    v
}
pub open spec fn vp_exec(s: Seq<LS>, t: Seq<LL>) -> bool { s.len() == t.len() + 1 && forall|i: int| 0 <= i < t.len() ==> LikesBetree::State::next(#[trigger] s[i], s[i + 1], t[i]) }
pub open spec fn vp_below_step(v: VS, w: VS, l: VL, s: VT) -> bool { LinkedBetreeVars::State::next_by(v, w, l, s) && vp_strong(v, s) }
pub open spec fn vp_below_next(v: VS, w: VS, l: VL) -> bool { exists|p: VT| vp_below_step(v, w, l, p) }
pub proof fn vp_every_history(s: Seq<LS>, t: Seq<LL>, u: VS, n: nat)
    requires vp_exec(s, t), LikesBetree::State::initialize(s[0], u), vp_ok(u.linked), n <= t.len(),
    ensures vp_inv(s[n as int]), s[0].betree == u, forall|i: int| 0 <= i < n ==> vp_below_next((#[trigger] s[i]).betree, s[i + 1].betree, t[i]->linked_lbl),
    decreases n
{
    vp_init(s[0], u);
    if n > 0 { vp_every_history(s, t, u, (n - 1) as nat); let i = n - 1; assert(LikesBetree::State::next(s[i], s[i + 1], t[i])); let p = vp_step(s[i], s[i + 1], t[i]); assert(vp_below_step(s[i].betree, s[i + 1].betree, t[i]->linked_lbl, p)); }
}
// ---- it can be used: every step of the layer below that keeps everything is a step here
pub proof fn vp_user_enabled(v: LS, nb: VS, l: VL)
    requires l is Query || l is Put || l is FreezeAs, LinkedBetreeVars::State::next(v.betree, nb, l),
    ensures LikesBetree::State::next(v, LikesBetree::State{ betree: nb, ..v }, LL::Label{ linked_lbl: l }),
{
    reveal(LikesBetree::State::next); reveal(LikesBetree::State::next_by);
    assert(LikesBetree::State::next_by(v, LikesBetree::State{ betree: nb, ..v }, LL::Label{ linked_lbl: l }, LikesBetree::Step::likes_noop(nb)));
}
proof fn vp_all_on<T>(t: LinkedBetree<T>)
    requires t.acyclic(), t.no_dangling_buffer_ptr(),
    ensures ({ let (a, b) = t.transitive_likes(); a.dom().to_iset() <= t.dv.entries.dom() && b.dom().to_iset() <= t.buffer_dv.repr() }),
{
    let (a, b) = t.transitive_likes();
    t.tree_likes_domain(t.the_ranking());
    t.buffer_likes_domain(a);
    assert forall|x: Address| #[trigger] t.reachable_buffer_addrs().contains(x) implies t.buffer_dv.entries.contains_key(x) by {
        let y = choose|y: Address| t.reachable_buffer(y, x);
        t.reachable_betree_addrs_using_ranking_closed(t.the_ranking());
        assert(t.dv.entries.contains_key(y));
    }
}
pub proof fn vp_flush_memtable_enabled(v: LS, nb: VS, a: TwoAddrs) -> (w: LS)
    requires vp_inv(v), nb.linked == v.betree.linked.push_memtable(v.betree.memtable.buffer, a), vp_free(v.betree.linked, a.addr1), vp_free(v.betree.linked, a.addr2),
        LinkedBetreeVars::State::internal_flush_memtable(v.betree, nb, VL::Internal{}, v.betree.memtable.buffer, nb.linked, a),
    ensures LikesBetree::State::next(v, w, LL::Label{ linked_lbl: VL::Internal{} }), w.betree == nb,
{
    reveal(LikesBetree::State::next); reveal(LikesBetree::State::next_by);
    vp_inv_is(v);
    LikesBetree::State::push_memtable_likes_ensures(v.betree, nb, v.betree.memtable.buffer, a);
    let (x, y) = nb.linked.transitive_likes();
    let w = LikesBetree::State{ betree: nb, betree_likes: x, buffer_likes: y };
    v.betree.linked.push_memtable_ensures(v.betree.memtable.buffer, a);
    vp_all_on(nb.linked);
    assert(v.is_fresh(a.repr()));
    assert(LikesBetree::State::next_by(v, w, LL::Label{ linked_lbl: VL::Internal{} }, LikesBetree::Step::internal_flush_memtable(nb, a)));
    w
}
pub proof fn vp_grow_enabled(v: LS, nb: VS, a: Address) -> (w: LS)
    requires vp_inv(v), vp_free(v.betree.linked, a), LinkedBetreeVars::State::internal_grow(v.betree, nb, VL::Internal{}, a),
    ensures LikesBetree::State::next(v, w, LL::Label{ linked_lbl: VL::Internal{} }), w.betree == nb, w.buffer_likes == v.buffer_likes,
{
    reveal(LikesBetree::State::next); reveal(LikesBetree::State::next_by);
    let w = LikesBetree::State{ betree: nb, betree_likes: v.betree_likes.insert(a), buffer_likes: v.buffer_likes };
    assert(LikesBetree::State::next_by(v, w, LL::Label{ linked_lbl: VL::Internal{} }, LikesBetree::Step::internal_grow(nb, a)));
    w
}
proof fn vp_fresh_seq<T>(t: LinkedBetree<T>, s: Seq<Address>)
    requires vp_free_seq(t, s), ensures t.is_fresh(s.to_iset()),
{
    assert forall|a: Address| s.to_iset().contains(a) implies !t.dv.entries.contains_key(a) && !t.buffer_dv.entries.contains_key(a) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(vp_free(t, s[i]));
    }
}
pub proof fn vp_split_enabled(v: LS, nb: VS, p: Path<SimpleBuffer>, r: SplitRequest, a: SplitAddrs, pa: PathAddrs) -> (w: LS)
    requires vp_inv(v), nb.linked == p.substitute(p.target().split_parent(r, a), pa), vp_free(v.betree.linked, a.left), vp_free(v.betree.linked, a.right), vp_free(v.betree.linked, a.parent), vp_free_seq(v.betree.linked, pa),
        LinkedBetreeVars::State::internal_split(v.betree, nb, VL::Internal{}, nb.linked, p, r, a, pa),
    ensures LikesBetree::State::next(v, w, LL::Label{ linked_lbl: VL::Internal{} }), w.betree == nb,
{
    reveal(LikesBetree::State::next); reveal(LikesBetree::State::next_by);
    vp_inv_is(v);
    vp_fresh_seq(v.betree.linked, pa);
    LikesBetree::State::post_split_likes_ensures(v.betree, nb, p, r, a, pa);
    v.betree.post_split_ensures(p, r, a, pa);
    let (x, y) = nb.linked.transitive_likes();
    let w = LikesBetree::State{ betree: nb, betree_likes: x, buffer_likes: y };
    vp_all_on(nb.linked);
    assert(v.is_fresh(a.repr().union(pa.to_iset())));
    assert forall|b: Address| v.buffer_likes.dom().to_iset().contains(b) implies nb.linked.buffer_dv.repr().contains(b) by { assert(y.count(b) > 0); assert(y.dom().to_iset().contains(b)); }
    assert(LikesBetree::State::next_by(v, w, LL::Label{ linked_lbl: VL::Internal{} }, LikesBetree::Step::internal_split(nb, p, r, a, pa)));
    w
}
pub proof fn vp_flush_enabled(v: LS, nb: VS, p: Path<SimpleBuffer>, c: nat, gc: nat, a: TwoAddrs, pa: PathAddrs) -> (w: LS)
    requires vp_inv(v), nb.linked == p.substitute(p.target().flush(c, gc, a), pa), vp_free(v.betree.linked, a.addr1), vp_free(v.betree.linked, a.addr2), vp_free_seq(v.betree.linked, pa),
        LinkedBetreeVars::State::internal_flush(v.betree, nb, VL::Internal{}, nb.linked, p, c, gc, a, pa),
    ensures LikesBetree::State::next(v, w, LL::Label{ linked_lbl: VL::Internal{} }), w.betree == nb,
{
    reveal(LikesBetree::State::next); reveal(LikesBetree::State::next_by);
    vp_inv_is(v);
    vp_fresh_seq(v.betree.linked, pa);
    assert(v.is_fresh(a.repr() + pa.to_iset()));
    LikesBetree::State::post_flush_likes_ensures(v.betree, nb, p, c, gc, a, pa);
    v.betree.post_flush_ensures(p, c, gc, a, pa);
    let (x, y) = nb.linked.transitive_likes();
    let w = LikesBetree::State{ betree: nb, betree_likes: x, buffer_likes: y };
    vp_all_on(nb.linked);
    assert(LikesBetree::State::next_by(v, w, LL::Label{ linked_lbl: VL::Internal{} }, LikesBetree::Step::internal_flush(nb, p, c, gc, a, pa)));
    w
}
pub proof fn vp_compact_enabled(v: LS, nb: VS, p: Path<SimpleBuffer>, s: nat, e: nat, b: SimpleBuffer, a: TwoAddrs, pa: PathAddrs) -> (w: LS)
    requires vp_inv(v), nb.linked == p.substitute(p.target().compact(s, e, b, a), pa), vp_free(v.betree.linked, a.addr1), vp_free(v.betree.linked, a.addr2), vp_free_seq(v.betree.linked, pa),
        LinkedBetreeVars::State::internal_compact(v.betree, nb, VL::Internal{}, nb.linked, p, s, e, b, a, pa),
    ensures LikesBetree::State::next(v, w, LL::Label{ linked_lbl: VL::Internal{} }), w.betree == nb,
{
    reveal(LikesBetree::State::next); reveal(LikesBetree::State::next_by);
    vp_inv_is(v);
    vp_fresh_seq(v.betree.linked, pa);
    assert(v.is_fresh(a.repr() + pa.to_iset()));
    assert(v.is_fresh(a.repr().union(pa.to_iset())));
    LikesBetree::State::post_compact_likes_ensures(v.betree, nb, p, s, e, b, a, pa);
    v.betree.post_compact_ensures(p, s, e, b, a, pa);
    let (x, y) = nb.linked.transitive_likes();
    let w = LikesBetree::State{ betree: nb, betree_likes: x, buffer_likes: y };
    vp_all_on(nb.linked);
    assert(LikesBetree::State::next_by(v, w, LL::Label{ linked_lbl: VL::Internal{} }, LikesBetree::Step::internal_compact(nb, p, s, e, b, a, pa)));
    w
}
pub proof fn vpfail_step(v: LS, w: LS, l: LL) requires vp_inv(v), LikesBetree::State::next(v, w, l) ensures false { let s = vp_step(v, w, l); }
pub proof fn vpfail_tree_shape(v: LS, a: Address) requires vp_inv(v) ensures v.betree_likes.count(a) <= 1 { vp_live(v, a); }
}
