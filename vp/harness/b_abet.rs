//@ in: allocation_layer/AllocationBetreeRefinement_v.rs
use crate::betree::LinkedBetree_v::*;
use crate::betree::Domain_v::*;
use crate::betree::SplitRequest_v::*;
use crate::disk::GenericDisk_v::*;
verus! {
broadcast use crate::vp_lib::vp_group;
type AS = AllocationBetree::State;
type AL = AllocationBetree::Label;
type LS = LikesBetree::State;
type LL = LikesBetree::Label;
type VS = LinkedBetreeVars::State<SimpleBuffer>;
type VL = LinkedBetreeVars::Label;

pub open spec fn vp_ok<T>(t: LinkedBetree<T>) -> bool {
    &&& t.acyclic()
    &&& forall|b: Address| #[trigger] t.reachable_buffer_addrs().contains(b) ==> t.buffer_dv.entries.contains_key(b)
    &&& (t.has_root() ==> t.root().my_domain() == total_domain())
}
// the reference counts by unit are the counts of the tree's pointers, unit by unit
pub open spec fn vp_inv(v: AS) -> bool {
    let l = v.betree.linked.transitive_likes();
    vp_ok(v.betree.linked) && (forall|u: AU| #[trigger] v.betree_aus.count(u) == to_au_likes(l.0).count(u)) && (forall|u: AU| #[trigger] v.buffer_aus.count(u) == to_au_likes(l.1).count(u))
}
proof fn vp_inv_is(v: AS) ensures vp_inv(v) <==> v.inv() {
    if vp_inv(v) { let l = v.betree.linked.transitive_likes(); assert(v.betree_aus =~= to_au_likes(l.0)); assert(v.buffer_aus =~= to_au_likes(l.1)); }
}
// the layer below: the same tree with its pointers counted one by one
pub open spec fn vp_i(v: AS) -> LS { let l = v.betree.linked.transitive_likes(); LikesBetree::State{ betree: v.betree, betree_likes: l.0, buffer_likes: l.1 } }
pub proof fn vp_step(v: AS, w: AS, l: AL)
    requires vp_inv(v), AllocationBetree::State::next(v, w, l),
    ensures vp_inv(w), LikesBetree::State::next(vp_i(v), vp_i(w), LL::Label{ linked_lbl: l->linked_lbl }),
{ vp_inv_is(v); vp_inv_is(w); AllocationBetree::State::next_refines(v, w, l); }
pub proof fn vp_init(v: AS, u: VS)
    requires AllocationBetree::State::initialize(v, u), vp_ok(u.linked),
    ensures vp_inv(v), LikesBetree::State::initialize(vp_i(v), u),
{ v.init_inv_refines(u); vp_inv_is(v); }
pub proof fn vp_init_enabled(u: VS) -> (v: AS)
    requires vp_ok(u.linked), u.memtable.is_empty(),
    ensures AllocationBetree::State::initialize(v, u), vp_inv(v),
{
    let l = u.linked.transitive_likes();
    AllocationBetree::State{ betree: u, betree_aus: to_au_likes(l.0), buffer_aus: to_au_likes(l.1) }
}
pub open spec fn vp_exec(s: Seq<AS>, t: Seq<AL>) -> bool { s.len() == t.len() + 1 && forall|i: int| 0 <= i < t.len() ==> AllocationBetree::State::next(#[trigger] s[i], s[i + 1], t[i]) }
pub proof fn vp_every_history(s: Seq<AS>, t: Seq<AL>, u: VS, n: nat)
    requires vp_exec(s, t), AllocationBetree::State::initialize(s[0], u), vp_ok(u.linked), n <= t.len(),
    ensures vp_inv(s[n as int]), LikesBetree::State::initialize(vp_i(s[0]), u),
        forall|i: int| 0 <= i < n ==> LikesBetree::State::next(vp_i(#[trigger] s[i]), vp_i(s[i + 1]), LL::Label{ linked_lbl: t[i]->linked_lbl }),
    decreases n
{
    vp_init(s[0], u);
    if n > 0 { vp_every_history(s, t, u, (n - 1) as nat); let i = n - 1; assert(AllocationBetree::State::next(s[i], s[i + 1], t[i])); vp_step(s[i], s[i + 1], t[i]); }
}
// a unit may be given back exactly when nothing in it is in use
pub proof fn vp_unit(v: AS, a: Address, u: AU)
    requires vp_inv(v),
    ensures
        v.betree.linked.reachable_betree_addrs().contains(a) ==> v.betree_aus.contains(a.au) && v.betree.linked.dv.entries.contains_key(a),
        v.betree.linked.reachable_buffer_addrs().contains(a) ==> v.buffer_aus.contains(a.au) && v.betree.linked.buffer_dv.entries.contains_key(a),
        v.betree_aus.contains(u) <==> exists|b: Address| #[trigger] v.betree.linked.reachable_betree_addrs().contains(b) && b.au == u,
        v.buffer_aus.contains(u) <==> exists|b: Address| #[trigger] v.betree.linked.reachable_buffer_addrs().contains(b) && b.au == u,
{
    let t = v.betree.linked;
    let (x, y) = t.transitive_likes();
    vp_inv_is(v);
    t.tree_likes_domain(t.the_ranking());
    t.buffer_likes_domain(x);
    vp_dom(x, a); vp_dom(y, a);
    vp_units(x, u); vp_units(y, u);
    if v.betree_aus.contains(u) { let b = choose|b: Address| #[trigger] x.contains(b) && b.au == u; vp_dom(x, b); assert(t.reachable_betree_addrs().contains(b)); }
    if v.buffer_aus.contains(u) { let b = choose|b: Address| #[trigger] y.contains(b) && b.au == u; vp_dom(y, b); assert(t.reachable_buffer_addrs().contains(b)); }
    assert forall|b: Address| #[trigger] t.reachable_betree_addrs().contains(b) implies v.betree_aus.contains(b.au) by { vp_dom(x, b); vp_units(x, b.au); assert(x.contains(b)); }
    assert forall|b: Address| #[trigger] t.reachable_buffer_addrs().contains(b) implies v.buffer_aus.contains(b.au) by { vp_dom(y, b); vp_units(y, b.au); assert(y.contains(b)); }
}
proof fn vp_dom(l: Likes, a: Address) ensures l.dom().to_iset().contains(a) <==> l.contains(a) {}
proof fn vp_units(l: Likes, u: AU)
    ensures to_au_likes(l).contains(u) <==> exists|b: Address| #[trigger] l.contains(b) && b.au == u,
{
    to_au_likes_domain(l);
    let d = l.dom().to_iset();
    let m = IMap::new(|a: Address| d.contains(a), |a: Address| a.au);
    if to_au_likes(l).contains(u) {
        assert(to_au_likes(l).dom().to_iset().contains(u));
        assert(to_aus(d).contains(u));
        assert(m.values().contains(u));
        let a = choose|a: Address| m.dom().contains(a) && m[a] == u;
        assert(l.contains(a));
    }
}
pub open spec fn vp_free<T>(t: LinkedBetree<T>, a: Address) -> bool { !t.dv.entries.contains_key(a) && !t.buffer_dv.entries.contains_key(a) }
pub open spec fn vp_free_seq<T>(t: LinkedBetree<T>, s: Seq<Address>) -> bool { forall|i: int| 0 <= i < s.len() ==> vp_free(t, #[trigger] s[i]) }
proof fn vp_fresh_seq<T>(t: LinkedBetree<T>, s: Seq<Address>)
    requires vp_free_seq(t, s), ensures t.is_fresh(s.to_iset()),
{
    assert forall|a: Address| s.to_iset().contains(a) implies !t.dv.entries.contains_key(a) && !t.buffer_dv.entries.contains_key(a) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(vp_free(t, s[i]));
    }
}
// ---- it can be used
pub proof fn vp_user_enabled(v: AS, nb: VS, l: VL)
    requires l is Query || l is Put || l is FreezeAs, LinkedBetreeVars::State::next(v.betree, nb, l),
    ensures AllocationBetree::State::next(v, AllocationBetree::State{ betree: nb, ..v }, AL::Label{ linked_lbl: l }),
{
    reveal(AllocationBetree::State::next); reveal(AllocationBetree::State::next_by);
    assert(AllocationBetree::State::next_by(v, AllocationBetree::State{ betree: nb, ..v }, AL::Label{ linked_lbl: l }, AllocationBetree::Step::au_likes_noop(nb)));
}
pub proof fn vp_flush_memtable_enabled(v: AS, nb: VS, a: TwoAddrs) -> (w: AS)
    requires vp_inv(v), nb.linked == v.betree.linked.push_memtable(v.betree.memtable.buffer, a), vp_free(v.betree.linked, a.addr1), vp_free(v.betree.linked, a.addr2),
        LinkedBetreeVars::State::internal_flush_memtable(v.betree, nb, VL::Internal{}, v.betree.memtable.buffer, nb.linked, a),
    ensures AllocationBetree::State::next(v, w, AL::Label{ linked_lbl: VL::Internal{} }), w.betree == nb,
{
    reveal(AllocationBetree::State::next); reveal(AllocationBetree::State::next_by);
    let c = AllocationBetree::State::flush_memtable_au_likes(v.betree, nb, a, v.betree_aus, v.buffer_aus);
    let w = AllocationBetree::State{ betree: nb, betree_aus: c.0, buffer_aus: c.1 };
    assert(v.is_fresh(a.repr()));
    assert(AllocationBetree::State::next_by(v, w, AL::Label{ linked_lbl: VL::Internal{} }, AllocationBetree::Step::internal_flush_memtable(nb, a)));
    w
}
pub proof fn vp_grow_enabled(v: AS, nb: VS, a: Address) -> (w: AS)
    requires vp_inv(v), vp_free(v.betree.linked, a), LinkedBetreeVars::State::internal_grow(v.betree, nb, VL::Internal{}, a),
    ensures AllocationBetree::State::next(v, w, AL::Label{ linked_lbl: VL::Internal{} }), w.betree == nb, w.buffer_aus == v.buffer_aus,
{
    reveal(AllocationBetree::State::next); reveal(AllocationBetree::State::next_by);
    let w = AllocationBetree::State{ betree: nb, betree_aus: v.betree_aus.insert(a.au), buffer_aus: v.buffer_aus };
    assert(AllocationBetree::State::next_by(v, w, AL::Label{ linked_lbl: VL::Internal{} }, AllocationBetree::Step::internal_grow(nb, a)));
    w
}
pub proof fn vp_split_enabled(v: AS, nb: VS, p: Path<SimpleBuffer>, r: SplitRequest, a: SplitAddrs, pa: PathAddrs) -> (w: AS)
    requires vp_inv(v), nb.linked == p.substitute(p.target().split_parent(r, a), pa), vp_free(v.betree.linked, a.left), vp_free(v.betree.linked, a.right), vp_free(v.betree.linked, a.parent), vp_free_seq(v.betree.linked, pa),
        LinkedBetreeVars::State::internal_split(v.betree, nb, VL::Internal{}, nb.linked, p, r, a, pa),
    ensures AllocationBetree::State::next(v, w, AL::Label{ linked_lbl: VL::Internal{} }), w.betree == nb,
{
    reveal(AllocationBetree::State::next); reveal(AllocationBetree::State::next_by);
    vp_fresh_seq(v.betree.linked, pa);
    let c = AllocationBetree::State::internal_split_au_likes(p, r, a, pa, v.betree_aus, v.buffer_aus);
    let w = AllocationBetree::State{ betree: nb, betree_aus: c.0, buffer_aus: c.1 };
    assert(v.is_fresh(a.repr().union(pa.to_iset())));
    assert(AllocationBetree::State::next_by(v, w, AL::Label{ linked_lbl: VL::Internal{} }, AllocationBetree::Step::internal_split(nb, p, r, a, pa)));
    w
}
pub proof fn vp_flush_enabled(v: AS, nb: VS, p: Path<SimpleBuffer>, c: nat, gc: nat, a: TwoAddrs, pa: PathAddrs) -> (w: AS)
    requires vp_inv(v), nb.linked == p.substitute(p.target().flush(c, gc, a), pa), vp_free(v.betree.linked, a.addr1), vp_free(v.betree.linked, a.addr2), vp_free_seq(v.betree.linked, pa),
        LinkedBetreeVars::State::internal_flush(v.betree, nb, VL::Internal{}, nb.linked, p, c, gc, a, pa),
    ensures AllocationBetree::State::next(v, w, AL::Label{ linked_lbl: VL::Internal{} }), w.betree == nb,
{
    reveal(AllocationBetree::State::next); reveal(AllocationBetree::State::next_by);
    vp_fresh_seq(v.betree.linked, pa);
    let x = AllocationBetree::State::internal_flush_au_likes(p, c, gc, a, pa, v.betree_aus, v.buffer_aus);
    let w = AllocationBetree::State{ betree: nb, betree_aus: x.0, buffer_aus: x.1 };
    assert(v.is_fresh(a.repr() + pa.to_iset()));
    assert(AllocationBetree::State::next_by(v, w, AL::Label{ linked_lbl: VL::Internal{} }, AllocationBetree::Step::internal_flush(nb, p, c, gc, a, pa)));
    w
}
pub proof fn vp_compact_enabled(v: AS, nb: VS, p: Path<SimpleBuffer>, s: nat, e: nat, b: SimpleBuffer, a: TwoAddrs, pa: PathAddrs) -> (w: AS)
    requires vp_inv(v), nb.linked == p.substitute(p.target().compact(s, e, b, a), pa), vp_free(v.betree.linked, a.addr1), vp_free(v.betree.linked, a.addr2), vp_free_seq(v.betree.linked, pa),
        LinkedBetreeVars::State::internal_compact(v.betree, nb, VL::Internal{}, nb.linked, p, s, e, b, a, pa),
    ensures AllocationBetree::State::next(v, w, AL::Label{ linked_lbl: VL::Internal{} }), w.betree == nb,
{
    reveal(AllocationBetree::State::next); reveal(AllocationBetree::State::next_by);
    vp_fresh_seq(v.betree.linked, pa);
    let x = AllocationBetree::State::internal_compact_complete_au_likes(p, s, e, a, pa, v.betree_aus, v.buffer_aus);
    let w = AllocationBetree::State{ betree: nb, betree_aus: x.0, buffer_aus: x.1 };
    assert(v.is_fresh(a.repr().union(pa.to_iset())));
    assert(AllocationBetree::State::next_by(v, w, AL::Label{ linked_lbl: VL::Internal{} }, AllocationBetree::Step::internal_compact_complete(nb, p, s, e, b, a, pa)));
    w
}
pub proof fn vpfail_step(v: AS, w: AS, l: AL) requires vp_inv(v), AllocationBetree::State::next(v, w, l) ensures false { vp_step(v, w, l); }
pub proof fn vpfail_fixed(v: AS, w: AS, l: AL) requires vp_inv(v), AllocationBetree::State::next(v, w, l) ensures w.buffer_aus == v.buffer_aus { vp_step(v, w, l); }
}
