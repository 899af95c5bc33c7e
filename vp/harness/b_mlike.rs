//@ in: allocation_layer/Likes_v.rs
verus! {
broadcast use crate::vp_lib::vp_group;
pub proof fn vp_no_likes(a: Address)
    ensures no_likes().len() == 0, no_likes().count(a) == 0, to_au_likes(no_likes()) == Multiset::<AU>::empty(),
{ assert(to_au_likes(no_likes()) =~= Multiset::<AU>::empty()); }
// the references to a unit are the references to the addresses within it, counted together
pub open spec fn vp_total(l: Likes, u: AU) -> nat { l.filter(|a: Address| a.au == u).len() }
pub proof fn vp_sum(l: Likes, u: AU)
    ensures to_au_likes(l).count(u) == vp_total(l, u), to_au_likes(l).len() == l.len(),
    decreases l.len()
{
    let p = |a: Address| a.au == u;
    if l.is_empty() {
        assert(l.filter(p) =~= Multiset::empty());
    } else {
        assert(l.len() > 0);
        let e = l.choose();
        vp_sum(l.remove(e), u);
        if e.au == u { assert(l.filter(p) =~= l.remove(e).filter(p).insert(e)); } else { assert(l.filter(p) =~= l.remove(e).filter(p)); }
    }
}
// a unit is referenced exactly when some address in it is
pub proof fn vp_unit(l: Likes, u: AU)
    ensures to_au_likes(l).contains(u) <==> exists|a: Address| #[trigger] l.contains(a) && a.au == u, to_au_likes(l).dom().to_iset() == to_aus(l.dom().to_iset()),
{
    to_au_likes_domain(l);
    let d = l.dom().to_iset();
    let m = IMap::new(|a: Address| d.contains(a), |a: Address| a.au);
    if to_au_likes(l).contains(u) {
        assert(to_au_likes(l).dom().contains(u));
        assert(to_au_likes(l).dom().to_iset().contains(u));
        assert(to_aus(d).contains(u));
        assert(m.values().contains(u));
        let a = choose|a: Address| m.dom().contains(a) && m[a] == u;
        assert(l.contains(a));
    }
}
// taking on and giving up references commutes with looking at units
pub proof fn vp_add(l: Likes, d: Likes)
    ensures to_au_likes(l.add(d)) == to_au_likes(l).add(to_au_likes(d)), d <= l ==> to_au_likes(l.sub(d)) == to_au_likes(l).sub(to_au_likes(d)),
{ to_au_likes_commutative_over_add(l, d); if d <= l { to_au_likes_commutative_over_sub(l, d); } }
pub proof fn vp_one(a: Address) ensures to_au_likes(Multiset::singleton(a)) == Multiset::singleton(a.au) { to_au_likes_singleton(a); }
// keeping every address that lies in a referenced unit keeps every referenced address
pub proof fn vp_kept<V>(l: Likes, m: IMap<Address, V>, a: Address)
    ensures
        restrict_domain_au(m, to_au_likes(l).dom().to_iset()).contains(a) <==> m.contains_key(a) && exists|b: Address| #[trigger] l.contains(b) && b.au == a.au,
        l.contains(a) && m.contains_key(a) ==> restrict_domain_au(m, to_au_likes(l).dom().to_iset()).contains(a),
{
    vp_unit(l, a.au);
    assert(to_au_likes(l).dom().to_iset().contains(a.au) <==> to_au_likes(l).contains(a.au));
}
pub proof fn vp_single<V>(m: Multiset<V>) ensures all_elems_single(m) <==> forall|v: V| #[trigger] m.count(v) <= 1 {
    if all_elems_single(m) { assert forall|v: V| #[trigger] m.count(v) <= 1 by { if m.count(v) > 0 { assert(m.contains(v)); } } }
    else { let e = choose|e: V| #[trigger] m.contains(e) && m.count(e) != 1; assert(m.count(e) > 1); }
}
pub proof fn vpfail_sum(l: Likes, u: AU) ensures to_au_likes(l).count(u) <= 1 { vp_sum(l, u); }
}
