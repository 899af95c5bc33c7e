//@ in: betree/PivotTable_v.rs
use vstd::prelude::*;
verus! {
// a pivot table cuts its key range into consecutive, disjoint, non-empty ranges, and routing finds the one range of a key
pub proof fn vp_route(p: PivotTable, k: Key, r: int)
    requires p.wf(),
    ensures
        p.bounded_key(k) <==> Element::lte(p.pivots[0], to_element(k)) && Element::lt(to_element(k), p.pivots.last()),
        p.bounded_key(k) ==> 0 <= p.route(k) < p.num_ranges() && Element::lte(p.pivots[p.route(k)], to_element(k)) && Element::lt(to_element(k), p.pivots[p.route(k) + 1]),
        0 <= r < p.num_ranges() && Element::lte(p.pivots[r], to_element(k)) && Element::lt(to_element(k), p.pivots[r + 1]) ==> p.bounded_key(k) && p.route(k) == r,
        0 <= r < p.num_ranges() ==> (p.pivot_range_keyset(r).contains(k) <==> Element::lte(p.pivots[r], to_element(k)) && Element::lt(to_element(k), p.pivots[r + 1])),
        p.num_ranges() == p.len() - 1, p.num_ranges() >= 1,
{
    if p.bounded_key(k) { p.route_lemma(k); }
    if 0 <= r < p.num_ranges() && Element::lte(p.pivots[r], to_element(k)) && Element::lt(to_element(k), p.pivots[r + 1]) { p.route_is_lemma(k, r); }
}
pub proof fn vp_ranges(p: PivotTable, i: int, j: int, k: Key)
    requires p.wf(), 0 <= i < p.num_ranges(), 0 <= j < p.num_ranges(),
    ensures
        p.pivot_range_keyset(i).contains(k) && p.pivot_range_keyset(j).contains(k) ==> i == j,
        i < j ==> Element::lt(p.pivots[i], p.pivots[j]), p.pivots[i] is Elem,
        p.pivot_range_keyset(i).contains(to_key(p.pivots[i])),
{
    Element::strictly_sorted_implies_sorted(p.pivots);
    assert(Element::lt(p.pivots[i], p.pivots[i + 1]));
    vp_route(p, to_key(p.pivots[i]), i);
}
pub proof fn vp_domain(d: Domain, k: Key)
    requires d.wf(), d is Domain,
    ensures domain_to_pivots(d).wf(), domain_to_pivots(d).num_ranges() == 1, domain_to_pivots(d).bounded_key(k) <==> d.contains(k),
        d.contains(k) ==> domain_to_pivots(d).route(k) == 0,
        total_domain().contains(k),
{
    let p = domain_to_pivots(d);
    assert(p.wf());
    if d.contains(k) { p.route_lemma(k); }
}
// adding a pivot cuts one range in two and leaves the others alone
pub proof fn vp_insert(p: PivotTable, i: int, e: Element, k: Key)
    requires p.wf(), 0 < i < p.len(), e is Elem, Element::lt(p.pivots[i - 1], e), Element::lt(e, p.pivots[i]),
    ensures
        p.can_insert(i, e), p.insert(i, e).wf(), p.insert(i, e).num_ranges() == p.num_ranges() + 1,
        p.insert(i, e).bounded_key(k) <==> p.bounded_key(k),
        p.bounded_key(k) && p.route(k) < i - 1 ==> p.insert(i, e).route(k) == p.route(k),
        p.bounded_key(k) && p.route(k) == i - 1 ==> p.insert(i, e).route(k) == (if Element::lt(to_element(k), e) { i - 1 } else { i }),
        p.bounded_key(k) && p.route(k) >= i ==> p.insert(i, e).route(k) == p.route(k) + 1,
{
    p.insert_wf(i, e);
    let q = p.insert(i, e);
    Element::lte_transitive_forall();
    assert(q.pivots.last() == p.pivots.last() && q.pivots[0] == p.pivots[0]);
    if p.bounded_key(k) {
        p.route_lemma(k);
        let r = p.route(k);
        let n = if r < i - 1 { r } else if r >= i { r + 1 } else if Element::lt(to_element(k), e) { i - 1 } else { i };
        assert(q.pivots[n] == (if n < i { p.pivots[n] } else if n == i { e } else { p.pivots[n - 1] }));
        assert(q.pivots[n + 1] == (if n + 1 < i { p.pivots[n + 1] } else if n + 1 == i { e } else { p.pivots[n] }));
        q.route_is_lemma(k, n);
    }
}
pub proof fn vp_no_insert(p: PivotTable, i: int, e: Element)
    requires p.wf(), 0 < i < p.len(), !Element::lt(p.pivots[i - 1], e) || !Element::lt(e, p.pivots[i]) || !(e is Elem),
    ensures !p.can_insert(i, e),
{}
pub proof fn vp_parts(p: PivotTable, a: int, b: int, i: int, e: Element)
    requires p.wf(), 0 <= a < b, b < p.len(),
    ensures
        p.subrange(a, b + 1).wf(), p.subrange(a, b + 1).num_ranges() == b - a,
        0 <= i <= b - a ==> p.subrange(a, b + 1)[i] == p[a + i],
        0 <= i < p.len() ==> p.update(a, e)[i] == (if i == a { e } else { p[i] }), p.update(a, e).len() == p.len(),
{
    let q = p.subrange(a, b + 1).pivots;
    assert forall|x: int, y: int| 0 <= x < y < q.len() implies Element::lt(q[x], q[y]) by { assert(q[x] == p.pivots[a + x] && q[y] == p.pivots[a + y]); }
}
pub proof fn vpfail_route(p: PivotTable, k: Key) requires p.wf() ensures p.bounded_key(k) {}
}
