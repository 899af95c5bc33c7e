//@ in: disk/GenericDisk_v.rs
use vstd::prelude::*;
verus! {
// an allocation unit is in the set exactly when some page of it is
pub proof fn vp_aus(s: ISet<Address>, t: ISet<Address>, au: AU)
    ensures
        to_aus(s).contains(au) <==> exists|a: Address| #[trigger] s.contains(a) && a.au == au,
        to_aus(s + t) == to_aus(s) + to_aus(t),
        s <= t ==> to_aus(s) <= to_aus(t),
        addrs_closed(s, to_aus(s)),
        to_aus(ISet::empty()) == ISet::<AU>::empty(),
{
    to_aus_domain(s);
    to_aus_additive(s, t);
    if s <= t { to_aus_preserves_lte(s, t); }
    let m = IMap::new(|addr| s.contains(addr), |addr: Address| addr.au);
    if to_aus(s).contains(au) {
        assert(m.contains_value(au));
        let a = choose|a: Address| #[trigger] m.contains_key(a) && m[a] == au;
        assert(s.contains(a));
    }
    assert(to_aus(ISet::empty()) =~= ISet::<AU>::empty());
}
pub proof fn vp_closed_is_superset(s: ISet<Address>, d: ISet<AU>)
    ensures addrs_closed(s, d) <==> to_aus(s) <= d,
{
    to_aus_domain(s);
    if addrs_closed(s, d) {
        assert forall|au: AU| to_aus(s).contains(au) implies d.contains(au) by { vp_aus(s, s, au); }
    }
    if to_aus(s) <= d {
        assert forall|a: Address| #[trigger] s.contains(a) implies d.contains(a.au) by { assert(to_aus(s).contains(a.au)); }
    }
}
pub proof fn vp_one_page(a: Address)
    ensures to_aus(iset![a]) == iset![a.au], a.first_page().au == a.au, a.first_page().page == 0, a.first_page().first_page() == a.first_page(),
        a.next().au == a.au, a.next().page == a.page + 1, a.next().previous() == a,
        a.page > 0 ==> a.previous().next() == a && a.previous().au == a.au && a.previous().page + 1 == a.page,
        a.wf() ==> a.first_page().wf() && (a.page > 0 ==> a.previous().wf()),
        a.wf() && a.page + 1 < page_count() ==> a.next().wf() && a.after_page(a.next()),
        !a.after_page(a), first_page(None) is None, first_page(Some(a)) == Some(a.first_page()),
{ to_aus_singleton(a); }
pub proof fn vp_after(a: Address, b: Address, c: Address)
    ensures
        a.after_page(b) && b.after_page(c) ==> a.after_page(c),
        a.after_page(b) ==> !b.after_page(a) && a.au == b.au && b.wf() && a.page < b.page,
        a.wf() && b.wf() && a.au == b.au && a != b ==> a.after_page(b) || b.after_page(a),
{}
// min_addr picks the lower in a total order
pub open spec fn vp_le(a: Address, b: Address) -> bool { a.au < b.au || (a.au == b.au && a.page <= b.page) }
pub proof fn vp_min(a: Address, b: Address, c: Address)
    ensures
        min_addr(a, b) == a || min_addr(a, b) == b,
        vp_le(min_addr(a, b), a), vp_le(min_addr(a, b), b),
        min_addr(a, b) == min_addr(b, a),
        min_addr(a, min_addr(b, c)) == min_addr(min_addr(a, b), c),
        min_addr(a, a) == a,
{}
// with one page per unit, taking pages away takes exactly their units away
pub proof fn vp_one_per_unit(s: ISet<Address>, t: ISet<Address>)
    requires set_addrs_disjoint_aus(s + t),
    ensures to_aus(s - t) == to_aus(s) - to_aus(t),
        forall|a: Address, b: Address| s.contains(a) && t.contains(b) && a.au == b.au ==> a == b,
{
    to_aus_subtract(s, t);
    assert forall|a: Address, b: Address| s.contains(a) && t.contains(b) && a.au == b.au implies a == b by {
        assert((s + t).contains(a) && (s + t).contains(b));
    }
}
pub proof fn vp_sets_and_seqs(q: Seq<Address>)
    requires seq_addrs_disjoint_aus(q),
    ensures
        forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && q[i].au == q[j].au ==> i == j,
        set_addrs_disjoint_aus(ISet::new(|a: Address| q.contains(a))),
{
    let s = ISet::new(|a: Address| q.contains(a));
    assert forall|a: Address, b: Address| s.contains(a) && s.contains(b) && a != b implies #[trigger] a.au != #[trigger] b.au by {
        let i = choose|i: int| 0 <= i < q.len() && q[i] == a;
        let j = choose|j: int| 0 <= j < q.len() && q[j] == b;
        assert(i != j);
        assert(q[i].au != q[j].au);
    }
}
pub proof fn vp_range(au: IAU, s: IPage, e: IPage, m: IPage, a: Address, x: IAddress)
    ensures
        addr_range(au, s, e).contains(a) <==> a.au == au && s <= a.page < e,
        s <= m <= e ==> addr_range(au, s, m) + addr_range(au, m, e) == addr_range(au, s, e),
        addr_range(au, s, m).disjoint(addr_range(au, m, e)),
        s < e ==> to_aus(addr_range(au, s, e)) == iset![au as nat],
        s >= e ==> to_aus(addr_range(au, s, e)) == ISet::<AU>::empty(),
        x@ == (Address{ au: x.au as nat, page: x.page as nat }),
{
    if s <= m <= e { assert(addr_range(au, s, m) + addr_range(au, m, e) =~= addr_range(au, s, e)); }
    let r = addr_range(au, s, e);
    if s < e {
        assert(r.contains(Address{ au: au as nat, page: s as nat }));
        assert forall|u: AU| #[trigger] to_aus(r).contains(u) <==> u == au as nat by { vp_aus(r, r, u); }
        assert(to_aus(r) =~= iset![au as nat]);
    } else {
        assert(r =~= ISet::empty());
        vp_aus(r, r, 0);
    }
}
pub proof fn vpfail_aus(s: ISet<Address>, t: ISet<Address>) ensures to_aus(s - t) == to_aus(s) - to_aus(t) { assert(to_aus(s - t) =~= to_aus(s) - to_aus(t)); }
pub proof fn vpfail_false(a: Address) requires a.wf() { assert(false); }
}
