//@ in: exec/MiniAllocator_v.rs
use vstd::prelude::*;
verus! {

pub proof fn vp_view(p: PageAllocator, a: Address)
    requires p.wf(),
    ensures
        p@.au == p.au as nat, p@.wf(),
        p@.observed.contains(a) <==> a.au == p.au as nat && a.page < (p.observed as nat),
        p@.reserved.contains(a) <==> a.au == p.au as nat && a.page < (p.reserved as nat),
        p.has_free_addr() <==> (p.reserved as nat) < page_count(),
        p.has_free_addr() ==> p@.is_free_addr(Address{ au: p.au as nat, page: p.reserved as nat }),
        p@.all_pages_allocated() <==> !p.has_free_addr(),
{
    p.free_addr_implies_not_all_allocated();
}
pub proof fn vp_whole(m: MiniAllocator)
    requires m.wf(),
    ensures
        m@.wf(),
        m.allocs is None ==> m@ == MiniAllocator_v::MiniAllocator::empty(),
        m.allocs is Some ==> m@.allocs.contains_key(m.allocs.unwrap().au as nat) && m@.allocs[m.allocs.unwrap().au as nat] == m.allocs.unwrap()@,
        m.allocs is Some ==> forall|au: AU| #[trigger] m@.allocs.contains_key(au) <==> au == m.allocs.unwrap().au as nat,
{
    if m.allocs is Some { vp_view(m.allocs.unwrap(), arbitrary()); }
}
// the contract leaves exactly one page that can come out next
proof fn vp_one_more(o: PageAllocator, n: PageAllocator, a: IAddress)
    requires o.wf(), n.wf(), o@.is_free_addr(a@), a.page < n.reserved, n@.reserved == o@.reserve(iset![a@]).reserved, n@.au == o@.au,
    ensures a.au == o.au, a.page == o.reserved, n.reserved == o.reserved + 1, n.au == o.au,
{
    let r = Address{ au: o.au as nat, page: o.reserved as nat };
    let t = Address{ au: o.au as nat, page: (n.reserved - 1) as nat };
    assert(o@.reserved.contains(a@) <==> a@.page < o.reserved);
    assert(n@.reserved.contains(r));
    assert(o@.reserve(iset![a@]).reserved.contains(r));
    assert(n@.reserved.contains(t));
    assert(o@.reserve(iset![a@]).reserved.contains(t));
}
pub exec fn vp_reserve_next(p: &mut PageAllocator) -> (a: IAddress)
    requires old(p).wf(), old(p).has_free_addr(),
    ensures
        p.wf(), p.au == old(p).au, p.reserved == old(p).reserved + 1,
        a.au == old(p).au, a.page == old(p).reserved, !old(p)@.reserved.contains(a@),
        p@.observed == old(p)@.observed,
{
    let a = p.reserve();
    proof { vp_one_more(*old(p), *p, a); }
    a
}
// a unit's life: pages come out once each, in order, inside the unit
pub exec fn vp_life(au: IAU)
    requires au < au_count(), page_count() >= 2,
{
    let mut m = MiniAllocator::empty();
    m.add_aus(au);
    proof { vp_whole(m); }
    let ghost g0 = m@;
    let ghost p0 = m.allocs.unwrap();
    let a = m.allocate_and_observe();
    let ghost g1 = m@;
    let ghost p1 = m.allocs.unwrap();
    proof { vp_step(p0, g0, p1, g1, a); }
    assert(a@ == Address{ au: au as nat, page: 0 });
    assert(!g1.can_allocate(a@));
    assert(g1.page_is_reserved(a@));
    let b = m.allocate_and_observe();
    let ghost g2 = m@;
    let ghost p2 = m.allocs.unwrap();
    proof { vp_step(p1, g1, p2, g2, b); }
    assert(b@ == Address{ au: au as nat, page: 1 });
    assert(g2.page_is_reserved(a@) && g2.page_is_reserved(b@));
    m.prune();
    proof { vp_whole(m); }
    assert(m@.allocs =~= MiniAllocator_v::MiniAllocator::empty().allocs);
    assert(m@.curr is None);
}
proof fn vp_step(o: PageAllocator, g: MiniAllocator_v::MiniAllocator, n: PageAllocator, h: MiniAllocator_v::MiniAllocator, a: IAddress)
    requires
        o.wf(), n.wf(), a@.wf(),
        g.allocs == imap![o@.au => o@], h.allocs == imap![n@.au => n@],
        n.no_unobserved_pages(), g.can_allocate(a@),
        h == g.allocate(a@).observe(a@),
    ensures a.au == o.au, a.page == o.reserved, n.reserved == o.reserved + 1, n.au == o.au,
{
    assert(g.allocs.contains_key(a@.au));
    assert(a@.au == o@.au);
    assert(g.allocate(a@).observe(a@).allocs.contains_key(a@.au));
    assert(h.allocs.contains_key(a@.au));
    assert(n@.au == o@.au);
    assert(g.allocs[o@.au] == o@);
    assert(h.allocs[o@.au] == n@);
    assert(n@.reserved == o@.reserve(iset![a@]).reserved);
    assert(n@.reserved.contains(a@));
    vp_one_more(o, n, a);
}
pub exec fn vpfail_life(au: IAU)
    requires au < au_count(), page_count() >= 2,
{
    let mut m = MiniAllocator::empty();
    m.add_aus(au);
    let a = m.allocate_and_observe();
    assert(false);
}
}
