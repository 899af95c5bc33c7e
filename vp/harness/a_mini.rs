//@ in: allocation_layer/MiniAllocator_v.rs
use vstd::prelude::*;
verus! {

// one allocation unit: free, reserved, observed pages
pub proof fn vp_page_meaning(p: PageAllocator, s: ISet<Address>, a: Address)
    requires p.wf(),
    ensures
        p.is_free_addr(a) <==> a.wf() && a.au == p.au && !p.observed.contains(a) && !p.reserved.contains(a),
        p.reserve(s).reserved.contains(a) <==> p.reserved.contains(a) || s.contains(a),
        p.reserve(s).observed == p.observed, p.reserve(s).au == p.au,
        p.unreserve(s).reserved.contains(a) <==> p.reserved.contains(a) && !s.contains(a),
        p.unreserve(s).observed == p.observed, p.unreserve(s).au == p.au,
        p.observe(s).observed.contains(a) <==> p.observed.contains(a) || s.contains(a),
        p.observe(s).reserved == p.reserved, p.observe(s).au == p.au,
        p.unobserve(s).observed.contains(a) <==> p.observed.contains(a) && !s.contains(a),
        p.unobserve(s).reserved == p.reserved, p.unobserve(s).au == p.au,
        p.unobserve_all().observed == ISet::<Address>::empty(), p.unobserve_all().reserved == p.reserved, p.unobserve_all().au == p.au,
        p.free(s).observed.contains(a) <==> p.observed.contains(a) && !s.contains(a),
        p.free(s).reserved.contains(a) <==> p.reserved.contains(a) && !s.contains(a),
        p.free(s).au == p.au,
        p.has_no_observed_pages() <==> p.observed == ISet::<Address>::empty(),
        p.has_no_outstanding_refs() <==> p.reserved == ISet::<Address>::empty(),
        p.all_pages_free() <==> p.observed == ISet::<Address>::empty() && p.reserved == ISet::<Address>::empty(),
        p.all_pages_allocated() ==> !p.is_free_addr(a),
        !p.all_pages_allocated() ==> exists|b: Address| #[trigger] p.is_free_addr(b),
{
    assert(p.unobserve_all().observed =~= ISet::<Address>::empty());
    if !p.all_pages_allocated() {
        let b = choose|b: Address| b.wf() && b.au == p.au && !(#[trigger] p.reserved.contains(b) || p.observed.contains(b));
        assert(p.is_free_addr(b));
    }
}
pub proof fn vp_new(au: AU, a: Address)
    ensures PageAllocator::new(au).wf(), PageAllocator::new(au).au == au, PageAllocator::new(au).all_pages_free(),
        PageAllocator::new(au).is_free_addr(a) <==> a.wf() && a.au == au,
        MiniAllocator::empty().wf(), !MiniAllocator::empty().can_allocate(a), MiniAllocator::empty().curr is None,
        MiniAllocator::empty().all_aus() == ISet::<AU>::empty(),
{ assert(MiniAllocator::empty().all_aus() =~= ISet::<AU>::empty()); }
// handing out a page: it was free, is not any more, and nothing else moves
pub proof fn vp_allocate(m: MiniAllocator, a: Address, b: Address)
    requires m.wf(), m.can_allocate(a),
    ensures
        a.wf(), m.allocs.contains_key(a.au), !m.allocs[a.au].reserved.contains(a), !m.allocs[a.au].observed.contains(a),
        m.allocate(a).wf(),
        !m.allocate(a).can_allocate(a),
        m.allocate(a).page_is_reserved(a),
        b != a ==> (m.allocate(a).can_allocate(b) <==> m.can_allocate(b)),
        b != a ==> (m.allocate(a).page_is_reserved(b) <==> m.page_is_reserved(b)),
        m.allocate(a).all_aus() == m.all_aus(),
        m.allocate(a).curr is Some ==> m.allocate(a).curr == Some(a.au),
        m.allocate(a).curr is None ==> (b.au == a.au ==> !m.allocate(a).can_allocate(b)),
        m.allocate(a).allocs[a.au].observed == m.allocs[a.au].observed,
        !m.allocate(a).can_remove(a.au),
        b.au != a.au && m.allocs.contains_key(b.au) ==> m.allocate(a).allocs[b.au] == m.allocs[b.au],
{
    assert(m.allocate(a).all_aus() =~= m.all_aus());
    assert(m.allocate(a).allocs[a.au].reserved.contains(a));
}
pub proof fn vp_observe(m: MiniAllocator, a: Address, b: Address)
    requires m.wf(), m.page_is_reserved(a),
    ensures
        m.observe(a).wf(), m.observe(a).allocs[a.au].observed.contains(a),
        m.observe(a).can_allocate(b) <==> m.can_allocate(b),
        m.observe(a).page_is_reserved(b) <==> m.page_is_reserved(b),
        m.observe(a).all_aus() == m.all_aus(), m.observe(a).curr == m.curr,
        b != a && m.allocs.contains_key(b.au) ==> (m.observe(a).allocs[b.au].observed.contains(b) <==> m.allocs[b.au].observed.contains(b)),
{ assert(m.observe(a).all_aus() =~= m.all_aus()); }
pub proof fn vp_add(m: MiniAllocator, s: ISet<AU>, a: Address)
    requires m.wf(),
    ensures
        m.add_aus(s).wf(), m.add_aus(s).curr == m.curr,
        m.add_aus(s).all_aus().contains(a.au) <==> m.all_aus().contains(a.au) || s.contains(a.au),
        m.all_aus().contains(a.au) ==> m.add_aus(s).allocs[a.au] == m.allocs[a.au],
        s.contains(a.au) && !m.all_aus().contains(a.au) ==> m.add_aus(s).allocs[a.au].all_pages_free() && (m.add_aus(s).can_allocate(a) <==> a.wf()),
        m.can_allocate(a) ==> m.add_aus(s).can_allocate(a),
{
}
pub proof fn vp_prune(m: MiniAllocator, s: ISet<AU>, a: Address)
    requires m.wf(),
    ensures
        m.prune(s).wf(),
        m.prune(s).all_aus().contains(a.au) <==> m.all_aus().contains(a.au) && !s.contains(a.au),
        m.prune(s).can_allocate(a) <==> m.can_allocate(a) && !s.contains(a.au),
        m.prune(s).all_aus().contains(a.au) ==> m.prune(s).allocs[a.au] == m.allocs[a.au],
        m.prune(s).curr == (if m.curr is Some && s.contains(m.curr.unwrap()) { None } else { m.curr }),
{
}
pub proof fn vp_sets(m: MiniAllocator, au: AU)
    requires m.wf(),
    ensures
        m.can_remove(au) <==> m.all_aus().contains(au) && m.allocs[au].reserved == ISet::<Address>::empty(),
        m.removable_aus().contains(au) <==> m.can_remove(au),
        m.reserved_aus().contains(au) <==> m.all_aus().contains(au) && !m.removable_aus().contains(au),
        m.not_observed_aus().contains(au) <==> m.all_aus().contains(au) && m.allocs[au].observed == ISet::<Address>::empty(),
{
}
pub proof fn vpfail_exhausted(m: MiniAllocator, a: Address) requires m.wf(), m.can_allocate(a), ensures false {}
}
