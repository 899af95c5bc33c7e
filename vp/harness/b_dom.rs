//@ in: betree/Domain_v.rs
use vstd::prelude::*;
verus! {
pub proof fn vp_dom(d: Domain, e: Domain, k: Key)
    ensures
        !Domain::EmptyDomain.contains(k), Domain::EmptyDomain.wf(), total_domain().wf(), total_domain().contains(k),
        d.key_set().contains(k) <==> d.contains(k),
        d.contains(k) <==> d is Domain && Element::lte(d->start, to_element(k)) && Element::lt(to_element(k), d->end),
        d.includes(e) && e.contains(k) ==> d.contains(k),
        d.includes(e) ==> e.key_set() <= d.key_set(),
        d.wf() && d is Domain ==> d.contains(Key(d->start->e)),
        d is Domain ==> d.includes(d),
{
    if d.includes(e) { assert forall|x: Key| #[trigger] e.key_set().contains(x) implies d.key_set().contains(x) by { } }
}
pub proof fn vpfail_dom(d: Domain, k: Key) requires d.wf(), d is Domain ensures d.contains(k) {}
}
