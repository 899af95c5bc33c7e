// Proof support for the port: links Multiset::dom() (a finite vstd Set in the
// installed vstd, an ISet in the vstd the repository was written against) to
// its ISet image.  Every lemma here is proved by Verus on every run.
#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::iset::*;
use vstd::set::*;

verus! {

pub broadcast proof fn vp_multiset_dom_iset<V>(m: Multiset<V>)
    ensures
        #![trigger m.dom().to_iset()]
        forall|v: V| #![trigger m.dom().to_iset().contains(v)] #![trigger m.count(v)] m.dom().to_iset().contains(v) <==> m.count(v) > 0,
        m.dom().to_iset().finite(),
{
    m.dom_ensures();
    assert forall|v: V| #![trigger m.dom().to_iset().contains(v)] #![trigger m.count(v)] m.dom().to_iset().contains(v) <==> m.count(v) > 0 by {
        assert(m.dom().contains(v) <==> m.count(v) > 0);
    }
}

pub broadcast proof fn vp_multiset_dom_set<V>(m: Multiset<V>, v: V)
    ensures
        #![trigger m.dom().contains(v)]
        m.dom().contains(v) <==> m.count(v) > 0,
{
    m.dom_ensures();
}

pub broadcast group vp_group {
    vp_multiset_dom_iset,
}

}
