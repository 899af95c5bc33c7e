//@ in: spec/KeyType_t.rs
use vstd::prelude::*;
verus! {
pub proof fn vp_key_order(a: Key, b: Key, c: Key)
    ensures Key::lte(a, a), Key::lte(a, b) || Key::lte(b, a), Key::lte(a, b) && Key::lte(b, a) ==> a == b,
        Key::lte(a, b) && Key::lte(b, c) ==> Key::lte(a, c), Key::lt(a, b) <==> Key::lte(a, b) && a != b,
        Key::lte(a, b) <==> a.0 <= b.0, Key::lt(a, b) <==> a.0 < b.0,
{ }
pub proof fn vp_element_order(a: Element, b: Element, c: Element, k: Key)
    ensures Element::lte(a, a), Element::lte(a, b) || Element::lte(b, a), Element::lte(a, b) && Element::lte(b, a) ==> a == b,
        Element::lte(a, b) && Element::lte(b, c) ==> Element::lte(a, c), Element::lt(a, b) <==> Element::lte(a, b) && a != b,
        Element::lte(a, Element::Max), to_key(to_element(k)) == k, a is Elem ==> to_element(to_key(a)) == a,
        Element::lte(Element::min_elem(), a),
{ }
// the routing function: how many entries are <= the needle, minus one, on a sorted run
pub proof fn vp_key_routing(run: Seq<Key>, needle: Key)
    requires Key::is_sorted(run),
    ensures ({ let r = Key::largest_lte(run, needle);
        &&& -1 <= r < run.len()
        &&& forall|i: int| #![trigger run[i]] 0 <= i <= r ==> Key::lte(run[i], needle)
        &&& forall|i: int| #![trigger run[i]] r < i < run.len() ==> Key::lt(needle, run[i]) }),
        ({ let r = Key::largest_lt(run, needle);
        &&& -1 <= r < run.len()
        &&& forall|i: int| #![trigger run[i]] 0 <= i <= r ==> Key::lt(run[i], needle)
        &&& forall|i: int| #![trigger run[i]] r < i < run.len() ==> Key::lte(needle, run[i]) }),
{
    Key::largest_lte_ensures(run, needle, Key::largest_lte(run, needle));
    Key::largest_lt_ensures(run, needle, Key::largest_lt(run, needle));
}
pub proof fn vp_element_routing(run: Seq<Element>, needle: Element)
    requires Element::is_sorted(run),
    ensures ({ let r = Element::largest_lte(run, needle);
        &&& -1 <= r < run.len()
        &&& forall|i: int| #![trigger run[i]] 0 <= i <= r ==> Element::lte(run[i], needle)
        &&& forall|i: int| #![trigger run[i]] r < i < run.len() ==> Element::lt(needle, run[i]) }),
{
    Element::largest_lte_lemma(run, needle, Element::largest_lte(run, needle));
}
proof fn vpfail_k(run: Seq<Key>, needle: Key) requires Key::is_sorted(run) ensures false { vp_key_routing(run, needle); }
}
