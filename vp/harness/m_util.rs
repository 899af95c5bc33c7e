//@ in: betree/Utils_v.rs
use vstd::prelude::*;
use crate::betree::Utils_v::*;
verus! {
pub proof fn vp_union_of_sets<A>(sets: ISet<ISet<A>>, a: A)
    requires sets.finite()
    ensures union_set_of_sets(sets).contains(a) == (exists|s: ISet<A>| sets.contains(s) && s.contains(a))
{
    if union_set_of_sets(sets).contains(a) { let s = lemma_union_set_of_sets_contains(sets, a); assert(sets.contains(s) && s.contains(a)); }
    if exists|s: ISet<A>| sets.contains(s) && s.contains(a) {
        let s = choose|s: ISet<A>| sets.contains(s) && s.contains(a);
        lemma_union_set_of_sets_subset(sets, s);
    }
}
pub proof fn vp_union_of_seq<A>(sets: Seq<ISet<A>>, a: A)
    ensures union_seq_of_sets(sets).contains(a) == (exists|i: int| 0 <= i < sets.len() && (#[trigger] sets[i]).contains(a))
{
    if union_seq_of_sets(sets).contains(a) { lemma_union_seq_of_sets_contains(sets, a); }
    if exists|i: int| 0 <= i < sets.len() && (#[trigger] sets[i]).contains(a) { lemma_set_subset_of_union_seq_of_sets(sets, a); }
}
pub proof fn vp_union_facts<A>(sets: Seq<ISet<A>>, i: int, p: Seq<A>, q: Seq<A>, s: ISet<A>, t: ISet<A>)
    requires 0 <= i < sets.len(), forall|j: int| 0 <= j < sets.len() ==> (#[trigger] sets[j]).finite(), s.finite(), t <= s,
    ensures
        union_seq_of_sets(sets).finite(), sets[i] <= union_seq_of_sets(sets), t.finite(),
        (p + q).to_iset() == p.to_iset().union(q.to_iset()),
{
    lemma_union_seq_of_sets_finite(sets); lemma_subset_union_seq_of_sets(sets, i); lemma_to_set_distributes_over_plus(p, q); lemma_subset_finite(s, t);
}
pub proof fn vpfail_util<A>(sets: ISet<ISet<A>>, a: A)
    requires sets.finite(), union_set_of_sets(sets).contains(a)
    ensures false
{ let s = lemma_union_set_of_sets_contains(sets, a); }
}
