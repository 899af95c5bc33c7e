//@ in: betree/OffsetMap_v.rs
use vstd::prelude::*;
verus! {
pub proof fn vp_om(m: OffsetMap, i: nat, j: nat, k: Key)
    requires m.is_total(),
    ensures
        m.get(k) == m.offsets[k], m.active_keys(i).contains(k) <==> m.get(k) <= i,
        i <= j ==> m.active_keys(i) <= m.active_keys(j),
        m.decrement(i).is_total(),
        m.get(k) >= i ==> m.decrement(i).get(k) == m.get(k) - i,
        m.get(k) < i ==> m.decrement(i).get(k) == 0,
        m.decrement(0) == m, m.decrement(i).decrement(j) == m.decrement(i + j),
        m.decrement(i).active_keys(j).contains(k) <==> m.active_keys(i + j).contains(k),
{
    assert(m.offsets.dom().contains(k));
    assert forall|x: Key| m.decrement(i).offsets.dom().contains(x) by { assert(m.offsets.dom().contains(x)); }
    assert(m.decrement(0).offsets =~= m.offsets);
    assert(m.decrement(i).decrement(j).offsets =~= m.decrement(i + j).offsets);
}
pub proof fn vpfail_om(m: OffsetMap, i: nat) requires m.is_total() ensures m.decrement(i) == m { assert(m.decrement(i).offsets =~= m.offsets); }
}
