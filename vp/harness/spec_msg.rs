//@ in: spec/TotalKMMap_t.rs
use vstd::prelude::*;
verus! {
pub proof fn vp_merge(a: Message, b: Message, c: Message, v: Value)
    ensures
        a.merge(b).merge(c) == a.merge(b.merge(c)),
        a.merge(Message::Define{ value: v }) == (Message::Define{ value: v }),
        a is Define ==> a.merge(b) is Define,
        (a is Update && b is Update) ==> a.merge(b) is Update,
        a.merge(Message::Update{ delta: nop_delta() }) == a,
        a is Update ==> (Message::Update{ delta: nop_delta() }).merge(a) == a,
        a is Define && b is Update ==> a.merge(b)->value == Message::apply_delta(b->delta, a->value),
{ }
pub proof fn vp_empty(k: Key, k2: Key, m: Message, t: TotalKMMap)
    requires t.wf(),
    ensures
        TotalKMMap::empty().wf(), TotalKMMap::empty()[k] == (Message::Define{ value: Value(0) }), Message::empty() == (Message::Define{ value: Value(0) }),
        t.insert(k, m)[k] == m, k2 != k ==> t.insert(k, m)[k2] == t[k2], t.insert(k, m).wf(),
        total_domain().contains(k),
{
    assert(TotalKMMap::empty().dom() =~= total_domain());
    t.insert_lemma();
}
proof fn vpfail_m(t: TotalKMMap) requires t.wf() ensures false { t.insert_lemma(); }
}
