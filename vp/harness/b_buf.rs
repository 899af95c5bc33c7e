//@ in: betree/Buffer_v.rs
use vstd::prelude::*;
verus! {
// a buffer is a partial map; a missing key means "no change"
pub proof fn vp_query(b: SimpleBuffer, k: Key, x: Key, m: Message)
    ensures
        b.contains(k) ==> b.query(k) == b.map[k],
        !b.contains(k) ==> b.query(k) == (Message::Update{ delta: nop_delta() }),
        b.query(k) == b.query_internal(k),
        b.insert(k, m).query(k) == m, b.insert(k, m).contains(k),
        x != k ==> b.insert(k, m).query(x) == b.query(x) && (b.insert(k, m).contains(x) <==> b.contains(x)),
        !SimpleBuffer::empty().contains(k), SimpleBuffer::empty().query(k) == (Message::Update{ delta: nop_delta() }),
{}
pub proof fn vp_filter(b: SimpleBuffer, s: ISet<Key>, t: ISet<Key>, k: Key)
    ensures
        b.apply_filter(s).contains(k) <==> b.contains(k) && s.contains(k),
        s.contains(k) ==> b.apply_filter(s).query(k) == b.query(k),
        !s.contains(k) ==> b.apply_filter(s).query(k) == (Message::Update{ delta: nop_delta() }),
        b.apply_filter(all_keys()) == b,
        b.apply_filter(s).apply_filter(t) == b.apply_filter(s.intersect(t)),
        all_keys().contains(k), total_keys(all_keys()),
        total_keys(s) ==> s.contains(k) && b.apply_filter(s) == b,
{
    assert(b.apply_filter(all_keys()).map =~= b.map);
    assert(b.apply_filter(s).apply_filter(t).map =~= b.apply_filter(s.intersect(t)).map);
    if total_keys(s) { assert(b.apply_filter(s).map =~= b.map); }
}
// the newer buffer is merged on top, key by key
pub proof fn vp_merge(old: SimpleBuffer, new: SimpleBuffer, k: Key)
    ensures
        old.merge(new).contains(k) <==> old.contains(k) || new.contains(k),
        old.contains(k) && new.contains(k) ==> old.merge(new).query(k) == old.query(k).merge(new.query(k)),
        old.contains(k) && !new.contains(k) ==> old.merge(new).query(k) == old.query(k),
        !old.contains(k) && new.contains(k) ==> old.merge(new).query(k) == new.query(k),
        forall|base: Message| base is Define ==> #[trigger] base.merge(old.merge(new).query(k)) == base.merge(old.query(k)).merge(new.query(k)),
        old.merge(SimpleBuffer::empty()) == old, SimpleBuffer::empty().merge(old) == old,
{
    assert(old.merge(SimpleBuffer::empty()).map =~= old.map);
    assert(SimpleBuffer::empty().merge(old).map =~= old.map);
}
// a split of the key space loses nothing: the kept part under the moved part is the whole
pub proof fn vp_split(b: SimpleBuffer, s: ISet<Key>)
    ensures
        b.apply_filter(s).merge(b.apply_filter(all_keys().difference(s))) == b,
        b.apply_filter(all_keys().difference(s)).merge(b.apply_filter(s)) == b,
{
    assert(b.apply_filter(s).merge(b.apply_filter(all_keys().difference(s))).map =~= b.map);
    assert(b.apply_filter(all_keys().difference(s)).merge(b.apply_filter(s)).map =~= b.map);
}
pub proof fn vp_trait(b: SimpleBuffer, d: BufferDisk<SimpleBuffer>, a: Address, k: Key)
    ensures b.linked_contains(d, a, k) <==> b.contains(k), b.linked_query(d, a, k) == b.query(k), b.i(d, a) == b,
{}
pub proof fn vpfail_merge(old: SimpleBuffer, new: SimpleBuffer) ensures old.merge(new) == new.merge(old) { assert(old.merge(new).map =~= new.merge(old).map); }
}
