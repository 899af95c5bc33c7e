//@ in: betree/BufferDisk_v.rs
use vstd::prelude::*;
verus! {
pub proof fn vp_disk<T>(d: BufferDisk<T>, e: BufferDisk<T>, a: Address, b: Address, t: T)
    ensures
        d.repr().contains(a) <==> d.entries.contains_key(a),
        d.modify_disk(a, t).entries.contains_key(a), d.modify_disk(a, t).entries[a] == t,
        b != a ==> (d.modify_disk(a, t).entries.contains_key(b) <==> d.entries.contains_key(b)) && (d.entries.contains_key(b) ==> d.modify_disk(a, t).entries[b] == d.entries[b]),
        !BufferDisk::<T>::empty_disk().entries.contains_key(a),
        d.merge_disk(e).entries.contains_key(a) <==> d.entries.contains_key(a) || e.entries.contains_key(a),
        e.entries.contains_key(a) ==> d.merge_disk(e).entries[a] == e.entries[a],
        d.entries.contains_key(a) && !e.entries.contains_key(a) ==> d.merge_disk(e).entries[a] == d.entries[a],
        d.agrees_with(e) && d.entries.contains_key(a) && e.entries.contains_key(a) ==> d.entries[a] == e.entries[a],
        d.is_sub_disk(e) && d.entries.contains_key(a) ==> e.entries.contains_key(a) && e.entries[a] == d.entries[a],
{
    if d.is_sub_disk(e) && d.entries.contains_key(a) { assert(d.entries.dom().contains(a)); assert(e.entries.dom().contains(a)); }
    if d.agrees_with(e) && d.entries.contains_key(a) && e.entries.contains_key(a) { assert(d.entries.dom().contains(a)); assert(e.entries.dom().contains(a)); }
}
pub proof fn vp_sub_iff<T>(d: BufferDisk<T>, e: BufferDisk<T>)
    ensures
        (forall|a: Address| #[trigger] d.entries.contains_key(a) ==> e.entries.contains_key(a) && e.entries[a] == d.entries[a]) ==> d.is_sub_disk(e),
        (forall|a: Address| #[trigger] d.entries.contains_key(a) && e.entries.contains_key(a) ==> e.entries[a] == d.entries[a]) ==> d.agrees_with(e),
{}
// a lookup over a list of buffers merges, oldest first, what each says
pub open spec fn vp_fold<T: Buffer>(d: BufferDisk<T>, s: Seq<Address>, k: Key, i: int) -> Message
    decreases s.len() - i
{
    if 0 <= i < s.len() { d.entries[s[i]].linked_query(d, s[i], k).merge(vp_fold(d, s, k, i + 1)) } else { Message::Update{ delta: nop_delta() } }
}
pub proof fn vp_query<T: Buffer>(d: BufferDisk<T>, b: LinkedSeq, k: Key, i: int)
    requires 0 <= i <= b.addrs.len(),
    ensures d.query_from(b, k, i) == vp_fold(d, b.addrs, k, i),
    decreases b.addrs.len() - i
{ if i < b.addrs.len() { vp_query(d, b, k, i + 1); } }
pub proof fn vp_contains<T: Buffer>(d: BufferDisk<T>, b: LinkedSeq, m: OffsetMap, f: int, k: Key, i: int)
    ensures d.key_in_buffer_filtered(b, m, f, k, i) <==> f <= i < b.addrs.len() && m.offsets[k] <= i && d.entries.contains_key(b.addrs[i]) && d.entries[b.addrs[i]].linked_contains(d, b.addrs[i], k),
{}
pub proof fn vp_meaning(d: BufferDisk<SimpleBuffer>, b: LinkedSeq, k: Key, i: int)
    requires forall|j: int| 0 <= j < b.addrs.len() ==> d.entries.contains_key(#[trigger] b.addrs[j]), 0 <= i <= b.addrs.len(),
    ensures d.valid_buffers(b), d.i_buffer_seq(b).buffers.len() == b.addrs.len(), forall|j: int| 0 <= j < b.addrs.len() ==> #[trigger] d.i_buffer_seq(b).buffers[j] == d.entries[b.addrs[j]],
        d.query_from(b, k, i) == d.i_buffer_seq(b).query_from(k, i),
{ d.query_from_commutes_with_i(b, k, i); }
pub proof fn vpfail_any<T: Buffer>(d: BufferDisk<T>, b: LinkedSeq, k: Key, i: int) requires 0 <= i <= b.addrs.len() ensures d.query_from(b, k, i) == d.query_from(b, k, 0) {}
}
