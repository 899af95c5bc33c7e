//@ in: betree/BufferSeq_v.rs
use vstd::prelude::*;
verus! {
// a stack of buffers, oldest first, is one buffer: the merge of all of them
pub proof fn vp_query_step(s: BufferSeq, k: Key, i: int)
    requires 0 <= i <= s.len(),
    ensures
        i == s.len() ==> s.query_from(k, i) == (Message::Update{ delta: nop_delta() }),
        i < s.len() ==> s.query_from(k, i) == s.buffers[i].query(k).merge(s.query_from(k, i + 1)),
        s.query(k) == s.query_from(k, 0),
        s.query_from(k, i) == s.i_from(i).query(k),
        s.query(k) == s.i().query(k),
{ s.query_agrees_with_i(k, i); s.query_agrees_with_i(k, 0); }
pub proof fn vp_contains(s: BufferSeq, k: Key, i: int)
    requires 0 <= i <= s.len(),
    ensures s.i_from(i).contains(k) <==> exists|j: int| i <= j < s.len() && #[trigger] s.buffers[j].contains(k),
{
    s.i_from_domain(i);
    if s.i_from(i).contains(k) { let j = choose|j: int| s.key_in_buffer(i, k, j); assert(s.buffers[j].contains(k)); }
    if exists|j: int| i <= j < s.len() && #[trigger] s.buffers[j].contains(k) {
        let j = choose|j: int| i <= j < s.len() && #[trigger] s.buffers[j].contains(k); assert(s.key_in_buffer(i, k, j));
    }
}
// keys whose prefix has been flushed see only the buffers from their offset on
pub proof fn vp_filtered(s: BufferSeq, o: OffsetMap, k: Key)
    requires o.is_total(), o.get(k) <= s.len(),
    ensures s.i_filtered(o).query(k) == s.query_from(k, o.get(k) as int),
        s.i_filtered(o).contains(k) <==> exists|j: int| o.get(k) <= j < s.len() && #[trigger] s.buffers[j].contains(k),
{
    s.query_from_same_as_i_filtered(k, 0, o);
    s.i_filtered_from_domain(o, 0);
    if s.i_filtered(o).contains(k) { let j = choose|j: int| s.key_in_buffer_filtered(o, 0, k, j); assert(s.buffers[j].contains(k)); }
    if exists|j: int| o.get(k) <= j < s.len() && #[trigger] s.buffers[j].contains(k) {
        let j = choose|j: int| o.get(k) <= j < s.len() && #[trigger] s.buffers[j].contains(k); assert(s.key_in_buffer_filtered(o, 0, k, j));
    }
}
pub proof fn vp_extend(old: BufferSeq, new: BufferSeq, k: Key, i: int)
    requires 0 <= i <= old.len(),
    ensures
        old.extend(new).len() == old.len() + new.len(),
        old.extend(new).query_from(k, i) == old.query_from(k, i).merge(new.query(k)),
        old.extend(new).query(k) == old.query(k).merge(new.query(k)),
        forall|j: int| 0 <= j < old.len() ==> #[trigger] old.extend(new).buffers[j] == old.buffers[j],
        forall|j: int| 0 <= j < new.len() ==> #[trigger] old.extend(new).buffers[old.len() + j] == new.buffers[j],
        old.extend(BufferSeq::empty()) == old, BufferSeq::empty().len() == 0,
{
    BufferSeq::extend_buffer_seq_query_ensures(new, old, k, i);
    BufferSeq::extend_buffer_seq_query_ensures(new, old, k, 0);
    assert(old.extend(BufferSeq::empty()).buffers =~= old.buffers);
}
pub proof fn vp_shape(s: BufferSeq, a: int, b: int, n: SimpleBuffer, f: ISet<Key>, j: int)
    requires 0 <= a < b <= s.len(),
    ensures
        s.slice(a, b).len() == b - a, 0 <= j < b - a ==> s.slice(a, b).buffers[j] == s.buffers[a + j],
        s.drop_first() == s.slice(1, s.len() as int),
        s.update_subrange(a, b, n).len() == s.len() - (b - a) + 1,
        0 <= j < a ==> s.update_subrange(a, b, n).buffers[j] == s.buffers[j],
        s.update_subrange(a, b, n).buffers[a] == n,
        b <= j < s.len() ==> s.update_subrange(a, b, n).buffers[j - (b - a) + 1] == s.buffers[j],
        s.apply_filter(f).len() == s.len(), 0 <= j < s.len() ==> s.apply_filter(f).buffers[j] == s.buffers[j].apply_filter(f),
{}
// compaction: replacing a run of buffers by their merge changes no answer
proof fn vp_same_tail(s: BufferSeq, t: BufferSeq, k: Key, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= t.len(), s.len() - i == t.len() - j, forall|x: int| i <= x < s.len() ==> s.buffers[x] == t.buffers[x - i + j],
    ensures s.query_from(k, i) == t.query_from(k, j),
{ BufferSeq::common_buffer_seqs(s, t, i, j - i, k); }
proof fn vp_assoc(a: Message, b: Message, c: Message) ensures a.merge(b.merge(c)) == a.merge(b).merge(c) {}
proof fn vp_run(s: BufferSeq, a: int, b: int, i: int, k: Key)
    requires 0 <= a <= i <= b <= s.len(),
    ensures s.query_from(k, i) == s.slice(a, b).query_from(k, i - a).merge(s.query_from(k, b)),
    decreases b - i
{
    if i < b {
        vp_run(s, a, b, i + 1, k);
        vp_assoc(s.buffers[i].query(k), s.slice(a, b).query_from(k, i + 1 - a), s.query_from(k, b));
    }
}
pub proof fn vp_compact(s: BufferSeq, a: int, b: int, k: Key, i: int)
    requires 0 <= a < b <= s.len(), 0 <= i <= a,
    ensures s.update_subrange(a, b, s.slice(a, b).i()).query_from(k, i) == s.query_from(k, i),
    decreases a - i
{
    let n = s.slice(a, b).i();
    let t = s.update_subrange(a, b, n);
    if i < a { vp_compact(s, a, b, k, i + 1); }
    else {
        vp_run(s, a, b, a, k);
        vp_same_tail(s, t, k, b, a + 1);
        vp_query_step(s.slice(a, b), k, 0);
    }
}
pub proof fn vpfail_order(a: BufferSeq, b: BufferSeq, k: Key) ensures a.extend(b).query(k) == b.extend(a).query(k) { vp_extend(a, b, k, 0); vp_extend(b, a, k, 0); }
}
