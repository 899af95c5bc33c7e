//@ in: betree/BufferOffsets_v.rs
use vstd::prelude::*;
use crate::betree::BufferOffsets_v::*;
verus! {
pub proof fn vp_meaning(o: BufferOffsets, a: int, b: int, v: nat, i: int)
    ensures
        o.len() == o.offsets.len(),
        empty_bufer_offsets().len() == 0,
        0 <= a <= b <= o.len() ==> o.slice(a, b).offsets =~= o.offsets.subrange(a, b),
        0 <= a < o.len() ==> o.dup(a).len() == o.len() + 1,
        0 <= a < o.len() && 0 <= i <= o.len() ==> o.dup(a).offsets[i] == (if i <= a { o.offsets[i] } else { o.offsets[i - 1] }),
        0 <= a < o.len() ==> o.update(a, v).offsets =~= o.offsets.update(a, v),
        o.all_lte(v) == (forall|j: int| 0 <= j < o.offsets.len() ==> #[trigger] o.offsets[j] <= v),
        o.all_gte(v) == (forall|j: int| 0 <= j < o.offsets.len() ==> #[trigger] o.offsets[j] >= v),
        o.shift_left(v).len() == o.len(),
        o.all_gte(v) && 0 <= i < o.len() ==> o.shift_left(v).offsets[i] == o.offsets[i] - v,
        o.adjust_compact(a, b).len() == o.len(),
{ }

// replacing the buffers [a, b) by one keeps every offset pointing at the same remaining buffers
pub proof fn vp_compact(o: BufferOffsets, a: int, b: int, i: int, n: int)
    requires 0 <= a < b, 0 <= i < o.len(),
    ensures ({
        let x = o.offsets[i] as int; let y = o.adjust_compact(a, b).offsets[i] as int;
        &&& x <= a ==> y == x
        &&& a < x < b ==> y == a
        &&& b <= x ==> y == x - (b - a) + 1
        &&& (b <= n && x <= n ==> y <= n - (b - a) + 1)
    })
{ }
// a live buffer (one at or past the offset) is live after compaction at its new place, and nothing else before it becomes live, except the merged one
pub proof fn vp_compact_order(o: BufferOffsets, a: int, b: int, i: int, j: int)
    requires 0 <= a < b, 0 <= i < o.len(), 0 <= j < o.len(), o.offsets[i] <= o.offsets[j],
    ensures o.adjust_compact(a, b).offsets[i] <= o.adjust_compact(a, b).offsets[j],
{ }
pub proof fn vp_shift(o: BufferOffsets, t: nat, l: nat)
    requires o.all_gte(t), o.all_lte(l), l >= t,
    ensures o.shift_left(t).all_lte((l - t) as nat)
{ o.shift_left_preserves_lte(t, l); }
pub proof fn vpfail_off(o: BufferOffsets, a: int, b: int)
    requires 0 <= a < b, o.len() == 3, o.all_gte(1), o.offsets[1] > b,
    ensures false
{ assert(o.adjust_compact(a, b).offsets[1] >= 0); }
}
