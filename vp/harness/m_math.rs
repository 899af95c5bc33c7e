//@ in: marshalling/math_v.rs
use vstd::prelude::*;
use crate::marshalling::math_v::*;
verus! {
pub proof fn vp_laws(a: int, b: int, c: int)
    ensures
        0 < b ==> (a / b) * b <= a,
        0 <= a && 1 <= b ==> a <= a * b,
        b != 0 ==> (a * b) / b == a,
        0 <= a < b && 0 < c ==> a * c < b * c,
        (a + b) * c == a * c + b * c,
        0 <= a <= b && 0 <= c ==> a * c <= b * c,
        0 <= a && 0 <= b ==> 0 <= a * b,
        0 < c && a == b / c ==> a + 1 == (b + c) / c,
        0 <= a && 0 <= b && 0 < c ==> (a <= b / c <==> a * c <= b),
{
    if 0 < b { div_mul_order(a, b); }
    if 0 <= a && 1 <= b { mul_le(a, b); euclidean_div_truncates(a, b); }
    if b != 0 { mul_div_identity(a, b); }
    if 0 <= a < b && 0 < c { pos_mul_preserves_order(a, b, c); }
    distribute_left(a, b, c);
    if 0 <= a <= b && 0 <= c { mul_preserves_le(a, b, c); }
    if 0 <= a && 0 <= b { nat_mul_nat_is_nat(a, b); }
    if 0 < c && a == b / c { div_plus_one(a, b, c); }
    if 0 <= a && 0 <= b && 0 < c { inequality_move_divisor(a, b, c); }
}
pub proof fn vp_slices<T>(s: Seq<T>, i: int, j: int, k: int, l: int, t: Seq<T>)
    ensures
        0 <= i <= j <= s.len() && 0 <= k <= l <= j - i ==> s.subrange(i, j).subrange(k, l) == s.subrange(i + k, i + l),
        is_prefix(s, t) == (s.len() <= t.len() && forall|n: int| 0 <= n < s.len() ==> s[n] == #[trigger] t[n]),
{
    if 0 <= i <= j <= s.len() && 0 <= k <= l <= j - i { lemma_seq_slice_slice(s, i, j, k, l); }
    if is_prefix(s, t) { assert(forall|n: int| 0 <= n < s.len() ==> t.take(s.len() as int)[n] == #[trigger] t[n]); }
    if s.len() <= t.len() && forall|n: int| 0 <= n < s.len() ==> s[n] == #[trigger] t[n] { assert(t.take(s.len() as int) =~= s); }
}
pub exec fn vp_mult(a: usize, b: usize) -> (c: usize)
    requires a * b <= usize::MAX,
    ensures c == a * b,
{ usize_mult(a, b) }
}
