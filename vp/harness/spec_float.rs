//@ in: spec/FloatingSeq_t.rs
use vstd::prelude::*;
verus! {
pub proof fn vp_floating<T>(s: FloatingSeq<T>, n: int, extra: Seq<T>)
    requires s.start <= n <= s.len(),
    ensures
        s.get_prefix(n).len() == n, s.get_suffix(n).len() == s.len(),
        s.get_prefix(n).first_active_index() == s.first_active_index() || n == s.start,
        s.get_suffix(n).first_active_index() == n,
        forall|i: int| s.start <= i < n ==> #[trigger] s.get_prefix(n)[i] == s[i],
        forall|i: int| n <= i < s.len() ==> #[trigger] s.get_suffix(n)[i] == s[i],
        s.append(extra).len() == s.len() + extra.len(), s.append(extra).first_active_index() == s.first_active_index(),
        forall|i: int| s.is_active(i) ==> #[trigger] s.append(extra)[i] == s[i],
        forall|i: int| 0 <= i < extra.len() ==> s.append(extra)[s.len() + i] == #[trigger] extra[i],
        s.len() > s.start ==> s.drop_last().len() == s.len() - 1 && s.last() == s[s.len() - 1],
        s.append(extra).get_prefix(s.len()).entries =~= s.entries,
{ }
pub proof fn vp_new<T>(a: nat, b: nat, f: spec_fn(int) -> T)
    requires a <= b,
    ensures FloatingSeq::new(a, b, f).len() == b, FloatingSeq::new(a, b, f).first_active_index() == a,
        forall|i: int| a <= i < b ==> #[trigger] FloatingSeq::new(a, b, f)[i] == f(i),
        forall|i: int| FloatingSeq::new(a, b, f).is_active(i) <==> a <= i < b,
{
    assert forall|i: int| a <= i < b implies #[trigger] FloatingSeq::new(a, b, f)[i] == f(i) by { assert(i - a + a == i); }
}
proof fn vpfail_f<T>(s: FloatingSeq<T>, n: int) requires s.start <= n <= s.len() ensures false { s.get_suffix_ensures(n); }
}
