//@ in: betree/LinkedSeq_v.rs
use vstd::prelude::*;
verus! {
pub proof fn vp_lseq(s: LinkedSeq, t: LinkedSeq, a: int, b: int, n: Address, j: int, x: Address)
    requires 0 <= a < b <= s.len(),
    ensures
        LinkedSeq::empty().len() == 0, !LinkedSeq::empty().contains(x),
        s.len() == s.addrs.len(), s.contains(x) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s.addrs[i] == x,
        s.slice(a, b).len() == b - a, 0 <= j < b - a ==> s.slice(a, b)[j] == s[a + j],
        s.extend(t).len() == s.len() + t.len(), 0 <= j < s.len() ==> s.extend(t)[j] == s[j], 0 <= j < t.len() ==> s.extend(t)[s.len() + j] == t[j],
        s.extend(t).contains(x) <==> s.contains(x) || t.contains(x),
        s.update_subrange(a, b, n).len() == s.len() - (b - a) + 1, s.update_subrange(a, b, n)[a] == n,
        0 <= j < a ==> s.update_subrange(a, b, n)[j] == s[j],
        b <= j < s.len() ==> s.update_subrange(a, b, n)[j - (b - a) + 1] == s[j],
{
    let e = s.extend(t).addrs;
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s.addrs[i] == x; assert(e[i] == x); }
    if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t.addrs[i] == x; assert(e[s.len() + i] == x); }
    if s.extend(t).contains(x) { let i = choose|i: int| 0 <= i < e.len() && e[i] == x; if i < s.len() { assert(s.addrs[i] == x); } else { assert(t.addrs[i - s.len()] == x); } }
}
pub proof fn vpfail_lseq(s: LinkedSeq, t: LinkedSeq) ensures s.extend(t) == t.extend(s) { assert(s.extend(t).addrs =~= t.extend(s).addrs); }
}
