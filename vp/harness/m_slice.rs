//@ in: marshalling/Slice_v.rs
use vstd::prelude::*;
verus! {
pub open spec fn xok(s: Slice) -> bool { s.start <= s.end }
pub open spec fn xin(s: Slice, data: Seq<u8>) -> bool { s.start <= s.end <= data.len() }

pub proof fn vp_view(s: Slice, data: Seq<u8>, a: int, b: int, o: SpecSlice, n: int)
    ensures
        s@ == (SpecSlice{ start: s.start as int, end: s.end as int }),
        s@.wf() == xok(s), s@.valid(data) == xin(s, data), s@.len() == s.end - s.start,
        s@.i(data) == data.subrange(s.start as int, s.end as int),
        s@.subslice(a, b) == (SpecSlice{ start: s.start + a, end: s.start + b }),
        s@.xslice(o) == (SpecSlice{ start: s.start + o.start, end: s.start + o.end }),
        s@.drop(n) == (SpecSlice{ start: s.start + n, end: s.end as int }),
        o.wf() == (0 <= o.start <= o.end),
        o.valid(data) == (0 <= o.start <= o.end <= data.len()),
        o.len() == o.end - o.start,
        o.is_subslice_of(s@) == (o.wf() && o.end <= s.end - s.start),
        SpecSlice::all(data) == (SpecSlice{ start: 0, end: data.len() as int }),
        SpecSlice::all(data).i(data) =~= data,
        SpecSlice::all(data).valid(data),
{ }

// a sub-slice stays inside the slice it was cut from, and shows the same bytes
pub proof fn vp_contained(s: SpecSlice, data: Seq<u8>, a: int, b: int)
    requires s.valid(data), 0 <= a <= b <= s.len(),
    ensures
        s.subslice(a, b).valid(data),
        s.start <= s.subslice(a, b).start <= s.subslice(a, b).end <= s.end,
        s.subslice(a, b).i(data) =~= s.i(data).subrange(a, b),
        s.subslice(a, b).len() == b - a,
        s.xslice(SpecSlice{ start: a, end: b }) == s.subslice(a, b),
        s.drop(a).valid(data), s.drop(a).i(data) =~= s.i(data).skip(a),
{ }

pub proof fn vp_agree(s: SpecSlice, d: Seq<u8>, e: Seq<u8>, f: Seq<u8>)
    requires s.valid(d), s.agree_beyond_slice(d, e),
    ensures
        e.len() == d.len(),
        forall|i: int| 0 <= i < d.len() && !(s.start <= i < s.end) ==> d[i] == e[i],
        s.agree_beyond_slice(e, f) ==> s.agree_beyond_slice(d, f),
        e =~= d.subrange(0, s.start) + s.i(e) + d.subrange(s.end, d.len() as int),
{ }

pub proof fn vp_agree_conv(s: SpecSlice, d: Seq<u8>, e: Seq<u8>)
    requires s.valid(d), e.len() == d.len(), forall|i: int| 0 <= i < d.len() && !(s.start <= i < s.end) ==> d[i] == e[i],
    ensures s.agree_beyond_slice(d, e)
{ }

pub exec fn vp_len(s: &Slice) -> (n: usize)
    requires xok(*s), ensures n == s.end - s.start,
{ s.len() }
pub exec fn vp_all(data: &Vec<u8>) -> (s: Slice)
    ensures s.start == 0, s.end == data@.len(),
{ Slice::all(data) }
pub exec fn vp_subslice(s: &Slice, a: usize, b: usize) -> (r: Slice)
    requires xok(*s), a <= b <= s.end - s.start,
    ensures r.start == s.start + a, r.end == s.start + b, s.start <= r.start <= r.end <= s.end,
{ s.subslice(a, b) }
pub exec fn vp_xslice(s: &Slice, o: &Slice) -> (r: Slice)
    requires xok(*s), xok(*o), o.end <= s.end - s.start,
    ensures r.start == s.start + o.start, r.end == s.start + o.end, s.start <= r.start <= r.end <= s.end,
{ s.xslice(o) }
pub exec fn vp_drop(s: &Slice, n: usize) -> (r: Slice)
    requires xok(*s), n <= s.end - s.start,
    ensures r.start == s.start + n, r.end == s.end, xok(r),
{ s.drop(n) }

pub proof fn vpfail_slice(s: SpecSlice, d: Seq<u8>, e: Seq<u8>)
    requires s.valid(d), s.agree_beyond_slice(d, e), d != e,
    ensures false
{ }
}
