//@ in: marshalling/ResizableUniformSizedSeq_v.rs
use vstd::prelude::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::StaticallySized_v::*;
use crate::marshalling::SeqMarshalling_v::*;
use crate::marshalling::UniformSized_v::*;
use crate::marshalling::math_v::*;

verus! {

pub open spec fn xu<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>) -> int { f.eltf.uniform_size() as int }
pub open spec fn xl<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>) -> int { L::uniform_size() as int }
pub open spec fn xcap<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>) -> int { (f.total_size - xl(f)) / xu(f) }
pub open spec fn xvalid<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>) -> bool { f.eltf.valid() && xl(f) <= f.total_size && f.max_length == xcap(f) }
pub open spec fn xlengthable<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>) -> bool { f.total_size <= data.len() }
pub open spec fn xlength<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>) -> int { L::spec_from_le_bytes(data.subrange(0, xl(f)).subrange(0, xl(f))) as int }
pub open spec fn xgettable<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, i: int) -> bool { f.total_size <= data.len() && 0 <= i < xcap(f) }
pub open spec fn xbegin<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, i: int) -> int { xl(f) + i * xu(f) }
pub open spec fn xend<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, i: int) -> int { xl(f) + i * xu(f) + xu(f) }
pub open spec fn xchunk<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, i: int) -> Seq<u8> { data.subrange(xbegin(f, data, i), xend(f, data, i)) }
pub open spec fn xeltok<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, i: int) -> bool { f.eltf.parsable(xchunk(f, data, i)) }
pub open spec fn xelt<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, i: int) -> F::DV { f.eltf.parse(xchunk(f, data, i)) }
pub open spec fn xsettable<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, i: int, v: F::DV) -> bool { f.total_size <= data.len() && 0 <= i < xcap(f) && f.eltf.spec_size(v) == xu(f) }
pub open spec fn xresizable<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, n: int) -> bool { f.total_size <= data.len() && n <= xcap(f) && n <= L::max() }
pub open spec fn xwf<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>) -> bool { f.total_size <= data.len() }
pub open spec fn xappendable<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, v: F::DV) -> bool { xlength(f, data) < xcap(f) && f.eltf.spec_size(v) == xu(f) && xlength(f, data) + 1 <= L::max() }
pub open spec fn xparsable<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>) -> bool {
    &&& f.total_size <= data.len()
    &&& xlength(f, data) <= xcap(f)
    &&& forall|i: int| 0 <= i < xlength(f, data) ==> #[trigger] xeltok(f, data, i)
}
pub open spec fn xparse<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>) -> Seq<F::DV> { Seq::new(xlength(f, data) as nat, |i: int| xelt(f, data, i)) }
pub open spec fn xmarshallable<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, v: Seq<F::DV>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> f.eltf.marshallable(#[trigger] v[i]) && f.eltf.spec_size(v[i]) == xu(f)
    &&& v.len() <= L::max()
    &&& xl(f) + v.len() * xu(f) <= f.total_size
}
pub open spec fn xsize<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, v: Seq<F::DV>) -> int { f.total_size as int }
// the bytes after the last element in use are not touched
pub open spec fn xtail<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: Slice, a: Seq<u8>, b: Seq<u8>) -> bool {
    forall|i: int| s.start + xl(f) + xlength(f, xi(s, b)) * xu(f) <= i < b.len() ==> a[i] == b[i]
}

pub proof fn vp_bounds<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, i: int)
    requires xvalid(f)
    ensures
        0 < xu(f), 0 < xl(f), 0 <= xcap(f), 0 <= xlength(f, data) <= L::max(),
        f.spec_max_length() == xcap(f),
        0 <= i < xcap(f) ==> xl(f) <= xbegin(f, data, i) < xend(f, data, i) <= f.total_size,
        f.length(data) == xlength(f, data),
{
    f.eltf.uniform_size_ensures(); f.lenf.uniform_size_ensures(); f.length_ensures(data);
    let n = f.total_size - xl(f); let u = xu(f);
    assert(n / u >= 0 && n / u <= n) by(nonlinear_arith) requires 0 <= n, 0 < u;
    if 0 <= i < xcap(f) { assert(0 <= i * u && i * u + u <= n) by(nonlinear_arith) requires 0 <= i < n / u, 0 < u, 0 <= n; }
}
pub exec fn vp_new<F: Marshal + UniformSized, L: IntFormattable>(e: F, l: IntFormat<L>, total_size: usize) -> (f: ResizableUniformSizedElementSeqFormat<F, L>)
    requires e.valid(), L::uniform_size() <= total_size,
    ensures xvalid(&f), f.total_size == total_size,
{
    let f = ResizableUniformSizedElementSeqFormat::new(e, l, total_size);
    proof { f.eltf.uniform_size_ensures(); f.lenf.uniform_size_ensures(); }
    f
}

pub open spec fn xok(s: Slice, data: Seq<u8>) -> bool { s.start <= s.end <= data.len() }
pub open spec fn xi(s: Slice, data: Seq<u8>) -> Seq<u8> { data.subrange(s.start as int, s.end as int) }
pub open spec fn xbeyond(s: Slice, a: Seq<u8>, b: Seq<u8>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() && (i < s.start || s.end <= i) ==> a[i] == b[i]
}
// element i of a is still there in b
pub open spec fn xkeeps<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, a: Seq<u8>, i: int, b: Seq<u8>) -> bool {
    &&& xgettable(f, a, i) ==> xgettable(f, b, i)
    &&& xgettable(f, a, i) && xeltok(f, a, i) ==> xeltok(f, b, i) && xelt(f, b, i) == xelt(f, a, i)
}
pub open spec fn xsets<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, a: Seq<u8>, idx: int, value: F::DV, b: Seq<u8>) -> bool {
    &&& b.len() == a.len()
    &&& xlengthable(f, a) ==> xlengthable(f, b) && xlength(f, b) == xlength(f, a)
    &&& forall|i: int| i != idx ==> #[trigger] xkeeps(f, a, i, b)
    &&& xgettable(f, b, idx) && xeltok(f, b, idx) && xelt(f, b, idx) == value
}
pub open spec fn xresizes<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, a: Seq<u8>, n: int, b: Seq<u8>) -> bool {
    &&& b.len() == a.len()
    &&& xlengthable(f, b) && xlength(f, b) == n
    &&& forall|i: int| #[trigger] xkeeps(f, a, i, b)
}
pub open spec fn xappends<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, a: Seq<u8>, value: F::DV, b: Seq<u8>) -> bool {
    let n = xlength(f, a);
    &&& b.len() == a.len()
    &&& xlength(f, b) == n + 1
    &&& forall|i: int| i != n ==> #[trigger] xkeeps(f, a, i, b)
    &&& xgettable(f, b, n) && xeltok(f, b, n) && xelt(f, b, n) == value
    &&& xwf(f, b)
}

pub proof fn vp_seq_meaning<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, idx: int, value: F::DV, s: SpecSlice, big: Seq<u8>)
    ensures
        f.seq_valid() == xvalid(f),
        f.lengthable(data) == xlengthable(f, data),
        f.length(data) == xlength(f, data),
        xvalid(f) ==> f.gettable(data, idx) == xgettable(f, data, idx),
        xvalid(f) && s.valid(big) && xgettable(f, s.i(big), idx) ==> f.get(s, big, idx) == (SpecSlice{ start: s.start + xbegin(f, s.i(big), idx), end: s.start + xend(f, s.i(big), idx) }),
        xvalid(f) && s.valid(big) && xgettable(f, s.i(big), idx) ==> 0 <= xbegin(f, s.i(big), idx) <= xend(f, s.i(big), idx) <= s.i(big).len(),
        xvalid(f) && xgettable(f, data, idx) ==> f.elt_parsable(data, idx) == xeltok(f, data, idx),
        xvalid(f) && xgettable(f, data, idx) ==> f.get_elt(data, idx) == xelt(f, data, idx),
        f.elt_marshallable(value) == f.eltf.marshallable(value),
        xvalid(f) && f.eltf.marshallable(value) ==> f.settable(data, idx, value) == xsettable(f, data, idx, value),
        xvalid(f) ==> f.resizable(data, idx) == xresizable(f, data, idx),
        xvalid(f) ==> f.well_formed(data) == xwf(f, data),
        xvalid(f) && xwf(f, data) ==> f.appendable(data, value) == xappendable(f, data, value),
{

    f.eltf.uniform_size_ensures(); f.lenf.uniform_size_ensures();
    {
        let n = f.total_size - xl(f); let u = xu(f);
        if 0 <= n { assert(n / u >= 0 && n / u <= n) by(nonlinear_arith) requires 0 <= n, 0 < u; }
    }
    assert(xvalid(f) ==> f.spec_max_length() == xcap(f)) by { if xvalid(f) { vp_bounds(f, data, idx); } }
    assert(f.seq_valid() ==> xvalid(f)) by {
        if f.seq_valid() {
            let n = f.total_size - xl(f); let u = xu(f);
            assert(n / u >= 0 && n / u <= n) by(nonlinear_arith) requires 0 <= n, 0 < u;
        }
    }
    if xvalid(f) && xgettable(f, data, idx) { vp_bounds(f, data, idx); }
    if xvalid(f) && s.valid(big) && xgettable(f, s.i(big), idx) { vp_bounds(f, s.i(big), idx); }

}

pub proof fn vp_seq_relations<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, a: Seq<u8>, idx: int, value: F::DV, b: Seq<u8>)
    requires xvalid(f),
    ensures
        f.preserves_entry(a, idx, b) == xkeeps(f, a, idx, b),
        f.sets(a, idx, value, b) == xsets(f, a, idx, value, b),
        f.resizes(a, idx, b) == xresizes(f, a, idx, b),
        f.appends(a, value, b) == xappends(f, a, value, b),
{
    let nos = SpecSlice{ start: 0, end: 0 };
    assert forall|d: Seq<u8>, i: int| #![trigger f.gettable(d, i)] #![trigger xgettable(f, d, i)] f.gettable(d, i) == xgettable(f, d, i)
        && (xgettable(f, d, i) ==> f.elt_parsable(d, i) == xeltok(f, d, i) && f.get_elt(d, i) == xelt(f, d, i)) by {
        vp_seq_meaning(f, d, i, value, nos, d);
    }
    vp_seq_meaning(f, a, idx, value, nos, a); vp_seq_meaning(f, b, idx, value, nos, b);
    assert forall|i: int| #![trigger f.preserves_entry(a, i, b)] #![trigger xkeeps(f, a, i, b)] f.preserves_entry(a, i, b) == xkeeps(f, a, i, b) by { }
    if f.sets(a, idx, value, b) { assert forall|i: int| i != idx implies #[trigger] xkeeps(f, a, i, b) by { assert(f.preserves_entry(a, i, b)); } }
    if xsets(f, a, idx, value, b) { assert forall|i: int| i != idx implies #[trigger] f.preserves_entry(a, i, b) by { assert(xkeeps(f, a, i, b)); } }
    if f.resizes(a, idx, b) { assert forall|i: int| #[trigger] xkeeps(f, a, i, b) by { assert(f.preserves_entry(a, i, b)); } }
    if xresizes(f, a, idx, b) { assert forall|i: int| #[trigger] f.preserves_entry(a, i, b) by { assert(xkeeps(f, a, i, b)); } }
    if f.appends(a, value, b) { assert forall|i: int| i != xlength(f, a) implies #[trigger] xkeeps(f, a, i, b) by { assert(f.preserves_entry(a, i, b)); } }
    if xappends(f, a, value, b) { assert forall|i: int| i != xlength(f, a) implies #[trigger] f.preserves_entry(a, i, b) by { assert(xkeeps(f, a, i, b)); } }
}

pub exec fn vp_length<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &Vec<u8>) -> (r: (Option<usize>, bool))
    requires xvalid(f), xok(*s, data@),
    ensures
        r.0 is Some == xlengthable(f, xi(*s, data@)),
        r.0 is Some ==> r.0->0 == xlength(f, xi(*s, data@)),
        r.1 == xlengthable(f, xi(*s, data@)),
{
    proof { vp_seq_meaning(f, xi(*s, data@), 0, arbitrary(), s@, data@); }
    (f.try_length(s, data), f.exec_lengthable(s, data))
}

pub exec fn vp_length_sure<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &Vec<u8>) -> (r: usize)
    requires xvalid(f), xok(*s, data@), xlengthable(f, xi(*s, data@)),
    ensures r == xlength(f, xi(*s, data@)),
{
    proof { vp_seq_meaning(f, xi(*s, data@), 0, arbitrary(), s@, data@); }
    f.exec_length(s, data)
}

pub exec fn vp_get<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: (Option<Slice>, bool))
    requires xvalid(f), xok(*s, data@),
    ensures
        r.0 is Some == xgettable(f, xi(*s, data@), idx as int),
        r.1 == xgettable(f, xi(*s, data@), idx as int),
        r.0 is Some ==> r.0->0.start == s.start + xbegin(f, xi(*s, data@), idx as int) && r.0->0.end == s.start + xend(f, xi(*s, data@), idx as int)
            && s.start <= r.0->0.start <= r.0->0.end <= s.end,
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    (f.try_get(s, data, idx), f.exec_gettable(s, data, idx))
}

pub exec fn vp_get_sure<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: Slice)
    requires xvalid(f), xok(*s, data@), xgettable(f, xi(*s, data@), idx as int),
    ensures r.start == s.start + xbegin(f, xi(*s, data@), idx as int), r.end == s.start + xend(f, xi(*s, data@), idx as int), s.start <= r.start <= r.end <= s.end,
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    f.exec_get(s, data, idx)
}

pub exec fn vp_get_elt<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: Option<F::U>)
    requires xvalid(f), xok(*s, data@),
    ensures
        r is Some == (xgettable(f, xi(*s, data@), idx as int) && xeltok(f, xi(*s, data@), idx as int)),
        r is Some ==> r->0.deepv() == xelt(f, xi(*s, data@), idx as int),
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    f.try_get_elt(s, data, idx)
}

pub exec fn vp_get_elt_sure<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: F::U)
    requires xvalid(f), xok(*s, data@), xgettable(f, xi(*s, data@), idx as int), xeltok(f, xi(*s, data@), idx as int),
    ensures r.deepv() == xelt(f, xi(*s, data@), idx as int),
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    f.exec_get_elt(s, data, idx)
}

pub exec fn vp_flags<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &Vec<u8>, idx: usize, value: &F::U) -> (r: (bool, bool, bool))
    requires xvalid(f), xok(*s, data@), f.eltf.marshallable(value.deepv()),
    ensures
        r.0 == xsettable(f, xi(*s, data@), idx as int, value.deepv()),
        r.1 == xresizable(f, xi(*s, data@), idx as int),
        r.2 == xwf(f, xi(*s, data@)),
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, value.deepv(), s@, data@); }
    (f.exec_settable(s, data, idx, value), f.exec_resizable(s, data, idx), f.exec_well_formed(s, data))
}

pub exec fn vp_appendable<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &Vec<u8>, value: &F::U) -> (r: bool)
    requires xvalid(f), xok(*s, data@), f.eltf.marshallable(value.deepv()), xwf(f, xi(*s, data@)),
    ensures r == xappendable(f, xi(*s, data@), value.deepv()),
{
    proof { vp_seq_meaning(f, xi(*s, data@), 0, value.deepv(), s@, data@); }
    f.exec_appendable(s, data, value)
}

pub proof fn vp_wf_has_length<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>)
    requires xvalid(f), xwf(f, data),
    ensures xlengthable(f, data), 0 <= xlength(f, data),
{
    vp_seq_meaning(f, data, 0, arbitrary(), SpecSlice{ start: 0, end: 0 }, data);
    f.well_formed_ensures(data);
    vp_bounds(f, data, 0);
}

pub exec fn vp_set<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &mut Vec<u8>, idx: usize, value: &F::U)
    requires xvalid(f), xok(*s, old(data)@), f.eltf.marshallable(value.deepv()), xsettable(f, xi(*s, old(data)@), idx as int, value.deepv()),
    ensures
        xbeyond(*s, old(data)@, data@),
        xsets(f, xi(*s, old(data)@), idx as int, value.deepv(), xi(*s, data@)),
        idx < xlength(f, xi(*s, data@)) ==> xtail(f, *s, old(data)@, data@),
{
    let ghost d0 = data@;
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, value.deepv(), s@, data@); }
    f.exec_set(s, data, idx, value);
    proof { vp_seq_relations(f, xi(*s, d0), idx as int, value.deepv(), xi(*s, data@)); vp_seq_meaning(f, xi(*s, d0), idx as int, arbitrary(), s@, d0); vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
}

pub exec fn vp_resize<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &mut Vec<u8>, n: usize)
    requires xvalid(f), xok(*s, old(data)@), xresizable(f, xi(*s, old(data)@), n as int),
    ensures
        xbeyond(*s, old(data)@, data@),
        xresizes(f, xi(*s, old(data)@), n as int, xi(*s, data@)),
        xtail(f, *s, old(data)@, data@),
{
    let ghost d0 = data@;
    proof { vp_seq_meaning(f, xi(*s, data@), n as int, arbitrary(), s@, data@); }
    f.resize(s, data, n);
    proof { vp_seq_relations(f, xi(*s, d0), n as int, arbitrary(), xi(*s, data@)); }
}

pub exec fn vp_append<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &mut Vec<u8>, value: &F::U)
    requires xvalid(f), xok(*s, old(data)@), f.eltf.marshallable(value.deepv()), xwf(f, xi(*s, old(data)@)), xappendable(f, xi(*s, old(data)@), value.deepv()),
    ensures
        xbeyond(*s, old(data)@, data@),
        xappends(f, xi(*s, old(data)@), value.deepv(), xi(*s, data@)),
        xtail(f, *s, old(data)@, data@),
{
    let ghost d0 = data@;
    proof { vp_seq_meaning(f, xi(*s, data@), 0, value.deepv(), s@, data@); }
    f.exec_append(s, data, value);
    proof { vp_seq_relations(f, xi(*s, d0), 0, value.deepv(), xi(*s, data@)); vp_seq_meaning(f, xi(*s, d0), xlength(f, xi(*s, d0)), arbitrary(), s@, d0); vp_seq_meaning(f, xi(*s, data@), xlength(f, xi(*s, d0)), arbitrary(), s@, data@); }
}

pub exec fn vp_initialize<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &mut Vec<u8>)
    requires xvalid(f), xok(*s, old(data)@), f.total_size <= s.end - s.start,
    ensures
        xbeyond(*s, old(data)@, data@),
        xwf(f, xi(*s, data@)), xlengthable(f, xi(*s, data@)), xlength(f, xi(*s, data@)) == 0,
{
    let ghost d0 = data@;
    f.initialize(s, data);
    proof { vp_seq_meaning(f, xi(*s, data@), 0, arbitrary(), s@, data@); }
}

// the whole sequence at once
pub proof fn vp_meaning<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>, v: Seq<F::DV>)
    ensures
        f.valid() == xvalid(f),
        xvalid(f) ==> f.parsable(data) == xparsable(f, data),
        xvalid(f) && xparsable(f, data) ==> f.parse(data) =~= xparse(f, data),
        xvalid(f) ==> f.marshallable(v) == xmarshallable(f, v),
        xvalid(f) && xmarshallable(f, v) ==> f.spec_size(v) == xsize(f, v),
{

    let nos = SpecSlice{ start: 0, end: 0 };
    vp_seq_meaning(f, data, 0, arbitrary(), nos, data);
    if xvalid(f) {
        vp_bounds(f, data, 0);
        let u = xu(f); let n = f.total_size - xl(f);
        assert forall|i: int| xgettable(f, data, i) implies f.gettable(data, i) && f.elt_parsable(data, i) == xeltok(f, data, i) && f.get_elt(data, i) == xelt(f, data, i) by { vp_seq_meaning(f, data, i, arbitrary(), nos, data); }
        if xparsable(f, data) { assert forall|i: int| 0 <= i < xlength(f, data) implies f.gettable(data, i) && f.elt_parsable(data, i) by { assert(xeltok(f, data, i)); assert(xgettable(f, data, i)); } }
        if f.parsable(data) {
            f.parsable_length_bounds(data);
            assert forall|i: int| 0 <= i < xlength(f, data) implies xeltok(f, data, i) by { assert(f.elt_parsable(data, i)); assert(xgettable(f, data, i)); }
        }
        if f.marshallable(v) { assert forall|i: int| 0 <= i < v.len() implies f.eltf.marshallable(#[trigger] v[i]) && f.eltf.spec_size(v[i]) == u by { assert(f.marshallable_at(v, i)); } }
        assert forall|i: int| xgettable(f, data, i) implies f.get_elt(data, i) == xelt(f, data, i) by { }
    }

}

pub exec fn vp_try_parse<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &Vec<u8>) -> (r: (Option<Vec<F::U>>, bool))
    requires xvalid(f), xok(*s, data@),
    ensures
        r.0 is Some == xparsable(f, xi(*s, data@)), r.1 == xparsable(f, xi(*s, data@)),
        r.0 is Some ==> r.0->0.deepv() =~= xparse(f, xi(*s, data@)),
{
    proof { vp_meaning(f, xi(*s, data@), Seq::empty()); }
    (f.try_parse(s, data), f.exec_parsable(s, data))
}

pub exec fn vp_parse<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, s: &Slice, data: &Vec<u8>) -> (r: Vec<F::U>)
    requires xvalid(f), xok(*s, data@), xparsable(f, xi(*s, data@)),
    ensures r.deepv() =~= xparse(f, xi(*s, data@)),
{
    proof { vp_meaning(f, xi(*s, data@), Seq::empty()); }
    f.exec_parse(s, data)
}

pub exec fn vp_size<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, v: &Vec<F::U>) -> (r: usize)
    requires xvalid(f), xmarshallable(f, v.deepv()),
    ensures r == xsize(f, v.deepv()),
{
    proof { vp_meaning(f, Seq::empty(), v.deepv()); }
    f.exec_size(v)
}

pub exec fn vp_marshall<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, v: &Vec<F::U>, data: &mut Vec<u8>, start: usize) -> (end: usize)
    requires xvalid(f), xmarshallable(f, v.deepv()), start + xsize(f, v.deepv()) <= old(data)@.len(),
    ensures
        end == start + xsize(f, v.deepv()),
        xbeyond(Slice{ start, end }, old(data)@, data@),
        xparsable(f, data@.subrange(start as int, end as int)),
        xparse(f, data@.subrange(start as int, end as int)) =~= v.deepv(),
{
    proof { vp_meaning(f, Seq::empty(), v.deepv()); }
    let end = f.exec_marshall(v, data, start);
    proof { vp_meaning(f, data@.subrange(start as int, end as int), v.deepv()); }
    end
}

pub exec fn vp_round_trip<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, v: &Vec<F::U>, data: &mut Vec<u8>, start: usize) -> (r: Vec<F::U>)
    requires xvalid(f), xmarshallable(f, v.deepv()), start + xsize(f, v.deepv()) <= old(data)@.len(),
    ensures r.deepv() =~= v.deepv(), data@.len() == old(data)@.len(),
{
    let end = vp_marshall(f, v, data, start);
    vp_parse(f, &Slice{ start, end }, data)
}

pub proof fn vpfail_seq<F: Marshal + UniformSized, L: IntFormattable>(f: &ResizableUniformSizedElementSeqFormat<F, L>, data: Seq<u8>)
    requires xvalid(f), xlengthable(f, data), xgettable(f, data, 0), xeltok(f, data, 0), f.total_size >= 100
    ensures false
{ f.eltf.uniform_size_ensures(); vp_seq_meaning(f, data, 0, arbitrary(), SpecSlice{ start: 0, end: 0 }, data); }
}
