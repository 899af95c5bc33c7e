//@ in: marshalling/VariableSizedElementSeq_v.rs
use vstd::prelude::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::StaticallySized_v::*;
use crate::marshalling::SeqMarshalling_v::*;
use crate::marshalling::UniformSized_v::*;
use crate::marshalling::math_v::*;
use crate::marshalling::ResizableUniformSizedSeq_v::*;
verus! {

pub open spec fn xb<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>) -> int { B::uniform_size() as int }
pub open spec fn xl<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>) -> int { L::uniform_size() as int }
pub open spec fn xtotal<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>) -> int { f.bdyf.total_size as int }
pub open spec fn xcap<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>) -> int { (xtotal(f) - xl(f)) / xb(f) }
pub open spec fn xvalid<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>) -> bool {
    &&& f.eltf.valid() && xl(f) <= xtotal(f) && f.bdyf.max_length == xcap(f)
    &&& xtotal(f) <= L::max() && xtotal(f) <= B::max()
}
pub open spec fn xlengthable<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>) -> bool { xtotal(f) <= data.len() }
pub open spec fn xlength<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>) -> int { L::spec_from_le_bytes(data.subrange(0, xl(f)).subrange(0, xl(f))) as int }
// entry i of the table of boundaries
pub open spec fn xtab<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, i: int) -> int { B::spec_from_le_bytes(data.subrange(xl(f) + i * xb(f), xl(f) + i * xb(f) + xb(f)).subrange(0, xb(f))) as int }
pub open spec fn xbegin<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, i: int) -> int { xtab(f, data, i) }
pub open spec fn xend<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, i: int) -> int { if i == 0 { xtotal(f) } else { xtab(f, data, i - 1) } }
pub open spec fn xgettable<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, i: int) -> bool {
    &&& xtotal(f) <= data.len() && 0 <= i < xlength(f, data) && i < xcap(f)
    &&& 0 <= xbegin(f, data, i) <= xend(f, data, i) <= xtotal(f)
}
pub open spec fn xchunk<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, i: int) -> Seq<u8> { data.subrange(xbegin(f, data, i), xend(f, data, i)) }
pub open spec fn xeltok<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, i: int) -> bool { f.eltf.parsable(xchunk(f, data, i)) }
pub open spec fn xelt<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, i: int) -> F::DV { f.eltf.parse(xchunk(f, data, i)) }
pub open spec fn xsettable<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, i: int, v: F::DV) -> bool { false }
pub open spec fn xresizable<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, n: int) -> bool { false }
pub open spec fn xwf<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>) -> bool {
    let n = xlength(f, data);
    &&& xtotal(f) <= data.len()
    &&& n <= xcap(f)
    &&& forall|i: int, j: int| 0 <= i <= j < n ==> #[trigger] xtab(f, data, j) <= #[trigger] xtab(f, data, i)
    &&& 0 < n ==> xtab(f, data, 0) <= xtotal(f)
    &&& 0 < n ==> xl(f) + n * xb(f) <= xtab(f, data, n - 1)
}
pub open spec fn xfree<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>) -> int {
    let n = xlength(f, data);
    (if n == 0 { xtotal(f) } else { xtab(f, data, n - 1) }) - (xl(f) + n * xb(f))
}
pub open spec fn xappendable<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, v: F::DV) -> bool { xb(f) + f.eltf.spec_size(v) <= xfree(f, data) }

pub proof fn vp_bounds<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, i: int)
    requires xvalid(f)
    ensures
        0 < xb(f), 0 < xl(f), 0 <= xcap(f), 0 <= xlength(f, data) <= L::max(), 0 <= xtab(f, data, i) <= B::max(),
        f.bdyf.spec_max_length() == xcap(f), f.bdyf.seq_valid(), f.seq_valid(), f.total_size() == xtotal(f), f.max_length() == xcap(f),
        0 <= i < xcap(f) ==> xl(f) <= xl(f) + i * xb(f) < xl(f) + i * xb(f) + xb(f) <= xtotal(f),
        0 <= i < xcap(f) && xtotal(f) <= data.len() ==> f.bdyf.gettable(data, i) && f.bdyf.elt_parsable(data, i) && f.bdyf.get_elt(data, i) == xtab(f, data, i)
            && f.element_gettable(data, i) && f.element_data_begin(data, i) == xbegin(f, data, i),
        0 < i < xcap(f) && xtotal(f) <= data.len() ==> f.element_data_end(data, i) == xend(f, data, i),
        f.element_data_end(data, 0) == xtotal(f),
        f.length(data) == xlength(f, data), f.bdyf.length(data) == xlength(f, data),
        f.size_of_table(i) == xl(f) + i * xb(f),
{
    f.bdyf.eltf.uniform_size_ensures(); f.bdyf.lenf.uniform_size_ensures(); f.bdyf.length_ensures(data);
    let n = xtotal(f) - xl(f); let u = xb(f);
    assert(n / u >= 0 && n / u <= n) by(nonlinear_arith) requires 0 <= n, 0 < u;
    if 0 <= i < xcap(f) { assert(0 <= i * u && i * u + u <= n) by(nonlinear_arith) requires 0 <= i < n / u, 0 < u, 0 <= n; }
    if 0 <= i - 1 < xcap(f) { assert(0 <= (i - 1) * u && (i - 1) * u + u <= n) by(nonlinear_arith) requires 0 <= i - 1 < n / u, 0 < u, 0 <= n; }
    let c = data.subrange(xl(f) + i * xb(f), xl(f) + i * xb(f) + xb(f));
    f.bdyf.eltf.parse_nat(c);
    assert(f.bdyf.get_data(data, i) =~= c);
    let c1 = data.subrange(xl(f) + (i - 1) * xb(f), xl(f) + (i - 1) * xb(f) + xb(f));
    assert(f.bdyf.get_data(data, i - 1) =~= c1);
}

pub proof fn vp_table_meaning<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>)
    requires xvalid(f)
    ensures
        f.tableable(data) == (xtotal(f) <= data.len() && xlength(f, data) <= xcap(f)),
        f.tableable(data) ==> f.table(data) =~= Seq::new(xlength(f, data) as nat, |i: int| xtab(f, data, i)),
        f.tableable(data) ==> f.valid_table(data) == xwf(f, data),
        f.tableable(data) ==> f.free_space(data) == xfree(f, data),
        f.tableable(data) ==> f.elements_start(data) == (if xlength(f, data) == 0 { xtotal(f) } else { xtab(f, data, xlength(f, data) - 1) }),
{
    let n = xlength(f, data);
    vp_bounds(f, data, 0); vp_bounds(f, data, n); vp_bounds(f, data, n - 1);
    assert forall|i: int| 0 <= i < xcap(f) && xtotal(f) <= data.len() implies f.bdyf.gettable(data, i) && f.bdyf.elt_parsable(data, i) && f.bdyf.get_elt(data, i) == xtab(f, data, i) by { vp_bounds(f, data, i); }
    if f.tableable(data) {
        f.bdyf.parsable_length_bounds(data);
        let t = f.table(data);
        assert(t =~= Seq::new(n as nat, |i: int| xtab(f, data, i)));
        if f.valid_table(data) { assert forall|i: int, j: int| 0 <= i <= j < n implies #[trigger] xtab(f, data, j) <= #[trigger] xtab(f, data, i) by { assert(t[j] <= t[i]); } }
        if xwf(f, data) { assert forall|i: int, j: int| 0 <= i <= j < t.len() implies t[j] <= t[i] by { assert(xtab(f, data, j) <= xtab(f, data, i)); } }
    }
}

pub proof fn vp_get_range<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, i: int)
    requires xvalid(f)
    ensures f.gettable(data, i) == xgettable(f, data, i)
{
    vp_bounds(f, data, i); vp_bounds(f, data, i - 1);
}

// in a well-formed sequence every element is there, and the elements do not overlap each other or the table
pub proof fn vp_wf_layout<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, i: int, j: int)
    requires xvalid(f), xwf(f, data), 0 <= i < j < xlength(f, data)
    ensures
        xgettable(f, data, i), xgettable(f, data, j),
        xend(f, data, j) <= xbegin(f, data, i),
        xl(f) + xlength(f, data) * xb(f) <= xbegin(f, data, j),
        f.gettable(data, i), f.gettable(data, j), f.lengthable(data),
{
    let n = xlength(f, data);
    vp_bounds(f, data, 0); vp_bounds(f, data, n - 1); vp_bounds(f, data, i); vp_bounds(f, data, j); vp_bounds(f, data, i - 1);
    assert(xtab(f, data, j) <= xtab(f, data, i)); assert(xtab(f, data, n - 1) <= xtab(f, data, j)); assert(xtab(f, data, j - 1) <= xtab(f, data, i));
    assert(xtab(f, data, i) <= xtab(f, data, 0)); assert(xtab(f, data, j) <= xtab(f, data, j - 1)); assert(xtab(f, data, j - 1) <= xtab(f, data, 0));
    if 0 < i { assert(xtab(f, data, i) <= xtab(f, data, i - 1)); assert(xtab(f, data, i - 1) <= xtab(f, data, 0)); }
    vp_get_range(f, data, i); vp_get_range(f, data, j);
}

pub exec fn vp_new<F: Marshal, B: IntFormattable, L: IntFormattable>(e: F, b: IntFormat<B>, l: IntFormat<L>, total_size: usize) -> (f: VariableSizedElementSeqFormat<F, B, L>)
    requires e.valid(), L::uniform_size() <= total_size, total_size <= B::max(), total_size <= L::max(),
    ensures xvalid(&f), xtotal(&f) == total_size,
{
    let f = VariableSizedElementSeqFormat::new(e, b, l, total_size);
    proof {
        f.bdyf.eltf.uniform_size_ensures(); f.bdyf.lenf.uniform_size_ensures();
    }
    f
}
pub exec fn vp_total<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>) -> (n: usize)
    ensures n == xtotal(f),
{ f.exec_total_size() }

pub open spec fn xok(s: Slice, data: Seq<u8>) -> bool { s.start <= s.end <= data.len() }
pub open spec fn xi(s: Slice, data: Seq<u8>) -> Seq<u8> { data.subrange(s.start as int, s.end as int) }
pub open spec fn xbeyond(s: Slice, a: Seq<u8>, b: Seq<u8>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() && (i < s.start || s.end <= i) ==> a[i] == b[i]
}
// element i of a is still there in b
pub open spec fn xkeeps<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, a: Seq<u8>, i: int, b: Seq<u8>) -> bool {
    &&& xgettable(f, a, i) ==> xgettable(f, b, i)
    &&& xgettable(f, a, i) && xeltok(f, a, i) ==> xeltok(f, b, i) && xelt(f, b, i) == xelt(f, a, i)
}
pub open spec fn xsets<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, a: Seq<u8>, idx: int, value: F::DV, b: Seq<u8>) -> bool {
    &&& b.len() == a.len()
    &&& xlengthable(f, a) ==> xlengthable(f, b) && xlength(f, b) == xlength(f, a)
    &&& forall|i: int| i != idx ==> #[trigger] xkeeps(f, a, i, b)
    &&& xgettable(f, b, idx) && xeltok(f, b, idx) && xelt(f, b, idx) == value
}
pub open spec fn xresizes<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, a: Seq<u8>, n: int, b: Seq<u8>) -> bool {
    &&& b.len() == a.len()
    &&& xlengthable(f, b) && xlength(f, b) == n
    &&& forall|i: int| #[trigger] xkeeps(f, a, i, b)
}
pub open spec fn xappends<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, a: Seq<u8>, value: F::DV, b: Seq<u8>) -> bool {
    let n = xlength(f, a);
    &&& b.len() == a.len()
    &&& xlength(f, b) == n + 1
    &&& forall|i: int| i != n ==> #[trigger] xkeeps(f, a, i, b)
    &&& xgettable(f, b, n) && xeltok(f, b, n) && xelt(f, b, n) == value
    &&& xwf(f, b)
}

pub proof fn vp_seq_meaning<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>, idx: int, value: F::DV, s: SpecSlice, big: Seq<u8>)
    ensures
        f.seq_valid() == xvalid(f),
        f.lengthable(data) == xlengthable(f, data),
        f.length(data) == xlength(f, data),
        xvalid(f) ==> f.gettable(data, idx) == xgettable(f, data, idx),
        xvalid(f) && s.valid(big) && xgettable(f, s.i(big), idx) ==> f.get(s, big, idx) == (SpecSlice{ start: s.start + xbegin(f, s.i(big), idx), end: s.start + xend(f, s.i(big), idx) }),
        xvalid(f) && s.valid(big) && xgettable(f, s.i(big), idx) ==> 0 <= xbegin(f, s.i(big), idx) <= xend(f, s.i(big), idx) <= s.i(big).len(),
        xvalid(f) && xgettable(f, data, idx) ==> f.elt_parsable(data, idx) == xeltok(f, data, idx),
        xvalid(f) && xgettable(f, data, idx) ==> f.get_elt(data, idx) == xelt(f, data, idx),
        f.elt_marshallable(value) == f.eltf.marshallable(value),
        xvalid(f) && f.eltf.marshallable(value) ==> f.settable(data, idx, value) == xsettable(f, data, idx, value),
        xvalid(f) ==> f.resizable(data, idx) == xresizable(f, data, idx),
        xvalid(f) ==> f.well_formed(data) == xwf(f, data),
        xvalid(f) && xwf(f, data) ==> f.appendable(data, value) == xappendable(f, data, value),
{

    f.bdyf.eltf.uniform_size_ensures(); f.bdyf.lenf.uniform_size_ensures();
    {
        let n = xtotal(f) - xl(f); let u = xb(f);
        if 0 <= n { assert(n / u >= 0 && n / u <= n) by(nonlinear_arith) requires 0 <= n, 0 < u; }
    }
    if xvalid(f) {
        vp_bounds(f, data, idx); vp_table_meaning(f, data); vp_get_range(f, data, idx);
        if s.valid(big) { vp_bounds(f, s.i(big), idx); vp_get_range(f, s.i(big), idx); vp_bounds(f, s.i(big), idx - 1); }
        vp_bounds(f, data, idx - 1);
        assert(data.subrange(0, data.len() as int) =~= data);
        if xgettable(f, data, idx) { assert(f.get_data(data, idx) =~= xchunk(f, data, idx)); }
    }

}

pub proof fn vp_seq_relations<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, a: Seq<u8>, idx: int, value: F::DV, b: Seq<u8>)
    requires xvalid(f),
    ensures
        f.preserves_entry(a, idx, b) == xkeeps(f, a, idx, b),
        
        
        f.appends(a, value, b) == xappends(f, a, value, b),
{
    let nos = SpecSlice{ start: 0, end: 0 };
    assert forall|d: Seq<u8>, i: int| #![trigger f.gettable(d, i)] #![trigger xgettable(f, d, i)] f.gettable(d, i) == xgettable(f, d, i)
        && (xgettable(f, d, i) ==> f.elt_parsable(d, i) == xeltok(f, d, i) && f.get_elt(d, i) == xelt(f, d, i)) by {
        vp_seq_meaning(f, d, i, value, nos, d);
    }
    vp_seq_meaning(f, a, idx, value, nos, a); vp_seq_meaning(f, b, idx, value, nos, b);
    assert forall|i: int| #![trigger f.preserves_entry(a, i, b)] #![trigger xkeeps(f, a, i, b)] f.preserves_entry(a, i, b) == xkeeps(f, a, i, b) by { }
    
    
    
    
    if f.appends(a, value, b) { assert forall|i: int| i != xlength(f, a) implies #[trigger] xkeeps(f, a, i, b) by { assert(f.preserves_entry(a, i, b)); } }
    if xappends(f, a, value, b) { assert forall|i: int| i != xlength(f, a) implies #[trigger] f.preserves_entry(a, i, b) by { assert(xkeeps(f, a, i, b)); } }
}

pub exec fn vp_length<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, s: &Slice, data: &Vec<u8>) -> (r: (Option<usize>, bool))
    requires xvalid(f), xok(*s, data@),
    ensures
        r.0 is Some == xlengthable(f, xi(*s, data@)),
        r.0 is Some ==> r.0->0 == xlength(f, xi(*s, data@)),
        r.1 == xlengthable(f, xi(*s, data@)),
{
    proof { vp_seq_meaning(f, xi(*s, data@), 0, arbitrary(), s@, data@); }
    (f.try_length(s, data), f.exec_lengthable(s, data))
}

pub exec fn vp_length_sure<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, s: &Slice, data: &Vec<u8>) -> (r: usize)
    requires xvalid(f), xok(*s, data@), xlengthable(f, xi(*s, data@)),
    ensures r == xlength(f, xi(*s, data@)),
{
    proof { vp_seq_meaning(f, xi(*s, data@), 0, arbitrary(), s@, data@); }
    f.exec_length(s, data)
}

pub exec fn vp_get<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: (Option<Slice>, bool))
    requires xvalid(f), xok(*s, data@),
    ensures
        r.0 is Some == xgettable(f, xi(*s, data@), idx as int),
        r.1 == xgettable(f, xi(*s, data@), idx as int),
        r.0 is Some ==> r.0->0.start == s.start + xbegin(f, xi(*s, data@), idx as int) && r.0->0.end == s.start + xend(f, xi(*s, data@), idx as int)
            && s.start <= r.0->0.start <= r.0->0.end <= s.end,
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    (f.try_get(s, data, idx), f.exec_gettable(s, data, idx))
}

pub exec fn vp_get_sure<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: Slice)
    requires xvalid(f), xok(*s, data@), xgettable(f, xi(*s, data@), idx as int),
    ensures r.start == s.start + xbegin(f, xi(*s, data@), idx as int), r.end == s.start + xend(f, xi(*s, data@), idx as int), s.start <= r.start <= r.end <= s.end,
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    f.exec_get(s, data, idx)
}

pub exec fn vp_get_elt<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: Option<F::U>)
    requires xvalid(f), xok(*s, data@),
    ensures
        r is Some == (xgettable(f, xi(*s, data@), idx as int) && xeltok(f, xi(*s, data@), idx as int)),
        r is Some ==> r->0.deepv() == xelt(f, xi(*s, data@), idx as int),
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    f.try_get_elt(s, data, idx)
}

pub exec fn vp_get_elt_sure<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: F::U)
    requires xvalid(f), xok(*s, data@), xgettable(f, xi(*s, data@), idx as int), xeltok(f, xi(*s, data@), idx as int),
    ensures r.deepv() == xelt(f, xi(*s, data@), idx as int),
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    f.exec_get_elt(s, data, idx)
}

pub exec fn vp_flags<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, s: &Slice, data: &Vec<u8>, idx: usize, value: &F::U) -> (r: (bool, bool, bool))
    requires xvalid(f), xok(*s, data@), f.eltf.marshallable(value.deepv()),
    ensures
        r.0 == xsettable(f, xi(*s, data@), idx as int, value.deepv()),
        r.1 == xresizable(f, xi(*s, data@), idx as int),
        r.2 == xwf(f, xi(*s, data@)),
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, value.deepv(), s@, data@); }
    (f.exec_settable(s, data, idx, value), f.exec_resizable(s, data, idx), f.exec_well_formed(s, data))
}

pub exec fn vp_appendable<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, s: &Slice, data: &Vec<u8>, value: &F::U) -> (r: bool)
    requires xvalid(f), xok(*s, data@), f.eltf.marshallable(value.deepv()), xwf(f, xi(*s, data@)),
    ensures r == xappendable(f, xi(*s, data@), value.deepv()),
{
    proof { vp_seq_meaning(f, xi(*s, data@), 0, value.deepv(), s@, data@); }
    f.exec_appendable(s, data, value)
}

pub proof fn vp_wf_has_length<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>)
    requires xvalid(f), xwf(f, data),
    ensures xlengthable(f, data), 0 <= xlength(f, data),
{
    vp_seq_meaning(f, data, 0, arbitrary(), SpecSlice{ start: 0, end: 0 }, data);
    f.well_formed_ensures(data);
    vp_bounds(f, data, 0);
}

pub exec fn vp_append<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, s: &Slice, data: &mut Vec<u8>, value: &F::U)
    requires xvalid(f), xok(*s, old(data)@), f.eltf.marshallable(value.deepv()), xwf(f, xi(*s, old(data)@)), xappendable(f, xi(*s, old(data)@), value.deepv()),
    ensures
        xbeyond(*s, old(data)@, data@),
        xappends(f, xi(*s, old(data)@), value.deepv(), xi(*s, data@)),
        xfree(f, xi(*s, data@)) == xfree(f, xi(*s, old(data)@)) - (xb(f) + f.eltf.spec_size(value.deepv())),
{
    let ghost d0 = data@;
    proof { vp_seq_meaning(f, xi(*s, data@), 0, value.deepv(), s@, data@); }
    f.exec_append(s, data, value);
    proof { vp_table_meaning(f, xi(*s, d0)); vp_table_meaning(f, xi(*s, data@));  vp_seq_relations(f, xi(*s, d0), 0, value.deepv(), xi(*s, data@)); vp_seq_meaning(f, xi(*s, d0), xlength(f, xi(*s, d0)), arbitrary(), s@, d0); vp_seq_meaning(f, xi(*s, data@), xlength(f, xi(*s, d0)), arbitrary(), s@, data@); }
}

pub exec fn vp_initialize<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, s: &Slice, data: &mut Vec<u8>)
    requires xvalid(f), xok(*s, old(data)@), xtotal(f) <= s.end - s.start,
    ensures
        xbeyond(*s, old(data)@, data@),
        xwf(f, xi(*s, data@)), xlengthable(f, xi(*s, data@)), xlength(f, xi(*s, data@)) == 0,
{
    let ghost d0 = data@;
    f.initialize(s, data);
    proof { vp_seq_meaning(f, xi(*s, data@), 0, arbitrary(), s@, data@); }
}

pub proof fn vpfail_seq<F: Marshal, B: IntFormattable, L: IntFormattable>(f: &VariableSizedElementSeqFormat<F, B, L>, data: Seq<u8>)
    requires xvalid(f), xlengthable(f, data), xwf(f, data), xgettable(f, data, 0), xeltok(f, data, 0), xtotal(f) >= 100
    ensures false
{ vp_seq_meaning(f, data, 0, arbitrary(), SpecSlice{ start: 0, end: 0 }, data); }
}
