//@ in: marshalling/UniformSizedSeq_v.rs
use vstd::prelude::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::StaticallySized_v::*;
use crate::marshalling::SeqMarshalling_v::*;
use crate::marshalling::UniformSized_v::*;
use crate::marshalling::math_v::*;

verus! {

pub open spec fn xu<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>) -> int { f.eltf.uniform_size() as int }
pub open spec fn xvalid<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>) -> bool { f.eltf.valid() }
pub open spec fn xlengthable<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>) -> bool { true }
pub open spec fn xlength<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>) -> int { data.len() as int / xu(f) }
pub open spec fn xgettable<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, i: int) -> bool { 0 <= i < xlength(f, data) }
pub open spec fn xbegin<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, i: int) -> int { i * xu(f) }
pub open spec fn xend<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, i: int) -> int { i * xu(f) + xu(f) }
pub open spec fn xchunk<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, i: int) -> Seq<u8> { data.subrange(xbegin(f, data, i), xend(f, data, i)) }
pub open spec fn xeltok<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, i: int) -> bool { f.eltf.parsable(xchunk(f, data, i)) }
pub open spec fn xelt<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, i: int) -> F::DV { f.eltf.parse(xchunk(f, data, i)) }
pub open spec fn xsettable<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, i: int, v: F::DV) -> bool { 0 <= i < xlength(f, data) && f.eltf.spec_size(v) == xu(f) }
pub open spec fn xresizable<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, n: int) -> bool { false }
pub open spec fn xwf<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>) -> bool { false }
pub open spec fn xappendable<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, v: F::DV) -> bool { false }
pub open spec fn xparsable<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>) -> bool {
    xlength(f, data) <= usize::MAX && forall|i: int| 0 <= i < xlength(f, data) ==> #[trigger] xeltok(f, data, i)
}
pub open spec fn xparse<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>) -> Seq<F::DV> { Seq::new(xlength(f, data) as nat, |i: int| xelt(f, data, i)) }
pub open spec fn xmarshallable<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, v: Seq<F::DV>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> f.eltf.marshallable(#[trigger] v[i]) && f.eltf.spec_size(v[i]) == xu(f)
    &&& v.len() * xu(f) <= usize::MAX
}
pub open spec fn xsize<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, v: Seq<F::DV>) -> int { v.len() * xu(f) }

pub proof fn vp_chunk_in<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, i: int)
    requires xgettable(f, data, i)
    ensures 0 < xu(f), 0 <= xbegin(f, data, i) < xend(f, data, i) <= data.len(), xlength(f, data) >= 0
{
    f.eltf.uniform_size_ensures();
    let n = data.len() as int; let u = xu(f);
    assert(0 <= i * u && i * u + u <= n) by(nonlinear_arith) requires 0 <= i < n / u, 0 < u;
}
pub exec fn vp_new<F: Marshal + UniformSized>(e: F) -> (f: UniformSizedElementSeqFormat<F>)
    requires e.valid(),
    ensures xvalid(&f),
{ UniformSizedElementSeqFormat::new(e) }

pub open spec fn xok(s: Slice, data: Seq<u8>) -> bool { s.start <= s.end <= data.len() }
pub open spec fn xi(s: Slice, data: Seq<u8>) -> Seq<u8> { data.subrange(s.start as int, s.end as int) }
pub open spec fn xbeyond(s: Slice, a: Seq<u8>, b: Seq<u8>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() && (i < s.start || s.end <= i) ==> a[i] == b[i]
}
// element i of a is still there in b
pub open spec fn xkeeps<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, a: Seq<u8>, i: int, b: Seq<u8>) -> bool {
    &&& xgettable(f, a, i) ==> xgettable(f, b, i)
    &&& xgettable(f, a, i) && xeltok(f, a, i) ==> xeltok(f, b, i) && xelt(f, b, i) == xelt(f, a, i)
}
pub open spec fn xsets<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, a: Seq<u8>, idx: int, value: F::DV, b: Seq<u8>) -> bool {
    &&& b.len() == a.len()
    &&& xlengthable(f, a) ==> xlengthable(f, b) && xlength(f, b) == xlength(f, a)
    &&& forall|i: int| i != idx ==> #[trigger] xkeeps(f, a, i, b)
    &&& xgettable(f, b, idx) && xeltok(f, b, idx) && xelt(f, b, idx) == value
}
pub open spec fn xresizes<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, a: Seq<u8>, n: int, b: Seq<u8>) -> bool {
    &&& b.len() == a.len()
    &&& xlengthable(f, b) && xlength(f, b) == n
    &&& forall|i: int| #[trigger] xkeeps(f, a, i, b)
}
pub open spec fn xappends<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, a: Seq<u8>, value: F::DV, b: Seq<u8>) -> bool {
    let n = xlength(f, a);
    &&& b.len() == a.len()
    &&& xlength(f, b) == n + 1
    &&& forall|i: int| i != n ==> #[trigger] xkeeps(f, a, i, b)
    &&& xgettable(f, b, n) && xeltok(f, b, n) && xelt(f, b, n) == value
    &&& xwf(f, b)
}

pub proof fn vp_seq_meaning<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, idx: int, value: F::DV, s: SpecSlice, big: Seq<u8>)
    ensures
        f.seq_valid() == xvalid(f),
        f.lengthable(data) == xlengthable(f, data),
        f.length(data) == xlength(f, data),
        xvalid(f) ==> f.gettable(data, idx) == xgettable(f, data, idx),
        xvalid(f) && s.valid(big) && xgettable(f, s.i(big), idx) ==> f.get(s, big, idx) == (SpecSlice{ start: s.start + xbegin(f, s.i(big), idx), end: s.start + xend(f, s.i(big), idx) }),
        xvalid(f) && s.valid(big) && xgettable(f, s.i(big), idx) ==> 0 <= xbegin(f, s.i(big), idx) <= xend(f, s.i(big), idx) <= s.i(big).len(),
        xvalid(f) && xgettable(f, data, idx) ==> f.elt_parsable(data, idx) == xeltok(f, data, idx),
        xvalid(f) && xgettable(f, data, idx) ==> f.get_elt(data, idx) == xelt(f, data, idx),
        f.elt_marshallable(value) == f.eltf.marshallable(value),
        xvalid(f) && f.eltf.marshallable(value) ==> f.settable(data, idx, value) == xsettable(f, data, idx, value),
        xvalid(f) ==> f.resizable(data, idx) == xresizable(f, data, idx),
        xvalid(f) ==> f.well_formed(data) == xwf(f, data),
        xvalid(f) && xwf(f, data) ==> f.appendable(data, value) == xappendable(f, data, value),
{

    f.eltf.uniform_size_ensures();
    if xgettable(f, data, idx) { vp_chunk_in(f, data, idx); }
    if s.valid(big) && xgettable(f, s.i(big), idx) { vp_chunk_in(f, s.i(big), idx); }

}

pub proof fn vp_seq_relations<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, a: Seq<u8>, idx: int, value: F::DV, b: Seq<u8>)
    requires xvalid(f),
    ensures
        f.preserves_entry(a, idx, b) == xkeeps(f, a, idx, b),
        f.sets(a, idx, value, b) == xsets(f, a, idx, value, b),
        
        
{
    let nos = SpecSlice{ start: 0, end: 0 };
    assert forall|d: Seq<u8>, i: int| #![trigger f.gettable(d, i)] #![trigger xgettable(f, d, i)] f.gettable(d, i) == xgettable(f, d, i)
        && (xgettable(f, d, i) ==> f.elt_parsable(d, i) == xeltok(f, d, i) && f.get_elt(d, i) == xelt(f, d, i)) by {
        vp_seq_meaning(f, d, i, value, nos, d);
    }
    vp_seq_meaning(f, a, idx, value, nos, a); vp_seq_meaning(f, b, idx, value, nos, b);
    assert forall|i: int| #![trigger f.preserves_entry(a, i, b)] #![trigger xkeeps(f, a, i, b)] f.preserves_entry(a, i, b) == xkeeps(f, a, i, b) by { }
    if f.sets(a, idx, value, b) { assert forall|i: int| i != idx implies #[trigger] xkeeps(f, a, i, b) by { assert(f.preserves_entry(a, i, b)); } }
    if xsets(f, a, idx, value, b) { assert forall|i: int| i != idx implies #[trigger] f.preserves_entry(a, i, b) by { assert(xkeeps(f, a, i, b)); } }
    
    
    
    
}

pub exec fn vp_length<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, s: &Slice, data: &Vec<u8>) -> (r: (Option<usize>, bool))
    requires xvalid(f), xok(*s, data@),
    ensures
        r.0 is Some == xlengthable(f, xi(*s, data@)),
        r.0 is Some ==> r.0->0 == xlength(f, xi(*s, data@)),
        r.1 == xlengthable(f, xi(*s, data@)),
{
    proof { vp_seq_meaning(f, xi(*s, data@), 0, arbitrary(), s@, data@); }
    (f.try_length(s, data), f.exec_lengthable(s, data))
}

pub exec fn vp_length_sure<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, s: &Slice, data: &Vec<u8>) -> (r: usize)
    requires xvalid(f), xok(*s, data@), xlengthable(f, xi(*s, data@)),
    ensures r == xlength(f, xi(*s, data@)),
{
    proof { vp_seq_meaning(f, xi(*s, data@), 0, arbitrary(), s@, data@); }
    f.exec_length(s, data)
}

pub exec fn vp_get<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: (Option<Slice>, bool))
    requires xvalid(f), xok(*s, data@),
    ensures
        r.0 is Some == xgettable(f, xi(*s, data@), idx as int),
        r.1 == xgettable(f, xi(*s, data@), idx as int),
        r.0 is Some ==> r.0->0.start == s.start + xbegin(f, xi(*s, data@), idx as int) && r.0->0.end == s.start + xend(f, xi(*s, data@), idx as int)
            && s.start <= r.0->0.start <= r.0->0.end <= s.end,
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    (f.try_get(s, data, idx), f.exec_gettable(s, data, idx))
}

pub exec fn vp_get_sure<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: Slice)
    requires xvalid(f), xok(*s, data@), xgettable(f, xi(*s, data@), idx as int),
    ensures r.start == s.start + xbegin(f, xi(*s, data@), idx as int), r.end == s.start + xend(f, xi(*s, data@), idx as int), s.start <= r.start <= r.end <= s.end,
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    f.exec_get(s, data, idx)
}

pub exec fn vp_get_elt<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: Option<F::U>)
    requires xvalid(f), xok(*s, data@),
    ensures
        r is Some == (xgettable(f, xi(*s, data@), idx as int) && xeltok(f, xi(*s, data@), idx as int)),
        r is Some ==> r->0.deepv() == xelt(f, xi(*s, data@), idx as int),
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    f.try_get_elt(s, data, idx)
}

pub exec fn vp_get_elt_sure<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, s: &Slice, data: &Vec<u8>, idx: usize) -> (r: F::U)
    requires xvalid(f), xok(*s, data@), xgettable(f, xi(*s, data@), idx as int), xeltok(f, xi(*s, data@), idx as int),
    ensures r.deepv() == xelt(f, xi(*s, data@), idx as int),
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
    f.exec_get_elt(s, data, idx)
}

pub exec fn vp_flags<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, s: &Slice, data: &Vec<u8>, idx: usize, value: &F::U) -> (r: (bool, bool, bool))
    requires xvalid(f), xok(*s, data@), f.eltf.marshallable(value.deepv()),
    ensures
        r.0 == xsettable(f, xi(*s, data@), idx as int, value.deepv()),
        r.1 == xresizable(f, xi(*s, data@), idx as int),
        r.2 == xwf(f, xi(*s, data@)),
{
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, value.deepv(), s@, data@); }
    (f.exec_settable(s, data, idx, value), f.exec_resizable(s, data, idx), f.exec_well_formed(s, data))
}

pub exec fn vp_appendable<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, s: &Slice, data: &Vec<u8>, value: &F::U) -> (r: bool)
    requires xvalid(f), xok(*s, data@), f.eltf.marshallable(value.deepv()), xwf(f, xi(*s, data@)),
    ensures r == xappendable(f, xi(*s, data@), value.deepv()),
{
    proof { vp_seq_meaning(f, xi(*s, data@), 0, value.deepv(), s@, data@); }
    f.exec_appendable(s, data, value)
}

pub proof fn vp_wf_has_length<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>)
    requires xvalid(f), xwf(f, data),
    ensures xlengthable(f, data), 0 <= xlength(f, data),
{
    vp_seq_meaning(f, data, 0, arbitrary(), SpecSlice{ start: 0, end: 0 }, data);
    f.well_formed_ensures(data);

}

pub exec fn vp_set<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, s: &Slice, data: &mut Vec<u8>, idx: usize, value: &F::U)
    requires xvalid(f), xok(*s, old(data)@), f.eltf.marshallable(value.deepv()), xsettable(f, xi(*s, old(data)@), idx as int, value.deepv()),
    ensures
        xbeyond(*s, old(data)@, data@),
        xsets(f, xi(*s, old(data)@), idx as int, value.deepv(), xi(*s, data@)),
        
{
    let ghost d0 = data@;
    proof { vp_seq_meaning(f, xi(*s, data@), idx as int, value.deepv(), s@, data@); }
    f.exec_set(s, data, idx, value);
    proof { vp_seq_relations(f, xi(*s, d0), idx as int, value.deepv(), xi(*s, data@)); vp_seq_meaning(f, xi(*s, d0), idx as int, arbitrary(), s@, d0); vp_seq_meaning(f, xi(*s, data@), idx as int, arbitrary(), s@, data@); }
}

// the whole sequence at once
pub proof fn vp_meaning<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>, v: Seq<F::DV>)
    ensures
        f.valid() == xvalid(f),
        xvalid(f) ==> f.parsable(data) == xparsable(f, data),
        xvalid(f) && xparsable(f, data) ==> f.parse(data) =~= xparse(f, data),
        xvalid(f) ==> f.marshallable(v) == xmarshallable(f, v),
        xvalid(f) && xmarshallable(f, v) ==> f.spec_size(v) == xsize(f, v),
{

    f.eltf.uniform_size_ensures();
    let n = data.len() as int; let u = xu(f);
    assert(n / u >= 0) by(nonlinear_arith) requires 0 <= n, 0 < u;
    assert forall|i: int| 0 <= i < xlength(f, data) implies f.gettable(data, i) && f.elt_parsable(data, i) == xeltok(f, data, i) && f.get_elt(data, i) == xelt(f, data, i) by { vp_chunk_in(f, data, i); }
    if xparsable(f, data) { assert forall|i: int| 0 <= i < xlength(f, data) implies f.elt_parsable(data, i) by { assert(xeltok(f, data, i)); } }
    if f.parsable(data) { assert forall|i: int| 0 <= i < xlength(f, data) implies xeltok(f, data, i) by { assert(f.elt_parsable(data, i)); } }
    if f.marshallable(v) { assert forall|i: int| 0 <= i < v.len() implies f.eltf.marshallable(#[trigger] v[i]) && f.eltf.spec_size(v[i]) == u by { assert(f.marshallable_at(v, i)); } }

}

pub exec fn vp_try_parse<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, s: &Slice, data: &Vec<u8>) -> (r: (Option<Vec<F::U>>, bool))
    requires xvalid(f), xok(*s, data@),
    ensures
        r.0 is Some == xparsable(f, xi(*s, data@)), r.1 == xparsable(f, xi(*s, data@)),
        r.0 is Some ==> r.0->0.deepv() =~= xparse(f, xi(*s, data@)),
{
    proof { vp_meaning(f, xi(*s, data@), Seq::empty()); }
    (f.try_parse(s, data), f.exec_parsable(s, data))
}

pub exec fn vp_parse<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, s: &Slice, data: &Vec<u8>) -> (r: Vec<F::U>)
    requires xvalid(f), xok(*s, data@), xparsable(f, xi(*s, data@)),
    ensures r.deepv() =~= xparse(f, xi(*s, data@)),
{
    proof { vp_meaning(f, xi(*s, data@), Seq::empty()); }
    f.exec_parse(s, data)
}

pub exec fn vp_size<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, v: &Vec<F::U>) -> (r: usize)
    requires xvalid(f), xmarshallable(f, v.deepv()),
    ensures r == xsize(f, v.deepv()),
{
    proof { vp_meaning(f, Seq::empty(), v.deepv()); }
    f.exec_size(v)
}

pub exec fn vp_marshall<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, v: &Vec<F::U>, data: &mut Vec<u8>, start: usize) -> (end: usize)
    requires xvalid(f), xmarshallable(f, v.deepv()), start + xsize(f, v.deepv()) <= old(data)@.len(),
    ensures
        end == start + xsize(f, v.deepv()),
        xbeyond(Slice{ start, end }, old(data)@, data@),
        xparsable(f, data@.subrange(start as int, end as int)),
        xparse(f, data@.subrange(start as int, end as int)) =~= v.deepv(),
{
    proof { vp_meaning(f, Seq::empty(), v.deepv()); }
    let end = f.exec_marshall(v, data, start);
    proof { vp_meaning(f, data@.subrange(start as int, end as int), v.deepv()); }
    end
}

pub exec fn vp_round_trip<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, v: &Vec<F::U>, data: &mut Vec<u8>, start: usize) -> (r: Vec<F::U>)
    requires xvalid(f), xmarshallable(f, v.deepv()), start + xsize(f, v.deepv()) <= old(data)@.len(),
    ensures r.deepv() =~= v.deepv(), data@.len() == old(data)@.len(),
{
    let end = vp_marshall(f, v, data, start);
    vp_parse(f, &Slice{ start, end }, data)
}

pub proof fn vpfail_seq<F: Marshal + UniformSized>(f: &UniformSizedElementSeqFormat<F>, data: Seq<u8>)
    requires xvalid(f), xlengthable(f, data), xgettable(f, data, 0), xeltok(f, data, 0), data.len() >= 20
    ensures false
{ f.eltf.uniform_size_ensures(); vp_seq_meaning(f, data, 0, arbitrary(), SpecSlice{ start: 0, end: 0 }, data); }
}
