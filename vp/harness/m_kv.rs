//@ in: marshalling/KVPairFormat_v.rs
use vstd::prelude::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::StaticallySized_v::*;
use crate::marshalling::UniformSized_v::*;
verus! {
pub open spec fn xl<K: KVTrait>(f: &KVPairFormat<K>) -> int { K::LenType::uniform_size() as int }
pub open spec fn xvalid<K: KVTrait>(f: &KVPairFormat<K>) -> bool { f.key_fmt.valid() && f.data_fmt.valid() && K::LenType::max() + xl(f) <= usize::MAX }
pub open spec fn xkeylen<K: KVTrait>(f: &KVPairFormat<K>, data: Seq<u8>) -> int { f.keylen_fmt.parse(data.subrange(0, xl(f))) }
// length of the key, then the key, then the value up to the end of the data
pub open spec fn xkey<K: KVTrait>(f: &KVPairFormat<K>, data: Seq<u8>) -> Seq<u8> { data.subrange(xl(f), xl(f) + xkeylen(f, data)) }
pub open spec fn xvalue<K: KVTrait>(f: &KVPairFormat<K>, data: Seq<u8>) -> Seq<u8> { data.subrange(xl(f) + xkeylen(f, data), data.len() as int) }
pub open spec fn xparsable<K: KVTrait>(f: &KVPairFormat<K>, data: Seq<u8>) -> bool {
    &&& xl(f) <= data.len()
    &&& xl(f) + xkeylen(f, data) <= data.len()
    &&& f.key_fmt.parsable(xkey(f, data))
    &&& f.data_fmt.parsable(xvalue(f, data))
}
pub open spec fn xparse<K: KVTrait>(f: &KVPairFormat<K>, data: Seq<u8>) -> SpecKVPair<K> {
    SpecKVPair{ key: f.key_fmt.parse(xkey(f, data)), value: f.data_fmt.parse(xvalue(f, data)) }
}
pub open spec fn xsize<K: KVTrait>(f: &KVPairFormat<K>, kv: SpecKVPair<K>) -> int { xl(f) + f.key_fmt.spec_size(kv.key) + f.data_fmt.spec_size(kv.value) }
pub open spec fn xmarshallable<K: KVTrait>(f: &KVPairFormat<K>, kv: SpecKVPair<K>) -> bool {
    &&& f.key_fmt.marshallable(kv.key) && f.data_fmt.marshallable(kv.value)
    &&& xsize(f, kv) <= usize::MAX
    &&& f.key_fmt.spec_size(kv.key) <= K::LenType::max()
}
pub open spec fn xok(s: Slice, data: Seq<u8>) -> bool { s.start <= s.end <= data.len() }
pub open spec fn xi(s: Slice, data: Seq<u8>) -> Seq<u8> { data.subrange(s.start as int, s.end as int) }

pub proof fn vp_meaning<K: KVTrait>(f: &KVPairFormat<K>, data: Seq<u8>, kv: SpecKVPair<K>)
    ensures
        f.valid() == xvalid(f),
        xvalid(f) ==> f.parsable(data) == xparsable(f, data),
        xvalid(f) && xparsable(f, data) ==> f.parse(data) == xparse(f, data),
        f.marshallable(kv) == xmarshallable(f, kv),
        xmarshallable(f, kv) ==> f.spec_size(kv) == xsize(f, kv),
{
    K::LenType::uniform_size_ensures();
    f.keylen_fmt.parse_nat(f.get_keylen_slice().i(data));
    if xl(f) <= data.len() {
    assert(data.subrange(0, xl(f)).subrange(0, xl(f)) =~= data.subrange(0, xl(f)));
        assert(f.get_keylen_elt(data) == xkeylen(f, data));
        assert(f.get_key_slice(xkeylen(f, data)).i(data) =~= xkey(f, data));
        assert(f.get_value_subslice(SpecSlice::all(data), xkeylen(f, data)).i(data) =~= xvalue(f, data));
    }
}

pub proof fn vp_deepv<K: KVTrait>(kv: KVPair<K>)
    ensures kv.deepv() == (SpecKVPair::<K>{ key: kv.key.deepv(), value: kv.value.deepv() })
{}

pub exec fn vp_try_parse<K: KVTrait>(f: &KVPairFormat<K>, s: &Slice, data: &Vec<u8>) -> (r: (Option<KVPair<K>>, bool))
    requires xvalid(f), xok(*s, data@),
    ensures
        r.0 is Some == xparsable(f, xi(*s, data@)), r.1 == xparsable(f, xi(*s, data@)),
        r.0 is Some ==> r.0->0.key.deepv() == xparse(f, xi(*s, data@)).key && r.0->0.value.deepv() == xparse(f, xi(*s, data@)).value,
{
    proof { vp_meaning(f, xi(*s, data@), arbitrary()); }
    let r = f.try_parse(s, data);
    proof { if r is Some { vp_deepv(r->0); } }
    (r, f.exec_parsable(s, data))
}

pub exec fn vp_parse<K: KVTrait>(f: &KVPairFormat<K>, s: &Slice, data: &Vec<u8>) -> (r: KVPair<K>)
    requires xvalid(f), xok(*s, data@), xparsable(f, xi(*s, data@)),
    ensures r.key.deepv() == xparse(f, xi(*s, data@)).key && r.value.deepv() == xparse(f, xi(*s, data@)).value,
{
    proof { vp_meaning(f, xi(*s, data@), arbitrary()); }
    let r = f.exec_parse(s, data);
    proof { vp_deepv(r); }
    r
}

pub exec fn vp_size<K: KVTrait>(f: &KVPairFormat<K>, kv: &KVPair<K>) -> (n: usize)
    requires xvalid(f), xmarshallable(f, kv.deepv()),
    ensures n == xsize(f, kv.deepv()),
{
    proof { vp_meaning(f, Seq::empty(), kv.deepv()); }
    f.exec_size(kv)
}

pub exec fn vp_marshall<K: KVTrait>(f: &KVPairFormat<K>, kv: &KVPair<K>, data: &mut Vec<u8>, start: usize) -> (end: usize)
    requires xvalid(f), xmarshallable(f, kv.deepv()), start + xsize(f, kv.deepv()) <= old(data)@.len(),
    ensures
        end == start + xsize(f, kv.deepv()),
        data@.len() == old(data)@.len(),
        forall|i: int| 0 <= i < start || end <= i < data@.len() ==> data@[i] == old(data)@[i],
        xparsable(f, data@.subrange(start as int, end as int)),
        xparse(f, data@.subrange(start as int, end as int)).key == kv.key.deepv(),
        xparse(f, data@.subrange(start as int, end as int)).value == kv.value.deepv(),
{
    proof { vp_meaning(f, Seq::empty(), kv.deepv()); vp_deepv(*kv); }
    let end = f.exec_marshall(kv, data, start);
    proof { vp_meaning(f, data@.subrange(start as int, end as int), kv.deepv()); }
    end
}

pub exec fn vp_round_trip<K: KVTrait>(f: &KVPairFormat<K>, kv: &KVPair<K>, data: &mut Vec<u8>, start: usize) -> (r: KVPair<K>)
    requires xvalid(f), xmarshallable(f, kv.deepv()), start + xsize(f, kv.deepv()) <= old(data)@.len(),
    ensures r.key.deepv() == kv.key.deepv(), r.value.deepv() == kv.value.deepv(),
{
    let end = vp_marshall(f, kv, data, start);
    vp_parse(f, &Slice{ start, end }, data)
}

// a key length that runs past the data is refused
pub proof fn vp_length_checked<K: KVTrait>(f: &KVPairFormat<K>, data: Seq<u8>)
    requires xvalid(f), f.parsable(data),
    ensures xl(f) <= data.len(), 0 <= xkeylen(f, data) <= data.len() - xl(f),
{ vp_meaning(f, data, arbitrary()); f.keylen_fmt.parse_nat(data.subrange(0, xl(f))); }

pub proof fn vpfail_kv<K: KVTrait>(f: &KVPairFormat<K>, data: Seq<u8>)
    requires xvalid(f), xparsable(f, data), xmarshallable(f, xparse(f, data)),
    ensures false
{ vp_meaning(f, data, xparse(f, data)); }
}
