//@ in: marshalling/IntegerMarshalling_v.rs
use vstd::prelude::*;
use vstd::bytes::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::StaticallySized_v::*;
use crate::marshalling::UniformSized_v::*;
verus! {

// what an encoding is, in terms of the little-endian encoding of the standard library
pub proof fn vp_u8(x: u8, s: Seq<u8>)
    ensures
        u8::uniform_size() == 1, <u8 as IntFormattable>::max() == 255, x.deepv() == x,
        u8::spec_to_le_bytes(x) =~= seq![x],
        s.len() == 1 ==> u8::spec_from_le_bytes(s) == s[0],
{}

pub proof fn vp_u16(x: u16, s: Seq<u8>)
    ensures
        u16::uniform_size() == 2, <u16 as IntFormattable>::max() == 65535usize, x.deepv() == x,
        u16::spec_to_le_bytes(x) == spec_u16_to_le_bytes(x),
        u16::spec_to_le_bytes(x).len() == 2,
        u16::spec_from_le_bytes(s) == spec_u16_from_le_bytes(s),
{ lemma_auto_spec_u16_to_from_le_bytes(); }

pub proof fn vp_u32(x: u32, s: Seq<u8>)
    ensures
        u32::uniform_size() == 4, <u32 as IntFormattable>::max() == 4294967295usize, x.deepv() == x,
        u32::spec_to_le_bytes(x) == spec_u32_to_le_bytes(x),
        u32::spec_to_le_bytes(x).len() == 4,
        u32::spec_from_le_bytes(s) == spec_u32_from_le_bytes(s),
{ lemma_auto_spec_u32_to_from_le_bytes(); }

pub proof fn vp_u64(x: u64, s: Seq<u8>)
    ensures
        u64::uniform_size() == 8, <u64 as IntFormattable>::max() == 18446744073709551615usize, x.deepv() == x,
        u64::spec_to_le_bytes(x) == spec_u64_to_le_bytes(x),
        u64::spec_to_le_bytes(x).len() == 8,
        u64::spec_from_le_bytes(s) == spec_u64_from_le_bytes(s),
{ lemma_auto_spec_u64_to_from_le_bytes(); }

// decoding inverts encoding, for every value and for every byte string of the right width
pub proof fn vp_inverse<T: IntFormattable>(x: T, s: Seq<u8>)
    ensures
        T::spec_to_le_bytes(x).len() == T::uniform_size(),
        T::spec_from_le_bytes(T::spec_to_le_bytes(x)) == x,
        s.len() == T::uniform_size() ==> T::spec_to_le_bytes(T::spec_from_le_bytes(s)) == s,
        0 <= x as int <= T::max() as int,
        x.deepv() == x as int,
        0 < T::uniform_size(),
{
    T::lemma_auto_spec_to_from_le_bytes(); T::nonnegative(x); T::max_ensures(x); T::deepv_is_as_int(x); T::uniform_size_ensures();
    T::deepv_is_as_int_forall();
}

pub proof fn vp_format<T: IntFormattable>(f: &IntFormat<T>, data: Seq<u8>, v: int)
    ensures
        f.valid(),
        f.parsable(data) <==> T::uniform_size() <= data.len(),
        f.parse(data) == T::spec_from_le_bytes(data.subrange(0, T::uniform_size() as int)) as int,
        f.marshallable(v),
        f.spec_size(v) == T::uniform_size(),
        f.uniform_size() == T::uniform_size(),
        0 <= f.parse(data) <= T::max(),
{ f.parse_nat(data); f.uniform_size_ensures(); }

pub exec fn vp_marshall<T: IntFormattable>(f: &IntFormat<T>, value: &T, data: &mut Vec<u8>, start: usize) -> (end: usize)
    requires start + T::uniform_size() <= old(data)@.len(),
    ensures
        end == start + T::uniform_size(),
        data@ =~= old(data)@.subrange(0, start as int) + T::spec_to_le_bytes(*value) + old(data)@.subrange(end as int, old(data)@.len() as int),
{
    let ghost d0 = data@;
    let end = f.exec_marshall(value, data, start);
    proof {
        let w = data@.subrange(start as int, end as int);
        T::lemma_auto_spec_to_from_le_bytes(); T::deepv_is_as_int_forall();
        assert(w.subrange(0, T::uniform_size() as int) =~= w);
        let p = T::spec_from_le_bytes(w);
        assert(p as int == value.deepv());
        assert(p == *value);
        assert(T::spec_to_le_bytes(p) == w);
    }
    end
}

pub exec fn vp_try_parse<T: IntFormattable>(f: &IntFormat<T>, slice: &Slice, data: &Vec<u8>) -> (ov: Option<T>)
    requires 0 <= slice.start <= slice.end <= data@.len(),
    ensures
        ov is Some <==> slice.end - slice.start >= T::uniform_size(),
        ov is Some ==> ov->0 as int == T::spec_from_le_bytes(data@.subrange(slice.start as int, slice.start + T::uniform_size())) as int,
{
    let ov = f.try_parse(slice, data);
    proof {
        T::deepv_is_as_int_forall();
        if ov is Some { assert(slice@.i(data@).subrange(0, T::uniform_size() as int) =~= data@.subrange(slice.start as int, slice.start + T::uniform_size())); }
    }
    ov
}

pub exec fn vp_parse<T: IntFormattable>(f: &IntFormat<T>, slice: &Slice, data: &Vec<u8>) -> (v: T)
    requires 0 <= slice.start <= slice.end <= data@.len(), slice.end - slice.start >= T::uniform_size(),
    ensures v as int == T::spec_from_le_bytes(data@.subrange(slice.start as int, slice.start + T::uniform_size())) as int,
{
    let v = f.exec_parse(slice, data);
    proof {
        T::deepv_is_as_int_forall();
        assert(slice@.i(data@).subrange(0, T::uniform_size() as int) =~= data@.subrange(slice.start as int, slice.start + T::uniform_size()));
    }
    v
}

pub exec fn vp_parsable<T: IntFormattable>(f: &IntFormat<T>, slice: &Slice, data: &Vec<u8>) -> (p: bool)
    requires 0 <= slice.start <= slice.end <= data@.len(),
    ensures p == (slice.end - slice.start >= T::uniform_size()),
{ f.exec_parsable(slice, data) }

pub exec fn vp_sizes<T: IntFormattable>(f: &IntFormat<T>, value: &T) -> (r: (usize, usize, usize, usize))
    ensures r.0 == T::uniform_size(), r.1 == T::uniform_size(), r.2 == T::uniform_size(), r.3 == T::max(),
{ (f.exec_size(value), f.exec_uniform_size(), T::exec_uniform_size(), T::exec_max()) }

pub exec fn vp_usize<T: IntFormattable>(value: T, w: usize) -> (r: (usize, T))
    requires w <= T::max(),
    ensures r.0 as int == value as int, r.1 as int == w as int,
{ (T::to_usize(value), T::from_usize(w)) }

pub exec fn vp_round_trip<T: IntFormattable>(f: &IntFormat<T>, value: &T, data: &mut Vec<u8>, start: usize) -> (v: T)
    requires start + T::uniform_size() <= old(data)@.len(),
    ensures v as int == value.deepv(), data@.len() == old(data)@.len(),
{
    let end = vp_marshall(f, value, data, start);
    proof { T::deepv_is_as_int_forall(); T::lemma_auto_spec_to_from_le_bytes(); assert(data@.subrange(start as int, start + T::uniform_size()) =~= T::spec_to_le_bytes(*value)); }
    vp_parse(f, &Slice{ start, end }, data)
}

pub exec fn vp_bytes_u8(value: u8, data: &mut Vec<u8>, start: usize) -> (end: usize)
    requires start + 1 <= old(data)@.len(),
    ensures
        end == start + 1,
        data@ =~= old(data)@.subrange(0, start as int) + seq![value] + old(data)@.subrange(start + 1, old(data)@.len() as int),
{
    proof { vp_u8(value, Seq::empty()); }
    let f: IntFormat<u8> = IntFormat::new();
    vp_marshall(&f, &value, data, start)
}

pub exec fn vp_bytes_u16(value: u16, data: &mut Vec<u8>, start: usize) -> (end: usize)
    requires start + 2 <= old(data)@.len(),
    ensures
        end == start + 2,
        data@ =~= old(data)@.subrange(0, start as int) + spec_u16_to_le_bytes(value) + old(data)@.subrange(start + 2, old(data)@.len() as int),
{
    proof { vp_u16(value, Seq::empty()); }
    let f: IntFormat<u16> = IntFormat::new();
    vp_marshall(&f, &value, data, start)
}

pub exec fn vp_bytes_u32(value: u32, data: &mut Vec<u8>, start: usize) -> (end: usize)
    requires start + 4 <= old(data)@.len(),
    ensures
        end == start + 4,
        data@ =~= old(data)@.subrange(0, start as int) + spec_u32_to_le_bytes(value) + old(data)@.subrange(start + 4, old(data)@.len() as int),
{
    proof { vp_u32(value, Seq::empty()); }
    let f: IntFormat<u32> = IntFormat::new();
    vp_marshall(&f, &value, data, start)
}

pub exec fn vp_bytes_u64(value: u64, data: &mut Vec<u8>, start: usize) -> (end: usize)
    requires start + 8 <= old(data)@.len(),
    ensures
        end == start + 8,
        data@ =~= old(data)@.subrange(0, start as int) + spec_u64_to_le_bytes(value) + old(data)@.subrange(start + 8, old(data)@.len() as int),
{
    proof { vp_u64(value, Seq::empty()); }
    let f: IntFormat<u64> = IntFormat::new();
    vp_marshall(&f, &value, data, start)
}

pub proof fn vpfail_int<T: IntFormattable>(x: T, f: &IntFormat<T>, data: Seq<u8>)
    requires f.parsable(data)
    ensures false
{ T::lemma_auto_spec_to_from_le_bytes(); T::deepv_is_as_int_forall(); T::uniform_size_ensures(); T::nonnegative(x); T::max_ensures(x); }
}
