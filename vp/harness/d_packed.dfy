//@ nonlinear
include "@REPO@/lib/Base/PackedIntsLib.i.dfy"
include "@REPO@/lib/Lang/System/Bits.s.dfy"
include "@REPO@/lib/Lang/System/NativeArrays.s.dfy"
include "@REPO@/lib/Lang/System/Arithmetic.s.dfy"
include "@REPO@/lib/Marshalling/Native.s.dfy"
module VpPacked {
  import P = NativePackedInts
  import PL = PackedIntsLib
  import Bits = Bits_s
  import NA = NativeArrays
  import Native
  import Ar = NativeArithmetic
  import SC = SeqComparison
  import opened NativeTypes

  function Pow256(n: nat) : int { if n == 0 then 1 else 256 * Pow256(n-1) }
  // value of a little-endian byte string
  function LE(s: seq<byte>) : int { if |s| == 0 then 0 else s[0] as int + 256 * LE(s[1..]) }
  lemma vp_u32(s: seq<byte>)
    requires |s| == 4
    ensures P.unpack_LittleEndian_Uint32(s) as int == LE(s)
  {
    P.reveal_unpack_LittleEndian_Uint32();
    assert LE(s[4..]) == 0; assert s[3..][1..] == s[4..]; assert s[2..][1..] == s[3..]; assert s[1..][1..] == s[2..];
    assert LE(s[3..]) == s[3] as int;
    assert LE(s[2..]) == s[2] as int + 256 * LE(s[3..]);
    assert LE(s[1..]) == s[1] as int + 256 * LE(s[2..]);
    assert LE(s) == s[0] as int + 256 * LE(s[1..]);
  }
  lemma vp_u64(s: seq<byte>)
    requires |s| == 8
    ensures P.unpack_LittleEndian_Uint64(s) as int == LE(s)
  {
    P.reveal_unpack_LittleEndian_Uint64();
    assert LE(s[8..]) == 0;
    assert s[7..][1..] == s[8..]; assert s[6..][1..] == s[7..]; assert s[5..][1..] == s[6..]; assert s[4..][1..] == s[5..];
    assert s[3..][1..] == s[4..]; assert s[2..][1..] == s[3..]; assert s[1..][1..] == s[2..];
    assert LE(s[7..]) == s[7] as int;
    assert LE(s[6..]) == s[6] as int + 256 * LE(s[7..]);
    assert LE(s[5..]) == s[5] as int + 256 * LE(s[6..]);
    assert LE(s[4..]) == s[4] as int + 256 * LE(s[5..]);
    assert LE(s[3..]) == s[3] as int + 256 * LE(s[4..]);
    assert LE(s[2..]) == s[2] as int + 256 * LE(s[3..]);
    assert LE(s[1..]) == s[1] as int + 256 * LE(s[2..]);
    assert LE(s) == s[0] as int + 256 * LE(s[1..]);
  }
  // distinct encodings decode differently
  lemma vp_le_injective(a: seq<byte>, b: seq<byte>)
    requires |a| == |b| && LE(a) == LE(b)
    ensures a == b
  {
    if |a| > 0 {
      assert a[0] as int == b[0] as int;
      vp_le_injective(a[1..], b[1..]);
      assert a == [a[0]] + a[1..]; assert b == [b[0]] + b[1..];
    }
  }
  lemma vp_u32_seq(p: seq<byte>, n: int, i: int)
    requires |p| == n * 4 && 0 <= i < n
    ensures |P.unpack_LittleEndian_Uint32_Seq(p, n)| == n
    ensures P.unpack_LittleEndian_Uint32_Seq(p, n)[i] as int == LE(p[4*i..4*i+4])
  { vp_u32(p[4*i..4*i+4]); }
  lemma vp_u64_seq(p: seq<byte>, n: int, i: int)
    requires |p| == n * 8 && 0 <= i < n
    ensures |P.unpack_LittleEndian_Uint64_Seq(p, n)| == n
    ensures P.unpack_LittleEndian_Uint64_Seq(p, n)[i] as int == LE(p[8*i..8*i+8])
  { vp_u64(p[8*i..8*i+8]); }
  lemma vp_pack32(i: uint32)
    ensures |PL.pack_LittleEndian_Uint32(i)| == 4 && LE(PL.pack_LittleEndian_Uint32(i)) == i as int
  { vp_u32(PL.pack_LittleEndian_Uint32(i)); }
  // the contracts every caller of the native packing routines relies on
  method vp_packs(ar: array<byte>, idx: uint64, v32: uint32, v64: uint64)
    requires idx as int + 8 <= ar.Length < 0x1_0000_0000_0000_0000
    modifies ar
  {
    ghost var before := ar[..];
    P.Pack_LittleEndian_Uint32_into_Array(v32, ar, idx);
    vp_u32(ar[idx .. idx + 4]);
    assert LE(ar[idx .. idx + 4]) == v32 as int;
    assert forall j | 0 <= j < ar.Length && !(idx as int <= j < idx as int + 4) :: ar[j] == before[j];
    var r32 := P.Unpack_LittleEndian_Uint32(ar[..], idx);
    assert ar[..][idx .. idx + 4] == ar[idx .. idx + 4];
    assert r32 == v32;
    ghost var b2 := ar[..];
    P.Pack_LittleEndian_Uint64_into_Array(v64, ar, idx);
    vp_u64(ar[idx .. idx + 8]);
    assert LE(ar[idx .. idx + 8]) == v64 as int;
    assert forall j | 0 <= j < ar.Length && !(idx as int <= j < idx as int + 8) :: ar[j] == b2[j];
    var r64 := P.Unpack_LittleEndian_Uint64_From_Array(ar, idx);
    assert r64 == v64;
    var q64 := P.Unpack_LittleEndian_Uint64(ar[..], idx);
    assert ar[..][idx .. idx + 8] == ar[idx .. idx + 8];
    assert q64 == v64;
  }
  method vp_pack_seqs(ar: array<byte>, idx: uint64, a: seq<uint32>, c: seq<uint64>)
    requires idx as int + 4 * |a| <= ar.Length < 0x1_0000_0000_0000_0000
    requires idx as int + 8 * |c| <= ar.Length
    modifies ar
  {
    ghost var before := ar[..];
    P.Pack_LittleEndian_Uint32_Seq_into_Array(a, ar, idx);
    assert forall j | 0 <= j < ar.Length && !(idx as int <= j < idx as int + 4 * |a|) :: ar[j] == before[j];
    var x := P.Unpack_LittleEndian_Uint32_Seq(ar[..], idx, |a| as uint64);
    assert ar[..][idx .. idx + 4 * |a| as uint64] == ar[idx .. idx as int + 4 * |a|];
    assert x == a;
    ghost var b2 := ar[..];
    P.Pack_LittleEndian_Uint64_Seq_into_Array(c, ar, idx);
    assert forall j | 0 <= j < ar.Length && !(idx as int <= j < idx as int + 8 * |c|) :: ar[j] == b2[j];
    var y := P.Unpack_LittleEndian_Uint64_Seq(ar[..], idx, |c| as uint64);
    assert ar[..][idx .. idx + 8 * |c| as uint64] == ar[idx .. idx as int + 8 * |c|];
    assert y == c;
  }
  method vp_arrays(src: seq<byte>, si: uint64, dst: array<byte>, di: uint64, n: uint64, other: array<byte>, t: byte)
    requires si as int + n as int <= |src| && di as int + n as int <= dst.Length && dst != other && si as int + n as int <= other.Length
    modifies dst
  {
    ghost var old0 := dst[..];
    NA.CopySeqIntoArray(src, si, dst, di, n);
    assert dst[..] == old0[..di] + src[si .. si as int + n as int] + old0[di as int + n as int ..];
    ghost var old1 := dst[..]; ghost var o := other[..];
    NA.CopyArrayIntoDifferentArray(other, si, dst, di, n);
    assert dst[..] == old1[..di] + o[si .. si as int + n as int] + old1[di as int + n as int ..];
    ghost var old2 := dst[..];
    Native.Arrays.CopySeqIntoArray(src, si, dst, di, n);
    assert dst[..] == old2[..di] + src[si .. si as int + n as int] + old2[di as int + n as int ..];
    ghost var old3 := dst[..];
    Native.Arrays.CopyArrayIntoArray(other, si, dst, di, n);
    assert dst[..] == old3[..di] + other[si .. si as int + n as int] + old3[di as int + n as int ..];
    ghost var keep := dst[..];
    var f := NA.newArrayFill(n, t);
    assert f.Length == n as int && (forall i | 0 <= i < n as int :: f[i] == t) && f != dst;
    var cl := NA.newArrayClone(dst);
    assert cl[..] == dst[..] && cl != dst && dst[..] == keep;
    var c := NA.ByteSeqCmpByteSeq(src, dst[..]);
    assert c == 0 ==> src == dst[..];
    assert c < 0 ==> SC.lt(src, dst[..]);
    assert c > 0 ==> SC.lt(dst[..], src);
  }
  lemma vp_wrapping(a: uint64, b: uint64)
    ensures Ar.u64add(a, b) as int == (a as int + b as int) % 0x1_0000_0000_0000_0000
  { }
  // bit strings: position i carries weight 2^i
  function Val(p: seq<bool>) : int { if |p| == 0 then 0 else (if p[0] then 1 else 0) + 2 * Val(p[1..]) }
  function Pow2(n: nat) : int { if n == 0 then 1 else 2 * Pow2(n-1) }
  lemma vp_bits(n: nat, len: nat)
    ensures |Bits.bits_of_int(n, len)| == len
    ensures n < Pow2(len) ==> Val(Bits.bits_of_int(n, len)) == n
  {
    if len > 0 { vp_bits(n / 2, len - 1); var b := Bits.bits_of_int(n, len); assert b[1..] == Bits.bits_of_int(n / 2, len - 1); }
  }
  lemma vp_zeroes_ones(l: nat, i: int)
    requires 0 <= i < l
    ensures |Bits.zeroes(l)| == l && |Bits.ones(l)| == l && !Bits.zeroes(l)[i] && Bits.ones(l)[i]
  { }
  lemma vp_cvt(a: seq<bool>, i: int)
    requires |a| == 128 && 0 <= i < 128
    ensures |Bits.mm_cvtepu32_epi64(a)| == 128
    ensures Bits.mm_cvtepu32_epi64(a)[i] == (if i < 32 then a[i] else if i < 64 then false else if i < 96 then a[i - 32] else false)
  { }
  lemma vp_registers(v: uint64, s: seq<uint64>, k: uint32, r: uint128)
    requires k as int < |s| - 1
    ensures Bits.bits_of_int(Bits.intrinsic_mm_cvtsi64_si128(v) as int, 128) == Bits.bits_of_int(v as int, 64) + Bits.zeroes(64)
    ensures Bits.bits_of_int(Bits.intrinsic_mm_cvtsi128_si64(r) as int, 64) == Bits.bits_of_int(r as int, 128)[0..64]
    ensures Bits.bits_of_int(Bits.intrinsic_mm_loadu_si128(s, k) as int, 128) == Bits.bits_of_int(s[k as int] as int, 64) + Bits.bits_of_int(s[k as int + 1] as int, 64)
    ensures Bits.bits_of_int(Bits.intrinsic_mm_cvtepu32_epi64(r) as int, 128) == Bits.mm_cvtepu32_epi64(Bits.bits_of_int(r as int, 128))
  { }
  lemma vp_widths()
    ensures Uint64Size() == 8 && Uint32Size() == 4 && Uint16Size() == 2
    ensures Uint64UpperBound() == 0x1_0000_0000_0000_0000 && Uint32UpperBound() == 0x1_0000_0000 && Uint8UpperBound() == 256
    ensures forall b: byte :: 0 <= b as int < 256
    ensures forall b: uint64 :: 0 <= b as int < 0x1_0000_0000_0000_0000
  { }
  lemma vpfail_vacuous(s: seq<byte>)
    requires |s| == 8
    ensures false
  { vp_u64(s); vp_le_injective(s, s); }
}
