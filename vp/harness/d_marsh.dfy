//@ nonlinear
include "@REPO@/lib/Marshalling/Util.i.dfy"
include "@REPO@/lib/Marshalling/Seqs.i.dfy"
include "@REPO@/lib/Marshalling/Maps.i.dfy"
module VpMarsh {
  import U = Common__Util_i
  import S = Collections__Seqs_i
  import Mp = Collections__Maps_i
  import M = Math
  import opened NativeTypes

  function Pow256(n: nat) : int { if n == 0 then 1 else 256 * Pow256(n-1) }
  function BE(s: seq<byte>) : int { if |s| == 0 then 0 else BE(s[..|s|-1]) * 256 + s[|s|-1] as int }
  lemma {:induction false} vp_be(s: seq<byte>)
    ensures U.BEByteSeqToInt(s) == BE(s)
  { if |s| > 0 { vp_be(s[..|s|-1]); } }
  lemma vp_pow(n: nat)
    ensures M.power2(8 * n) == Pow256(n)
  { if n == 0 { M.lemma_2toX(); M.lemma_power2_adds(0, 8); assert M.power2(0 + 8) == 256; assert 8 * n == 0; } else { vp_pow(n - 1); M.lemma_power2_adds(8 * n - 8, 8); M.lemma_2toX(); assert 8 * (n - 1) == 8 * n - 8; } }
  lemma vp_bound(s: seq<byte>)
    ensures 0 <= U.BEByteSeqToInt(s) < Pow256(|s|)
  { U.lemma_BEByteSeqToInt_bound(s); vp_pow(|s|); }
  // encoding followed by decoding is the identity, on every number that fits, and the reverse
  lemma vp_roundtrip(v: int, w: nat)
    requires 0 <= v < Pow256(w)
    ensures |U.BEUintToSeqByte(v, w)| == w
    ensures U.BEByteSeqToInt(U.BEUintToSeqByte(v, w)) == v
  { vp_pow(w); U.lemma_BEUintToSeqByte_invertability(U.BEUintToSeqByte(v, w), v, w); }
  lemma vp_roundtrip_bytes(s: seq<byte>)
    ensures U.BEUintToSeqByte(U.BEByteSeqToInt(s), |s|) == s
  { vp_bound(s); vp_pow(|s|); U.lemma_BEByteSeqToInt_invertability(s, U.BEByteSeqToInt(s), |s|); }
  lemma vp_u64(u: uint64)
    ensures |U.Uint64ToSeqByte(u)| == 8 && BE(U.Uint64ToSeqByte(u)) == u as int
  { assert Pow256(8) == 0x1_0000_0000_0000_0000; vp_roundtrip(u as int, 8); vp_be(U.Uint64ToSeqByte(u)); }
  lemma vp_u16(s: seq<byte>)
    requires |s| == 2
    ensures U.SeqByteToUint16(s) as int == s[0] as int * 256 + s[1] as int
    ensures U.SeqByteToUint16(s) as int == BE(s)
  { vp_be(s); }
  method vp_into(s: seq<byte>, a: array<byte>, cs: seq<char>, ca: array<char>)
    requires |s| == a.Length < 0x1_0000_0000_0000_0000 && |cs| == ca.Length < 0x1_0000_0000_0000_0000
    modifies a, ca
  {
    U.seqIntoArrayOpt(s, a);
    assert a[..] == s;
    U.seqIntoArrayChar(cs, ca);
    assert ca[..] == cs;
  }
  // concatenation of a sequence of sequences
  lemma vp_cat<T>(a: seq<seq<T>>, b: seq<seq<T>>, x: seq<T>)
    ensures S.SeqCat<T>([]) == [] && S.SeqCatRev<T>([]) == []
    ensures S.SeqCat([x]) == x && S.SeqCatRev([x]) == x
    ensures S.SeqCat(a + b) == S.SeqCat(a) + S.SeqCat(b)
    ensures S.SeqCatRev(a + b) == S.SeqCatRev(a) + S.SeqCatRev(b)
    ensures S.SeqCat(a) == S.SeqCatRev(a)
  { S.lemma_SeqCat_adds(a, b); S.lemma_SeqCatRev_adds(a, b); S.lemma_SeqCat_equivalent(a); assert [x][1..] == []; }
  lemma vp_seq<T>(s: seq<T>, v: T)
    ensures |s| > 0 ==> S.last(s) == s[|s|-1] && S.all_but_last(s) == s[..|s|-1] && S.all_but_last(s) + [S.last(s)] == s
    ensures S.FindIndexInSeq(s, v) >= 0 ==> S.FindIndexInSeq(s, v) < |s| && s[S.FindIndexInSeq(s, v)] == v
    ensures v in s ==> S.FindIndexInSeq(s, v) >= 0
  { }
  lemma vp_maps<K(!new), V>(m: map<K, V>, n: map<K, V>, k: K)
    ensures Mp.eq_map(m, n) <==> m == n
    ensures k in Mp.domain(m) <==> k in m
    ensures m.Keys !! n.Keys ==> (k in Mp.union(m, n) <==> k in m || k in n)
    ensures m.Keys !! n.Keys && k in m ==> Mp.union(m, n)[k] == m[k]
    ensures m.Keys !! n.Keys && k in n ==> Mp.union(m, n)[k] == n[k]
    ensures k in m ==> |Mp.RemoveElt(m, k)| == |m| - 1
    ensures k in m ==> Mp.RemoveElt(m, k) == (map x | x in m && x != k :: m[x])
  {
    if m == n { assert forall a :: a in m <==> a in n; }
    if k in m { var r := Mp.RemoveElt(m, k); vp_remove_values(m, k); }
  }
  lemma vp_remove_values<K(!new), V>(m: map<K, V>, k: K)
    requires k in m
    ensures Mp.RemoveElt(m, k) == (map x | x in m && x != k :: m[x])
  { }
  lemma vpfail_vacuous(s: seq<byte>)
    requires |s| == 2
    ensures false
  { vp_u16(s); vp_roundtrip_bytes(s); vp_bound(s); }
}
