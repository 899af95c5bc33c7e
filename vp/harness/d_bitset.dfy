include "@REPO@/lib/Base/BitsetLemmas.i.dfy"
module VpBitset {
  import B = BitsetLemmas
  import MathAxioms
  import opened NativeTypes
  function {:opaque} U(b: bv64) : uint64 { b as uint64 }
  function {:opaque} V(u: uint64) : bv64 { u as bv64 }
  lemma vp_a(a: uint64, i: uint64) requires i < 64
    ensures B.set_bit_to_1_uint64(a, i) == U(B.set_bit_to_1(V(a), i))
  { B.reveal_set_bit_to_1_uint64(); reveal_U(); reveal_V(); }
  lemma vp_b(a: uint64, i: uint64) requires i < 64
    ensures B.set_bit_to_0_uint64(a, i) == U(B.set_bit_to_0(V(a), i))
  { B.reveal_set_bit_to_0_uint64(); reveal_U(); reveal_V(); }
  lemma vp_c(a: uint64, i: uint64) requires i < 64
    ensures B.in_set_uint64(i, a) == B.in_set(i, V(a))
  { B.reveal_in_set_uint64(); reveal_U(); reveal_V(); }
  lemma vp_vu(b: bv64) ensures V(U(b)) == b
  { reveal_U(); reveal_V(); MathAxioms.as_int_as_bv64(b); }
  lemma vp_set(a: bv64, i: uint64, j: uint64)
    requires i < 64 && j < 64
    ensures B.in_set(j, B.set_bit_to_1(a, i)) <==> j == i || B.in_set(j, a)
    ensures B.in_set(j, B.set_bit_to_0(a, i)) <==> j != i && B.in_set(j, a)
  { B.set_bit_to_1_self(a, i); B.set_bit_to_0_self(a, i); if i != j { B.set_bit_to_1_other(a, i, j); B.set_bit_to_0_other(a, i, j); } }
  lemma vp_in(a: bv64, i: uint64)
    requires i < 64
    ensures B.in_set(i, a) <==> (a & ((1 as bv64) << i)) != 0
  { B.reveal_in_set(); B.reveal_bit_and(); B.reveal_bit(); }
  lemma vp_or(a: bv64, b: bv64, i: uint64)
    requires i < 64
    ensures B.in_set(i, B.bit_or(a, b)) <==> B.in_set(i, a) || B.in_set(i, b)
  { B.bit_or_is_union(a, b, i); }
  // machine words: setting and clearing a bit changes exactly that bit
  lemma vp_word(a: uint64, i: uint64, j: uint64)
    requires i < 64 && j < 64
    ensures B.in_set_uint64(j, B.set_bit_to_1_uint64(a, i)) <==> j == i || B.in_set_uint64(j, a)
    ensures B.in_set_uint64(j, B.set_bit_to_0_uint64(a, i)) <==> j != i && B.in_set_uint64(j, a)
  {
    vp_a(a, i); vp_b(a, i); vp_c(a, j);
    vp_c(B.set_bit_to_1_uint64(a, i), j); vp_c(B.set_bit_to_0_uint64(a, i), j);
    vp_vu(B.set_bit_to_1(V(a), i)); vp_vu(B.set_bit_to_0(V(a), i));
    vp_set(V(a), i, j);
  }
  lemma vp_all(a: bv64, i: uint64)
    requires i < 64
    ensures B.in_set(i, 0xffff_ffff_ffff_ffff)
  { B.all1s_is_set(i); }
  lemma vpfail_vacuous(a: uint64, i: uint64)
    requires i < 64
    ensures false
  { vp_word(a, i, i); }
}
