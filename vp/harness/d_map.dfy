include "@REPO@/MapSpec/AsyncMap.i.dfy"
module VpMap {
  import M = MapSpec
  import A = AsyncMapSpec
  import UI
  import SC = SeqComparison
  import opened ValueType
  import opened KeyType
  import NativeTypes

  predicate Full(s: M.Variables) { forall k: Key :: k in s.view }

  lemma vp_init(s: M.Variables, k: Key)
    ensures M.Init(s) ==> M.Inv(s) && Full(s) && s.view[k] == ValueType.DefaultValue()
    ensures Full(s) && (forall k: Key :: s.view[k] == ValueType.DefaultValue()) ==> M.Init(s)
  {
    if M.Init(s) { assert M.InDomain(k); forall k: Key ensures k in s.view { assert M.InDomain(k); } M.InitImpliesInv(s); }
    if Full(s) && (forall k: Key :: s.view[k] == ValueType.DefaultValue()) {
      forall k: Key ensures k in M.EmptyMap() && M.EmptyMap()[k] == s.view[k] { assert M.InDomain(k); }
      assert s.view == M.EmptyMap();
    }
  }
  lemma vp_next(s: M.Variables, s': M.Variables, u: UI.Op)
    requires M.Inv(s) && M.Next(s, s', u)
    ensures M.Inv(s') && Full(s) && Full(s')
    ensures u.GetOp? ==> u.value == s.view[u.key]
    ensures u.PutOp? ==> s'.view[u.key] == u.value && (forall k: Key :: k != u.key ==> s'.view[k] == s.view[k])
    ensures !u.PutOp? && !u.CloneOp? ==> s' == s
    ensures u.NoOp? || u.GetOp? || u.PutOp? || u.SuccOp? || u.CloneOp?
    ensures u.SuccOp? ==> forall i :: 0 <= i < |u.results| ==> s.view[u.results[i].key] == u.results[i].value && u.results[i].value != DefaultValue()
    ensures u.SuccOp? ==> forall i, j :: 0 <= i < j < |u.results| ==> Less(u.results[i].key, u.results[j].key)
    ensures u.SuccOp? ==> forall i :: 0 <= i < |u.results| ==> Above(u.start, u.results[i].key) && Below(u.results[i].key, u.end)
    ensures u.SuccOp? ==> forall k: Key :: Above(u.start, k) && Below(k, u.end) && s.view[k] != DefaultValue() ==> exists i :: 0 <= i < |u.results| && u.results[i].key == k
  {
    var st :| M.NextStep(s, s', u, st);
    assert M.InDomain([]);
    if u.CloneOp? {
      assert st.CloneStep?;
      assert M.ViewComplete(s'.view);
    } else { M.NextPreservesInv(s, s', u); }
    if u.SuccOp? {
      forall k: Key ensures Above(u.start, k) <==> M.LowerBound(u.start, k)
      { if u.start.SInclusive? { vp_order(u.start.key, k); } else if u.start.SExclusive? { vp_order(u.start.key, k); } }
      forall k: Key ensures Below(k, u.end) <==> M.UpperBound(k, u.end)
      { if u.end.EInclusive? { vp_order(k, u.end.key); } else if u.end.EExclusive? { vp_order(k, u.end.key); } }
      forall i, j | 0 <= i < j < |u.results| ensures Less(u.results[i].key, u.results[j].key) { vp_order(u.results[i].key, u.results[j].key); }
    }
  }
  // byte-lexicographic order, stated on its own terms
  predicate LessAt(a: seq<NativeTypes.byte>, b: seq<NativeTypes.byte>, i: nat)
  {
    i <= |a| && i < |b| && a[..i] == b[..i] && (i == |a| || a[i] < b[i])
  }
  predicate Less(a: seq<NativeTypes.byte>, b: seq<NativeTypes.byte>) { exists i: nat :: LessAt(a, b, i) }
  predicate Above(st: UI.RangeStart, k: Key)
  {
    match st { case SInclusive(x) => x == k || Less(x, k) case SExclusive(x) => Less(x, k) case NegativeInf => true }
  }
  predicate Below(k: Key, e: UI.RangeEnd)
  {
    match e { case EInclusive(x) => x == k || Less(k, x) case EExclusive(x) => Less(k, x) case PositiveInf => true }
  }
  lemma vp_order(a: seq<NativeTypes.byte>, b: seq<NativeTypes.byte>)
    ensures SC.lt(a, b) <==> Less(a, b)
    ensures SC.lte(a, b) <==> a == b || Less(a, b)
    decreases |a|
  {
    SC.reveal_lte();
    if |a| == 0 { if |b| > 0 { assert LessAt(a, b, 0); } }
    else if |b| == 0 { }
    else if a[0] < b[0] { assert LessAt(a, b, 0); }
    else if b[0] < a[0] {
      forall i: nat | LessAt(a, b, i) ensures false { if i > 0 { assert a[..i][0] == b[..i][0]; } }
    } else {
      vp_order(a[1..], b[1..]);
      assert a == [a[0]] + a[1..]; assert b == [b[0]] + b[1..];
      if Less(a[1..], b[1..]) {
        var i: nat :| LessAt(a[1..], b[1..], i);
        assert a[..i+1] == [a[0]] + a[1..][..i]; assert b[..i+1] == [b[0]] + b[1..][..i];
        assert LessAt(a, b, i+1);
      }
      if Less(a, b) {
        var i: nat :| LessAt(a, b, i);
        assert i > 0;
        assert a[1..][..i-1] == a[..i][1..]; assert b[1..][..i-1] == b[..i][1..];
        assert LessAt(a[1..], b[1..], i-1);
      }
    }
  }
  lemma vp_enabled(s: M.Variables, k: Key, v: Value)
    requires M.Inv(s)
    ensures M.Next(s, s, UI.GetOp(k, s.view[k]))
    ensures M.Next(s, M.Variables(s.view[k := v]), UI.PutOp(k, v))
    ensures M.Next(s, s, UI.NoOp)
  {
    assert M.NextStep(s, s, UI.GetOp(k, s.view[k]), M.QueryStep(k, s.view[k]));
    assert M.NextStep(s, M.Variables(s.view[k := v]), UI.PutOp(k, v), M.WriteStep(k, v));
    assert M.NextStep(s, s, UI.NoOp, M.StutterStep);
  }
  lemma vp_range_enabled(s: M.Variables, k: Key)
    requires M.Inv(s)
    ensures s.view[k] == DefaultValue() ==> M.Next(s, s, UI.SuccOp(UI.SInclusive(k), [], UI.EInclusive(k)))
    ensures s.view[k] != DefaultValue() ==> M.Next(s, s, UI.SuccOp(UI.SInclusive(k), [UI.SuccResult(k, s.view[k])], UI.EInclusive(k)))
  {
    vp_order(k, k);
    forall x: Key ensures M.InRange(UI.SInclusive(k), x, UI.EInclusive(k)) <==> x == k
    { vp_order(k, x); vp_order(x, k); if Less(k, x) && Less(x, k) { vp_antisym(k, x); } }
    if s.view[k] == DefaultValue() {
      assert M.NextStep(s, s, UI.SuccOp(UI.SInclusive(k), [], UI.EInclusive(k)), M.SuccStep(UI.SInclusive(k), [], UI.EInclusive(k)));
    } else {
      var r := [UI.SuccResult(k, s.view[k])];
      forall x: Key | M.InRange(UI.SInclusive(k), x, UI.EInclusive(k)) ensures exists i :: 0 <= i < |r| && r[i].key == x { assert r[0].key == x; }
      assert M.NextStep(s, s, UI.SuccOp(UI.SInclusive(k), r, UI.EInclusive(k)), M.SuccStep(UI.SInclusive(k), r, UI.EInclusive(k)));
    }
  }
  lemma vp_antisym(a: seq<NativeTypes.byte>, b: seq<NativeTypes.byte>)
    requires Less(a, b) && Less(b, a)
    ensures false
  {
    var i: nat :| LessAt(a, b, i); var j: nat :| LessAt(b, a, j);
    if i < j { assert a[i] == a[..j][i] == b[..j][i] == b[i]; }
    else if j < i { assert b[j] == b[..i][j] == a[..i][j] == a[j]; }
  }
  // cloning a key range: keys under the new prefix read what the old prefix held, all others are untouched
  lemma vp_clone(s: M.Variables, s': M.Variables, u: UI.Op, k: Key)
    requires M.Inv(s) && M.Next(s, s', u) && u.CloneOp? && |u.from| <= |u.to|
    ensures k in s'.view && k in s.view
    ensures !(|u.to| <= |k| && k[..|u.to|] == u.to) ==> s'.view[k] == s.view[k]
    ensures |u.to| <= |k| && k[..|u.to|] == u.to ==> s'.view[k] == s.view[u.from + k[|u.to|..]]
  {
    var st :| M.NextStep(s, s', u, st);
    var m := M.CloneMap(u.from, u.to);
    assert k in M.CloneView(s.view, m);
  }
  // the asynchronous map answers each query with the value the key had when the query began
  lemma vp_async(s: A.Variables, s': A.Variables, u: UI.Op)
    requires A.Next(s, s', u) && M.Inv(s.dict)
    ensures M.Inv(s'.dict)
    ensures u.GetBeginOp? && s' != s ==> u.id !in s.queries && s'.queries == s.queries[u.id := s.dict.view[u.key]] && s'.dict == s.dict
    ensures u.GetEndOp? && s' != s ==> u.id in s.queries && u.value == s.queries[u.id] && u.id !in s'.queries && s'.dict == s.dict
    ensures forall id :: id in s.queries && !(u.GetEndOp? && u.id == id) ==> id in s'.queries && s'.queries[id] == s.queries[id]
    ensures !u.GetBeginOp? ==> forall id :: id in s'.queries ==> id in s.queries
    ensures u.GetOp? && s.queries == s'.queries && !A.NextStep(s, s', u, A.StutterStep) ==> u.value == s.dict.view[u.key]
    ensures !u.PutOp? ==> s'.dict == s.dict
    ensures u.PutOp? && s' != s ==> s'.dict.view == s.dict.view[u.key := u.value]
    ensures s'.dict != s.dict ==> u.PutOp? && M.Next(s.dict, s'.dict, u)
  {
    var st :| A.NextStep(s, s', u, st);
    match st {
      case QueryBeginStep(key) => { }
      case QueryEndStep(r) => { }
      case QueryStep(key, r) => { assert M.NextStep(s.dict, s'.dict, u, M.QueryStep(key, r)); vp_next(s.dict, s'.dict, u); }
      case WriteStep(key, v) => { assert M.NextStep(s.dict, s'.dict, u, M.WriteStep(key, v)); vp_next(s.dict, s'.dict, u); }
      case SuccStep(a, r, e) => { assert M.NextStep(s.dict, s'.dict, u, M.SuccStep(a, r, e)); vp_next(s.dict, s'.dict, u); }
      case StutterStep => { }
    }
  }
  lemma vp_async_init(s: A.Variables)
    ensures A.Init(s) <==> M.Init(s.dict) && s.queries == map[]
  { }
  lemma vp_async_enabled(s: A.Variables, k: Key, v: Value, id: int)
    requires M.Inv(s.dict)
    ensures id !in s.queries ==> A.Next(s, s.(queries := s.queries[id := s.dict.view[k]]), UI.GetBeginOp(k, id))
    ensures id in s.queries ==> exists s' :: A.Next(s, s', UI.GetEndOp(s.queries[id], id)) && s'.dict == s.dict && id !in s'.queries
    ensures A.Next(s, s.(dict := M.Variables(s.dict.view[k := v])), UI.PutOp(k, v))
    ensures A.Next(s, s, UI.GetOp(k, s.dict.view[k]))
  {
    if id !in s.queries { assert A.NextStep(s, s.(queries := s.queries[id := s.dict.view[k]]), UI.GetBeginOp(k, id), A.QueryBeginStep(k)); }
    else {
      var s' := s.(queries := A.Maps.MapRemove1(s.queries, id));
      assert A.NextStep(s, s', UI.GetEndOp(s.queries[id], id), A.QueryEndStep(s.queries[id]));
    }
    assert A.NextStep(s, s.(dict := M.Variables(s.dict.view[k := v])), UI.PutOp(k, v), A.WriteStep(k, v));
    assert A.NextStep(s, s, UI.GetOp(k, s.dict.view[k]), A.QueryStep(k, s.dict.view[k]));
  }
  lemma vpfail_vacuous(s: M.Variables, s': M.Variables, u: UI.Op)
    requires M.Inv(s) && M.Next(s, s', u) && !u.CloneOp?
    ensures false
  { vp_next(s, s', u); }
}
