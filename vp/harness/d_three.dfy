include "@REPO@/MapSpec/ThreeStateVersionedMap.s.dfy"
module VpThree {
  import T = ThreeStateVersionedMap
  import SM = MapSpec
  import UI
  import opened ThreeStateTypes

  // A history of the states users observed, and where in it each part of the system stands.
  datatype Hist = Hist(h: seq<SM.Variables>, p: int, f: int, at: imap<int, int>)

  predicate Tied(s: T.Variables, g: Hist)
  {
    && 0 <= g.p <= g.f < |g.h|
    && s.s1 == g.h[g.p] && s.s2 == g.h[g.f] && s.s3 == g.h[|g.h|-1]
    && (forall id :: id in s.outstandingSyncReqs ==> id in g.at && 0 <= g.at[id] < |g.h|)
    && (forall id :: id in s.outstandingSyncReqs && s.outstandingSyncReqs[id].State1? ==> g.at[id] <= g.p)
    && (forall id :: id in s.outstandingSyncReqs && s.outstandingSyncReqs[id].State2? ==> g.at[id] <= g.f)
  }
  function Start(s: T.Variables) : Hist { Hist([s.s3], 0, 0, imap[]) }
  function After(s: T.Variables, s': T.Variables, uiop: UI.Op, st: T.Step, g: Hist) : Hist
    requires Tied(s, g)
  {
    match st {
      case CrashStep => Hist(g.h[..g.p+1], g.p, g.p, imap[])
      case Move1to2Step => g.(p := g.f)
      case Move2to3Step => g.(f := |g.h|-1)
      case Move3Step => g.(h := g.h + [s'.s3])
      case PushSyncStep(id) => g.(at := g.at[id := |g.h|-1])
      case PopSyncStep(id) => g
    }
  }
  lemma vp_init(s: T.Variables)
    requires T.Init(s)
    ensures Tied(s, Start(s)) && SM.Init(s.s1) && s.s2 == s.s1 && s.s3 == s.s1 && s.outstandingSyncReqs == map[]
  {}
  lemma vp_init_possible(s: T.Variables)
    requires SM.Init(s.s1) && s == T.Variables(s.s1, s.s1, s.s1, map[])
    ensures T.Init(s)
  {}
  // the central theorem: for every step, positions only move forward (or everything falls back to what is
  // persistent, on a crash), and a sync that is acknowledged covers every state that existed when it was asked for
  lemma vp_next(s: T.Variables, s': T.Variables, uiop: UI.Op, st: T.Step, g: Hist)
    requires Tied(s, g) && T.NextStep(s, s', uiop, st)
    ensures Tied(s', After(s, s', uiop, st, g))
    ensures st.PopSyncStep? ==> uiop == UI.PopSyncOp(st.id) && st.id in g.at && g.at[st.id] <= g.p
                            && st.id !in s'.outstandingSyncReqs
    ensures st.PushSyncStep? ==> uiop == UI.PushSyncOp(st.id) && After(s, s', uiop, st, g).at[st.id] == |g.h|-1
                            && st.id !in s.outstandingSyncReqs && st.id in s'.outstandingSyncReqs
    ensures st.CrashStep? <==> uiop.CrashOp?
    ensures st.CrashStep? ==> s'.s1 == s.s1 && s'.s2 == s.s1 && s'.s3 == s.s1 && s'.outstandingSyncReqs == map[]
    ensures st.Move3Step? ==> SM.Next(s.s3, s'.s3, uiop) && s'.s1 == s.s1 && s'.s2 == s.s2 && s'.outstandingSyncReqs == s.outstandingSyncReqs
    ensures !st.Move3Step? && !st.CrashStep? ==> s'.s3 == s.s3
    ensures s'.s1 != s.s1 ==> s'.s1 == s.s2 && uiop.NoOp?
    ensures !st.CrashStep? && !st.PopSyncStep? ==> forall id :: id in s.outstandingSyncReqs ==> id in s'.outstandingSyncReqs
    ensures st.PopSyncStep? ==> forall id :: id in s.outstandingSyncReqs && id != st.id ==>
               id in s'.outstandingSyncReqs && s'.outstandingSyncReqs[id] == s.outstandingSyncReqs[id]
    ensures !st.PushSyncStep? ==> forall id :: id in s'.outstandingSyncReqs ==> id in s.outstandingSyncReqs
  {
    match st {
      case CrashStep => {
        var g' := After(s, s', uiop, st, g);
        assert g'.h[|g'.h|-1] == g.h[g.p];
        if SM.Next(s.s3, s'.s3, uiop) { }
      }
      case Move1to2Step => { }
      case Move2to3Step => { }
      case Move3Step => {
        var g' := After(s, s', uiop, st, g);
        assert g'.h[g.p] == g.h[g.p] && g'.h[g.f] == g.h[g.f];
        if uiop.CrashOp? { var ms :| SM.NextStep(s.s3, s'.s3, uiop, ms); assert false; }
      }
      case PushSyncStep(id) => { }
      case PopSyncStep(id) => { }
    }
  }
  predicate Run(b: seq<T.Variables>, ops: seq<UI.Op>)
  {
    |b| == |ops| + 1 && T.Init(b[0]) && (forall i :: 0 <= i < |ops| ==> Pair(b, ops, i))
  }
  predicate Pair(b: seq<T.Variables>, ops: seq<UI.Op>, i: int)
    requires 0 <= i < |ops| && |b| == |ops| + 1
  { T.Next(b[i], b[i+1], ops[i]) }
  lemma vp_run(b: seq<T.Variables>, ops: seq<UI.Op>) returns (g: Hist)
    requires Run(b, ops)
    ensures Tied(b[|ops|], g)
    decreases |ops|
  {
    if |ops| == 0 { g := Start(b[0]); }
    else {
      var n := |ops|;
      var b1, o1 := b[..n], ops[..n-1];
      forall i | 0 <= i < n-1 ensures Pair(b1, o1, i) { assert Pair(b, ops, i); }
      var g1 := vp_run(b1, o1);
      assert Pair(b, ops, n-1);
      var st :| T.NextStep(b[n-1], b[n], ops[n-1], st);
      vp_next(b[n-1], b[n], ops[n-1], st, g1);
      g := After(b[n-1], b[n], ops[n-1], st, g1);
    }
  }
  // a sync can always be asked for under a fresh id, and two commits later it can be acknowledged
  lemma vp_sync_completes(s: T.Variables, id: int) returns (a: T.Variables, b: T.Variables, c: T.Variables, d: T.Variables)
    requires id !in s.outstandingSyncReqs
    ensures T.Next(s, a, UI.PushSyncOp(id)) && T.Next(a, b, UI.NoOp) && T.Next(b, c, UI.NoOp) && T.Next(c, d, UI.PopSyncOp(id))
    ensures d.s1 == s.s3 && d.s3 == s.s3
  {
    a := T.Variables(s.s1, s.s2, s.s3, s.outstandingSyncReqs[id := State3]);
    assert T.NextStep(s, a, UI.PushSyncOp(id), T.PushSyncStep(id));
    b := T.Variables(s.s1, s.s3, s.s3, SyncReqs3to2(a.outstandingSyncReqs));
    assert T.NextStep(a, b, UI.NoOp, T.Move2to3Step);
    c := T.Variables(s.s3, s.s3, s.s3, SyncReqs2to1(b.outstandingSyncReqs));
    assert T.NextStep(b, c, UI.NoOp, T.Move1to2Step);
    d := T.Variables(s.s3, s.s3, s.s3, T.MapRemove_s.MapRemove1(c.outstandingSyncReqs, id));
    assert c.outstandingSyncReqs[id] == State1;
    assert T.NextStep(c, d, UI.PopSyncOp(id), T.PopSyncStep(id));
  }
  lemma vp_enabled(s: T.Variables, m: SM.Variables, uiop: UI.Op)
    ensures T.Next(s, T.Variables(s.s1, s.s1, s.s1, map[]), UI.CrashOp)
    ensures SM.Next(s.s3, m, uiop) ==> T.Next(s, s.(s3 := m), uiop)
  {
    assert T.NextStep(s, T.Variables(s.s1, s.s1, s.s1, map[]), UI.CrashOp, T.CrashStep);
    if SM.Next(s.s3, m, uiop) { assert T.NextStep(s, s.(s3 := m), uiop, T.Move3Step); }
  }
  lemma vp_status(m: map<int, SyncReqStatus>, id: int)
    ensures SyncReqs2to1(m).Keys == m.Keys && SyncReqs3to2(m).Keys == m.Keys
    ensures id in m && !m[id].State3? ==> SyncReqs2to1(m)[id] == State1
    ensures id in m && m[id].State3? ==> SyncReqs2to1(m)[id] == State3 && SyncReqs3to2(m)[id] == State2
    ensures id in m && !m[id].State3? ==> SyncReqs3to2(m)[id] == m[id]
  { }
  lemma vpfail_vacuous(s: T.Variables, s': T.Variables, uiop: UI.Op, st: T.Step, g: Hist)
    requires Tied(s, g) && T.NextStep(s, s', uiop, st)
    ensures false
  { vp_next(s, s', uiop, st, g); }
}
