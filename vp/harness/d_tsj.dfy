include "@REPO@/Versions/CompositeView_Refines_ThreeStateVersionedMap.i.dfy"
module VpTSJ {
  import CV = CompositeView
  import R = CompositeView_Refines_ThreeStateVersionedMap
  import T = TSJMap
  import RT = TSJMap_Refines_ThreeStateVersionedMap
  import TV = ThreeStateVersionedMap
  import SV = StatesViewMap
  import JV = JournalView
  import M = MapSpec
  import UI
  import opened Journal
  import opened ThreeStateTypes
  import opened ViewOp
  import opened Options
  import opened Sequences

  // what replaying a journal onto a map means
  function One(m: M.Variables, e: JournalEntry): M.Variables
  {
    if e.JournalInsert? then M.Variables(m.view[e.key := e.value])
    else M.Variables(M.ApplyCloneView(m.view, M.CloneMap(e.from, e.to)))
  }
  function Rep(m: M.Variables, j: seq<JournalEntry>): M.Variables
  {
    if |j| == 0 then m else One(Rep(m, j[..|j|-1]), j[|j|-1])
  }
  lemma RepIs(m: M.Variables, j: seq<JournalEntry>)
    ensures RT.ApplySeq(m, j) == Rep(m, j)
  {
    if |j| > 0 {
      RepIs(m, j[..|j|-1]);
      assert DropLast(j) == j[..|j|-1];
    }
  }
  function Abs(s: CV.Variables): TV.Variables
    requires s.jc.persistentLoc in s.tsm.disk
  {
    var p := s.tsm.disk[s.jc.persistentLoc];
    var f := if s.tsm.frozenState.Some? then s.tsm.frozenState.value else p;
    var e := if s.tsm.ephemeralState.Some? then s.tsm.ephemeralState.value else p;
    TV.Variables(Rep(p, s.jc.j1), Rep(f, s.jc.j2), Rep(e, s.jc.j3), s.jc.syncReqs)
  }
  lemma AbsIs(s: CV.Variables)
    requires CV.Inv(s)
    ensures s.jc.persistentLoc in s.tsm.disk && R.I(s) == Abs(s)
  {
    RepIs(CV.s1(s), s.jc.j1); RepIs(CV.s2(s), s.jc.j2); RepIs(CV.s3(s), s.jc.j3);
  }
  lemma vp_init(s: CV.Variables)
    requires CV.Init(s)
    ensures CV.Inv(s) && s.jc.persistentLoc in s.tsm.disk && TV.Init(Abs(s))
  { R.RefinesInit(s); AbsIs(s); }
  lemma vp_next(s: CV.Variables, s': CV.Variables, u: UI.Op)
    requires CV.Inv(s) && CV.Next(s, s', u)
    ensures CV.Inv(s') && s.jc.persistentLoc in s.tsm.disk && s'.jc.persistentLoc in s'.tsm.disk && TV.Next(Abs(s), Abs(s'), u)
  { R.RefinesNext(s, s', u); AbsIs(s); AbsIs(s'); }

  predicate Run(t: seq<CV.Variables>, us: seq<UI.Op>)
  {
    && |t| == |us| + 1
    && CV.Init(t[0])
    && forall i {:trigger t[i]} | 0 <= i < |us| :: CV.Next(t[i], t[i+1], us[i])
  }
  lemma vp_run(t: seq<CV.Variables>, us: seq<UI.Op>, k: nat)
    requires Run(t, us) && k < |t|
    ensures CV.Inv(t[k])
    ensures forall i {:trigger CV.Inv(t[i])} | 0 <= i <= k :: CV.Inv(t[i])
    ensures t[0].jc.persistentLoc in t[0].tsm.disk && TV.Init(Abs(t[0]))
    ensures k > 0 ==> TV.Next(R.I(t[k-1]), R.I(t[k]), us[k-1])
  {
    if k == 0 { vp_init(t[0]); }
    else {
      vp_run(t, us, k-1);
      assert CV.Next(t[k-1], t[k-1+1], us[k-1]);
      vp_next(t[k-1], t[k], us[k-1]); AbsIs(t[k-1]); AbsIs(t[k]);
    }
  }

  // user-visible effects of composite steps: nothing but the live version moves on a user operation,
  // a put is recorded, a crash keeps exactly the durable version
  lemma vp_put(s: CV.Variables, s': CV.Variables, u: UI.Op)
    requires CV.Inv(s) && CV.Next(s, s', u) && u.PutOp?
    ensures CV.Inv(s') && s.jc.persistentLoc in s.tsm.disk && s'.jc.persistentLoc in s'.tsm.disk
    ensures Abs(s').s1 == Abs(s).s1 && Abs(s').s2 == Abs(s).s2 && Abs(s').s3 == M.Variables(Abs(s).s3.view[u.key := u.value])
    ensures s'.jc.j_delta == s.jc.j_delta + [JournalInsert(u.key, u.value)]
    ensures s'.jc.syncReqs == s.jc.syncReqs
  { vp_next(s, s', u); assert Abs(s).s3 == R.I(s).s3 by { AbsIs(s); } }
  lemma vp_crash(s: CV.Variables, s': CV.Variables, u: UI.Op)
    requires CV.Inv(s) && CV.Next(s, s', u) && u.CrashOp?
    ensures s.jc.persistentLoc in s.tsm.disk && s'.jc.persistentLoc in s'.tsm.disk
    ensures Abs(s').s1 == Abs(s).s1 && Abs(s').s3 == Abs(s).s1 && s'.jc.syncReqs == map[]
  { vp_next(s, s', u); AbsIs(s); AbsIs(s'); }
  lemma vp_pop(s: CV.Variables, s': CV.Variables, u: UI.Op)
    requires CV.Inv(s) && CV.Next(s, s', u) && u.PopSyncOp?
    ensures u.id in s.jc.syncReqs && s.jc.syncReqs[u.id] == State1 && u.id !in s'.jc.syncReqs
    ensures forall i {:trigger i in s'.jc.syncReqs} | i in s.jc.syncReqs && i != u.id :: i in s'.jc.syncReqs && s'.jc.syncReqs[i] == s.jc.syncReqs[i]
  { }
  lemma vp_push(s: CV.Variables, s': CV.Variables, u: UI.Op)
    requires CV.Inv(s) && CV.Next(s, s', u) && u.PushSyncOp?
    ensures u.id !in s.jc.syncReqs && s'.jc.syncReqs == s.jc.syncReqs[u.id := State3]
  { }
  // a sync request becomes answerable only when everything acknowledged before it is durable:
  // a request waiting on frozen data is answered by making that data durable
  lemma vp_sync_honest(s: TV.Variables, s': TV.Variables, u: UI.Op, i: int)
    requires TV.Next(s, s', u) && i in s.outstandingSyncReqs && i in s'.outstandingSyncReqs
    ensures s'.outstandingSyncReqs[i] == State1 && s.outstandingSyncReqs[i] == State2 ==> s'.s1 == s.s2
    ensures s'.outstandingSyncReqs[i] == State2 && s.outstandingSyncReqs[i] == State3 ==> s'.s2 == s.s3
    ensures !(s'.outstandingSyncReqs[i] == State1 && s.outstandingSyncReqs[i] == State3)
  { }

  // journal: every step the protocol needs exists with the intended effect
  lemma vp_enabled(j: JV.Variables, l: Loc, u: UI.Op, id: int)
    ensures JV.Next(j, j, SendPersistentLocOp(j.persistentLoc))
    ensures JV.Next(j, j.(frozenLoc := Some(l)), SendFrozenLocOp(l))
    ensures j.frozenLoc == Some(j.persistentLoc) ==> JV.Next(j, j.(frozenLoc := None), CleanUpOp)
    ensures JV.Next(j, JV.Variables(j.j1, j.j1, j.j1, j.j1, [], j.persistentLoc, None, map[]), CrashOp)
    ensures j.frozenLoc.Some? ==> JV.Next(j, JV.Variables(j.j2, j.j2, j.j3, j.j2, j.j_delta, j.frozenLoc.value, j.frozenLoc, SyncReqs2to1(j.syncReqs)), JournalInternalOp)
    ensures j.frozenLoc != Some(j.persistentLoc) ==> JV.Next(j, JV.Variables(j.j1, j.j3, j.j3, j.j_gamma + j.j_delta, [], j.persistentLoc, None, SyncReqs3to2(j.syncReqs)), FreezeOp)
    ensures j.j3 == [] ==> JV.Next(j, j.(j_delta := j.j_delta + JournalEntriesForUIOp(u)), AdvanceOp(u, false))
    ensures j.j3 != [] ==> JV.Next(j, j.(j3 := j.j3[1..]), AdvanceOp(JournalEntryToUIOp(j.j3[0]), true))
    ensures JV.Next(j, JV.Variables(j.j_gamma, j.j2, j.j3, j.j_gamma, j.j_delta, j.persistentLoc, j.frozenLoc, SyncReqs2to1(j.syncReqs)), JournalInternalOp)
    ensures JV.Next(j, JV.Variables(j.j1, j.j2 + j.j_delta, j.j3, j.j_gamma + j.j_delta, [], j.persistentLoc, j.frozenLoc, SyncReqs3to2(j.syncReqs)), JournalInternalOp)
    ensures id !in j.syncReqs ==> JV.Next(j, j.(syncReqs := j.syncReqs[id := State3]), PushSyncOp(id))
  {
    assert JV.NextStep(j, j, SendPersistentLocOp(j.persistentLoc), JV.PresentPersistentLocStep);
    assert JV.NextStep(j, j.(frozenLoc := Some(l)), SendFrozenLocOp(l), JV.ObtainFrozenLocStep);
    if j.frozenLoc == Some(j.persistentLoc) { assert JV.NextStep(j, j.(frozenLoc := None), CleanUpOp, JV.CleanUpStep); }
    assert JV.NextStep(j, JV.Variables(j.j1, j.j1, j.j1, j.j1, [], j.persistentLoc, None, map[]), CrashOp, JV.CrashStep);
    if j.frozenLoc.Some? { assert JV.NextStep(j, JV.Variables(j.j2, j.j2, j.j3, j.j2, j.j_delta, j.frozenLoc.value, j.frozenLoc, SyncReqs2to1(j.syncReqs)), JournalInternalOp, JV.Move1to2Step); }
    if j.frozenLoc != Some(j.persistentLoc) { assert JV.NextStep(j, JV.Variables(j.j1, j.j3, j.j3, j.j_gamma + j.j_delta, [], j.persistentLoc, None, SyncReqs3to2(j.syncReqs)), FreezeOp, JV.Move2to3Step); }
    if j.j3 == [] { assert JV.NextStep(j, j.(j_delta := j.j_delta + JournalEntriesForUIOp(u)), AdvanceOp(u, false), JV.Move3Step); }
    else {
      assert j.j3 == [j.j3[0]] + j.j3[1..];
      assert JV.NextStep(j, j.(j3 := j.j3[1..]), AdvanceOp(JournalEntryToUIOp(j.j3[0]), true), JV.ReplayStep);
    }
    assert JV.NextStep(j, JV.Variables(j.j_gamma, j.j2, j.j3, j.j_gamma, j.j_delta, j.persistentLoc, j.frozenLoc, SyncReqs2to1(j.syncReqs)), JournalInternalOp, JV.ExtendLog1Step);
    assert JV.NextStep(j, JV.Variables(j.j1, j.j2 + j.j_delta, j.j3, j.j_gamma + j.j_delta, [], j.persistentLoc, j.frozenLoc, SyncReqs3to2(j.syncReqs)), JournalInternalOp, JV.ExtendLog2Step);
    if id !in j.syncReqs { assert JV.NextStep(j, j.(syncReqs := j.syncReqs[id := State3]), PushSyncOp(id), JV.PushSyncStep); }
  }
  // and the two sides move together
  lemma vp_compose(s: CV.Variables, s': CV.Variables, v: VOp, u: UI.Op)
    requires SV.Next(s.tsm, s'.tsm, v) && JV.Next(s.jc, s'.jc, v) && VOpAgreesUIOp(v, u)
    ensures CV.Next(s, s', u)
  { assert CV.NextStep(s, s', CV.Step(v).vop, u); }
  lemma vp_labels(v: VOp, u: UI.Op)
    requires VOpAgreesUIOp(v, u)
    ensures v.AdvanceOp? && !v.replay ==> u == v.uiop
    ensures v.AdvanceOp? && v.replay ==> u.NoOp?
    ensures v.CrashOp? ==> u.CrashOp?
    ensures v.PushSyncOp? ==> u == UI.PushSyncOp(v.id)
    ensures v.PopSyncOp? ==> u == UI.PopSyncOp(v.id)
    ensures !v.AdvanceOp? && !v.CrashOp? && !v.PushSyncOp? && !v.PopSyncOp? ==> u.NoOp?
  { }
  lemma vp_journal_entries(a: seq<UI.Op>, b: seq<UI.Op>, u: UI.Op)
    ensures JournalEntriesForUIOps(a + b) == JournalEntriesForUIOps(a) + JournalEntriesForUIOps(b)
    ensures u.PutOp? ==> JournalEntriesForUIOp(u) == [JournalInsert(u.key, u.value)]
    ensures u.CloneOp? ==> JournalEntriesForUIOp(u) == [JournalClone(u.from, u.to)]
    ensures u.GetOp? || u.SuccOp? || u.NoOp? || u.SyncOp? ==> JournalEntriesForUIOp(u) == []
    ensures |JournalEntriesForUIOp(u)| == 1 ==> JournalEntryToUIOp(JournalEntriesForUIOp(u)[0]) == u
  { JournalEntriesForUIOpsAdditive(a, b); }

  lemma vpfail_inv(s: CV.Variables)
    requires CV.Inv(s)
    ensures false
  { }
  lemma vpfail_next(s: CV.Variables, s': CV.Variables, u: UI.Op)
    requires CV.Inv(s) && CV.Next(s, s', u) && u.PutOp?
    ensures false
  { vp_next(s, s', u); }
}
