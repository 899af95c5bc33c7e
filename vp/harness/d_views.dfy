include "@REPO@/Versions/StatesViewMap.i.dfy"
module VpViews {
  import V = StatesViewMap
  import SM = MapSpec
  import UI
  import opened Options
  import opened ViewOp

  // what is stored at the durable location and at the location promised to become durable
  predicate Safe(s: V.Variables)
  {
    && (s.persistentLoc.Some? ==> s.persistentLoc.value in s.disk)
    && (s.frozenLoc.Some? ==> s.frozenLoc.value in s.disk && s.frozenState.Some? && s.disk[s.frozenLoc.value] == s.frozenState.value)
  }
  lemma vp_init(s: V.Variables, loc: Loc)
    requires V.Init(s, loc)
    ensures Safe(s) && V.Inv(s) && loc in s.disk && SM.Init(s.disk[loc]) && s.persistentLoc == None && s.frozenLoc == None
         && s.frozenState == None && s.ephemeralState == None
  { }
  lemma vp_next(s: V.Variables, s': V.Variables, vop: VOp)
    requires Safe(s) && V.Inv(s) && V.Next(s, s', vop)
    ensures Safe(s') && V.Inv(s')
    // durable data stays in place, whatever else happens to the disk, until its replacement is declared durable
    ensures s.persistentLoc.Some? ==> s.persistentLoc.value in s'.disk && s'.disk[s.persistentLoc.value] == s.disk[s.persistentLoc.value]
    ensures s.frozenLoc.Some? ==> s.frozenLoc.value in s'.disk && s'.disk[s.frozenLoc.value] == s.disk[s.frozenLoc.value]
    ensures s.persistentLoc.None? ==> forall l :: l in s.disk ==> l in s'.disk && s'.disk[l] == s.disk[l]
    // recovery exposes exactly what is stored
    ensures vop.SendPersistentLocOp? ==> s.persistentLoc == None && s'.persistentLoc == Some(vop.loc) && vop.loc in s.disk && s'.ephemeralState == Some(s.disk[vop.loc])
    // only user operations move the ephemeral state, and they move it as the specification says
    ensures vop.AdvanceOp? ==> s.ephemeralState.Some? && s'.ephemeralState.Some? && SM.Next(s.ephemeralState.value, s'.ephemeralState.value, vop.uiop)
    ensures !vop.AdvanceOp? && !vop.CrashOp? && !vop.SendPersistentLocOp? ==> s'.ephemeralState == s.ephemeralState
    ensures vop.FreezeOp? ==> s'.frozenState == s.ephemeralState && s'.frozenLoc == None
    ensures !vop.FreezeOp? && !vop.CrashOp? && !vop.CleanUpOp? ==> s'.frozenState == s.frozenState
    ensures vop.SendFrozenLocOp? ==> s.frozenLoc == None && s'.frozenLoc == Some(vop.loc) && s.frozenState.Some? && vop.loc in s'.disk && s'.disk[vop.loc] == s.frozenState.value
    ensures vop.CleanUpOp? ==> s'.persistentLoc == s.frozenLoc && s'.frozenLoc == None
    ensures !vop.CleanUpOp? && !vop.CrashOp? && !vop.SendPersistentLocOp? ==> s'.persistentLoc == s.persistentLoc
    ensures vop.CrashOp? ==> s'.persistentLoc == None && s'.frozenLoc == None && s'.frozenState == None && s'.ephemeralState == None
  {
    V.NextPreservesInv(s, s', vop);
  }
  // an advertised frozen location survives a crash and is what recovery from it yields
  lemma vp_crash_keeps(s: V.Variables, s': V.Variables, s2: V.Variables, l: Loc)
    requires Safe(s) && V.Inv(s)
    requires V.Next(s, s', CrashOp) && V.Next(s', s2, SendPersistentLocOp(l))
    ensures s.persistentLoc == Some(l) ==> s2.ephemeralState == Some(s.disk[l])
    ensures s.frozenLoc == Some(l) ==> s2.ephemeralState == s.frozenState
  { vp_next(s, s', CrashOp); vp_next(s', s2, SendPersistentLocOp(l)); }
  // every operation the protocol needs is possible
  lemma vp_enabled(s: V.Variables, l: Loc, m: SM.Variables, u: UI.Op)
    requires Safe(s) && V.Inv(s)
    ensures V.Next(s, V.Variables(s.disk, None, None, None, None), CrashOp)
    ensures s.persistentLoc.None? && l in s.disk && SM.Inv(s.disk[l]) ==> V.Next(s, s.(persistentLoc := Some(l), ephemeralState := Some(s.disk[l])), SendPersistentLocOp(l))
    ensures s.ephemeralState.Some? && SM.Next(s.ephemeralState.value, m, u) ==> forall r :: V.Next(s, s.(ephemeralState := Some(m)), AdvanceOp(u, r))
    ensures V.Next(s, s.(frozenLoc := None, frozenState := s.ephemeralState), FreezeOp)
    ensures s.frozenLoc.None? && s.frozenState.Some? && l in s.disk && s.disk[l] == s.frozenState.value ==> V.Next(s, s.(frozenLoc := Some(l)), SendFrozenLocOp(l))
    ensures V.Next(s, s.(persistentLoc := s.frozenLoc, frozenLoc := None, frozenState := None), CleanUpOp)
    ensures s.persistentLoc.Some? && l != s.persistentLoc.value && (s.frozenLoc.Some? ==> l != s.frozenLoc.value) ==> V.Next(s, s.(disk := s.disk[l := m]), StatesInternalOp)
  {
    assert V.NextStep(s, V.Variables(s.disk, None, None, None, None), CrashOp, V.CrashStep);
    if s.persistentLoc.None? && l in s.disk && SM.Inv(s.disk[l]) { assert V.NextStep(s, s.(persistentLoc := Some(l), ephemeralState := Some(s.disk[l])), SendPersistentLocOp(l), V.ObtainPersistentLocStep); }
    if s.ephemeralState.Some? && SM.Next(s.ephemeralState.value, m, u) {
      forall r ensures V.Next(s, s.(ephemeralState := Some(m)), AdvanceOp(u, r)) { assert V.NextStep(s, s.(ephemeralState := Some(m)), AdvanceOp(u, r), V.AdvanceStep); }
    }
    assert V.NextStep(s, s.(frozenLoc := None, frozenState := s.ephemeralState), FreezeOp, V.FreezeStep);
    if s.frozenLoc.None? && s.frozenState.Some? && l in s.disk && s.disk[l] == s.frozenState.value { assert V.NextStep(s, s.(frozenLoc := Some(l)), SendFrozenLocOp(l), V.ProvideFrozenLocStep); }
    assert V.NextStep(s, s.(persistentLoc := s.frozenLoc, frozenLoc := None, frozenState := None), CleanUpOp, V.ForgetOldStep);
    if s.persistentLoc.Some? && l != s.persistentLoc.value && (s.frozenLoc.Some? ==> l != s.frozenLoc.value) {
      assert V.NextStep(s, s.(disk := s.disk[l := m]), StatesInternalOp, V.DiskChangeStep);
    }
  }
  // only user-visible operations carry user-visible labels
  lemma vp_labels(vop: VOp, u: UI.Op)
    requires VOpAgreesUIOp(vop, u)
    ensures vop.SendPersistentLocOp? || vop.FreezeOp? || vop.StatesInternalOp? || vop.JournalInternalOp? || vop.SendFrozenLocOp? || vop.CleanUpOp? ==> u.NoOp?
    ensures vop.AdvanceOp? && vop.replay ==> u.NoOp?
    ensures vop.AdvanceOp? && !vop.replay ==> u == vop.uiop
    ensures vop.CrashOp? ==> u.CrashOp?
    ensures vop.PushSyncOp? ==> u == UI.PushSyncOp(vop.id)
    ensures vop.PopSyncOp? ==> u == UI.PopSyncOp(vop.id)
  { }
  lemma vp_labels_possible(u: UI.Op, id: int)
    ensures VOpAgreesUIOp(AdvanceOp(u, false), u) && VOpAgreesUIOp(AdvanceOp(u, true), UI.NoOp) && VOpAgreesUIOp(CrashOp, UI.CrashOp)
    ensures VOpAgreesUIOp(PushSyncOp(id), UI.PushSyncOp(id)) && VOpAgreesUIOp(PopSyncOp(id), UI.PopSyncOp(id)) && VOpAgreesUIOp(FreezeOp, UI.NoOp)
  { }
  lemma vpfail_vacuous(s: V.Variables, s': V.Variables, vop: VOp)
    requires Safe(s) && V.Inv(s) && V.Next(s, s', vop)
    ensures false
  { vp_next(s, s', vop); }
}
