include "@REPO@/examples/log/DiskLogSystemCrashSafeLogRefinement.dfy"
module VpLog {
  import R = DiskLogSystemCrashSafeLogRefinement
  import DLSI = DiskLogSystemInv
  import S = DiskLogSystem
  import M = DiskLog
  import D = Disk
  import C = CrashSafeLog
  import L = LogSpec

  // the log a disk holds, read off the sectors directly
  predicate Readable(blocks: map<int, M.Sector>)
  {
    && 0 in blocks && blocks[0].SuperblockSector? && 0 <= blocks[0].superblock.length
    && (forall i :: 1 <= i <= blocks[0].superblock.length ==> i in blocks && blocks[i].LogSector?)
  }
  function Held(blocks: map<int, M.Sector>, n: int) : seq<L.Element>
    requires 0 <= n
    requires forall i :: 1 <= i <= n ==> i in blocks && blocks[i].LogSector?
    ensures |Held(blocks, n)| == n
    ensures forall i :: 0 <= i < n ==> Held(blocks, n)[i] == blocks[i+1].element
  {
    if n == 0 then [] else Held(blocks, n-1) + [blocks[n].element]
  }
  function DiskLogOf(blocks: map<int, M.Sector>) : seq<L.Element>
    requires Readable(blocks)
  { Held(blocks, blocks[0].superblock.length) }

  predicate Behavior(k: S.Constants, b: seq<S.Variables>)
  {
    && |b| > 0 && S.Init(k, b[0])
    && (forall i :: 0 <= i < |b|-1 ==> Pair(k, b, i))
  }
  predicate Pair(k: S.Constants, b: seq<S.Variables>, i: int) requires 0 <= i < |b|-1 { S.Next(k, b[i], b[i+1]) }
  lemma vp_reach(k: S.Constants, b: seq<S.Variables>)
    requires Behavior(k, b)
    ensures forall i :: 0 <= i < |b| ==> DLSI.Inv(k, b[i])
    decreases |b|
  {
    if |b| == 1 { DLSI.InitImpliesInv(k, b[0]); }
    else {
      var n := |b|;
      var c := b[..n-1];
      forall i | 0 <= i < |c|-1 ensures Pair(k, c, i) { assert Pair(k, b, i); assert c[i] == b[i] && c[i+1] == b[i+1]; }
      vp_reach(k, c);
      assert c[n-2] == b[n-2];
      assert Pair(k, b, n-2);
      DLSI.NextPreservesInv(k, b[n-2], b[n-1]);
      forall i | 0 <= i < n ensures DLSI.Inv(k, b[i]) { if i < n-1 { assert c[i] == b[i]; } }
    }
  }
  // every reachable disk is readable
  lemma vp_readable(k: S.Constants, s: S.Variables)
    requires DLSI.Inv(k, s)
    ensures Readable(s.disk.blocks)
  {
    forall i | 1 <= i <= s.disk.blocks[0].superblock.length ensures i in s.disk.blocks && s.disk.blocks[i].LogSector?
    {
      var idx := L.Index(i-1);
      assert DLSI.IndexValidForDiskLog(k.disk, s.disk, idx);
      assert M.LBAType.indexToLBA(idx) == i;
    }
  }
  // the abstraction: persistent is exactly what the disk holds; ephemeral is the machine's log once recovered
  lemma vp_abstraction(k: S.Constants, s: S.Variables)
    requires DLSI.Inv(k, s)
    ensures Readable(s.disk.blocks)
    ensures R.I(k, s).persistent.log == DiskLogOf(s.disk.blocks)
    ensures s.machine.cachedSuperblock.Ready? && s.machine.cachedSuperblock.superblock.length <= |s.machine.log|
       ==> R.I(k, s).ephemeral.log == s.machine.log
    ensures !(s.machine.cachedSuperblock.Ready? && s.machine.cachedSuperblock.superblock.length <= |s.machine.log|)
       ==> R.I(k, s).ephemeral.log == DiskLogOf(s.disk.blocks)
  {
    vp_readable(k, s);
    var a := R.I(k, s).persistent.log; var c := DiskLogOf(s.disk.blocks);
    assert |a| == |c|;
    forall i | 0 <= i < |a| ensures a[i] == c[i] {
      assert a[i] == DLSI.ElementFromDiskLog(k.disk, s.disk, DLSI.IndexCtor(i));
    }
    assert a == c;
  }
  lemma vp_init(k: S.Constants, s: S.Variables)
    requires S.Init(k, s)
    ensures C.Init(R.Ik(k), R.I(k, s))
    ensures R.I(k, s).persistent.log == [] && R.I(k, s).ephemeral.log == []
  { DLSI.InitImpliesInv(k, s); vp_abstraction(k, s); }

  // what one step may do to the two logs a user sees, without reference to the abstract machine's own steps
  lemma vp_next(k: S.Constants, s: S.Variables, s': S.Variables)
    requires DLSI.Inv(k, s) && S.Next(k, s, s')
    ensures DLSI.Inv(k, s')
    ensures C.Next(R.Ik(k), R.I(k, s), R.I(k, s'))
    ensures R.I(k, s').persistent.log == R.I(k, s).persistent.log || R.I(k, s').persistent.log == R.I(k, s).ephemeral.log
    ensures R.I(k, s').persistent.log != R.I(k, s).persistent.log ==> R.I(k, s').ephemeral.log == R.I(k, s').persistent.log
    ensures R.I(k, s').ephemeral.log == R.I(k, s).ephemeral.log
        || (exists e :: R.I(k, s').ephemeral.log == R.I(k, s).ephemeral.log + [e])
        || R.I(k, s').ephemeral.log == R.I(k, s).persistent.log
  { R.RefinesNext(k, s, s'); }

  // each machine operation's effect
  lemma vp_crash(k: S.Constants, s: S.Variables, s': S.Variables)
    requires DLSI.Inv(k, s) && S.NextStep(k, s, s', S.CrashStep)
    ensures DLSI.Inv(k, s') && R.I(k, s').persistent == R.I(k, s).persistent && R.I(k, s').ephemeral == R.I(k, s).persistent
    ensures s'.disk == s.disk && s'.machine == M.Variables([], M.Unready, 0)
  { R.RefinesNextStep(k, s, s', S.CrashStep); }

  lemma vp_step(k: S.Constants, s: S.Variables, s': S.Variables, dop: M.DiskOp, st: M.Step)
    requires DLSI.Inv(k, s) && M.NextStep(k.machine, s.machine, s'.machine, dop, st) && D.Next(k.disk, s.disk, s'.disk, dop)
    ensures DLSI.Inv(k, s')
    ensures st.QueryStep? ==> 0 <= st.idx.idx < |R.I(k, s).ephemeral.log| && st.result == R.I(k, s).ephemeral.log[st.idx.idx] && s' == s
    ensures st.AppendStep? ==> R.I(k, s').ephemeral.log == R.I(k, s).ephemeral.log + [st.element] && R.I(k, s').persistent == R.I(k, s).persistent
    ensures st.FlushStep? ==> R.I(k, s').persistent == R.I(k, s).ephemeral && R.I(k, s').ephemeral == R.I(k, s).ephemeral
    ensures st.FetchSuperblockStep? || st.FetchElementStep? || st.StageElementStep? || st.StutterStep? ==> R.I(k, s') == R.I(k, s)
    ensures !st.FlushStep? ==> DiskLogOf'(s.disk) == DiskLogOf'(s'.disk)
  {
    assert M.Next(k.machine, s.machine, s'.machine, dop);
    assert S.NextStep(k, s, s', S.MachineStep(dop));
    R.RefinesNextStep(k, s, s', S.MachineStep(dop));
    vp_abstraction(k, s); vp_abstraction(k, s');
    if st.QueryStep? {
      if !(s.machine.cachedSuperblock.Ready? && s.machine.cachedSuperblock.superblock.length <= |s.machine.log|) {
        assert DLSI.IndexValidForDiskLog(k.disk, s.disk, st.idx);
        assert 0 <= st.idx.idx < |s.machine.log|;
      }
    }
    if !st.FlushStep? {
      var a := DiskLogOf(s.disk.blocks); var c := DiskLogOf(s'.disk.blocks);
      assert |a| == |c|;
      forall i | 0 <= i < |a| ensures a[i] == c[i] {
        if st.StageElementStep? {
          assert DLSI.IndexValidForDiskLog(k.disk, s.disk, L.Index(i));
          if dop.lba == i + 1 { assert dop.sector.element == s.machine.log[i]; assert s.machine.stagedLength == i; }
        }
      }
      assert a == c;
    }
  }
  function DiskLogOf'(d: D.Variables<int, M.Sector>) : seq<L.Element>
  { if Readable(d.blocks) then DiskLogOf(d.blocks) else [] }

  // from a reachable state: recovery, appends, staging, flush and queries are all possible
  lemma vp_recover(k: S.Constants, s: S.Variables) returns (s1: S.Variables, d1: M.DiskOp)
    requires DLSI.Inv(k, s) && !(s.machine.cachedSuperblock.Ready? && s.machine.cachedSuperblock.superblock.length <= |s.machine.log|)
    ensures S.NextStep(k, s, s1, S.MachineStep(d1))
    ensures s1.disk == s.disk
    ensures s.machine.cachedSuperblock.Unready? ==> s1.machine.cachedSuperblock.Ready?
    ensures s.machine.cachedSuperblock.Ready? ==> |s1.machine.log| == |s.machine.log| + 1 && s1.machine.cachedSuperblock == s.machine.cachedSuperblock
  {
    vp_readable(k, s);
    if s.machine.cachedSuperblock.Unready? {
      var n := s.disk.blocks[0].superblock.length;
      d1 := D.ReadOp(0, M.SuperblockSector(M.Superblock(n)));
      s1 := S.Variables(s.disk, M.Variables(s.machine.log, M.Ready(M.Superblock(n)), s.machine.stagedLength));
      assert M.NextStep(k.machine, s.machine, s1.machine, d1, M.FetchSuperblockStep(n));
      assert D.NextStep(k.disk, s.disk, s1.disk, d1, D.ReadStep);
    } else {
      var n := |s.machine.log|;
      var e := s.disk.blocks[n+1].element;
      d1 := D.ReadOp(n+1, M.LogSector(e));
      s1 := S.Variables(s.disk, M.Variables(s.machine.log + [e], s.machine.cachedSuperblock, n+1));
      assert M.NextStep(k.machine, s.machine, s1.machine, d1, M.FetchElementStep(L.Index(n), e));
      assert D.NextStep(k.disk, s.disk, s1.disk, d1, D.ReadStep);
    }
  }
  lemma vp_enabled(k: S.Constants, s: S.Variables, e: L.Element) returns (sa: S.Variables, st: S.Variables, ds: M.DiskOp, sf: S.Variables, df: M.DiskOp)
    requires DLSI.Inv(k, s) && s.machine.cachedSuperblock.Ready? && s.machine.cachedSuperblock.superblock.length <= |s.machine.log|
    ensures S.NextStep(k, s, sa, S.MachineStep(D.NoDiskOp)) && sa.machine.log == s.machine.log + [e]
    ensures 0 <= s.machine.stagedLength < |s.machine.log| ==> S.NextStep(k, s, st, S.MachineStep(ds)) && st.machine.stagedLength == s.machine.stagedLength + 1
    ensures s.machine.stagedLength == |s.machine.log| ==> S.NextStep(k, s, sf, S.MachineStep(df)) && R.I(k, sf).persistent.log == s.machine.log
  {
    sa := S.Variables(s.disk, M.Variables(s.machine.log + [e], s.machine.cachedSuperblock, s.machine.stagedLength));
    assert M.NextStep(k.machine, s.machine, sa.machine, D.NoDiskOp, M.AppendStep(e));
    assert D.NextStep(k.disk, s.disk, sa.disk, D.NoDiskOp, D.StutterStep);
    var n := s.machine.stagedLength;
    if 0 <= n < |s.machine.log| {
      ds := D.WriteOp(n + 1, M.LogSector(s.machine.log[n]));
      st := S.Variables(D.Variables(s.disk.blocks[n + 1 := M.LogSector(s.machine.log[n])]), M.Variables(s.machine.log, s.machine.cachedSuperblock, n + 1));
      assert M.NextStep(k.machine, s.machine, st.machine, ds, M.StageElementStep);
      assert D.NextStep(k.disk, s.disk, st.disk, ds, D.WriteStep);
    }
    if n == |s.machine.log| {
      var sb := M.SuperblockSector(M.Superblock(n));
      df := D.WriteOp(0, sb);
      sf := S.Variables(D.Variables(s.disk.blocks[0 := sb]), M.Variables(s.machine.log, M.Ready(M.Superblock(n)), n));
      assert M.NextStep(k.machine, s.machine, sf.machine, df, M.FlushStep);
      assert D.NextStep(k.disk, s.disk, sf.disk, df, D.WriteStep);
      vp_step(k, s, sf, df, M.FlushStep);
      vp_abstraction(k, s);
    }
  }
  lemma vp_query_enabled(k: S.Constants, s: S.Variables, i: int)
    requires DLSI.Inv(k, s) && 0 <= i < |s.machine.log|
    ensures S.NextStep(k, s, s, S.MachineStep(D.NoDiskOp))
    ensures M.NextStep(k.machine, s.machine, s.machine, D.NoDiskOp, M.QueryStep(L.Index(i), s.machine.log[i]))
  {
    assert M.NextStep(k.machine, s.machine, s.machine, D.NoDiskOp, M.QueryStep(L.Index(i), s.machine.log[i]));
    assert D.NextStep(k.disk, s.disk, s.disk, D.NoDiskOp, D.StutterStep);
  }
  // the specification itself
  lemma vp_spec(k: C.Constants, s: C.Variables, s': C.Variables)
    ensures C.Init(k, s) <==> s.persistent.log == [] && s.ephemeral.log == []
    ensures C.NextStep(k, s, s', C.CrashStep) <==> s'.persistent == s.persistent && s'.ephemeral == s.persistent
    ensures C.NextStep(k, s, s', C.SyncStep) <==> s'.persistent == s.ephemeral && s'.ephemeral == s.ephemeral
    ensures C.NextStep(k, s, s', C.EphemeralMoveStep) <==> s'.persistent == s.persistent &&
       (s'.ephemeral == s.ephemeral || (exists e :: s'.ephemeral.log == s.ephemeral.log + [e]))
  {
    if s'.ephemeral == s.ephemeral { assert L.NextStep(k, s.ephemeral, s'.ephemeral, L.StutterStep); }
    if exists e :: s'.ephemeral.log == s.ephemeral.log + [e] {
      var e :| s'.ephemeral.log == s.ephemeral.log + [e];
      assert L.NextStep(k, s.ephemeral, s'.ephemeral, L.AppendStep(e));
    }
  }
  lemma vpfail_vacuous(k: S.Constants, s: S.Variables, s': S.Variables)
    requires DLSI.Inv(k, s) && S.Next(k, s, s')
    ensures false
  { R.RefinesNext(k, s, s'); vp_abstraction(k, s); }
}
