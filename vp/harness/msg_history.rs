//@ in: abstract_system/MsgHistory_v.rs
use vstd::prelude::*;
verus! {
use crate::spec::TotalKMMap_t::*;

// replay one message at a time, in order
pub open spec fn vp_replay(m: TotalKMMap, h: MsgHistory, n: nat) -> TotalKMMap
    decreases n
{
    if n == 0 { m } else {
        let p = vp_replay(m, h, (n - 1) as nat);
        let km = h.msgs[(h.seq_start + n - 1) as nat];
        TotalKMMap(p.0.insert(km.key, p.0[km.key].merge(km.message)))
    }
}

proof fn replay_prefix(m: TotalKMMap, h: MsgHistory, n: nat, end: nat)
    requires h.wf(), h.seq_start + n <= end <= h.seq_end,
    ensures vp_replay(m, h.discard_recent(end), n) == vp_replay(m, h, n),
    decreases n
{ if n > 0 { replay_prefix(m, h, (n - 1) as nat, end); } }

pub proof fn vp_apply_is_replay(s: StampedMap, h: MsgHistory)
    requires h.wf(), h.can_follow(s.seq_end), s.value.wf(),
    ensures
        MsgHistory::map_plus_history(s, h).value == vp_replay(s.value, h, h.len()),
        MsgHistory::map_plus_history(s, h).seq_end == h.seq_end,
        MsgHistory::map_plus_history(s, h).value.wf(),
    decreases h.len()
{
    MsgHistory::map_plus_history_lemma(s, h);
    if !h.is_empty() {
        let e = (h.seq_end - 1) as nat;
        let p = h.discard_recent(e);
        vp_apply_is_replay(s, p);
        replay_prefix(s.value, h, p.len(), e);
    }
}

// replay in two pieces is replay in one
pub proof fn vp_replay_concat(s: StampedMap, a: MsgHistory, b: MsgHistory)
    requires a.wf(), b.wf(), a.can_follow(s.seq_end), a.can_concat(b), s.value.wf(),
    ensures
        a.concat(b).wf(), a.concat(b).seq_start == a.seq_start, a.concat(b).seq_end == b.seq_end,
        forall|l: nat| a.contains(l) ==> #[trigger] a.concat(b).msgs[l] == a.msgs[l],
        forall|l: nat| b.contains(l) ==> #[trigger] a.concat(b).msgs[l] == b.msgs[l],
        MsgHistory::map_plus_history(MsgHistory::map_plus_history(s, a), b) == MsgHistory::map_plus_history(s, a.concat(b)),
    decreases b.len()
{
    a.concat_lemma(b);
    MsgHistory::map_plus_history_lemma(s, a);
    if b.is_empty() {
        assert(a.concat(b) == a);
    } else {
        let e = (b.seq_end - 1) as nat;
        let b0 = b.discard_recent(e);
        vp_replay_concat(s, a, b0);
        assert(a.concat(b).discard_recent(e) =~= a.concat(b0));
    }
}

// cutting the history in two and keeping either side loses nothing and invents nothing
pub proof fn vp_cut(h: MsgHistory, lsn: LSN, l: LSN)
    requires h.wf(), h.can_discard_to(lsn),
    ensures
        h.discard_old(lsn).wf(), h.discard_recent(lsn).wf(),
        h.discard_old(lsn).contains(l) <==> h.contains(l) && lsn <= l,
        h.discard_recent(lsn).contains(l) <==> h.contains(l) && l < lsn,
        h.contains(l) && lsn <= l ==> h.discard_old(lsn).msgs[l] == h.msgs[l],
        h.contains(l) && l < lsn ==> h.discard_recent(lsn).msgs[l] == h.msgs[l],
        h.discard_recent(lsn).concat(h.discard_old(lsn)) == h,
        h.includes_subseq(h.discard_old(lsn)), h.includes_subseq(h.discard_recent(lsn)),
        h.discard_old(lsn).seq_end == h.seq_end, h.discard_recent(lsn).seq_start == h.seq_start,
{ h.added_slices_union(lsn); }

pub proof fn vp_singleton(s: StampedMap, km: KeyedMessage)
    requires s.value.wf(),
    ensures ({ let one = MsgHistory::singleton_at(s.seq_end, km); let t = MsgHistory::map_plus_history(s, one);
        &&& one.wf() && one.len() == 1 && one.can_follow(s.seq_end)
        &&& t.seq_end == s.seq_end + 1
        &&& t.value.0 == s.value.0.insert(km.key, s.value.0[km.key].merge(km.message))
        &&& MsgHistory::empty_history_at(s.seq_end).wf() && MsgHistory::map_plus_history(s, MsgHistory::empty_history_at(s.seq_end)) == s }),
{
    let one = MsgHistory::singleton_at(s.seq_end, km);
    assert(one.wf());
    vp_apply_is_replay(s, one);
    reveal_with_fuel(vp_replay, 3);
}

pub proof fn vp_subseq(h: MsgHistory, p: MsgHistory, l: LSN)
    requires h.wf(), p.wf(), h.includes_subseq(p), p.contains(l),
    ensures h.contains(l), h.msgs[l] == p.msgs[l],
{ }
proof fn vpfail_h(s: StampedMap, h: MsgHistory) requires h.wf(), h.can_follow(s.seq_end), s.value.wf(), h.len() > 2 ensures false { vp_apply_is_replay(s, h); }
}
