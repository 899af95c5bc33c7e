//@ in: betree/Memtable_v.rs
use vstd::prelude::*;
verus! {
pub proof fn vp_put(m: Memtable, km: KeyedMessage, k: Key)
    ensures
        m.apply_put(km).seq_end == m.seq_end + 1,
        m.apply_put(km).query(km.key) == m.query(km.key).merge(km.message),
        k != km.key ==> m.apply_put(km).query(k) == m.query(k),
        k != km.key ==> (m.apply_put(km).contains(k) <==> m.contains(k)),
        m.apply_put(km).contains(km.key), !m.apply_put(km).is_empty(),
{
    assert(m.apply_put(km).buffer.map.contains_key(km.key));
    assert(!SimpleBuffer::empty().map.contains_key(km.key));
}
// several puts are applied in the order of their sequence numbers
pub open spec fn vp_fold(m: Memtable, h: MsgHistory, n: nat) -> Memtable decreases n
{ if n == 0 { m } else { vp_fold(m, h, (n - 1) as nat).apply_put(h.msgs[(h.seq_start + n - 1) as nat]) } }
proof fn vp_fold_prefix(m: Memtable, h: MsgHistory, g: MsgHistory, n: nat)
    requires h.wf(), g.wf(), g.seq_start == h.seq_start, n <= g.seq_end - g.seq_start, g.seq_end <= h.seq_end,
        forall|x: LSN| g.seq_start <= x < g.seq_end ==> h.msgs[x] == g.msgs[x],
    ensures vp_fold(m, h, n) == vp_fold(m, g, n),
    decreases n
{ if n > 0 { vp_fold_prefix(m, h, g, (n - 1) as nat); } }
pub proof fn vp_puts(m: Memtable, h: MsgHistory)
    requires h.wf(), h.can_follow(m.seq_end),
    ensures m.apply_puts(h) == vp_fold(m, h, h.len()), m.apply_puts(h).seq_end == h.seq_end,
    decreases h.len()
{
    m.apply_puts_end(h);
    if !h.is_empty() {
        let l = (h.seq_end - 1) as nat;
        let g = h.discard_recent(l);
        vp_puts(m, g);
        vp_fold_prefix(m, h, g, g.len());
    }
}
pub proof fn vp_puts_split(m: Memtable, g: MsgHistory, h: MsgHistory)
    requires g.wf(), h.wf(), g.can_follow(m.seq_end), h.can_follow(g.seq_end),
    ensures m.apply_puts(g.concat(h)) == m.apply_puts(g).apply_puts(h),
{ m.apply_puts_additive(g, h); }
pub proof fn vp_drain(m: Memtable, l: LSN, k: Key)
    ensures
        m.drain().is_empty(), m.drain().seq_end == m.seq_end, !m.drain().contains(k),
        m.drain().query(k) == (Message::Update{ delta: nop_delta() }),
        Memtable::empty_memtable(l).is_empty(), Memtable::empty_memtable(l).seq_end == l,
        m.is_empty() ==> m.drain() == m && !m.contains(k),
        m.contains(k) ==> m.query(k) == m.buffer.map[k],
{}
pub proof fn vpfail_mem(m: Memtable, a: KeyedMessage, b: KeyedMessage) ensures m.apply_put(a).apply_put(b) == m.apply_put(b).apply_put(a)
{ assert(m.apply_put(a).apply_put(b).buffer.map =~= m.apply_put(b).apply_put(a).buffer.map); }
}
