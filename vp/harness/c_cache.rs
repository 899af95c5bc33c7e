//@ in: implementation/Cache_v.rs
use vstd::prelude::*;
verus! {

// The page cache: what is read is what was last written or loaded; a page that is not on the disk yet never leaves
// the cache; one request at a time is outstanding for a page, and it carries the page as it is in the cache.

type C = Cache::State;
type L = Cache::Label;

pub open spec fn vp_page(c: C, a: Address) -> Option<RawPage> {
    if c.lookup_map.contains_key(a) && c.entries[c.lookup_map[a]] is Filled { Some(c.entries[c.lookup_map[a]]->data) } else { None }
}
pub open spec fn vp_status(c: C, a: Address) -> Status { c.status_map[c.lookup_map[a]] }
pub open spec fn vp_unsaved(c: C, a: Address) -> bool {
    vp_page(c, a) is Some && !(vp_status(c, a) is Clean)
}
pub open spec fn vp_writes(l: L, a: Address) -> bool { l is Access && l->writes.contains_key(a) }

pub proof fn vp_inv_step(v: C, w: C, l: L)
    requires v.inv(), Cache::State::next(v, w, l),
    ensures w.inv(),
{
    Cache::State::inv_next(v, w, l);
}

proof fn vp_slot(v: C, a: Address)
    requires v.inv(),
    ensures v.lookup_map.contains_key(a) ==> v.non_empty_slot(v.lookup_map[a]) && v.entries[v.lookup_map[a]].get_addr() == a && v.status_map.contains_key(v.lookup_map[a]),
{
    v.build_lookup_map_ensures();
}

// two addresses never share a slot and no address has two
pub proof fn vp_one_slot(v: C, a: Address, b: Address)
    requires v.inv(), v.lookup_map.contains_key(a), v.lookup_map.contains_key(b), v.lookup_map[a] == v.lookup_map[b],
    ensures a == b,
{
    vp_slot(v, a); vp_slot(v, b);
}

// a request that is outstanding is the only one for its page, and the page it is for stays
pub proof fn vp_one_request(v: C, i: ID, j: ID)
    requires v.inv(), v.outstanding_reqs.contains_key(i), v.outstanding_reqs.contains_key(j), v.outstanding_reqs[i] == v.outstanding_reqs[j],
    ensures i == j, v.busy_slot(v.outstanding_reqs[i]),
{
}

// access: reads answer the page, writes replace it and leave it unsaved, and nothing else changes
pub proof fn vp_access(v: C, w: C, l: L, a: Address)
    requires v.inv(), Cache::State::next(v, w, l), l is Access,
    ensures
        l->reads.contains_key(a) ==> vp_page(v, a) == Some(l->reads[a]),
        l->writes.contains_key(a) ==> vp_page(w, a) == Some(l->writes[a]) && vp_status(w, a) is Dirty && (vp_page(v, a) is Some ==> !(vp_status(v, a) is Writeback)),
        !l->writes.contains_key(a) ==> vp_page(w, a) == vp_page(v, a) && (vp_page(v, a) is Some ==> vp_status(w, a) == vp_status(v, a)),
        w.lookup_map == v.lookup_map, w.outstanding_reqs == v.outstanding_reqs,
{
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    vp_slot(v, a);
    v.build_lookup_map_ensures();
    let ws = v.lookup_map.restrict(l->writes.dom()).values();
    let r = v.lookup_map.restrict(l->writes.dom());
    if l->reads.contains_key(a) { assert(v.valid_read(a, l->reads[a])); }
    if l->writes.contains_key(a) {
        assert(v.valid_write(a));
        assert(r.contains_key(a) && r[a] == v.lookup_map[a]);
        assert(ws.contains(v.lookup_map[a]));
    } else if v.lookup_map.contains_key(a) {
        let s = v.lookup_map[a];
        if ws.contains(s) {
            let b = choose|b: Address| r.contains_key(b) && #[trigger] r[b] == s;
            vp_one_slot(v, a, b);
        }
        assert(w.entries[s] == v.entries[s]);
    }
}

// an unsaved page stays in the cache as it is until it is written again; it counts as saved when its write is acknowledged
pub proof fn vp_unsaved_stays(v: C, w: C, l: L, a: Address)
    requires v.inv(), Cache::State::next(v, w, l), vp_unsaved(v, a), !vp_writes(l, a),
    ensures
        vp_page(w, a) == vp_page(v, a),
        !vp_unsaved(w, a) ==> l is DiskOps && vp_status(v, a) is Writeback
            && exists|i: ID| #[trigger] l->responses.contains_key(i) && l->responses[i] is WriteResp && v.outstanding_reqs.contains_key(i) && v.outstanding_reqs[i] == v.lookup_map[a],
{
    vp_inv_step(v, w, l);
    vp_slot(v, a); vp_slot(w, a);
    v.build_lookup_map_ensures();
    w.build_lookup_map_ensures();
    if l is Access { vp_access(v, w, l, a); return; }
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let cs = choose|s: Cache::Step| Cache::State::next_by(v, w, l, s);
    let s = v.lookup_map[a];
    match cs {
        Cache::Step::reserve(m) => { injective_map_property(m); assert(w.entries[s] == v.entries[s]); assert(w.non_empty_slot(s)); }
        Cache::Step::load_initiate(m) => { injective_map_property(m); assert(w.entries[s] == v.entries[s]); assert(w.non_empty_slot(s)); }
        Cache::Step::load_complete() => {
            let o = v.outstanding_reqs.restrict(l->responses.dom());
            injective_map_property(o);
            if o.invert().contains_key(s) {
                let i = choose|i: ID| o.contains_key(i) && #[trigger] o[i] == s;
                assert(v.entries[v.outstanding_reqs[i]] is Loading);
            }
            assert(w.entries[s] == v.entries[s]);
        }
        Cache::Step::writeback_initiate() => {}
        Cache::Step::writeback_complete() => {
            let o = v.outstanding_reqs.restrict(l->responses.dom());
            if o.values().contains(s) {
                let i = choose|i: ID| o.contains_key(i) && #[trigger] o[i] == s;
                assert(l->responses.contains_key(i) && l->responses[i] is WriteResp);
            }
        }
        Cache::Step::evict(e) => {
            assert(!e.contains(s));
            assert(w.entries[s] == v.entries[s]);
            assert(w.non_empty_slot(s));
        }
        _ => {}
    }
}

// a page that is in the cache changes only by a write; it leaves only by eviction, when it is clean
pub proof fn vp_page_stays(v: C, w: C, l: L, a: Address)
    requires v.inv(), Cache::State::next(v, w, l), vp_page(v, a) is Some, !vp_writes(l, a),
    ensures vp_page(w, a) == vp_page(v, a) || (l is Internal && vp_status(v, a) is Clean && !w.lookup_map.contains_key(a)),
{
    vp_inv_step(v, w, l);
    if vp_unsaved(v, a) { vp_unsaved_stays(v, w, l, a); return; }
    vp_slot(v, a); vp_slot(w, a);
    v.build_lookup_map_ensures();
    w.build_lookup_map_ensures();
    if l is Access { vp_access(v, w, l, a); return; }
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let cs = choose|s: Cache::Step| Cache::State::next_by(v, w, l, s);
    let s = v.lookup_map[a];
    match cs {
        Cache::Step::reserve(m) => { injective_map_property(m); assert(w.entries[s] == v.entries[s]); assert(w.non_empty_slot(s)); }
        Cache::Step::load_initiate(m) => { injective_map_property(m); assert(w.entries[s] == v.entries[s]); assert(w.non_empty_slot(s)); }
        Cache::Step::load_complete() => {
            let o = v.outstanding_reqs.restrict(l->responses.dom());
            injective_map_property(o);
            if o.invert().contains_key(s) {
                let i = choose|i: ID| o.contains_key(i) && #[trigger] o[i] == s;
                assert(v.entries[v.outstanding_reqs[i]] is Loading);
            }
            assert(w.entries[s] == v.entries[s]);
        }
        Cache::Step::evict(e) => {
            let ev = IMap::new(|x: Slot| e.contains(x), |x: Slot| v.entries[x].get_addr());
            if e.contains(s) { assert(ev.contains_key(s) && ev[s] == a); }
            else {
                if ev.values().contains(a) {
                    let x = choose|x: Slot| ev.contains_key(x) && #[trigger] ev[x] == a;
                    assert(v.non_empty_slot(x));
                    assert(x == s);
                }
                assert(w.entries[s] == v.entries[s]);
            }
        }
        _ => {}
    }
}

// a page that appears was written or is what the disk answered for it, and then it is clean
pub proof fn vp_page_appears(v: C, w: C, l: L, a: Address)
    requires v.inv(), Cache::State::next(v, w, l), vp_page(v, a) is None, vp_page(w, a) is Some, !vp_writes(l, a),
    ensures
        l is DiskOps, vp_status(w, a) is Clean, v.lookup_map.contains_key(a), v.entries[v.lookup_map[a]] is Loading,
        exists|i: ID| #[trigger] l->responses.contains_key(i) && v.outstanding_reqs.contains_key(i) && v.outstanding_reqs[i] == v.lookup_map[a]
            && l->responses[i] is ReadResp && vp_page(w, a) == Some(l->responses[i]->data),
{
    vp_inv_step(v, w, l);
    vp_slot(v, a); vp_slot(w, a);
    v.build_lookup_map_ensures();
    w.build_lookup_map_ensures();
    if l is Access { vp_access(v, w, l, a); return; }
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let cs = choose|s: Cache::Step| Cache::State::next_by(v, w, l, s);
    let s = w.lookup_map[a];
    match cs {
        Cache::Step::reserve(m) => { injective_map_property(m); assert(v.entries[s] == w.entries[s]); assert(v.non_empty_slot(s)); }
        Cache::Step::load_initiate(m) => { injective_map_property(m); assert(v.entries[s] == w.entries[s]); assert(v.non_empty_slot(s)); }
        Cache::Step::load_complete() => {
            let o = v.outstanding_reqs.restrict(l->responses.dom());
            injective_map_property(o);
            if o.invert().contains_key(s) {
                let i = o.invert()[s];
                assert(o.contains_key(i) && o[i] == s);
                assert(l->responses.contains_key(i));
                assert(w.entries[s]->data == l->responses[i]->data);
            }
        }
        Cache::Step::evict(e) => { assert(w.entries[s] is Filled); assert(!e.contains(s)); assert(v.non_empty_slot(s)); }
        _ => {}
    }
}

// what is written back is the page, one request for each page, and the page cannot change before the answer
pub proof fn vp_writeback_carries_page(v: C, w: C, l: L, i: ID)
    requires v.inv(), Cache::State::next(v, w, l), l is DiskOps, l->requests.contains_key(i), l->requests[i] is WriteReq,
    ensures ({
        let a = l->requests[i]->to;
        &&& vp_page(v, a) == Some(l->requests[i]->data)
        &&& vp_page(w, a) == vp_page(v, a)
        &&& vp_status(v, a) is Dirty && vp_status(w, a) is Writeback
        &&& w.outstanding_reqs.contains_key(i) && w.outstanding_reqs[i] == w.lookup_map[a]
        &&& forall|j: ID| #[trigger] l->requests.contains_key(j) && l->requests[j]->to == a ==> j == i
        &&& forall|j: ID| #[trigger] v.outstanding_reqs.contains_key(j) ==> v.outstanding_reqs[j] != v.lookup_map[a]
    }),
{
    vp_inv_step(v, w, l);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    let cs = choose|s: Cache::Step| Cache::State::next_by(v, w, l, s);
    assert(cs is writeback_initiate);
    let q = l->requests;
    assert(q.contains_value(q[i]));
    let a = q[i]->to;
    let o = IMap::new(|id: ID| q.contains_key(id), |id: ID| v.lookup_map[q[id]->to]);
    assert(o.contains_key(i) && o[i] == v.lookup_map[a]);
    assert(o.contains_value(v.lookup_map[a]));
    assert forall|j: ID| #[trigger] q.contains_key(j) && q[j]->to == a implies j == i by {
        assert(q.contains_value(q[j]));
        assert(q[j] == q[i]);
    }
    vp_slot(v, a);
    assert forall|j: ID| #[trigger] v.outstanding_reqs.contains_key(j) implies v.outstanding_reqs[j] != v.lookup_map[a] by {
        assert(v.busy_slot(v.outstanding_reqs[j]));
    }
}

// a page that is being written back is not written
pub proof fn vp_no_write_while_writing_back(v: C, w: C, l: L, a: Address)
    requires v.inv(), Cache::State::next(v, w, l), vp_page(v, a) is Some, vp_status(v, a) is Writeback,
    ensures !vp_writes(l, a),
{
    if l is Access { vp_access(v, w, l, a); }
}

// pages that may be dropped are on the disk
pub proof fn vp_evictable(v: C, w: C, l: L, a: Address)
    requires v.inv(), Cache::State::next(v, w, l), l is EvictableCheck, l->addrs.contains(a),
    ensures w == v, !vp_unsaved(v, a), vp_page(v, a) is Some ==> vp_status(v, a) is Clean, v.lookup_map.contains_key(a) ==> vp_page(v, a) is Some,
{
    reveal(Cache::State::next); reveal(Cache::State::next_by);
}

// a request is outstanding from when it is sent until it is answered, and for the page it was sent for
pub proof fn vp_request_stays(v: C, w: C, l: L, i: ID)
    requires v.inv(), Cache::State::next(v, w, l),
    ensures
        v.outstanding_reqs.contains_key(i) && !(l is DiskOps && l->responses.contains_key(i)) ==> w.outstanding_reqs.contains_key(i) && w.outstanding_reqs[i] == v.outstanding_reqs[i],
        l is DiskOps && l->responses.contains_key(i) ==> v.outstanding_reqs.contains_key(i) && !w.outstanding_reqs.contains_key(i),
        l is DiskOps && l->requests.contains_key(i) ==> !v.outstanding_reqs.contains_key(i) && w.outstanding_reqs.contains_key(i),
        w.outstanding_reqs.contains_key(i) && !v.outstanding_reqs.contains_key(i) ==> l is DiskOps && l->requests.contains_key(i),
{
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    if l is DiskOps {
        assert(l->responses.dom().contains(i) <==> l->responses.contains_key(i));
        assert(l->requests.dom().contains(i) <==> l->requests.contains_key(i));
        assert(v.outstanding_reqs.dom().contains(i) <==> v.outstanding_reqs.contains_key(i));
    }
}

// ---- what the cache can always do

pub proof fn vp_can_read(v: C, a: Address)
    requires v.inv(), vp_page(v, a) is Some,
    ensures Cache::State::next(v, v, Cache::Label::Access { reads: IMap::empty().insert(a, vp_page(v, a).unwrap()), writes: IMap::empty() }),
{
    let l = Cache::Label::Access { reads: IMap::empty().insert(a, vp_page(v, a).unwrap()), writes: IMap::empty() };
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    assert(v.lookup_map.restrict(l->writes.dom()) =~= IMap::empty());
    let ws = v.lookup_map.restrict(l->writes.dom()).values();
    assert(ws =~= ISet::empty());
    assert(v.entries.union_prefer_right(IMap::new(|s: Slot| ws.contains(s), |s: Slot| Entry::Filled { addr: v.entries[s].get_addr(), data: l->writes[v.entries[s].get_addr()] })) =~= v.entries);
    assert(v.status_map.union_prefer_right(IMap::new(|s: Slot| ws.contains(s), |s: Slot| Status::Dirty)) =~= v.status_map);
    assert(Cache::State::next_by(v, v, l, Cache::Step::access()));
}

pub proof fn vp_can_write(v: C, a: Address, p: RawPage) -> (w: C)
    requires v.inv(), v.lookup_map.contains_key(a), v.entries[v.lookup_map[a]] is Reserved || (vp_page(v, a) is Some && !(vp_status(v, a) is Writeback)),
    ensures Cache::State::next(v, w, Cache::Label::Access { reads: IMap::empty(), writes: IMap::empty().insert(a, p) }),
{
    let l = Cache::Label::Access { reads: IMap::empty(), writes: IMap::empty().insert(a, p) };
    let ws = v.lookup_map.restrict(l->writes.dom()).values();
    let w = Cache::State {
        entries: v.entries.union_prefer_right(IMap::new(|s: Slot| ws.contains(s), |s: Slot| Entry::Filled { addr: v.entries[s].get_addr(), data: l->writes[v.entries[s].get_addr()] })),
        status_map: v.status_map.union_prefer_right(IMap::new(|s: Slot| ws.contains(s), |s: Slot| Status::Dirty)),
        ..v
    };
    // however the code writes the new maps down
    assert(forall |nm: IMap<Slot, Entry>| nm =~= IMap::new(|s: Slot| ws.contains(s), |s: Slot| Entry::Filled { addr: v.entries[s].get_addr(), data: l->writes[v.entries[s].get_addr()] }) ==> #[trigger] v.entries.union_prefer_right(nm) == w.entries);
    assert(forall |nm: IMap<Slot, Status>| nm =~= IMap::new(|s: Slot| ws.contains(s), |s: Slot| Status::Dirty) ==> #[trigger] v.status_map.union_prefer_right(nm) == w.status_map);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    assert(Cache::State::next_by(v, w, l, Cache::Step::access()));
    w
}

// an empty slot can take any page that is not in the cache, for writing or for loading
pub proof fn vp_can_reserve(v: C, s: Slot, a: Address) -> (w: C)
    requires v.inv(), v.entries.contains_key(s), v.entries[s] is Empty, !v.lookup_map.contains_key(a),
    ensures Cache::State::next(v, w, Cache::Label::Internal {}), w.lookup_map.contains_key(a), w.lookup_map[a] == s, w.entries[s] is Reserved,
{
    let m = IMap::empty().insert(s, a);
    let u = IMap::new(|x: Slot| m.contains_key(x), |x: Slot| Entry::Reserved { addr: m[x] });
    let w = Cache::State { entries: v.entries.union_prefer_right(u), lookup_map: v.lookup_map.union_prefer_right(m.invert()), ..v };
    injective_map_property(m);
    assert(m.contains_key(s) && m[s] == a);
    assert(m.contains_value(a));
    assert(v.valid_new_slots_mapping(m)) by {
        assert forall|x: Address| #[trigger] m.values().contains(x) implies x == a by {}
    }
    assert(m.invert().contains_key(a) && m.invert()[a] == s) by { assert(m.contains_key(m.invert()[a]) && m[m.invert()[a]] == a); }
    // however the code writes the new maps down
    assert(forall |nm: IMap<Slot, Entry>| nm =~= u ==> #[trigger] v.entries.union_prefer_right(nm) == w.entries);
    assert(forall |nm: IMap<Address, Slot>| nm =~= m.invert() ==> #[trigger] v.lookup_map.union_prefer_right(nm) == w.lookup_map);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    assert(Cache::State::next_by(v, w, Cache::Label::Internal {}, Cache::Step::reserve(m)));
    w
}

pub proof fn vp_can_load(v: C, s: Slot, a: Address, i: ID) -> (w: C)
    requires v.inv(), v.entries.contains_key(s), v.entries[s] is Empty, !v.lookup_map.contains_key(a), !v.outstanding_reqs.contains_key(i),
        forall|r: DiskRequest| #![trigger r->from] r is WriteReq ==> r->from != a,  // the code reads `from` of a write request, which has none
    ensures
        Cache::State::next(v, w, Cache::Label::DiskOps { requests: IMap::empty().insert(i, DiskRequest::ReadReq { from: a }), responses: empty_responses() }),
        w.outstanding_reqs.contains_key(i), w.outstanding_reqs[i] == s, w.lookup_map[a] == s, w.entries[s] is Loading,
{
    let m = IMap::empty().insert(s, a);
    let q = IMap::empty().insert(i, DiskRequest::ReadReq { from: a });
    let l = Cache::Label::DiskOps { requests: q, responses: empty_responses() };
    let u = IMap::new(|x: Slot| m.contains_key(x), |x: Slot| Entry::Loading { addr: m[x] });
    let o = IMap::new(|x: ID| q.contains_key(x), |x: ID| m.invert()[q[x]->from]);
    let w = Cache::State { entries: v.entries.union_prefer_right(u), lookup_map: v.lookup_map.union_prefer_right(m.invert()), outstanding_reqs: v.outstanding_reqs.union_prefer_right(o), ..v };
    injective_map_property(m);
    assert(m.contains_key(s) && m[s] == a);
    assert(m.contains_value(a));
    assert(q.contains_key(i) && q[i] == DiskRequest::ReadReq { from: a });
    assert(q.contains_value(q[i]));
    assert(q.dom().contains(i));
    assert(v.valid_new_slots_mapping(m)) by {
        assert forall|x: Address| #[trigger] m.values().contains(x) implies x == a by {}
    }
    assert(m.invert().contains_key(a) && m.invert()[a] == s) by { assert(m.contains_key(m.invert()[a]) && m[m.invert()[a]] == a); }
    assert(Cache::State::valid_load_requests(q, m)) by {
        assert forall|r: DiskRequest| #[trigger] q.contains_value(r) <==> m.contains_value(r->from) by {
            if m.contains_value(r->from) { assert(r->from == a); assert(r is ReadReq); assert(r == q[i]); }
            if q.contains_value(r) { let j = choose|j: ID| q.contains_key(j) && #[trigger] q[j] == r; assert(r->from == a); }
        }
    }
    // however the code writes the new maps down
    assert(forall |nm: IMap<Slot, Entry>| nm =~= u ==> #[trigger] v.entries.union_prefer_right(nm) == w.entries);
    assert(forall |nm: IMap<Address, Slot>| nm =~= m.invert() ==> #[trigger] v.lookup_map.union_prefer_right(nm) == w.lookup_map);
    assert(forall |nm: IMap<ID, Slot>| nm =~= o ==> #[trigger] v.outstanding_reqs.union_prefer_right(nm) == w.outstanding_reqs);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    assert(Cache::State::next_by(v, w, l, Cache::Step::load_initiate(m)));
    w
}

pub proof fn vp_can_write_back(v: C, a: Address, i: ID) -> (w: C)
    requires v.inv(), vp_page(v, a) is Some, vp_status(v, a) is Dirty, !v.outstanding_reqs.contains_key(i),
    ensures Cache::State::next(v, w, Cache::Label::DiskOps { requests: IMap::empty().insert(i, DiskRequest::WriteReq { to: a, data: vp_page(v, a).unwrap() }), responses: empty_responses() }),
        w.outstanding_reqs.contains_key(i), w.outstanding_reqs[i] == v.lookup_map[a], vp_status(w, a) is Writeback,
{
    let q = IMap::empty().insert(i, DiskRequest::WriteReq { to: a, data: vp_page(v, a).unwrap() });
    let l = Cache::Label::DiskOps { requests: q, responses: empty_responses() };
    let o = IMap::new(|x: ID| q.contains_key(x), |x: ID| v.lookup_map[q[x]->to]);
    let t = IMap::new(|x: Slot| o.contains_value(x), |x: Slot| Status::Writeback {});
    let w = Cache::State { status_map: v.status_map.union_prefer_right(t), outstanding_reqs: v.outstanding_reqs.union_prefer_right(o), ..v };
    vp_slot(v, a);
    assert(q.contains_key(i) && q[i] == DiskRequest::WriteReq { to: a, data: vp_page(v, a).unwrap() });
    assert(q.dom().contains(i));
    assert(o.contains_key(i) && o[i] == v.lookup_map[a]);
    assert(o.contains_value(v.lookup_map[a]));
    // however the code writes these two maps down
    assert(forall |nm: IMap<Slot, Status>| nm =~= t ==> #[trigger] v.status_map.union_prefer_right(nm) == w.status_map);
    assert(forall |nm: IMap<ID, Slot>| nm =~= o ==> #[trigger] v.outstanding_reqs.union_prefer_right(nm) == w.outstanding_reqs);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    assert(Cache::State::next_by(v, w, l, Cache::Step::writeback_initiate()));
    w
}

pub proof fn vp_can_saved(v: C, a: Address, i: ID) -> (w: C)
    requires v.inv(), vp_page(v, a) is Some, vp_status(v, a) is Writeback, v.outstanding_reqs.contains_key(i), v.outstanding_reqs[i] == v.lookup_map[a],
    ensures Cache::State::next(v, w, Cache::Label::DiskOps { requests: empty_requests(), responses: IMap::empty().insert(i, DiskResponse::WriteResp {}) }),
        vp_page(w, a) == vp_page(v, a), vp_status(w, a) is Clean, !w.outstanding_reqs.contains_key(i),
{
    let r = IMap::empty().insert(i, DiskResponse::WriteResp {});
    let l = Cache::Label::DiskOps { requests: empty_requests(), responses: r };
    let o = v.outstanding_reqs.restrict(r.dom());
    let sl = o.values();
    let t = IMap::new(|x: Slot| sl.contains(x), |x: Slot| Status::Clean);
    let w = Cache::State { status_map: v.status_map.union_prefer_right(t), outstanding_reqs: v.outstanding_reqs.remove_keys(r.dom()), ..v };
    assert(r.dom().contains(i));
    assert(o.contains_key(i) && o[i] == v.lookup_map[a]);
    assert(sl.contains(v.lookup_map[a]));
    // however the code writes the new maps down
    assert(forall |nm: IMap<Slot, Status>| nm =~= t ==> #[trigger] v.status_map.union_prefer_right(nm) == w.status_map);
    assert(forall |nm: ISet<ID>| nm =~= r.dom() ==> #[trigger] v.outstanding_reqs.remove_keys(nm) == w.outstanding_reqs);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    assert(v.valid_writeback_responses(r));
    assert(Cache::State::next_by(v, w, l, Cache::Step::writeback_complete()));
    w
}

pub proof fn vp_can_loaded(v: C, a: Address, i: ID, p: RawPage) -> (w: C)
    requires v.inv(), v.lookup_map.contains_key(a), v.entries[v.lookup_map[a]] is Loading, v.outstanding_reqs.contains_key(i), v.outstanding_reqs[i] == v.lookup_map[a],
    ensures Cache::State::next(v, w, Cache::Label::DiskOps { requests: empty_requests(), responses: IMap::empty().insert(i, DiskResponse::ReadResp { data: p }) }),
        vp_page(w, a) == Some(p), vp_status(w, a) is Clean, !w.outstanding_reqs.contains_key(i),
{
    let r = IMap::empty().insert(i, DiskResponse::ReadResp { data: p });
    let l = Cache::Label::DiskOps { requests: empty_requests(), responses: r };
    let o = v.outstanding_reqs.restrict(r.dom());
    let k = o.invert();
    injective_map_property(o);
    let e = IMap::new(|x: Slot| k.contains_key(x), |x: Slot| Entry::Filled { addr: v.entries[x].get_addr(), data: r[k[x]]->data });
    let t = IMap::new(|x: Slot| k.contains_key(x), |x: Slot| Status::Clean);
    let w = Cache::State { entries: v.entries.union_prefer_right(e), status_map: v.status_map.union_prefer_right(t), outstanding_reqs: v.outstanding_reqs.remove_keys(r.dom()), ..v };
    let s = v.lookup_map[a];
    assert(r.dom().contains(i));
    assert(o.contains_key(i) && o[i] == s);
    assert(o.values().contains(s));
    assert(k.contains_key(s));
    assert(o.contains_key(k[s]) && r.dom().contains(k[s]));
    assert(k[s] == i);
    // however the code writes the new maps down
    assert(forall |nm: IMap<Slot, Entry>| nm =~= e ==> #[trigger] v.entries.union_prefer_right(nm) == w.entries);
    assert(forall |nm: IMap<Slot, Status>| nm =~= t ==> #[trigger] v.status_map.union_prefer_right(nm) == w.status_map);
    assert(forall |nm: ISet<ID>| nm =~= r.dom() ==> #[trigger] v.outstanding_reqs.remove_keys(nm) == w.outstanding_reqs);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    assert(v.valid_load_responses(r));
    assert(Cache::State::next_by(v, w, l, Cache::Step::load_complete()));
    w
}

pub proof fn vp_can_evict(v: C, a: Address) -> (w: C)
    requires v.inv(), vp_page(v, a) is Some, vp_status(v, a) is Clean,
    ensures Cache::State::next(v, w, Cache::Label::Internal {}), !w.lookup_map.contains_key(a), w.entries[v.lookup_map[a]] is Empty,
        Cache::State::next(v, v, Cache::Label::EvictableCheck { addrs: ISet::empty().insert(a) }),
{
    let s = v.lookup_map[a];
    let z = ISet::empty().insert(s);
    vp_slot(v, a);
    let ev = IMap::new(|x: Slot| z.contains(x), |x: Slot| v.entries[x].get_addr());
    let e = IMap::new(|x: Slot| z.contains(x), |x: Slot| Entry::Empty);
    let t = IMap::new(|x: Slot| z.contains(x), |x: Slot| Status::NotFilled);
    let w = Cache::State { entries: v.entries.union_prefer_right(e), status_map: v.status_map.union_prefer_right(t), lookup_map: v.lookup_map.remove_keys(ev.values()), ..v };
    assert(ev.contains_key(s) && ev[s] == a);
    assert(ev.values().contains(a));
    // however the code writes the new maps down
    assert(forall |nm: IMap<Slot, Entry>| nm =~= e ==> #[trigger] v.entries.union_prefer_right(nm) == w.entries);
    assert(forall |nm: IMap<Slot, Status>| nm =~= t ==> #[trigger] v.status_map.union_prefer_right(nm) == w.status_map);
    assert(forall |nm: ISet<Address>| nm =~= ev.values() ==> #[trigger] v.lookup_map.remove_keys(nm) == w.lookup_map);
    reveal(Cache::State::next); reveal(Cache::State::next_by);
    assert(Cache::State::next_by(v, w, Cache::Label::Internal {}, Cache::Step::evict(z)));
    assert(Cache::State::next_by(v, v, Cache::Label::EvictableCheck { addrs: ISet::empty().insert(a) }, Cache::Step::evictable()));
    w
}

pub proof fn vp_empty_cache(c: C, n: nat)
    requires Cache::State::initialize(c, n),
    ensures c.inv(), forall|a: Address| !#[trigger] c.lookup_map.contains_key(a), forall|s: Slot| s < n ==> #[trigger] c.entries[s] is Empty && c.entries.contains_key(s),
{
    Cache::State::initialize_inductive(c, n);
}

proof fn vpfail_inv(v: C) requires v.inv(), ensures false, { v.build_lookup_map_ensures(); }
proof fn vpfail_step(v: C, w: C, l: L) requires v.inv(), Cache::State::next(v, w, l), l is DiskOps, ensures false, { vp_inv_step(v, w, l); w.build_lookup_map_ensures(); }
proof fn vpfail_write(v: C, w: C, l: L, a: Address) requires v.inv(), Cache::State::next(v, w, l), vp_writes(l, a), ensures false, { vp_access(v, w, l, a); }
}
