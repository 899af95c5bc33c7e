//@ in: implementation/MultisetMapRelation_v.rs
use vstd::prelude::*;
use crate::implementation::DiskLayout_v::*;
use crate::spec::AsyncDisk_t::*;
use crate::spec::MapSpec_t::*;
use crate::spec::FloatingSeq_t::*;
use crate::spec::TotalKMMap_t::*;
use vstd::multiset::Multiset;
verus! {

// outstanding disk operations as a bag of (identifier, operation), read as a map

pub open spec fn vp_unique<K, V>(m: Multiset<(K, V)>) -> bool {
    &&& forall|p: (K, V)| #[trigger] m.count(p) > 0 ==> m.count(p) == 1
    &&& forall|p: (K, V), q: (K, V)| #[trigger] m.count(p) > 0 && #[trigger] m.count(q) > 0 && p.0 == q.0 ==> p == q
}

pub proof fn vp_same_unique<K, V>(m: Multiset<(K, V)>)
    ensures unique_keys(m) == vp_unique(m),
{
    if unique_keys(m) {
        assert forall|p: (K, V)| #[trigger] m.count(p) > 0 implies m.count(p) == 1 by { assert(m.contains(p)); }
        assert forall|p: (K, V), q: (K, V)| #[trigger] m.count(p) > 0 && #[trigger] m.count(q) > 0 && p.0 == q.0 implies p == q by { assert(m.contains(p)); assert(m.contains(q)); }
    }
    if vp_unique(m) {
        assert forall|e: (K, V)| #[trigger] m.contains(e) implies m.count(e) == 1 by {}
        assert forall|p: (K, V), q: (K, V)| #[trigger] m.contains(p) && #[trigger] m.contains(q) implies p == q || p.0 != q.0 by { assert(m.count(p) > 0 && m.count(q) > 0); }
    }
}

pub proof fn vp_map_is<K, V>(m: Multiset<(K, V)>, k: K)
    requires vp_unique(m),
    ensures
        multiset_to_map(m).contains_key(k) <==> exists|v: V| #[trigger] m.count((k, v)) > 0,
        forall|v: V| #[trigger] m.count((k, v)) > 0 ==> multiset_to_map(m)[k] == v,
        multiset_to_map(m).contains_key(k) ==> m.count((k, multiset_to_map(m)[k])) == 1,
{
    let f = multiset_to_map(m);
    if f.contains_key(k) {
        let pr = choose|pr: (K, V)| #[trigger] m.contains(pr) && pr.0 == k;
        assert(m.contains(pr));
        assert(pr == (k, pr.1));
        assert(m.count((k, pr.1)) > 0);
        assert(f[k] == pr.1);
    }
    assert forall|v: V| #[trigger] m.count((k, v)) > 0 implies f.contains_key(k) && f[k] == v by {
        assert(m.contains((k, v)));
        let pr = choose|pr: (K, V)| #[trigger] m.contains(pr) && pr.0 == k;
        assert(m.contains(pr) && m.count(pr) > 0);
    }
}

pub proof fn vp_insert<K, V>(m: Multiset<(K, V)>, k: K, v: V)
    requires vp_unique(m), forall|w: V| m.count((k, w)) == 0,
    ensures vp_unique(m.insert((k, v))), multiset_to_map(m.insert((k, v))) == multiset_to_map(m).insert(k, v),
{
    vp_same_unique(m);
    vp_map_is(m, k);
    unique_multiset_map_insert_equiv(m, k, v);
    vp_same_unique(m.insert((k, v)));
}

pub proof fn vp_remove<K, V>(m: Multiset<(K, V)>, k: K, v: V)
    requires vp_unique(m), m.count((k, v)) > 0,
    ensures vp_unique(m.remove((k, v))), multiset_to_map(m.remove((k, v))) == multiset_to_map(m).remove(k),
{
    vp_same_unique(m);
    assert(m.contains((k, v)));
    unique_multiset_map_remove_equiv(m, k, v);
    vp_same_unique(m.remove((k, v)));
}

pub proof fn vp_singleton<K, V>(k: K, v: V)
    ensures multiset_map_singleton(k, v).count((k, v)) == 1,
        forall|p: (K, V)| p != (k, v) ==> multiset_map_singleton(k, v).count(p) == 0,
        multiset_to_map(multiset_map_singleton(k, v)) == IMap::<K, V>::empty().insert(k, v),
        all_elems_single(multiset_map_singleton(k, v)),
{
    multiset_map_singleton_ensures(k, v);
}

// a new disk holds the empty store, version 0, at the superblock's address
pub proof fn vp_mkfs(d: Disk)
    requires mkfs(d),
    ensures d.contains_key(Address { au: 0, page: 0 }),
        d[Address { au: 0, page: 0 }] == spec_marshall(Superblock { store: PersistentState { appv: my_init() }, version_index: 0 }),
{
}

pub proof fn vp_mkfs_possible(d: Disk)
    ensures mkfs(d.insert(Address { au: 0, page: 0 }, spec_marshall(Superblock { store: PersistentState { appv: my_init() }, version_index: 0 }))),
        spec_superblock_addr() == (Address { au: 0, page: 0 }),
{
}

pub proof fn vp_one_version(at: nat, m: TotalKMMap)
    ensures singleton_floating_seq(at, m).start == at,
        singleton_floating_seq(at, m).entries =~= seq![PersistentState { appv: MapSpec::State { kmmap: m } }],
{
}

pub proof fn vpfail_unique<K, V>(m: Multiset<(K, V)>, k: K, v: V)
    requires vp_unique(m), m.count((k, v)) > 0,
    ensures false,
{
}
}
