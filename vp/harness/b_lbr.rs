//@ in: betree/LinkedBranch_v/Refinement_v.rs
use crate::betree::PivotBranchRefinement_v::vp_h_b_pbr as P;
use crate::betree::Utils_v::*;
use crate::disk::GenericDisk_v::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
verus! {
type Br<T> = LinkedBranch<T>;

// ---- what a stored tree holds: the pairs in the leaves its root reaches
pub open spec fn vp_in_leaf<T>(n: Node<T>, k: Key, m: Message) -> bool {
    n is Leaf && exists|i: int| 0 <= i < n->keys.len() && 0 <= i < n->msgs.len() && #[trigger] n->keys[i] == k && n->msgs[i] == m
}
pub open spec fn vp_stores<T>(b: Br<T>, k: Key, m: Message) -> bool {
    exists|a: Address| #[trigger] b.representation().contains(a) && vp_in_leaf(b.disk_view.entries[a], k, m)
}
proof fn vp_up<T>(b: Br<T>, rk: Ranking, a: Address, k: Key, m: Message)
    requires b.wf(), b.valid_ranking(rk), b.reachable_addrs_using_ranking(rk).contains(a), vp_in_leaf(b.disk_view.entries[a], k, m),
    ensures P::vp_holds(b.i_internal(rk), k, m),
    decreases b.get_rank(rk)
{
    broadcast use {lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    if b.root() is Leaf {
        assert(a == b.root);
        let n = b.root();
        let i = choose|i: int| 0 <= i < n->keys.len() && 0 <= i < n->msgs.len() && #[trigger] n->keys[i] == k && n->msgs[i] == m;
        assert(b.i_internal(rk)->keys[i] == k);
    } else {
        assert(a != b.root);
        let s = b.children_reachable_addrs_using_ranking(rk);
        lemma_union_seq_of_sets_contains(s, a);
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contains(a);
        assert(b.root().valid_child_index(i));
        vp_up(b.child_at_idx(i), rk, a, k, m);
        assert(b.i_internal(rk)->children[i] == b.child_at_idx(i).i_internal(rk));
    }
}
proof fn vp_down<T>(b: Br<T>, rk: Ranking, k: Key, m: Message) -> (a: Address)
    requires b.wf(), b.valid_ranking(rk), P::vp_holds(b.i_internal(rk), k, m),
    ensures b.reachable_addrs_using_ranking(rk).contains(a) && vp_in_leaf(b.disk_view.entries[a], k, m),
    decreases b.get_rank(rk)
{
    broadcast use {lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    if b.root() is Leaf {
        let n = b.i_internal(rk);
        let i = choose|i: int| 0 <= i < n->keys.len() && 0 <= i < n->msgs.len() && #[trigger] n->keys[i] == k && n->msgs[i] == m;
        assert(b.root()->keys[i] == k);
        b.root
    } else {
        let n = b.i_internal(rk);
        let i = choose|i: int| 0 <= i < n->children.len() && P::vp_holds(#[trigger] n->children[i], k, m);
        assert(b.root().valid_child_index(i));
        let a = vp_down(b.child_at_idx(i), rk, k, m);
        let s = b.children_reachable_addrs_using_ranking(rk);
        assert(s[i].contains(a));
        lemma_set_subset_of_union_seq_of_sets(s, a);
        a
    }
}
// a search through the disk finds what is stored, and nothing else
pub proof fn vp_lsearch<T>(b: Br<T>, k: Key, m: Message)
    requires b.inv(),
    ensures b.i().wf(), b.query(k) == b.i().query(k),
        vp_stores(b, k, m) <==> P::vp_holds(b.i(), k, m),
        vp_stores(b, k, m) ==> b.query(k) == m,
        (exists|x: Message| vp_stores(b, k, x)) ==> vp_stores(b, k, b.query(k)),
        !(exists|x: Message| vp_stores(b, k, x)) ==> b.query(k) == (Message::Update{delta: nop_delta()}),
{
    broadcast use {lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    i_wf(b);
    query_refines(b, k, b.query(k));
    PivotBranchRefinement_v::query_refines(b.i(), PivotBranchRefinement_v::QueryLabel{key: k, msg: b.i().query(k)});
    vp_same(b, k, m);
    P::vp_search(b.i(), k, m);
    P::vp_search(b.i(), k, b.query(k));
    vp_same(b, k, b.query(k));
    if exists|x: Message| vp_stores(b, k, x) {
        let x = choose|x: Message| vp_stores(b, k, x);
        vp_same(b, k, x); assert(P::vp_has(b.i(), k));
    } else if P::vp_has(b.i(), k) {
        let x = choose|x: Message| P::vp_holds(b.i(), k, x);
        vp_same(b, k, x);
    }
}
proof fn vp_same<T>(b: Br<T>, k: Key, m: Message) requires b.inv(), ensures vp_stores(b, k, m) <==> P::vp_holds(b.i(), k, m) {
    broadcast use {lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    let rk = b.the_ranking();
    if vp_stores(b, k, m) {
        let a = choose|a: Address| #[trigger] b.representation().contains(a) && vp_in_leaf(b.disk_view.entries[a], k, m);
        vp_up(b, rk, a, k, m);
    }
    if P::vp_holds(b.i(), k, m) { let a = vp_down(b, rk, k, m); assert(b.representation().contains(a)); }
}
// every page of the tree is on the disk, and a tree means the same on any larger disk
pub proof fn vp_pages<T>(b: Br<T>, a: Address) requires b.inv(), b.representation().contains(a), ensures b.disk_view.entries.contains_key(a) {
    lemma_reachable_implies_valid_address(b, b.the_ranking(), a);
}
pub proof fn vp_larger_disk<T>(b: Br<T>, c: Br<T>, k: Key)
    requires b.inv(), c.acyclic(), b.root == c.root, b.disk_view.is_sub_disk(c.disk_view),
    ensures c.i() == b.i(), c.inv(), c.query(k) == b.query(k),
{
    broadcast use {lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    b.subdisk_same_i_internal(b.the_ranking(), c, c.the_ranking());
    i_wf(b);
    assert(c.i() == b.i());
    lemma_i_wf_implies_inv(c, c.the_ranking());
    vp_lsearch(b, k, b.query(k)); vp_lsearch(c, k, c.query(k));
}
// ---- building
pub enum VpLe<T> { Insert{key: Key, msg: Message, path: Path<T>}, Append{keys: Seq<Key>, msgs: Seq<Message>, path: Path<T>}, Grow{addr: Address}, Split{addr: Address, path: Path<T>, arg: SplitArg} }
pub open spec fn vp_can<T>(b: Br<T>, e: VpLe<T>) -> bool {
    match e {
        VpLe::Insert{key, msg, path} => b.can_insert(key, msg, path),
        VpLe::Append{keys, msgs, path} => b.can_append(keys, msgs, path),
        VpLe::Grow{addr} => b.can_grow(addr),
        VpLe::Split{addr, path, arg} => b.can_split(addr, path, arg),
    }
}
pub open spec fn vp_do<T>(b: Br<T>, e: VpLe<T>) -> Br<T> {
    match e {
        VpLe::Insert{key, msg, path} => b.insert(key, msg, path),
        VpLe::Append{keys, msgs, path} => b.append(keys, msgs, path),
        VpLe::Grow{addr} => b.grow(addr),
        VpLe::Split{addr, path, arg} => b.split(addr, path, arg),
    }
}
pub open spec fn vp_writes<T>(e: VpLe<T>, k: Key, m: Message) -> bool {
    match e {
        VpLe::Insert{key, msg, path} => k == key && m == msg,
        VpLe::Append{keys, msgs, path} => exists|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == k && msgs[i] == m,
        _ => false,
    }
}
pub open spec fn vp_writes_key<T>(e: VpLe<T>, k: Key) -> bool { exists|m: Message| vp_writes(e, k, m) }
// pages an event may add or change
pub open spec fn vp_adds<T>(e: VpLe<T>) -> ISet<Address> {
    match e { VpLe::Grow{addr} => iset![addr], VpLe::Split{addr, path, arg} => iset![addr], _ => iset![] }
}
pub open spec fn vp_changes<T>(e: VpLe<T>) -> ISet<Address> {
    match e {
        VpLe::Insert{key, msg, path} => iset![path.target().root],
        VpLe::Append{keys, msgs, path} => iset![path.target().root],
        VpLe::Grow{addr} => iset![addr],
        VpLe::Split{addr, path, arg} => iset![addr, path.target().root, path.target().root()->children[path.target().root().route(arg.get_pivot()) + 1]],
    }
}
pub open spec fn vp_iev<T>(b: Br<T>, e: VpLe<T>) -> P::VpEv {
    match e {
        VpLe::Insert{key, msg, path} => P::VpEv::Insert{key, msg, path: path.i()},
        VpLe::Append{keys, msgs, path} => P::VpEv::Append{keys, msgs, path: path.i()},
        VpLe::Grow{addr} => P::VpEv::Grow,
        VpLe::Split{addr, path, arg} => P::VpEv::Split{path: path.i(), arg: arg.i()},
    }
}
proof fn vp_equiv<T>(p: Path<T>, rk: Ranking, k: Key)
    requires p.valid(), inv_internal(p.branch, rk), p.path_equiv(k),
    ensures p.i_internal(rk).path_equiv(k),
    decreases p.depth
{
    broadcast use {lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    assert(p.branch.root().route(p.key) == p.branch.i_internal(rk).route(p.key));
    assert(p.branch.root().route(k) == p.branch.i_internal(rk).route(k));
    if p.depth > 0 {
        let r = p.branch.root().route(p.key) + 1;
        assert(p.branch.root().valid_child_index(r));
        vp_equiv(p.subpath(), rk, k);
        assert(p.i_internal(rk).subpath() == p.subpath().i_internal(rk));
    }
}
// a step on disk is the same step on the tree it denotes
pub proof fn vp_lstep<T>(b: Br<T>, e: VpLe<T>)
    requires b.inv(), vp_can(b, e),
    ensures vp_do(b, e).inv(), b.i().wf(), P::vp_can(b.i(), vp_iev(b, e)), vp_do(b, e).i() == P::vp_do(b.i(), vp_iev(b, e)),
{
    broadcast use {lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    let rk = b.the_ranking();
    i_wf(b);
    match e {
        VpLe::Insert{key, msg, path} => { insert_refines(b, key, msg, path); lemma_path_i_valid(path, rk); lemma_path_target(path, rk); }
        VpLe::Append{keys, msgs, path} => { append_refines(b, keys, msgs, path); lemma_path_i_valid(path, rk); lemma_path_target(path, rk); vp_equiv(path, rk, keys.last()); }
        VpLe::Grow{addr} => { grow_refines(b, addr); }
        VpLe::Split{addr, path, arg} => {
            path.target_ensures();
            let t = path.target();
            assert(b.disk_view.is_fresh(iset![addr]));
            split_refines(b, addr, path, arg); lemma_path_i_valid(path, rk); lemma_path_target(path, rk);
            vp_target_inv(path, rk);
            let pt = path.i().target();
            assert(pt == t.i_internal(rk));
            i_internal_wf(t, rk);
            let c = t.root().route(arg.get_pivot()) + 1;
            assert(t.root().valid_child_index(c));
            assert(pt->children[c] == t.child_at_idx(c).i_internal(rk));
            assert(pt->children[c].wf());
            assert(pt.route(arg.get_pivot()) + 1 == c);
        }
    }
}
proof fn vp_target_inv<T>(p: Path<T>, rk: Ranking)
    requires p.valid(), inv_internal(p.branch, rk),
    ensures inv_internal(p.target(), rk),
    decreases p.depth
{
    broadcast use {lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    if p.depth > 0 {
        let r = p.branch.root().route(p.key) + 1;
        assert(p.branch.root().valid_child_index(r));
        vp_target_inv(p.subpath(), rk);
    }
}
pub proof fn vp_levent<T>(b: Br<T>, e: VpLe<T>, k: Key, m: Message)
    requires b.inv(), vp_can(b, e),
    ensures
        vp_do(b, e).inv(),
        // searches: what was written is found, everything else is as before
        vp_writes(e, k, m) ==> vp_do(b, e).query(k) == m && vp_stores(vp_do(b, e), k, m),
        !vp_writes_key(e, k) ==> vp_do(b, e).query(k) == b.query(k) && (vp_stores(vp_do(b, e), k, m) <==> vp_stores(b, k, m)),
{
    let w = vp_do(b, e);
    vp_lstep(b, e);
    let pe = vp_iev(b, e);
    P::vp_event(b.i(), pe, k, m);
    assert(P::vp_writes(pe, k, m) == vp_writes(e, k, m));
    assert(vp_writes_key(e, k) == P::vp_writes_key(pe, k)) by {
        if vp_writes_key(e, k) { let x = choose|x: Message| vp_writes(e, k, x); assert(P::vp_writes(pe, k, x)); }
        if P::vp_writes_key(pe, k) { let x = choose|x: Message| P::vp_writes(pe, k, x); assert(vp_writes(e, k, x)); }
    }
    vp_lsearch(b, k, m); vp_lsearch(w, k, m);
    P::vp_search(b.i(), k, m); P::vp_search(w.i(), k, m);
    if vp_writes(e, k, m) { let x = choose|x: Message| P::vp_holds(w.i(), k, x); P::vp_search(w.i(), k, x); }
}
// pages: only the announced ones appear, only the announced ones change
pub proof fn vp_lpages<T>(b: Br<T>, e: VpLe<T>)
    requires b.inv(), vp_can(b, e),
    ensures
        vp_do(b, e).disk_view.entries.dom() == b.disk_view.entries.dom() + vp_adds(e),
        vp_adds(e).disjoint(b.disk_view.entries.dom()),
        forall|a: Address| #[trigger] b.disk_view.entries.contains_key(a) && !vp_changes(e).contains(a) ==> vp_do(b, e).disk_view.entries[a] == b.disk_view.entries[a],
{
    broadcast use {crate::vp_lib::vp_group, lemma_route_ensures};
    let w = vp_do(b, e);
    match e {
        VpLe::Insert{key, msg, path} => { path.target_ensures(); lemma_path_target(path, b.the_ranking()); assert(w.disk_view.entries.dom() =~= b.disk_view.entries.dom() + vp_adds(e)); }
        VpLe::Append{keys, msgs, path} => { path.target_ensures(); lemma_path_target(path, b.the_ranking()); assert(w.disk_view.entries.dom() =~= b.disk_view.entries.dom() + vp_adds(e)); }
        VpLe::Grow{addr} => { assert(iset![addr].contains(addr)); assert(w.disk_view.entries.dom() =~= b.disk_view.entries.dom() + vp_adds(e)); }
        VpLe::Split{addr, path, arg} => {
            path.target_ensures();
            split_refines(b, addr, path, arg);
            assert(iset![addr].contains(addr));
            assert(w.disk_view.entries.dom() =~= b.disk_view.entries.dom() + vp_adds(e));
            let except = vp_changes(e);
            assert(except =~= iset![path.target().root, path.target().root()->children[path.target().root().route(arg.get_pivot()) + 1], addr]);
            assert forall|a: Address| #[trigger] b.disk_view.entries.contains_key(a) && !vp_changes(e).contains(a) implies w.disk_view.entries[a] == b.disk_view.entries[a] by {
                assert(b.disk_view.entries.remove_keys(except).contains_key(a));
                assert(b.disk_view.entries.remove_keys(except)[a] == w.disk_view.entries.remove_keys(except)[a]);
            }
        }
    }
}
pub open spec fn vp_at<T>(s: Seq<Br<T>>, t: Seq<VpLe<T>>, i: int) -> bool { vp_can(s[i], t[i]) && s[i + 1] == vp_do(s[i], t[i]) }
pub open spec fn vp_build<T>(s: Seq<Br<T>>, t: Seq<VpLe<T>>) -> bool {
    s.len() == t.len() + 1 && forall|i: int| 0 <= i < t.len() ==> #[trigger] vp_at(s, t, i)
}
pub proof fn vp_every_build<T>(s: Seq<Br<T>>, t: Seq<VpLe<T>>, n: nat, j: nat, k: Key, m: Message)
    requires vp_build(s, t), s[0].inv(), j <= n <= t.len(), forall|i: int| j <= i < n ==> !vp_writes_key(#[trigger] t[i], k),
    ensures s[n as int].inv(), s[n as int].query(k) == s[j as int].query(k),
        j > 0 && vp_writes(t[j - 1], k, m) ==> s[n as int].query(k) == m,
    decreases n
{
    if n > j {
        vp_every_build(s, t, (n - 1) as nat, j, k, m);
        let i = n - 1;
        assert(vp_at(s, t, i)); assert(!vp_writes_key(t[i], k));
        vp_levent(s[i], t[i], k, m);
    } else if n > 0 {
        vp_every_build(s, t, (n - 1) as nat, (n - 1) as nat, k, m);
        let i = n - 1;
        assert(vp_at(s, t, i));
        vp_levent(s[i], t[i], k, m);
    }
}
// a single sorted leaf is a tree
pub proof fn vp_leaf<T>(a: Address, keys: Seq<Key>, msgs: Seq<Message>)
    requires keys.len() > 0, keys.len() == msgs.len(), Key::is_strictly_sorted(keys),
    ensures (LinkedBranch::<T>{root: a, disk_view: DiskView{entries: imap![a => Node::Leaf{keys, msgs}]}}).inv(),
{
    broadcast use {crate::vp_lib::vp_group, lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    let b = LinkedBranch::<T>{root: a, disk_view: DiskView{entries: imap![a => Node::Leaf{keys, msgs}]}};
    assert(b.root() is Leaf);
    assert(b.valid_ranking(imap![a => 1nat]));
}
// ---- every key can be inserted, every full enough leaf can be split
pub proof fn vp_leaf_for<T>(b: Br<T>, rk: Ranking, k: Key) -> (d: nat)
    requires inv_internal(b, rk),
    ensures ({ let p = Path{branch: b, key: k, depth: d}; p.valid() && p.target().root() is Leaf }),
    decreases b.get_rank(rk)
{
    broadcast use {lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    if b.root() is Leaf { 0 } else {
        let r = b.root().route(k) + 1;
        assert(b.root().valid_child_index(r));
        let d = vp_leaf_for(b.child_at_idx(r), rk, k);
        let p = Path{branch: b, key: k, depth: d + 1};
        assert(p.subpath() == (Path{branch: b.child_at_idx(r), key: k, depth: d}));
        d + 1
    }
}
pub proof fn vp_can_insert<T>(b: Br<T>, k: Key, m: Message) requires b.inv(), ensures exists|p: Path<T>| b.can_insert(k, m, p) {
    let d = vp_leaf_for(b, b.the_ranking(), k);
    assert(b.can_insert(k, m, Path{branch: b, key: k, depth: d}));
}
pub proof fn vp_can_grow<T>(b: Br<T>, a: Address) requires b.inv(), !b.disk_view.entries.contains_key(a), ensures b.can_grow(a) {}
// a leaf below an index node, with two keys, can be split at any key but its first
pub proof fn vp_can_split<T>(b: Br<T>, p: Path<T>, a: Address, j: int)
    requires b.inv(), p.valid(), p.branch == b, p.target().root() is Index, !b.disk_view.entries.contains_key(a),
        ({ let c = p.target().child_at_idx(p.target().root().route(p.key) + 1); c.root() is Leaf && 0 < j < c.root()->keys.len() && c.root()->keys[j] == p.key }),
    ensures b.can_split(a, p, SplitArg::SplitLeaf{pivot: p.key}),
{
    broadcast use {lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    let rk = b.the_ranking();
    p.target_ensures(); vp_target_inv(p, rk);
    let t = p.target();
    let i = t.root().route(p.key) + 1;
    assert(t.root().valid_child_index(i));
    let c = t.child_at_idx(i);
    i_internal_wf(c, rk);
    P::vp_can_split_leaf(c.i_internal(rk), j);
}
pub proof fn vpfail_event<T>(b: Br<T>, e: VpLe<T>, k: Key) requires b.inv(), vp_can(b, e), ensures vp_do(b, e).query(k) == b.query(k) { vp_levent(b, e, k, b.query(k)); }
} // verus!
