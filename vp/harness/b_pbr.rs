//@ in: betree/PivotBranchRefinement_v.rs
verus! {
broadcast use Node::route_ensures;
// ---- what a B+ tree holds, without any searching
pub open spec fn vp_holds(n: Node, k: Key, m: Message) -> bool decreases n {
    match n {
        Node::Leaf{keys, msgs} => exists|i: int| 0 <= i < keys.len() && 0 <= i < msgs.len() && #[trigger] keys[i] == k && msgs[i] == m,
        Node::Index{pivots, children} => exists|i: int| 0 <= i < children.len() && vp_holds(#[trigger] children[i], k, m),
    }
}
pub open spec fn vp_has(n: Node, k: Key) -> bool { exists|m: Message| vp_holds(n, k, m) }
// every key in a child lies between the pivots around it: stored keys are in all_keys
pub proof fn vp_holds_key(n: Node, k: Key, m: Message) requires n.wf(), vp_holds(n, k, m), ensures n.all_keys().contains(k) decreases n {
    match n {
        Node::Leaf{keys, msgs} => {
            let i = choose|i: int| 0 <= i < keys.len() && 0 <= i < msgs.len() && #[trigger] keys[i] == k && msgs[i] == m;
            assert(keys.to_set().contains(keys[i]));
        }
        Node::Index{pivots, children} => {
            let i = choose|i: int| 0 <= i < children.len() && vp_holds(#[trigger] children[i], k, m);
            vp_holds_key(children[i], k, m);
            assert(n.children_keys().contains(k));
        }
    }
}
// the child a search goes to is the only one that can hold the key
pub proof fn vp_only_child(n: Node, k: Key, i: int)
    requires n.wf(), n is Index, 0 <= i < n->children.len(), n->children[i].all_keys().contains(k),
    ensures i == n.route(k) + 1
{
    n.route_ensures(k);
    let r = n.route(k);
    if i < r + 1 { assert(n.all_keys_below_bound(i)); assert(Key::lte(n->pivots[i], k)); assert(Key::lt(k, n->pivots[i])); }
    if i > r + 1 { assert(n.all_keys_above_bound(i)); assert(Key::lt(k, n->pivots[i - 1])); assert(Key::lte(n->pivots[i - 1], k)); }
}
// a search finds what is held, and nothing else
pub proof fn vp_search(n: Node, k: Key, m: Message)
    requires n.wf(),
    ensures
        vp_holds(n, k, m) ==> n.query(k) == m && n.i().map.contains_key(k) && n.i().map[k] == m,
        n.i().map.contains_key(k) ==> vp_holds(n, k, n.query(k)) && n.i().map[k] == n.query(k),
        !n.i().map.contains_key(k) ==> n.query(k) == (Message::Update{delta: nop_delta()}),
        vp_has(n, k) <==> n.i().map.contains_key(k),
    decreases n
{
    n.route_ensures(k);
    let r = n.route(k);
    match n {
        Node::Leaf{keys, msgs} => {
            if vp_holds(n, k, m) {
                let i = choose|i: int| 0 <= i < keys.len() && 0 <= i < msgs.len() && #[trigger] keys[i] == k && msgs[i] == m;
                assert(keys.contains(keys[i]));
                Key::strictly_sorted_implies_unique(keys);
                assert(i == r) by { if i < r { assert(Key::lt(keys[i], keys[r])); } if r < i { assert(Key::lt(keys[r], keys[i])); } }
            }
            if n.i().map.contains_key(k) { assert(keys.contains(k)); assert(keys[r] == k); assert(vp_holds(n, k, msgs[r])); }
            else { if r >= 0 && keys[r] == k { assert(keys.contains(k)); } }
            if vp_has(n, k) {
                let x = choose|x: Message| vp_holds(n, k, x);
                let i = choose|i: int| 0 <= i < keys.len() && 0 <= i < msgs.len() && #[trigger] keys[i] == k && msgs[i] == x;
                assert(keys.contains(keys[i]));
            }
        }
        Node::Index{pivots, children} => {
            assert(0 <= r + 1 < children.len());
            let c = children[r + 1];
            assert(c.wf());
            vp_search(c, k, m);
            vp_index_i(n, k);
            if vp_holds(n, k, m) {
                let i = choose|i: int| 0 <= i < children.len() && vp_holds(#[trigger] children[i], k, m);
                vp_holds_key(children[i], k, m); vp_only_child(n, k, i);
            }
            if vp_has(n, k) {
                let x = choose|x: Message| vp_holds(n, k, x);
                let i = choose|i: int| 0 <= i < children.len() && vp_holds(#[trigger] children[i], k, x);
                vp_holds_key(children[i], k, x); vp_only_child(n, k, i);
                vp_search(c, k, x);
            }
            if n.i().map.contains_key(k) { assert(vp_holds(children[r + 1], k, c.query(k))); assert(vp_holds(n, k, n.query(k))); }
        }
    }
}
pub proof fn vp_index_i(n: Node, k: Key)
    requires n.wf(), n is Index,
    ensures ({ let c = n->children[n.route(k) + 1];
        n.i().map.contains_key(k) == c.i().map.contains_key(k) && (c.i().map.contains_key(k) ==> n.i().map[k] == c.i().map[k]) })
{
    let r = n.route(k);
    let pivots = n->pivots; let children = n->children;
    assert(children[r + 1].wf());
    assert(n.i().query(k) == children[r + 1].i().query(k));
    assert(n.i().map.contains_key(k) == children[r + 1].i().map.contains_key(k));
}
// ---- building a tree: leaves are started, filled and split, the tree grows at the root
pub enum VpEv { Insert{key: Key, msg: Message, path: Path}, Append{keys: Seq<Key>, msgs: Seq<Message>, path: Path}, Grow, Split{path: Path, arg: SplitArg} }
pub open spec fn vp_can(n: Node, e: VpEv) -> bool {
    match e {
        VpEv::Insert{key, msg, path} => path.valid() && path.node == n && path.key == key && path.target() is Leaf,
        VpEv::Append{keys, msgs, path} => {
            &&& path.valid() && path.node == n && keys.len() > 0 && keys.len() == msgs.len()
            &&& Key::is_strictly_sorted(keys)
            &&& path.target() is Leaf
            &&& Key::lt(path.target()->keys.last(), keys[0])
            &&& path.key == keys[0]
            &&& path.path_equiv(keys.last())
        }
        VpEv::Grow => true,
        VpEv::Split{path, arg} => path.valid() && path.node == n && path.key == arg.get_pivot() && path.target().can_split_child_of_index(arg),
    }
}
pub open spec fn vp_do(n: Node, e: VpEv) -> Node {
    match e {
        VpEv::Insert{key, msg, path} => n.insert(key, msg, path),
        VpEv::Append{keys, msgs, path} => n.append(keys, msgs, path),
        VpEv::Grow => n.grow(),
        VpEv::Split{path, arg} => n.split(path, arg),
    }
}
// what the event writes for a key, if anything
pub open spec fn vp_writes(e: VpEv, k: Key, m: Message) -> bool {
    match e {
        VpEv::Insert{key, msg, path} => k == key && m == msg,
        VpEv::Append{keys, msgs, path} => exists|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == k && msgs[i] == m,
        _ => false,
    }
}
pub open spec fn vp_writes_key(e: VpEv, k: Key) -> bool { exists|m: Message| vp_writes(e, k, m) }
pub proof fn vp_event(n: Node, e: VpEv, k: Key, m: Message)
    requires n.wf(), vp_can(n, e),
    ensures
        vp_do(n, e).wf(),
        vp_writes(e, k, m) ==> vp_do(n, e).query(k) == m && vp_has(vp_do(n, e), k),
        !vp_writes_key(e, k) ==> vp_do(n, e).query(k) == n.query(k) && vp_has(vp_do(n, e), k) == vp_has(n, k),
{
    let w = vp_do(n, e);
    match e {
        VpEv::Insert{key, msg, path} => {
            insert_refines(n, InsertLabel{key, msg, path});
            if k == key { assert(vp_writes(e, k, msg)); }
        }
        VpEv::Append{keys, msgs, path} => {
            append_refines(n, AppendLabel{keys, msgs, path});
            let l = Node::Leaf{keys, msgs};
            assert(l.wf());
            l.route_ensures(k);
            let r = l.route(k);
            if keys.contains(k) { assert(keys[r] == k); assert(vp_writes(e, k, msgs[r])); }
            if vp_writes_key(e, k) {
                let x = choose|x: Message| vp_writes(e, k, x);
                let i = choose|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == k && msgs[i] == x;
                assert(keys.contains(keys[i]));
            }
            if vp_writes(e, k, m) {
                let i = choose|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == k && msgs[i] == m;
                assert(keys.contains(keys[i]));
                assert(i == r) by { if i < r { assert(Key::lt(keys[i], keys[r])); } if r < i { assert(Key::lt(keys[r], keys[i])); } }
            }
        }
        VpEv::Grow => { grow_refines(n, InternalLabel{}); }
        VpEv::Split{path, arg} => { split_refines(n, path, arg); }
    }
    vp_search(n, k, n.query(k)); vp_search(w, k, w.query(k));
}
pub open spec fn vp_build(s: Seq<Node>, t: Seq<VpEv>) -> bool {
    s.len() == t.len() + 1 && forall|i: int| 0 <= i < t.len() ==> vp_can(#[trigger] s[i], t[i]) && s[i + 1] == vp_do(s[i], t[i])
}
// in any construction, a search answers with the last message written for the key, or with none
pub proof fn vp_every_build(s: Seq<Node>, t: Seq<VpEv>, n: nat, j: nat, k: Key, m: Message)
    requires vp_build(s, t), s[0].wf(), j <= n <= t.len(), forall|i: int| j <= i < n ==> !vp_writes_key(#[trigger] t[i], k),
    ensures s[n as int].wf(),
        s[n as int].query(k) == s[j as int].query(k),
        j > 0 && vp_writes(t[j - 1], k, m) ==> s[n as int].query(k) == m,
    decreases n
{
    if n > j {
        vp_every_build(s, t, (n - 1) as nat, j, k, m);
        let i = n - 1;
        assert(vp_can(s[i], t[i]));
        assert(!vp_writes_key(t[i], k));
        vp_event(s[i], t[i], k, m);
    } else if n > 0 {
        vp_every_build(s, t, (n - 1) as nat, (n - 1) as nat, k, m);
        let i = n - 1;
        assert(vp_can(s[i], t[i]));
        vp_event(s[i], t[i], k, m);
    }
}
// ---- the two halves of a split node partition it at the pivot
pub proof fn vp_halves(n: Node, arg: SplitArg, k: Key, m: Message)
    requires n.wf(), arg.wf(n),
    ensures ({ let (l, r) = n.split_node(arg); let p = arg.get_pivot();
        &&& l.wf() && r.wf()
        &&& (vp_has(l, k) ==> Key::lt(k, p))
        &&& (vp_has(r, k) ==> Key::lte(p, k))
        &&& (vp_holds(n, k, m) <==> vp_holds(l, k, m) || vp_holds(r, k, m))
        &&& (Key::lt(k, p) ==> n.query(k) == l.query(k))
        &&& (Key::lte(p, k) ==> n.query(k) == r.query(k)) })
{
    let (l, r) = n.split_node(arg);
    lemma_split_node_preserves_wf(n, arg);
    lemma_split_node_interpretation(n, arg);
    lemma_split_node_all_keys(n, arg);
    if vp_has(l, k) { let x = choose|x: Message| vp_holds(l, k, x); vp_holds_key(l, k, x); }
    if vp_has(r, k) { let x = choose|x: Message| vp_holds(r, k, x); vp_holds_key(r, k, x); }
    vp_search(n, k, m); vp_search(l, k, m); vp_search(r, k, m);
    assert(vp_holds(l, k, m) ==> vp_has(l, k)); assert(vp_holds(r, k, m) ==> vp_has(r, k)); assert(vp_holds(n, k, m) ==> vp_has(n, k));
}
// ---- nothing blocks: every key has a leaf to go to, every key can be inserted, and every leaf with two keys can be split
pub proof fn vp_leaf_for(n: Node, k: Key) -> (d: nat)
    requires n.wf(),
    ensures ({ let p = Path{node: n, key: k, depth: d}; p.valid() && p.target() is Leaf }),
    decreases n
{
    n.route_ensures(k);
    match n {
        Node::Leaf{keys, msgs} => 0,
        Node::Index{pivots, children} => {
            let c = children[n.route(k) + 1];
            let d = vp_leaf_for(c, k);
            let p = Path{node: n, key: k, depth: d + 1};
            assert(p.subpath() == (Path{node: c, key: k, depth: d}));
            d + 1
        }
    }
}
pub proof fn vp_can_insert(n: Node, k: Key, m: Message) requires n.wf(), ensures exists|p: Path| vp_can(n, VpEv::Insert{key: k, msg: m, path: p}) {
    let d = vp_leaf_for(n, k);
    assert(vp_can(n, VpEv::Insert{key: k, msg: m, path: Path{node: n, key: k, depth: d}}));
}
pub proof fn vp_can_split_leaf(n: Node, j: int)
    requires n.wf(), n is Leaf, 0 < j < n->keys.len(),
    ensures (SplitArg::SplitLeaf{pivot: n->keys[j]}).wf(n),
{
    let (keys, p) = (n->keys, n->keys[j]);
    Key::strictly_sorted_implies_sorted(keys);
    let r = Key::largest_lt(keys, p);
    Key::largest_lt_ensures(keys, p, r);
    assert(Key::lt(keys[j - 1], keys[j]));
    if r < j - 1 { assert(Key::lte(p, keys[j - 1])); }
    if r >= j { assert(Key::lt(keys[j], p)); }
}
pub proof fn vpfail_writes(n: Node, e: VpEv, k: Key) requires n.wf(), vp_can(n, e), ensures vp_do(n, e).query(k) == n.query(k) { vp_event(n, e, k, n.query(k)); }
} // verus!
