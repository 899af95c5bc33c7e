//@ in: allocation_layer/AllocationBranch_v.rs
use crate::betree::PivotBranchRefinement_v::vp_h_b_pbr as P;
use crate::betree::LinkedBranch_v::Refinement_v::vp_h_b_lbr as LB;
use crate::betree::PivotBranch_v;
use crate::spec::Messages_t::*;
verus! {
type Br = LinkedBranch<Summary>;

// what a branch under construction answers
pub open spec fn vp_answer(a: AllocationBranch, k: Key) -> Message { if a.branch is Some { a.branch.unwrap().query(k) } else { Message::Update{delta: nop_delta()} } }
pub open spec fn vp_written(e: BuildEvent, k: Key, m: Message) -> bool {
    match e {
        BuildEvent::Initialize{addr, keys, msgs} => exists|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == k && msgs[i] == m,
        BuildEvent::Append{keys, msgs, path} => exists|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == k && msgs[i] == m,
        _ => false,
    }
}
pub open spec fn vp_written_key(e: BuildEvent, k: Key) -> bool { exists|m: Message| vp_written(e, k, m) }

// sealing writes the summary page and leaves every answer alone
pub proof fn vp_seal_same(b: Br, addr: Address, sum: Summary)
    requires b.inv(), b.root() is Index, !b.disk_view.entries.contains_key(addr),
    ensures b.seal(addr, sum).i() == b.i(), b.seal(addr, sum).inv(),
{
    broadcast use {crate::vp_lib::vp_group, Refinement_v::lemma_route_ensures, PivotBranch_v::Node::route_ensures};
    let w = b.seal(addr, sum);
    let except = iset![b.root] + iset![addr];
    assert(b.disk_view.entries.remove_keys(except) =~= w.disk_view.entries.remove_keys(except));
    assert(w.disk_view.same_except(b.disk_view, except));
    assert(forall|i| #[trigger] w.root().valid_child_index(i) ==> b.root().valid_child_index(i));
    let rk = b.the_ranking();
    assert(w.wf());
    assert(w.acyclic()) by {
        assert(w.disk_view.node_children_respects_rank(rk, b.root));
        assert(w.valid_ranking(rk));
    }
    let wk = w.the_ranking();
    let wi = w.i_internal(wk); let bi = b.i_internal(rk);
    Refinement_v::i_internal_wf(b, rk);
    assert forall|i| 0 <= i < wi->children.len() implies ({
        &&& #[trigger] b.root().valid_child_index(i)
        &&& wi->children[i] == bi->children[i]
    }) by {
        assert(b.root().valid_child_index(i));
        assert(w.root().valid_child_index(i));
        let c = b.child_at_idx(i);
        assert(c.reachable_addrs_using_ranking(rk).disjoint(except)) by {
            if c.reachable_addrs_using_ranking(rk).contains(b.root) { Refinement_v::lemma_reachable_child_has_smaller_rank(c, rk, b.root); }
            if c.reachable_addrs_using_ranking(rk).contains(addr) { Refinement_v::lemma_reachable_implies_valid_address(c, rk, addr); }
        }
        Refinement_v::lemma_reachable_unchanged_implies_same_i_internal(c, rk, w.child_at_idx(i), wk, except);
    }
    assert(wi->children =~= bi->children);
    assert(wi == bi);
    Refinement_v::lemma_i_wf_implies_inv(w, wk);
}
proof fn vp_leaf_query(addr: Address, keys: Seq<Key>, msgs: Seq<Message>, k: Key, m: Message)
    requires keys.len() > 0, keys.len() == msgs.len(), Key::is_strictly_sorted(keys),
    ensures ({ let b: Br = LinkedBranch{root: addr, disk_view: DiskView{entries: imap![addr => Node::Leaf{keys, msgs}]}};
        &&& b.inv()
        &&& ((exists|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == k && msgs[i] == m) ==> b.query(k) == m)
        &&& (!keys.contains(k) ==> b.query(k) == (Message::Update{delta: nop_delta()})) })
{
    broadcast use crate::vp_lib::vp_group;
    let b: Br = LinkedBranch{root: addr, disk_view: DiskView{entries: imap![addr => Node::Leaf{keys, msgs}]}};
    LB::vp_leaf::<Summary>(addr, keys, msgs);
    LB::vp_lsearch(b, k, m);
    P::vp_search(b.i(), k, m);
    assert(b.i() == PivotBranch_v::Node::Leaf{keys, msgs});
    if !keys.contains(k) && P::vp_has(b.i(), k) {
        let x = choose|x: Message| P::vp_holds(b.i(), k, x);
        let i = choose|i: int| 0 <= i < keys.len() && 0 <= i < msgs.len() && #[trigger] keys[i] == k && msgs[i] == x;
        assert(keys.contains(keys[i]));
    }
}
// every building step keeps the branch sound and changes exactly the answers it writes
pub proof fn vp_build_step(a: AllocationBranch, w: AllocationBranch, e: BuildEvent, x: ISet<AU>, d: ISet<AU>, k: Key, m: Message)
    requires a.inv(), AllocationBranch::build_next(a, w, e, x, d), e is Initialize ==> a.branch is None,
    ensures w.inv(),
        vp_written(e, k, m) ==> vp_answer(w, k) == m,
        !vp_written_key(e, k) ==> vp_answer(w, k) == vp_answer(a, k),
{
    AllocationBranch::build_next_preserves_inv(a, w, e, x, d);
    match e {
        BuildEvent::Initialize{addr, keys, msgs} => {
            vp_leaf_query(addr, keys, msgs, k, m);
            if keys.contains(k) && !vp_written_key(e, k) { let i = choose|i: int| 0 <= i < keys.len() && keys[i] == k; assert(keys[i] == k); assert(vp_written(e, k, msgs[i])); }
        }
        BuildEvent::Append{keys, msgs, path} => {
            let ev = LB::VpLe::Append{keys, msgs, path};
            LB::vp_levent(a.branch.unwrap(), ev, k, m);
            assert(vp_written(e, k, m) == LB::vp_writes(ev, k, m));
            if LB::vp_writes_key(ev, k) { let y = choose|y: Message| LB::vp_writes(ev, k, y); assert(vp_written(e, k, y)); }
        }
        BuildEvent::Split{addr, path, split_arg} => {
            let ev = LB::VpLe::Split{addr, path, arg: split_arg};
            LB::vp_levent(a.branch.unwrap(), ev, k, m);
            assert(!LB::vp_writes_key(ev, k));
        }
        BuildEvent::AllocFill{} => {}
        BuildEvent::Seal{aux_ptr} => {
            let b = a.branch.unwrap();
            if aux_ptr is Some {
                let p = aux_ptr.unwrap();
                assert(!b.disk_view.entries.contains_key(p)) by { assert(a.mini_allocator.can_allocate(p)); if b.disk_view.entries.contains_key(p) { assert(a.mini_allocator.page_is_reserved(p)); } }
                vp_seal_same(b, p, a.mini_allocator.reserved_aus());
                LB::vp_lsearch(b, k, m); LB::vp_lsearch(w.branch.unwrap(), k, m);
            }
        }
    }
}
// a step gives back only units that hold no page of the branch, keeps the rest, and takes exactly what it was given
pub proof fn vp_build_units(a: AllocationBranch, w: AllocationBranch, e: BuildEvent, x: ISet<AU>, d: ISet<AU>)
    requires a.inv(), AllocationBranch::build_next(a, w, e, x, d),
    ensures
        w.mini_allocator.all_aus() == (a.mini_allocator.all_aus() + x) - d,
        x.disjoint(a.mini_allocator.all_aus()), d <= a.mini_allocator.all_aus(),
        w.branch is Some ==> forall|p: Address| #[trigger] w.branch.unwrap().representation().contains(p) ==> w.mini_allocator.all_aus().contains(p.au) && !d.contains(p.au),
{
    broadcast use crate::vp_lib::vp_group;
    AllocationBranch::build_next_preserves_inv(a, w, e, x, d);
    assert(w.mini_allocator.all_aus() =~= (a.mini_allocator.all_aus() + x) - d);
    if w.branch is Some {
        let b = w.branch.unwrap();
        assert forall|p: Address| #[trigger] b.representation().contains(p) implies w.mini_allocator.all_aus().contains(p.au) && !d.contains(p.au) by {
            vp_page(w, p);
        }
    }
}
// every page of a branch lies in a unit the branch owns; once sealed, the recorded summary lists exactly those units
pub proof fn vp_page(a: AllocationBranch, p: Address)
    requires a.inv(), a.branch is Some, a.branch.unwrap().representation().contains(p),
    ensures a.mini_allocator.all_aus().contains(p.au), a.branch.unwrap().disk_view.entries.contains_key(p),
        a.sealed ==> a.branch.unwrap().get_summary() == a.mini_allocator.all_aus() && a.branch.unwrap().get_summary().contains(p.au),
{
    let b = a.branch.unwrap();
    LB::vp_pages(b, p);
    if a.sealed { assert(b.full_repr().contains(p)); } else { assert(a.mini_allocator.page_is_reserved(p)); }
}
pub open spec fn vp_at(s: Seq<AllocationBranch>, t: Seq<(BuildEvent, ISet<AU>, ISet<AU>)>, i: int) -> bool { AllocationBranch::build_next(s[i], s[i + 1], t[i].0, t[i].1, t[i].2) }
pub open spec fn vp_history(s: Seq<AllocationBranch>, t: Seq<(BuildEvent, ISet<AU>, ISet<AU>)>, aus: ISet<AU>) -> bool {
    &&& s.len() == t.len() + 1 && s[0] == AllocationBranch::new(aus)
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] vp_at(s, t, i)
}
// a branch that holds a page cannot be started again
proof fn vp_no_restart(a: AllocationBranch, addr: Address, keys: Seq<Key>, msgs: Seq<Message>)
    requires a.inv(), a.branch is Some, ensures !a.can_initialize(addr, keys, msgs)
{
    if a.can_initialize(addr, keys, msgs) {
        let b = a.branch.unwrap();
        assert(!a.sealed);
        assert(b.representation().contains(b.root));
        assert(a.mini_allocator.page_is_reserved(b.root));
        assert(a.mini_allocator.reserved_aus().contains(b.root.au));
    }
}
// any branch ever built: sound, and it answers with the last message written for the key
pub proof fn vp_every_history(s: Seq<AllocationBranch>, t: Seq<(BuildEvent, ISet<AU>, ISet<AU>)>, aus: ISet<AU>, n: nat, j: nat, k: Key, m: Message)
    requires vp_history(s, t, aus), j <= n <= t.len(), forall|i: int| j <= i < n ==> !vp_written_key((#[trigger] t[i]).0, k),
    ensures s[n as int].inv(),
        vp_answer(s[n as int], k) == vp_answer(s[j as int], k),
        j > 0 && vp_written(t[j - 1].0, k, m) ==> vp_answer(s[n as int], k) == m,
        j == 0 ==> vp_answer(s[n as int], k) == (Message::Update{delta: nop_delta()}),
    decreases n
{
    if n > 0 {
        let i = n - 1;
        if n > j { vp_every_history(s, t, aus, (n - 1) as nat, j, k, m); assert(!vp_written_key(t[i].0, k)); }
        else { vp_every_history(s, t, aus, (n - 1) as nat, (n - 1) as nat, k, m); }
        assert(vp_at(s, t, i));
        let e = t[i].0;
        if s[i].branch is Some { match e { BuildEvent::Initialize{addr, keys, msgs} => { vp_no_restart(s[i], addr, keys, msgs); } _ => {} } }
        vp_build_step(s[i], s[i + 1], e, t[i].1, t[i].2, k, m);
    } else {
        assert(s[0].branch is None);
    }
}
// nothing blocks: an empty branch can be started on any free page, any unused units can be taken, a leaf-only branch can be sealed
pub proof fn vp_can_start(a: AllocationBranch, addr: Address, keys: Seq<Key>, msgs: Seq<Message>)
    requires a.inv(), !a.sealed, a.mini_allocator.reserved_aus() == ISet::<AU>::empty(), a.mini_allocator.can_allocate(addr), keys.len() > 0, keys.len() == msgs.len(), Key::is_strictly_sorted(keys),
    ensures AllocationBranch::build_next(a, a.branch_initialize(addr, keys, msgs), BuildEvent::Initialize{addr, keys, msgs}, iset![], iset![])
{}
pub proof fn vp_can_take(a: AllocationBranch, x: ISet<AU>) requires a.inv(), !a.sealed, x.disjoint(a.mini_allocator.all_aus()),
    ensures AllocationBranch::build_next(a, a.mini_allocator_fill(x), BuildEvent::AllocFill{}, x, iset![])
{}
pub proof fn vp_can_finish(a: AllocationBranch, p: Address) requires a.inv(), !a.sealed, a.branch is Some,
    ensures
        a.branch.unwrap().root() is Leaf ==> AllocationBranch::build_next(a, a.branch_seal(None, a.mini_allocator.removable_aus()), BuildEvent::Seal{aux_ptr: None}, iset![], a.mini_allocator.removable_aus()),
        a.branch.unwrap().root() is Index && a.mini_allocator.can_allocate(p) && !a.mini_allocator.removable_aus().contains(p.au)
            ==> AllocationBranch::build_next(a, a.branch_seal(Some(p), a.mini_allocator.removable_aus()), BuildEvent::Seal{aux_ptr: Some(p)}, iset![], a.mini_allocator.removable_aus()),
{}
pub proof fn vpfail_units(a: AllocationBranch, w: AllocationBranch, e: BuildEvent, x: ISet<AU>, d: ISet<AU>)
    requires a.inv(), AllocationBranch::build_next(a, w, e, x, d), ensures w.mini_allocator.all_aus() == a.mini_allocator.all_aus() { vp_build_units(a, w, e, x, d); }
} // verus!
