//@ in: allocation_layer/AllocationBranchBetreeRefinement_v.rs
use crate::abstract_system::StampedMap_v::*;
use crate::betree::Utils_v::*;
verus! {
broadcast use crate::vp_lib::vp_group;
type AB = AllocationBranchBetree::State;
type AL = AllocationBranchBetree::Label;
type AT = AllocationBranchBetree::Step;
type VS = LinkedBetreeVars::State<BranchNode>;
type VL = LinkedBetreeVars::Label;

// ---- what a buffer holds, on disk and abstractly
pub proof fn vp_branch_contains(dv: BufferDisk<BranchNode>, addr: Address, k: Key)
    requires dv.get_branch(addr).inv(), dv.entries.contains_key(addr),
    ensures
        dv.queryable_contains(addr, k) <==> dv.i().entries[addr].map.contains_key(k),
        dv.queryable_contains(addr, k) ==> dv.query(addr, k) == dv.i().entries[addr].map[k],
        // a buffer that does not contain a key has no effect on that key
        !dv.queryable_contains(addr, k) ==> dv.query(addr, k) == (Message::Update{ delta: nop_delta() }),
{
    dv.query_refines(addr, k);
}
// ---- the allocation units a state keeps
pub open spec fn vp_in_branches(v: AB, u: AU) -> bool { exists|r: AU| #[trigger] v.branch_summary.contains_key(r) && v.branch_summary[r].contains(u) }
pub open spec fn vp_in_wip(v: AB, u: AU) -> bool { exists|i: int| 0 <= i < v.wip_branches.len() && (#[trigger] v.wip_branches[i]).mini_allocator.all_aus().contains(u) }
pub open spec fn vp_kept(v: AB, u: AU) -> bool { v.betree_aus.contains(u) || vp_in_branches(v, u) || vp_in_wip(v, u) }

proof fn vp_finite(v: AB) requires v.inv(), ensures v.branch_summary.dom().finite(), v.branch_summary.values().finite() {
    let (x, y) = v.betree.linked.transitive_likes();
    let roots = y.dom().to_iset() + CompactorInput::input_roots(v.compactors);
    CompactorInput::input_roots_finite(v.compactors);
    v.betree.linked.buffer_dv.build_branch_summary_finite(roots);
}
proof fn vp_in_branches_is(v: AB, u: AU) requires v.inv(), ensures vp_in_branches(v, u) <==> summary_aus(v.branch_summary).contains(u) {
    vp_finite(v);
    vp_summary_has(v.branch_summary, u);
}
proof fn vp_in_wip_is(v: AB, u: AU) ensures vp_in_wip(v, u) <==> v.branch_allocator_aus().contains(u) {
    if vp_in_wip(v, u) {
        let i = choose|i: int| 0 <= i < v.wip_branches.len() && (#[trigger] v.wip_branches[i]).mini_allocator.all_aus().contains(u);
        AllocationBranch::alloc_aus_ensures(v.wip_branches, i);
    }
    if v.branch_allocator_aus().contains(u) { let i = AllocationBranch::alloc_aus_contains(v.wip_branches, u); }
}
proof fn vp_inductive(v: AB, w: AB, l: AL)
    requires v.inv(), AllocationBranchBetree::State::next(v, w, l),
    ensures w.inv(),
{
    reveal(AllocationBranchBetree::State::next); reveal(AllocationBranchBetree::State::next_by);
    match choose|step: AT| AllocationBranchBetree::State::next_by(v, w, l, step) {
        AllocationBranchBetree::Step::au_likes_noop(n) => { AllocationBranchBetree::State::au_likes_noop_inductive(v, w, l, n); }
        AllocationBranchBetree::Step::branch_begin() => { AllocationBranchBetree::State::branch_begin_inductive(v, w, l); }
        AllocationBranchBetree::Step::branch_build(i, p, e) => { AllocationBranchBetree::State::branch_build_inductive(v, w, l, i, p, e); }
        AllocationBranchBetree::Step::branch_abort(i) => { AllocationBranchBetree::State::branch_abort_inductive(v, w, l, i); }
        AllocationBranchBetree::Step::internal_flush_memtable(n, b, a) => { AllocationBranchBetree::State::internal_flush_memtable_inductive(v, w, l, n, b, a); }
        AllocationBranchBetree::Step::internal_grow(n, a) => { AllocationBranchBetree::State::internal_grow_inductive(v, w, l, n, a); }
        AllocationBranchBetree::Step::internal_split(n, p, r, a, pa) => { AllocationBranchBetree::State::internal_split_inductive(v, w, l, n, p, r, a, pa); }
        AllocationBranchBetree::Step::internal_flush(n, p, c, g, a, pa) => { AllocationBranchBetree::State::internal_flush_inductive(v, w, l, n, p, c, g, a, pa); }
        AllocationBranchBetree::Step::internal_compact_begin(p, s, e, i) => { AllocationBranchBetree::State::internal_compact_begin_inductive(v, w, l, p, s, e, i); }
        AllocationBranchBetree::Step::internal_compact_abort(i, n) => { AllocationBranchBetree::State::internal_compact_abort_inductive(v, w, l, i, n); }
        AllocationBranchBetree::Step::internal_compact_complete(n, p, s, e, i, b, a, pa) => { AllocationBranchBetree::State::internal_compact_complete_inductive(v, w, l, n, p, s, e, i, b, a, pa); }
        _ => { assert(false); }
    }
}
// every step keeps the bookkeeping right and is a step of the layer below, where a buffer is its contents
pub proof fn vp_step(v: AB, w: AB, l: AL)
    requires v.inv(), AllocationBranchBetree::State::next(v, w, l),
    ensures w.inv(), AllocationBetree::State::next(v.i(), w.i(), l.i()),
{
    vp_inductive(v, w, l);
    AllocationBranchBetree::State::next_refines(v, w, l);
}
pub proof fn vp_init(v: AB, u: VS)
    requires AllocationBranchBetree::State::initialize(v, u), u.linked.inv(),
    ensures v.inv(), AllocationBetree::State::initialize(v.i(), u.i()),
{
    AllocationBranchBetree::State::initialize_inductive(v, u);
    v.init_refines(u);
}
pub open spec fn vp_exec(s: Seq<AB>, t: Seq<AL>) -> bool { s.len() == t.len() + 1 && forall|i: int| 0 <= i < t.len() ==> AllocationBranchBetree::State::next(#[trigger] s[i], s[i + 1], t[i]) }
pub proof fn vp_every_history(s: Seq<AB>, t: Seq<AL>, u: VS, n: nat)
    requires vp_exec(s, t), AllocationBranchBetree::State::initialize(s[0], u), u.linked.inv(), n <= t.len(),
    ensures s[n as int].inv(), AllocationBetree::State::initialize(s[0].i(), u.i()),
        forall|i: int| 0 <= i < n ==> AllocationBetree::State::next((#[trigger] s[i]).i(), s[i + 1].i(), t[i].i()),
    decreases n
{
    vp_init(s[0], u);
    if n > 0 { vp_every_history(s, t, u, (n - 1) as nat); let i = n - 1; assert(AllocationBranchBetree::State::next(s[i], s[i + 1], t[i])); vp_step(s[i], s[i + 1], t[i]); }
}
// ---- no unit has two uses
pub proof fn vp_one_use(v: AB, u: AU, r: AU, q: AU, i: int, j: int)
    requires v.inv(),
    ensures
        !(v.betree_aus.contains(u) && vp_in_branches(v, u)), !(v.betree_aus.contains(u) && vp_in_wip(v, u)), !(vp_in_branches(v, u) && vp_in_wip(v, u)),
        v.branch_summary.contains_key(r) && v.branch_summary.contains_key(q) && r != q ==> !(v.branch_summary[r].contains(u) && v.branch_summary[q].contains(u)),
        0 <= i < v.wip_branches.len() && 0 <= j < v.wip_branches.len() && i != j ==> !(v.wip_branches[i].mini_allocator.all_aus().contains(u) && v.wip_branches[j].mini_allocator.all_aus().contains(u)),
{
    vp_in_branches_is(v, u); vp_in_wip_is(v, u);
    assert(v.betree_aus.dom().to_iset().contains(u) <==> v.betree_aus.contains(u));
}
// ---- everything a lookup reads is on disk, in a kept unit: tree nodes, and every page of every buffer
pub proof fn vp_reads(v: AB, a: Address)
    requires v.inv(),
    ensures
        v.betree.linked.reachable_betree_addrs().contains(a) ==> v.betree.linked.dv.entries.contains_key(a) && v.betree_aus.contains(a.au),
        v.betree.linked.reachable_buffer_addrs().contains(a) ==> v.branch_aus.contains(a.au) && v.branch_summary.contains_key(a.au)
            && ({ let b = v.betree.linked.buffer_dv.get_branch(a);
                b.inv() && b.sealed_root() && v.branch_summary[a.au] == b.get_summary()
                && forall|p: Address| #[trigger] b.full_repr().contains(p) ==> v.betree.linked.buffer_dv.entries.contains_key(p) && v.branch_summary[a.au].contains(p.au) }),
        v.betree.linked.dv.entries.contains_key(a) ==> v.betree_aus.contains(a.au),
        v.betree.linked.buffer_dv.entries.contains_key(a) ==> vp_in_branches(v, a.au),
{
    let t = v.betree.linked;
    let (x, y) = t.transitive_likes();
    let roots = y.dom().to_iset() + CompactorInput::input_roots(v.compactors);
    t.tree_likes_domain(t.the_ranking());
    t.buffer_likes_domain(x);
    t.reachable_betree_addrs_using_ranking_closed(t.the_ranking());
    vp_in_branches_is(v, a.au);
    to_au_likes_domain(y);
    to_au_likes_domain(x);
    to_aus_domain(y.dom().to_iset()); to_aus_domain(x.dom().to_iset());
    if t.reachable_buffer_addrs().contains(a) {
        assert(roots.contains(a));
        assert(t.buffer_dv.get_branch(a).valid_sealed_branch());
        t.buffer_dv.build_branch_summary_contains(roots, a);
    }
}
// ---- accounting: a step takes and gives back exactly the units it says
pub open spec fn vp_accounts(v: AB, w: AB, allocs: ISet<AU>, deallocs: ISet<AU>, u: AU) -> bool {
    // what is given back is no longer used
    &&& (deallocs.contains(u) ==> !vp_kept(w, u))
    // nothing in use is taken
    &&& (allocs.contains(u) ==> !vp_kept(v, u))
    // nothing is lost, and nothing else appears
    &&& (vp_kept(v, u) || allocs.contains(u) <==> vp_kept(w, u) || deallocs.contains(u))
}
proof fn vp_sub_summary(m: IMap<AU, ISet<AU>>, ks: ISet<AU>, u: AU)
    requires map_with_disjoint_values(m), m.dom().finite(),
    ensures
        summary_aus(m.restrict(ks)).contains(u) <==> exists|r: AU| #[trigger] m.contains_key(r) && ks.contains(r) && m[r].contains(u),
        summary_aus(m.remove_keys(ks)).contains(u) <==> exists|r: AU| #[trigger] m.contains_key(r) && !ks.contains(r) && m[r].contains(u),
        summary_aus(m).contains(u) <==> summary_aus(m.restrict(ks)).contains(u) || summary_aus(m.remove_keys(ks)).contains(u),
        !(summary_aus(m.restrict(ks)).contains(u) && summary_aus(m.remove_keys(ks)).contains(u)),
{
    lemma_subset_finite(m.dom(), m.restrict(ks).dom()); lemma_subset_finite(m.dom(), m.remove_keys(ks).dom());
    vp_summary_has(m, u); vp_summary_has(m.restrict(ks), u); vp_summary_has(m.remove_keys(ks), u);
    assert forall|r: AU| #[trigger] m.contains_key(r) && ks.contains(r) implies m.restrict(ks).contains_key(r) && m.restrict(ks)[r] == m[r] by {}
    assert forall|r: AU| #[trigger] m.contains_key(r) && !ks.contains(r) implies m.remove_keys(ks).contains_key(r) && m.remove_keys(ks)[r] == m[r] by {}
}
proof fn vp_summary_has(m: IMap<AU, ISet<AU>>, u: AU)
    requires m.dom().finite(),
    ensures summary_aus(m).contains(u) <==> exists|r: AU| #[trigger] m.contains_key(r) && m[r].contains(u),
{
    vstd::imap_lib::lemma_values_finite(m);
    if exists|r: AU| #[trigger] m.contains_key(r) && m[r].contains(u) {
        let r = choose|r: AU| #[trigger] m.contains_key(r) && m[r].contains(u);
        assert(m.contains_value(m[r]));
        assert(m.values().contains(m[r]));
        lemma_union_set_of_sets_subset(m.values(), m[r]);
    }
    if summary_aus(m).contains(u) {
        let s = lemma_union_set_of_sets_contains(m.values(), u);
        assert(m.contains_value(s));
        let r = choose|r: AU| #[trigger] m.contains_key(r) && m[r] == s;
    }
}
// the tree's own bookkeeping: only what was added can appear, and all of it does
proof fn vp_tree_aus(old_aus: AULikes, discard: AULikes, add: Likes, allocs: ISet<AU>, u: AU)
    requires to_aus(add.dom().to_iset()) == allocs,
    ensures
        allocs.contains(u) ==> old_aus.sub(discard).add(to_au_likes(add)).contains(u),
        old_aus.sub(discard).add(to_au_likes(add)).contains(u) ==> old_aus.contains(u) || allocs.contains(u),
{
    to_au_likes_domain(add);
    assert(to_au_likes(add).dom().to_iset().contains(u) <==> to_au_likes(add).contains(u));
}
proof fn vp_wip_remove(s: Seq<AllocationBranch>, i: int, u: AU)
    requires 0 <= i < s.len(),
    ensures AllocationBranch::alloc_aus(s).contains(u) <==> AllocationBranch::alloc_aus(s.remove(i)).contains(u) || s[i].mini_allocator.all_aus().contains(u)
{ AllocationBranch::alloc_aus_remove(s, i); }
proof fn vp_acc_build(v: AB, w: AB, l: AL, u: AU, i: int, p: AllocationBranch, e: BuildEvent)
    requires v.inv(), w.inv(), AllocationBranchBetree::State::branch_build(v, w, l, i, p, e),
    ensures vp_accounts(v, w, l->allocs, l->deallocs, u)
{
    vp_in_branches_is(v, u); vp_in_wip_is(v, u); vp_in_branches_is(w, u); vp_in_wip_is(w, u);
    AllocationBranch::build_next_preserves_inv(v.wip_branches[i], p, e, l->allocs, l->deallocs);
    let (b, a, c) = (v.wip_branches[i].mini_allocator.all_aus(), p.mini_allocator.all_aus(), v.wip_branches);
    assert(w.wip_branches == c.update(i, p));
    match e {
        BuildEvent::Seal{aux_ptr} => { assert(a =~= b - l->deallocs); assert(l->deallocs <= b); }
        BuildEvent::AllocFill{} => { assert(a =~= b + l->allocs); }
        _ => { assert(a =~= b); }
    }
    assert(w.wip_branches[i] == p);
    assert forall|j: int| 0 <= j < c.len() && j != i implies w.wip_branches[j] == c[j] by {}
    assert forall|j: int| 0 <= j < c.len() && j != i implies !((#[trigger] c[j]).mini_allocator.all_aus().contains(u) && b.contains(u)) by {
        assert(c[i].mini_allocator.all_aus().disjoint(c[j].mini_allocator.all_aus()));
    }
    if vp_in_wip(v, u) {
        let j = choose|j: int| 0 <= j < v.wip_branches.len() && (#[trigger] v.wip_branches[j]).mini_allocator.all_aus().contains(u);
        if j != i { assert(w.wip_branches[j].mini_allocator.all_aus().contains(u)); }
        else if !l->deallocs.contains(u) { assert(w.wip_branches[i].mini_allocator.all_aus().contains(u)); }
    }
    if l->allocs.contains(u) { assert(w.wip_branches[i].mini_allocator.all_aus().contains(u)); }
}
proof fn vp_acc_begin(v: AB, w: AB, l: AL, u: AU)
    requires v.inv(), w.inv(), AllocationBranchBetree::State::branch_begin(v, w, l),
    ensures vp_accounts(v, w, l->allocs, l->deallocs, u)
{
    vp_in_branches_is(v, u); vp_in_wip_is(v, u); vp_in_branches_is(w, u); vp_in_wip_is(w, u);
    AllocationBranch::alloc_aus_append(v.wip_branches, w.wip_branches.last());
    w.wip_branches.last().alloc_aus_singleton();
    assert(w.wip_branches.last().mini_allocator.all_aus() =~= l->allocs);
}
proof fn vp_acc_abort(v: AB, w: AB, l: AL, u: AU, i: int)
    requires v.inv(), w.inv(), AllocationBranchBetree::State::branch_abort(v, w, l, i),
    ensures vp_accounts(v, w, l->allocs, l->deallocs, u)
{
    vp_in_branches_is(v, u); vp_in_wip_is(v, u); vp_in_branches_is(w, u); vp_in_wip_is(w, u);
    vp_wip_remove(v.wip_branches, i, u);
    if l->deallocs.contains(u) { vp_wip_gone(v, i, u); }
}
proof fn vp_wip_gone(v: AB, i: int, u: AU)
    requires v.inv(), 0 <= i < v.wip_branches.len(), v.wip_branches[i].mini_allocator.all_aus().contains(u),
    ensures !AllocationBranch::alloc_aus(v.wip_branches.remove(i)).contains(u)
{
    let s = v.wip_branches.remove(i);
    if AllocationBranch::alloc_aus(s).contains(u) {
        let j = AllocationBranch::alloc_aus_contains(s, u);
        let k = if j < i { j } else { j + 1 };
        assert(s[j] == v.wip_branches[k]);
        assert(v.wip_branches[i].mini_allocator.all_aus().disjoint(v.wip_branches[k].mini_allocator.all_aus()));
    }
}
proof fn vp_acc_grow(v: AB, w: AB, l: AL, u: AU, n: VS, a: Address)
    requires v.inv(), w.inv(), AllocationBranchBetree::State::internal_grow(v, w, l, n, a),
    ensures vp_accounts(v, w, l->allocs, l->deallocs, u)
{
    vp_in_branches_is(v, u); vp_in_wip_is(v, u); vp_in_branches_is(w, u); vp_in_wip_is(w, u);
}
proof fn vp_acc_cabort(v: AB, w: AB, l: AL, u: AU, i: int, n: VS)
    requires v.inv(), w.inv(), AllocationBranchBetree::State::internal_compact_abort(v, w, l, i, n),
    ensures vp_accounts(v, w, l->allocs, l->deallocs, u)
{
    vp_in_branches_is(v, u); vp_in_wip_is(v, u); vp_in_branches_is(w, u); vp_in_wip_is(w, u);
    let new_compactors = v.compactors.remove(i);
    let d = read_ref_aus(v.compactors) - read_ref_aus(new_compactors) - v.branch_aus.dom().to_iset();
    vp_finite(v);
    vp_sub_summary(v.branch_summary, d, u);
}
proof fn vp_acc_flushmem(v: AB, w: AB, l: AL, u: AU, n: VS, b: int, a: Address)
    requires v.inv(), w.inv(), AllocationBranchBetree::State::internal_flush_memtable(v, w, l, n, b, a),
    ensures vp_accounts(v, w, l->allocs, l->deallocs, u)
{
    vp_in_branches_is(v, u); vp_in_wip_is(v, u); vp_in_branches_is(w, u); vp_in_wip_is(w, u);
    vp_wip_remove(v.wip_branches, b, u);
    let nb = v.wip_branches[b].branch.unwrap();
    vp_finite(v); vp_finite(w);
    vp_summary_has(v.branch_summary, u); vp_summary_has(w.branch_summary, u);
    assert(nb.get_summary() == v.wip_branches[b].mini_allocator.all_aus());
    // the new branch's root is in a unit of its own, so no other branch is replaced
    assert(nb.representation().contains(nb.root));
    assert(nb.get_summary().contains(nb.root.au));
    AllocationBranch::alloc_aus_ensures(v.wip_branches, b);
    assert(!v.branch_summary.contains_key(nb.root.au)) by { if v.branch_summary.contains_key(nb.root.au) { vp_root_in(v, nb.root.au); } }
    assert forall|r: AU| #[trigger] v.branch_summary.contains_key(r) implies w.branch_summary.contains_key(r) && w.branch_summary[r] == v.branch_summary[r] by {}
    assert(w.branch_summary.contains_key(nb.root.au) && w.branch_summary[nb.root.au] == nb.get_summary());
    let add = n.linked.root_likes();
    vp_root_likes(n.linked, u);
    assert(w.betree_aus == v.betree_aus.sub(to_au_likes(v.betree.linked.root_likes())).add(to_au_likes(add)));
    vp_tree_aus(v.betree_aus, to_au_likes(v.betree.linked.root_likes()), add, l->allocs, u);
}
proof fn vp_root_in(v: AB, r: AU)
    requires v.inv(), v.branch_summary.contains_key(r),
    ensures v.branch_summary[r].contains(r), summary_aus(v.branch_summary).contains(r),
{
    let (x, y) = v.betree.linked.transitive_likes();
    let roots = y.dom().to_iset() + CompactorInput::input_roots(v.compactors);
    let a = v.betree.linked.buffer_dv.build_branch_summary_get_addr(roots, r);
    let b = v.betree.linked.buffer_dv.get_branch(a);
    assert(b.valid_sealed_branch());
    assert(b.representation().contains(b.root));
    assert(b.full_repr().contains(b.root));
    vp_finite(v);
    vp_summary_has(v.branch_summary, r);
}
proof fn vp_root_likes<T>(l: LinkedBetree<T>, u: AU)
    ensures l.has_root() ==> to_aus(l.root_likes().dom().to_iset()) == iset![l.root.unwrap().au],
{
    if l.has_root() {
        assert(l.root_likes().dom().to_iset() =~= iset![l.root.unwrap()]);
        to_aus_singleton(l.root.unwrap());
    }
}
proof fn vp_acc_split(v: AB, w: AB, l: AL, u: AU, n: VS, p: Path<BranchNode>, r: SplitRequest, a: SplitAddrs, pa: PathAddrs)
    requires v.inv(), w.inv(), AllocationBranchBetree::State::internal_split(v, w, l, n, p, r, a, pa),
    ensures vp_accounts(v, w, l->allocs, l->deallocs, u)
{
    vp_in_branches_is(v, u); vp_in_wip_is(v, u); vp_in_branches_is(w, u); vp_in_wip_is(w, u);
    assert(a.likes().dom().to_iset() =~= a.repr());
    vp_add(a.likes(), a.repr(), pa);
    vp_tree_aus(v.betree_aus, to_au_likes(split_discard_betree(p, r)), add_betree_likes(a, pa), l->allocs, u);
}
proof fn vp_add(likes: Likes, repr: ISet<Address>, pa: PathAddrs)
    requires likes.dom().to_iset() == repr,
    ensures to_aus(likes.add(pa.to_multiset()).dom().to_iset()) == to_aus(repr) + seq_addrs_to_aus(pa)
{
    pa.to_multiset_ensures();
    assert(likes.add(pa.to_multiset()).dom().to_iset() =~= repr + pa.to_set().to_iset());
    to_aus_additive(repr, pa.to_set().to_iset());
}
proof fn vp_acc_flush(v: AB, w: AB, l: AL, u: AU, n: VS, p: Path<BranchNode>, c: nat, g: nat, a: TwoAddrs, pa: PathAddrs)
    requires v.inv(), w.inv(), AllocationBranchBetree::State::internal_flush(v, w, l, n, p, c, g, a, pa),
    ensures vp_accounts(v, w, l->allocs, l->deallocs, u)
{
    vp_in_branches_is(v, u); vp_in_wip_is(v, u); vp_in_branches_is(w, u); vp_in_wip_is(w, u);
    assert(a.likes().dom().to_iset() =~= a.repr());
    vp_add(a.likes(), a.repr(), pa);
    vp_tree_aus(v.betree_aus, to_au_likes(flush_discard_betree(p, c)), add_betree_likes(a, pa), l->allocs, u);
    let (x, y) = AllocationBetree::State::internal_flush_au_likes(p, c, g, a, pa, v.betree_aus, v.branch_aus);
    let d = v.branch_aus.dom().to_iset() - y.dom().to_iset() - read_ref_aus(v.compactors);
    vp_finite(v);
    vp_sub_summary(v.branch_summary, d, u);
}
proof fn vp_acc_compact(v: AB, w: AB, l: AL, u: AU, n: VS, p: Path<BranchNode>, s: nat, e: nat, i: int, b: int, a: Address, pa: PathAddrs)
    requires v.inv(), w.inv(), AllocationBranchBetree::State::internal_compact_complete(v, w, l, n, p, s, e, i, b, a, pa),
    ensures vp_accounts(v, w, l->allocs, l->deallocs, u)
{
    vp_in_branches_is(v, u); vp_in_wip_is(v, u); vp_in_branches_is(w, u); vp_in_wip_is(w, u);
    vp_wip_remove(v.wip_branches, b, u);
    let nb = v.wip_branches[b].branch.unwrap();
    let na = TwoAddrs{addr1: a, addr2: nb.root};
    assert(nb.get_summary() == v.wip_branches[b].mini_allocator.all_aus());
    assert(nb.representation().contains(nb.root));
    assert(nb.get_summary().contains(nb.root.au));
    AllocationBranch::alloc_aus_ensures(v.wip_branches, b);
    assert(!v.branch_summary.contains_key(nb.root.au)) by { if v.branch_summary.contains_key(nb.root.au) { vp_root_in(v, nb.root.au); } }
    let (x, y) = AllocationBetree::State::internal_compact_complete_au_likes(p, s, e, na, pa, v.betree_aus, v.branch_aus);
    let d = v.branch_summary.dom() - y.dom().to_iset() - read_ref_aus(v.compactors.remove(i));
    vp_finite(v);
    vp_sub_summary(v.branch_summary, d, u);
    vp_finite(v); vp_finite(w);
    vp_summary_has(v.branch_summary, u); vp_summary_has(w.branch_summary, u);
    assert(!d.contains(nb.root.au));
    assert forall|r: AU| #[trigger] v.branch_summary.contains_key(r) && !d.contains(r) implies w.branch_summary.contains_key(r) && w.branch_summary[r] == v.branch_summary[r] by {}
    assert(w.branch_summary.contains_key(nb.root.au) && w.branch_summary[nb.root.au] == nb.get_summary());
    assert(compact_add_betree(na, pa).dom().to_iset() =~= iset![a] + pa.to_set().to_iset()) by { pa.to_multiset_ensures(); }
    to_aus_additive(iset![a], pa.to_set().to_iset()); to_aus_singleton(a);
    assert(l->allocs =~= iset![a.au] + seq_addrs_to_aus(pa));
    vp_tree_aus(v.betree_aus, to_au_likes(compact_discard_betree(p)), compact_add_betree(na, pa), l->allocs, u);
}
pub proof fn vp_accounting(v: AB, w: AB, l: AL, u: AU)
    requires v.inv(), AllocationBranchBetree::State::next(v, w, l),
    ensures
        l is Internal ==> vp_accounts(v, w, l->allocs, l->deallocs, u),
        !(l is Internal) ==> vp_kept(v, u) == vp_kept(w, u),
{
    vp_inductive(v, w, l);
    vp_in_branches_is(v, u); vp_in_wip_is(v, u); vp_in_branches_is(w, u); vp_in_wip_is(w, u);
    reveal(AllocationBranchBetree::State::next); reveal(AllocationBranchBetree::State::next_by);
    match choose|step: AT| AllocationBranchBetree::State::next_by(v, w, l, step) {
        AllocationBranchBetree::Step::au_likes_noop(n) => { }
        AllocationBranchBetree::Step::branch_begin() => { vp_acc_begin(v, w, l, u); }
        AllocationBranchBetree::Step::branch_build(i, p, e) => { vp_acc_build(v, w, l, u, i, p, e); }
        AllocationBranchBetree::Step::branch_abort(i) => { vp_acc_abort(v, w, l, u, i); }
        AllocationBranchBetree::Step::internal_flush_memtable(n, b, a) => { vp_acc_flushmem(v, w, l, u, n, b, a); }
        AllocationBranchBetree::Step::internal_grow(n, a) => { vp_acc_grow(v, w, l, u, n, a); }
        AllocationBranchBetree::Step::internal_split(n, p, r, a, pa) => { vp_acc_split(v, w, l, u, n, p, r, a, pa); }
        AllocationBranchBetree::Step::internal_flush(n, p, c, g, a, pa) => { vp_acc_flush(v, w, l, u, n, p, c, g, a, pa); }
        AllocationBranchBetree::Step::internal_compact_begin(p, s, e, i) => { }
        AllocationBranchBetree::Step::internal_compact_abort(i, n) => { vp_acc_cabort(v, w, l, u, i, n); }
        AllocationBranchBetree::Step::internal_compact_complete(n, p, s, e, i, b, a, pa) => { vp_acc_compact(v, w, l, u, n, p, s, e, i, b, a, pa); }
        _ => { assert(false); }
    }
}
} // verus!
