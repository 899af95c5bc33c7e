//@ in: betree/SplitRequest_v.rs
use vstd::prelude::*;
verus! {
pub proof fn vp_req(i: nat, k: Key, j: nat)
    ensures (SplitRequest::SplitLeaf{ child_idx: i, split_key: k }).get_child_idx() == i, (SplitRequest::SplitIndex{ child_idx: i, child_pivot_idx: j }).get_child_idx() == i,
{}
pub proof fn vpfail_req(r: SplitRequest) ensures r.get_child_idx() == 0 {}
}
