//@ in: example/BankObligations_v.rs
use vstd::prelude::*;
verus! {
broadcast use crate::vp_lib::vp_group;

// The sharded bank: money is only moved, each request is answered once, and the whole is the bank of BankSpec.

type B = Bank::State;
type BL = Bank::Label;
type Sys = SystemModel::State<Bank::State>;

/// what the first n accounts hold together
pub open spec fn vp_sum(m: IMap<nat, nat>, n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { vp_sum(m, (n - 1) as nat) + m[(n - 1) as nat] }
}
pub open spec fn vp_ok(s: B) -> bool {
    &&& s.wf()
    &&& forall |a: nat| #[trigger] s.account_map.contains_key(a) <==> a < s.total_accounts
    &&& vp_sum(s.account_map, s.total_accounts) == s.total_amount
}
pub open spec fn vp_moved(m: IMap<nat, nat>, w: IMap<nat, nat>, from: nat, to: nat, amt: nat) -> bool {
    &&& from != to && m.contains_key(from) && m.contains_key(to) && m[from] >= amt
    &&& w.contains_key(from) && w.contains_key(to)
    &&& w[from] + amt == m[from] && w[to] == m[to] + amt
    &&& forall |a: nat| #[trigger] w.contains_key(a) <==> m.contains_key(a)
    &&& forall |a: nat| a != from && a != to ==> #[trigger] w[a] == m[a]
}

proof fn vp_sum_same(m: IMap<nat, nat>, w: IMap<nat, nat>, n: nat)
    requires forall |a: nat| a < n ==> #[trigger] m[a] == w[a],
    ensures vp_sum(m, n) == vp_sum(w, n),
    decreases n
{
    if n > 0 { vp_sum_same(m, w, (n - 1) as nat); assert(m[(n - 1) as nat] == w[(n - 1) as nat]); }
}
proof fn vp_sum_const(m: IMap<nat, nat>, n: nat, v: nat)
    requires forall |a: nat| a < n ==> #[trigger] m[a] == v,
    ensures vp_sum(m, n) == v * n,
    decreases n
{
    if n > 0 {
        let k = (n - 1) as nat;
        vp_sum_const(m, k, v); assert(m[k] == v);
        assert(v * k + v == v * n) by(nonlinear_arith) requires k + 1 == n;
    } else { assert(v * n == 0) by(nonlinear_arith) requires n == 0; }
}
proof fn vp_sum_one(m: IMap<nat, nat>, w: IMap<nat, nat>, n: nat, k: nat)
    requires k < n, forall |a: nat| a < n && a != k ==> #[trigger] m[a] == w[a],
    ensures vp_sum(m, n) + w[k] == vp_sum(w, n) + m[k],
    decreases n
{
    if k == n - 1 { vp_sum_same(m, w, (n - 1) as nat); }
    else { vp_sum_one(m, w, (n - 1) as nat, k); assert(m[(n - 1) as nat] == w[(n - 1) as nat]); }
}
proof fn vp_sum_moved(m: IMap<nat, nat>, w: IMap<nat, nat>, n: nat, from: nat, to: nat, amt: nat)
    requires vp_moved(m, w, from, to, amt), from < n, to < n,
    ensures vp_sum(m, n) == vp_sum(w, n),
{
    let x = m.insert(from, w[from]);
    vp_sum_one(m, x, n, from);
    vp_sum_one(x, w, n, to);
}

pub proof fn vp_init(s: B, accounts: nat, each: nat)
    requires Bank::State::initialize(s, accounts, each),
    ensures
        vp_ok(s), s.total_accounts == accounts, s.total_amount == each * accounts,
        forall |a: nat| a < accounts ==> #[trigger] s.account_map[a] == each,
        s.requests == Multiset::<Request>::empty(), s.replies == Multiset::<Reply>::empty(),
{
    vp_sum_const(s.account_map, accounts, each);
}

/// what each kind of step does; and no step creates, loses or overdraws money
pub proof fn vp_step(v: B, w: B, l: BL)
    requires vp_ok(v), Bank::State::next(v, w, l),
    ensures
        vp_ok(w), w.total_accounts == v.total_accounts, w.total_amount == v.total_amount,
        vp_sum(w.account_map, w.total_accounts) == vp_sum(v.account_map, v.total_accounts),
        l is RequestOp ==> w.account_map == v.account_map && w.requests =~= v.requests.insert(l.arrow_RequestOp_req()) && w.replies =~= v.replies,
        l is ReplyOp ==> {
            &&& v.replies.count(l.arrow_ReplyOp_reply()) > 0
            &&& w.account_map == v.account_map && w.requests =~= v.requests && w.replies =~= v.replies.remove(l.arrow_ReplyOp_reply())
        },
        l is ExecuteOp ==> {
            let q = l.arrow_ExecuteOp_req(); let r = l.arrow_ExecuteOp_reply();
            &&& q.id == r.id
            &&& v.requests.count(q) > 0
            &&& w.requests =~= v.requests.remove(q) && w.replies =~= v.replies.insert(r)
            &&& if r.output.succeeded { vp_moved(v.account_map, w.account_map, q.input.from as nat, q.input.to as nat, q.input.amt as nat) }
                else { w.account_map == v.account_map }
        },
{
    reveal(Bank::State::next);
    reveal(Bank::State::next_by);
    if l is ExecuteOp && l.arrow_ExecuteOp_reply().output.succeeded {
        let q = l.arrow_ExecuteOp_req();
        assert(vp_moved(v.account_map, w.account_map, q.input.from as nat, q.input.to as nat, q.input.amt as nat));
        assert(v.account_map.contains_key(q.input.from as nat) && v.account_map.contains_key(q.input.to as nat));
        vp_sum_moved(v.account_map, w.account_map, v.total_accounts, q.input.from as nat, q.input.to as nat, q.input.amt as nat);
    }
}

/// a request can always be taken in; one that waits can be refused, and carried out if the money is there;
/// an answer that waits can be given
pub proof fn vp_can(v: B, l: BL)
    requires
        vp_ok(v),
        match l {
            BL::RequestOp{req} => true,
            BL::ReplyOp{reply} => v.replies.count(reply) > 0,
            BL::ExecuteOp{req, reply} => v.requests.count(req) > 0 && req.id == reply.id && (reply.output.succeeded ==> {
                &&& req.input.from != req.input.to
                &&& (req.input.from as nat) < v.total_accounts && (req.input.to as nat) < v.total_accounts
                &&& v.account_map[req.input.from as nat] >= req.input.amt as nat
            }),
        },
    ensures exists |w: B| Bank::State::next(v, w, l),
{
    reveal(Bank::State::next);
    reveal(Bank::State::next_by);
    match l {
        BL::RequestOp{req} => {
            let w = B{ requests: v.requests.add(Multiset::singleton(req)), ..v };
            assert(Bank::State::request(v, w, l));
            assert(Bank::State::next_by(v, w, l, Bank::Step::request())); assert(Bank::State::next(v, w, l));
        }
        BL::ReplyOp{reply} => {
            assert(Multiset::singleton(reply).subset_of(v.replies));
            let w = B{ replies: v.replies.sub(Multiset::singleton(reply)), ..v };
            assert(Bank::State::reply(v, w, l));
            assert(Bank::State::next_by(v, w, l, Bank::Step::reply())); assert(Bank::State::next(v, w, l));
        }
        BL::ExecuteOp{req, reply} => {
            assert(Multiset::singleton(req).subset_of(v.requests));
            let w0 = B{ requests: v.requests.sub(Multiset::singleton(req)), replies: v.replies.add(Multiset::singleton(reply)), ..v };
            if reply.output.succeeded {
                let f = req.input.from as nat; let t = req.input.to as nat; let amt = req.input.amt as nat;
                assert(v.account_map.contains_key(f) && v.account_map.contains_key(t));
                let w = B{ account_map: v.account_map.remove(f).remove(t).insert(f, (v.account_map[f] - amt) as nat).insert(t, (v.account_map[t] + amt) as nat), ..w0 };
                assert(Bank::State::transfer(v, w, l));
                assert(Bank::State::next_by(v, w, l, Bank::Step::transfer())); assert(Bank::State::next(v, w, l));
            } else {
                assert(Bank::State::failed_transfer(v, w0, l));
                assert(Bank::State::next_by(v, w0, l, Bank::Step::failed_transfer())); assert(Bank::State::next(v, w0, l));
            }
        }
    }
}

// ---- the composed system

// waiting requests and replies carry identifiers seen before, each of them once, and no identifier waits as both
pub open spec fn vp_ids(s: Sys) -> bool {
    &&& forall |q: Request| #[trigger] s.bank.requests.count(q) <= 1 && (s.bank.requests.count(q) == 1 ==> s.id_history.contains(q.id))
    &&& forall |r: Reply| #[trigger] s.bank.replies.count(r) <= 1 && (s.bank.replies.count(r) == 1 ==> s.id_history.contains(r.id))
    &&& forall |q: Request, p: Request| #[trigger] s.bank.requests.count(q) == 1 && #[trigger] s.bank.requests.count(p) == 1 && q.id == p.id ==> q == p
    &&& forall |q: Reply, p: Reply| #[trigger] s.bank.replies.count(q) == 1 && #[trigger] s.bank.replies.count(p) == 1 && q.id == p.id ==> q == p
    &&& forall |q: Request, p: Reply| #[trigger] s.bank.requests.count(q) == 1 && #[trigger] s.bank.replies.count(p) == 1 ==> q.id != p.id
}
pub open spec fn vp_sys(s: Sys) -> bool { vp_ids(s) && vp_ok(s.bank) }
pub proof fn vp_inv_means(s: Sys)
    ensures <Bank::State as RefinementObligations>::inv(&s) <==> vp_ids(s),
{
    if <Bank::State as RefinementObligations>::inv(&s) {
        assert forall |q: Request| #[trigger] s.bank.requests.count(q) <= 1 && (s.bank.requests.count(q) == 1 ==> s.id_history.contains(q.id)) by {
            if s.bank.requests.count(q) > 0 { assert(s.bank.requests.contains(q)); assert(s.id_history.contains(q.id)); }
        }
        assert forall |q: Reply| #[trigger] s.bank.replies.count(q) <= 1 && (s.bank.replies.count(q) == 1 ==> s.id_history.contains(q.id)) by {
            if s.bank.replies.count(q) > 0 { assert(s.bank.replies.contains(q)); assert(s.id_history.contains(q.id)); }
        }
        assert forall |q: Request, p: Request| #[trigger] s.bank.requests.count(q) == 1 && #[trigger] s.bank.requests.count(p) == 1 && q.id == p.id implies q == p by {
            assert(s.bank.requests.contains(q) && s.bank.requests.contains(p)); assert(q.id == p.id);
        }
        assert forall |q: Reply, p: Reply| #[trigger] s.bank.replies.count(q) == 1 && #[trigger] s.bank.replies.count(p) == 1 && q.id == p.id implies q == p by {
            assert(s.bank.replies.contains(q) && s.bank.replies.contains(p)); assert(q.id == p.id);
        }
        assert forall |q: Request, p: Reply| #[trigger] s.bank.requests.count(q) == 1 && #[trigger] s.bank.replies.count(p) == 1 implies q.id != p.id by {
            assert(s.bank.requests.contains(q) && s.bank.replies.contains(p)); assert(q.id != p.id);
        }
    }
    if vp_ids(s) {
        assert(s.bank.requests_have_unique_ids());
        assert(s.bank.replies_have_unique_ids());
    }
}

pub proof fn vp_sys_init(s: Sys, accounts: nat, each: nat)
    requires SystemModel::State::initialize(s, s.bank, accounts, each),
    ensures
        vp_sys(s), s.bank.total_amount == each * accounts, s.bank.total_accounts == accounts,
        BankSpec::State::initialize(<Bank::State as RefinementObligations>::i(&s), accounts, each),
        forall |q: Request| !s.bank.requests.contains(q), forall |r: Reply| !s.bank.replies.contains(r),
{
    vp_init(s.bank, accounts, each);
    <Bank::State as RefinementObligations>::init_refines(&s, accounts, each);
    vp_inv_means(s);
}

/// the specification's accounts, requests and replies are those of the bank
pub proof fn vp_meaning(s: Sys)
    ensures ({
        let i = <Bank::State as RefinementObligations>::i(&s);
        &&& i.accounts == s.bank.account_map
        &&& forall |q: Request| #[trigger] i.requests.contains(q) <==> s.bank.requests.count(q) > 0
        &&& forall |r: Reply| #[trigger] i.replies.contains(r) <==> s.bank.replies.count(r) > 0
    }),
{ }

pub proof fn vp_label(l: BankLabel)
    ensures ({
        let i = <Bank::State as RefinementObligations>::i_lbl(l);
        match l {
            BankLabel::AcceptRequest{req} => i == (BankSpec::Label::RequestOp{req}),
            BankLabel::Execute{req, reply} => i == (BankSpec::Label::ExecuteOp{req, reply}),
            BankLabel::DeliverReply{reply} => i == (BankSpec::Label::ReplyOp{reply}),
        }
    }),
{ }

pub proof fn vp_sys_step(v: Sys, w: Sys, l: BankLabel)
    requires vp_sys(v), SystemModel::State::next(v, w, l),
    ensures
        vp_sys(w),
        BankSpec::State::next(<Bank::State as RefinementObligations>::i(&v), <Bank::State as RefinementObligations>::i(&w), <Bank::State as RefinementObligations>::i_lbl(l)),
        w.bank.total_accounts == v.bank.total_accounts, w.bank.total_amount == v.bank.total_amount,
{
    vp_inv_means(v); vp_inv_means(w);
    <Bank::State as RefinementObligations>::next_refines(&v, &w, l);
    reveal(SystemModel::State::next);
    reveal(SystemModel::State::next_by);
    let bl = l.to_bank_lbl();
    assert(Bank::State::next(v.bank, w.bank, bl));
    vp_step(v.bank, w.bank, bl);
}

/// an identifier that has been seen and is waiting nowhere
pub open spec fn vp_spent(s: Sys, id: ReqID) -> bool {
    &&& s.id_history.contains(id)
    &&& forall |q: Request| s.bank.requests.contains(q) ==> #[trigger] q.id != id
    &&& forall |r: Reply| s.bank.replies.contains(r) ==> #[trigger] r.id != id
}
pub proof fn vp_answered_once(v: Sys, w: Sys, l: BankLabel, id: ReqID)
    requires vp_sys(v), SystemModel::State::next(v, w, l),
    ensures
        vp_spent(v, id) ==> vp_spent(w, id),
        vp_spent(v, id) && l is DeliverReply ==> l.arrow_DeliverReply_reply().id != id,
        l is DeliverReply && l.arrow_DeliverReply_reply().id == id ==> vp_spent(w, id) && v.id_history.contains(id),
        v.id_history.contains(id) ==> w.id_history.contains(id),
        w.id_history.contains(id) && !v.id_history.contains(id) ==> l is AcceptRequest && l.arrow_AcceptRequest_req().id == id,
{
    reveal(SystemModel::State::next);
    reveal(SystemModel::State::next_by);
    vp_sys_step(v, w, l);
    let bl = l.to_bank_lbl();
    assert(Bank::State::next(v.bank, w.bank, bl));
    vp_step(v.bank, w.bank, bl);
    if vp_spent(v, id) {
        assert forall |q: Request| w.bank.requests.contains(q) implies #[trigger] q.id != id by {
            if l is AcceptRequest { if q != l.arrow_AcceptRequest_req() { assert(v.bank.requests.contains(q)); } }
            else { assert(v.bank.requests.contains(q)); }
        }
        assert forall |r: Reply| w.bank.replies.contains(r) implies #[trigger] r.id != id by {
            if l is Execute {
                assert(v.bank.requests.contains(l.arrow_Execute_req()));
                if r != l.arrow_Execute_reply() { assert(v.bank.replies.contains(r)); }
            } else { assert(v.bank.replies.contains(r)); }
        }
    }
    if l is DeliverReply && l.arrow_DeliverReply_reply().id == id {
        let r0 = l.arrow_DeliverReply_reply();
        assert(v.bank.replies.contains(r0));
        assert(v.bank.replies.count(r0) == 1);
        assert forall |q: Request| w.bank.requests.contains(q) implies #[trigger] q.id != id by { assert(v.bank.requests.contains(q)); }
        assert forall |r: Reply| w.bank.replies.contains(r) implies #[trigger] r.id != id by { assert(v.bank.replies.contains(r)); }
    }
}

pub open spec fn vp_hist(b: Seq<Sys>, l: Seq<BankLabel>) -> bool {
    &&& b.len() == l.len() + 1
    &&& forall |k: int| 0 <= k < l.len() ==> SystemModel::State::next(#[trigger] b[k], b[k + 1], l[k])
}
/// every history from a fresh bank: the total stays, every reply answers an earlier request and only once
pub proof fn vp_every_history(b: Seq<Sys>, l: Seq<BankLabel>, accounts: nat, each: nat)
    requires vp_hist(b, l), SystemModel::State::initialize(b[0], b[0].bank, accounts, each),
    ensures
        forall |k: int| 0 <= k < b.len() ==> vp_sys(#[trigger] b[k]) && vp_sum(b[k].bank.account_map, accounts) == each * accounts,
        forall |k: int| 0 <= k < l.len() ==> BankSpec::State::next(
            <Bank::State as RefinementObligations>::i(&#[trigger] b[k]), <Bank::State as RefinementObligations>::i(&b[k + 1]), <Bank::State as RefinementObligations>::i_lbl(l[k])),
        forall |j: int, k: int| 0 <= j < k < l.len() && l[j] is DeliverReply && l[k] is DeliverReply
            ==> (#[trigger] l[j]).arrow_DeliverReply_reply().id != (#[trigger] l[k]).arrow_DeliverReply_reply().id,
        forall |k: int| 0 <= k < l.len() && (#[trigger] l[k]) is DeliverReply ==> exists |j: int| 0 <= j < k
            && (#[trigger] l[j]) is AcceptRequest && l[j].arrow_AcceptRequest_req().id == l[k].arrow_DeliverReply_reply().id,
{
    vp_sys_init(b[0], accounts, each);
    vp_hist_inv(b, l, l.len() as int);
    assert forall |k: int| 0 <= k < b.len() implies vp_sys(#[trigger] b[k]) && vp_sum(b[k].bank.account_map, accounts) == each * accounts by { vp_hist_inv(b, l, k); }
    assert forall |k: int| 0 <= k < l.len() implies BankSpec::State::next(
            <Bank::State as RefinementObligations>::i(&#[trigger] b[k]), <Bank::State as RefinementObligations>::i(&b[k + 1]), <Bank::State as RefinementObligations>::i_lbl(l[k])) by {
        vp_hist_inv(b, l, k); vp_sys_step(b[k], b[k + 1], l[k]);
    }
    assert forall |j: int, k: int| 0 <= j < k < l.len() && l[j] is DeliverReply && l[k] is DeliverReply
        implies (#[trigger] l[j]).arrow_DeliverReply_reply().id != (#[trigger] l[k]).arrow_DeliverReply_reply().id by {
        let id = l[j].arrow_DeliverReply_reply().id;
        vp_hist_inv(b, l, j);
        vp_answered_once(b[j], b[j + 1], l[j], id);
        vp_stays_spent(b, l, j + 1, k, id);
        vp_hist_inv(b, l, k);
        vp_answered_once(b[k], b[k + 1], l[k], id);
    }
    assert forall |k: int| 0 <= k < l.len() && (#[trigger] l[k]) is DeliverReply implies exists |j: int| 0 <= j < k
            && (#[trigger] l[j]) is AcceptRequest && l[j].arrow_AcceptRequest_req().id == l[k].arrow_DeliverReply_reply().id by {
        let id = l[k].arrow_DeliverReply_reply().id;
        vp_hist_inv(b, l, k);
        vp_answered_once(b[k], b[k + 1], l[k], id);
        vp_came_from(b, l, k, id);
    }
}
proof fn vp_hist_inv(b: Seq<Sys>, l: Seq<BankLabel>, k: int)
    requires vp_hist(b, l), vp_sys(b[0]), 0 <= k < b.len(),
    ensures vp_sys(b[k]), b[k].bank.total_accounts == b[0].bank.total_accounts, b[k].bank.total_amount == b[0].bank.total_amount,
    decreases k
{
    if k > 0 { vp_hist_inv(b, l, k - 1); assert(SystemModel::State::next(b[k - 1], b[k - 1 + 1], l[k - 1])); vp_sys_step(b[k - 1], b[k], l[k - 1]); }
}
proof fn vp_stays_spent(b: Seq<Sys>, l: Seq<BankLabel>, j: int, k: int, id: ReqID)
    requires vp_hist(b, l), vp_sys(b[0]), 0 <= j <= k < b.len(), vp_spent(b[j], id),
    ensures vp_spent(b[k], id),
    decreases k - j
{
    if j < k { vp_stays_spent(b, l, j, k - 1, id); vp_hist_inv(b, l, k - 1); assert(SystemModel::State::next(b[k - 1], b[k - 1 + 1], l[k - 1])); vp_answered_once(b[k - 1], b[k], l[k - 1], id); }
}
proof fn vp_came_from(b: Seq<Sys>, l: Seq<BankLabel>, k: int, id: ReqID)
    requires vp_hist(b, l), vp_sys(b[0]), b[0].id_history == ISet::<ReqID>::empty(), 0 <= k < b.len(), b[k].id_history.contains(id),
    ensures exists |j: int| 0 <= j < k && (#[trigger] l[j]) is AcceptRequest && l[j].arrow_AcceptRequest_req().id == id,
    decreases k
{
    assert(k > 0);
    vp_hist_inv(b, l, k - 1);
    assert(SystemModel::State::next(b[k - 1], b[k - 1 + 1], l[k - 1]));
    vp_answered_once(b[k - 1], b[k], l[k - 1], id);
    if b[k - 1].id_history.contains(id) { vp_came_from(b, l, k - 1, id); }
}

proof fn vpfail_step(v: B, w: B, l: BL)
    requires vp_ok(v), Bank::State::next(v, w, l),
    ensures w.account_map == v.account_map,
{ reveal(Bank::State::next); reveal(Bank::State::next_by); }
proof fn vpfail_sys(s: Sys)
    requires vp_sys(s),
    ensures false,
{ }
}
