//@ in: example/SimpleBank_v.rs
use vstd::prelude::*;
verus! {

// The concurrent bank: what a lock protects, and what an answer means.

/// what a lock of the bank protects: the amount is the one of the account's token, which is the token of this very
/// account in this very bank
proof fn vp_locked(p: AccountInv, info: AccountInfo)
    ensures p.inv(info) <==> {
        &&& info.amt as nat == info.acc_token@.value()
        &&& p.key as nat == info.acc_token@.key()
        &&& p.instance.id() == info.acc_token@.instance_id()
    },
{ }

/// account i's lock guards account i
proof fn vp_wf(bank: SimpleBank)
    ensures bank.wf() <==> forall |i: int| 0 <= i < bank.accounts.len() ==> {
        &&& (#[trigger] bank.accounts[i]).pred().key as int == i
        &&& bank.accounts[i].pred().instance == bank.instance@
    },
        bank.instance() == bank.instance@,
        forall |i: usize| #[trigger] bank.valid_id(i) <==> i < bank.accounts.len(),
{
    if bank.wf() {
        assert forall |i: int| 0 <= i < bank.accounts.len() implies {
            &&& (#[trigger] bank.accounts[i]).pred().key as int == i
            &&& bank.accounts[i].pred().instance == bank.instance@
        } by { let acc = i; assert(bank.accounts[acc].pred().instance == bank.instance@); }
    }
    if (forall |i: int| 0 <= i < bank.accounts.len() ==> {
        &&& (#[trigger] bank.accounts[i]).pred().key as int == i
        &&& bank.accounts[i].pred().instance == bank.instance@
    }) {
        assert forall |acc| 0 <= acc < bank.accounts.len() implies #[trigger] bank.accounts[acc].pred().instance == bank.instance@ && bank.accounts[acc].pred().key == acc by {
            assert(bank.accounts[acc].pred().key as int == acc);
        }
    }
}

fn vp_transfer(bank: &SimpleBank, req: Request, shard: Tracked<Bank::requests>) -> (out: (Reply, Tracked<Bank::replies>))
    requires bank.wf(), shard@.instance_id() == bank.instance().id(), shard@.element() == req,
    ensures
        out.0.id == req.id,
        out.1@.instance_id() == bank.instance().id() && out.1@.element() == out.0,
        out.0.output.succeeded ==> vp_could(*bank, req.input),
        !out.0.output.succeeded ==> vp_could_not(*bank, req.input),
{
    bank.maybe_transfer(req, shard)
}

fn vp_fresh(n: usize, each: u32) -> (b: SimpleBank)
    ensures
        b.wf(), forall |i: usize| b.valid_id(i) <==> i < n,
        b.instance().total_accounts() == n as nat, b.instance().total_amount() == (each as nat) * (n as nat),
{
    SimpleBank::_new(n, each)
}

fn vp_look(b: &SimpleBank, id: usize) -> (v: u64)
    requires b.wf(), b.valid_id(id),
    ensures vp_held(*b, id as int, v as int),
{
    b.check_value(id)
}

proof fn vpfail_locked(p: AccountInv, info: AccountInfo)
    requires p.inv(info),
    ensures false,
{ }
fn vpfail_transfer(bank: &SimpleBank, req: Request, shard: Tracked<Bank::requests>)
    requires bank.wf(), shard@.instance_id() == bank.instance().id(), shard@.element() == req,
{
    let r = bank.maybe_transfer(req, shard);
    assert(r.0.output.succeeded);
}
fn vpfail_transfer2(bank: &SimpleBank, req: Request, shard: Tracked<Bank::requests>)
    requires bank.wf(), shard@.instance_id() == bank.instance().id(), shard@.element() == req,
{
    let r = bank.maybe_transfer(req, shard);
    assert(!r.0.output.succeeded);
}
}
