//@ in: abstract_system/AbstractCrashAwareMap_v.rs
// Wrong steps with concrete states. None of these is provable on a tree where S01 and S02 hold; they are tried only
// after an obligation failed, and one that is accepted is the failing input.
use vstd::prelude::*;
use crate::spec::TotalKMMap_t::*;
verus! {
pub open spec fn k() -> Key { Key(5) }
pub open spec fn vals(v: u64) -> TotalKMMap { TotalKMMap(IMap::new(|k: Key| true, |k: Key| Message::Define{ value: Value(v) })) }
/// the map that holds value 7 at every key, at LSN n
pub open spec fn sm(n: nat) -> StampedMap { Stamped{ value: vals(7), seq_end: n } }
pub open spec fn am(n: nat) -> AbstractMap::State { AbstractMap::State{ stamped_map: sm(n) } }
pub open spec fn kn(n: nat) -> Ephemeral { Ephemeral::Known{ v: am(n) } }
/// one put, key 5 := 9, at LSN n
pub open spec fn rec(n: nat) -> MsgHistory { MsgHistory::singleton_at(n, KeyedMessage{ key: k(), message: Message::Define{ value: Value(9) } }) }
pub open spec fn am2() -> AbstractMap::State { AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) } }
/// whatever a map that was not recovered holds
pub open spec fn xm() -> AbstractMap::State { Ephemeral::Unknown->v }
/// durable map at LSN p, running map e, frozen image i
pub open spec fn st(p: nat, e: Ephemeral, i: Option<StoreImage>) -> CrashTolerantMap::State { CrashTolerantMap::State{ persistent: sm(p), ephemeral: e, in_flight: i } }

proof fn vw_apply()
    ensures am2().stamped_map.seq_end == 2, am2().stamped_map.value == vals(7).insert(k(), Message::Define{ value: Value(9) }), am2().stamped_map.value != vals(7),
{
    reveal_with_fuel(MsgHistory::apply_to_stamped_map, 3);
    let h = rec(1);
    assert(h.discard_recent(1).seq_end == 1);
    assert(vals(7).insert(k(), Message::Define{ value: Value(9) }).0[k()] != vals(7).0[k()]);
}

/// a query is answered for LSN 0 by a map that stands at LSN 1
pub proof fn vpwit_am_query_stale_lsn() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(1);
    let post = am(1);
    let lbl = AbstractMap::Label::QueryLabel{ end_lsn: 0, key: k(), value: Value(7) };
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::query()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a query is answered for LSN 2 by a map that stands at LSN 1
pub proof fn vpwit_am_query_future_lsn() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(1);
    let post = am(1);
    let lbl = AbstractMap::Label::QueryLabel{ end_lsn: 2, key: k(), value: Value(7) };
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::query()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a query for a key whose value is 7 is answered with 8
pub proof fn vpwit_am_query_wrong_value() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(1);
    let post = am(1);
    let lbl = AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(8) };
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::query()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a query moves the map from LSN 1 to LSN 2
pub proof fn vpwit_am_query_moves() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(1);
    let post = am(2);
    let lbl = AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) };
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::query()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// records that start at LSN 2 are applied to a map that stands at LSN 1
pub proof fn vpwit_am_put_gap() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(1);
    let post = AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(2)) };
    let lbl = AbstractMap::Label::PutLabel{ puts: rec(2) };
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::put()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// records that start at LSN 1 are applied to a map that stands at LSN 3
pub proof fn vpwit_am_put_gap2() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(3);
    let post = AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(3), rec(1)) };
    let lbl = AbstractMap::Label::PutLabel{ puts: rec(1) };
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::put()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a put is accepted and leaves the map as it was
pub proof fn vpwit_am_put_lost() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(1);
    let post = am(1);
    let lbl = AbstractMap::Label::PutLabel{ puts: rec(1) };
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::put()) || AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::internal()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a put is accepted, the LSN advances, the value is lost
pub proof fn vpwit_am_put_no_value() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(1);
    let post = am(2);
    let lbl = AbstractMap::Label::PutLabel{ puts: rec(1) };
    vw_apply();
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::put()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a put changes the value and the LSN stays
pub proof fn vpwit_am_put_no_lsn() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(1);
    let post = AbstractMap::State{ stamped_map: Stamped{ value: MsgHistory::map_plus_history(sm(1), rec(1)).value, seq_end: 1 } };
    let lbl = AbstractMap::Label::PutLabel{ puts: rec(1) };
    vw_apply();
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::put()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a map at LSN 2 is frozen as one at LSN 1
pub proof fn vpwit_am_freeze_old() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(2);
    let post = am(2);
    let lbl = AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) };
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::freeze_as()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a map at LSN 2 is frozen as one at LSN 3
pub proof fn vpwit_am_freeze_new() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(2);
    let post = am(2);
    let lbl = AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(3) };
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::freeze_as()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a map is frozen under its LSN with other contents
pub proof fn vpwit_am_freeze_value() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(2);
    let post = am(2);
    let lbl = AbstractMap::Label::FreezeAsLabel{ stamped_map: Stamped{ value: vals(8), seq_end: 2 } };
    assert(vals(8).0[k()] != vals(7).0[k()]);
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::freeze_as()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// freezing sets the map back to LSN 1
pub proof fn vpwit_am_freeze_moves() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(2);
    let post = am(1);
    let lbl = AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(2) };
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::freeze_as()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// freezing the map at LSN 2 as LSN 1 sets it back to LSN 1
pub proof fn vpwit_am_freeze_moves2() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(2);
    let post = am(1);
    let lbl = AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) };
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::freeze_as()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// an internal step sets the map back from LSN 2 to LSN 1
pub proof fn vpwit_am_internal_back() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(2);
    let post = am(1);
    let lbl = AbstractMap::Label::InternalLabel;
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::internal()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// an internal step moves the map from LSN 1 to LSN 2
pub proof fn vpwit_am_internal_fwd() {
    reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by);
    let pre = am(1);
    let post = am(2);
    let lbl = AbstractMap::Label::InternalLabel;
    
    assert(AbstractMap::State::next_by(pre, post, lbl, AbstractMap::Step::internal()));
    assert(AbstractMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a running map (LSN 4) is replaced by the durable one (LSN 1)
pub proof fn vpwit_cm_load_again() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = st(1, kn(1), None);
    let lbl = CrashTolerantMap::Label::LoadEphemeralFromPersistentLabel{ end_lsn: 1 };
    assert(AbstractMap::State::init_by(am(1), AbstractMap::Config::initialize(sm(1))));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::load_ephemeral_from_persistent()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// recovery is told the durable map (LSN 1) stands at LSN 3
pub proof fn vpwit_cm_load_lsn() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = st(1, kn(1), None);
    let lbl = CrashTolerantMap::Label::LoadEphemeralFromPersistentLabel{ end_lsn: 3 };
    assert(AbstractMap::State::init_by(am(1), AbstractMap::Config::initialize(sm(1))));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::load_ephemeral_from_persistent()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// recovery is told the durable map (LSN 1) stands at LSN 0
pub proof fn vpwit_cm_load_lsn0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = st(1, kn(1), None);
    let lbl = CrashTolerantMap::Label::LoadEphemeralFromPersistentLabel{ end_lsn: 0 };
    assert(AbstractMap::State::init_by(am(1), AbstractMap::Config::initialize(sm(1))));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::load_ephemeral_from_persistent()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// recovery of a durable map at LSN 1: loads another map
pub proof fn vpwit_cm_load_0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = st(1, kn(0), None);
    let lbl = CrashTolerantMap::Label::LoadEphemeralFromPersistentLabel{ end_lsn: 1 };
    assert(AbstractMap::State::init_by(am(1), AbstractMap::Config::initialize(sm(1))));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::load_ephemeral_from_persistent()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// recovery of a durable map at LSN 1: loads another map
pub proof fn vpwit_cm_load_1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = st(1, kn(2), None);
    let lbl = CrashTolerantMap::Label::LoadEphemeralFromPersistentLabel{ end_lsn: 1 };
    assert(AbstractMap::State::init_by(am(1), AbstractMap::Config::initialize(sm(1))));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::load_ephemeral_from_persistent()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// recovery of a durable map at LSN 1: loads the empty map
pub proof fn vpwit_cm_load_2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = st(1, Ephemeral::Known{ v: AbstractMap::State{ stamped_map: empty() } }, None);
    let lbl = CrashTolerantMap::Label::LoadEphemeralFromPersistentLabel{ end_lsn: 1 };
    assert(AbstractMap::State::init_by(am(1), AbstractMap::Config::initialize(sm(1))));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::load_ephemeral_from_persistent()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// recovery of a durable map at LSN 1: loads nothing
pub proof fn vpwit_cm_load_3() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = st(1, Ephemeral::Unknown, None);
    let lbl = CrashTolerantMap::Label::LoadEphemeralFromPersistentLabel{ end_lsn: 1 };
    assert(AbstractMap::State::init_by(am(1), AbstractMap::Config::initialize(sm(1))));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::load_ephemeral_from_persistent()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// recovery of a durable map at LSN 1: leaves a frozen image behind
pub proof fn vpwit_cm_load_4() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = st(1, kn(1), Some(sm(1)));
    let lbl = CrashTolerantMap::Label::LoadEphemeralFromPersistentLabel{ end_lsn: 1 };
    assert(AbstractMap::State::init_by(am(1), AbstractMap::Config::initialize(sm(1))));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::load_ephemeral_from_persistent()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a put of LSN 1 on a running map: becomes durable without a commit
pub proof fn vpwit_cm_put_0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(1), Some(sm(1)));
    let post = CrashTolerantMap::State{ persistent: am2().stamped_map, ephemeral: Ephemeral::Known{ v: am2() }, in_flight: Some(sm(1)) };
    let lbl = CrashTolerantMap::Label::PutRecordsLabel{ records: rec(1) };
    assert(AbstractMap::State::next_by(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) }, AbstractMap::Step::put()) ); assert(AbstractMap::State::next(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) })); vw_apply();
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::put_records(am2())));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a put of LSN 1 on a running map: enters the frozen image
pub proof fn vpwit_cm_put_1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(1), Some(sm(1)));
    let post = CrashTolerantMap::State{ persistent: sm(1), ephemeral: Ephemeral::Known{ v: am2() }, in_flight: Some(am2().stamped_map) };
    let lbl = CrashTolerantMap::Label::PutRecordsLabel{ records: rec(1) };
    assert(AbstractMap::State::next_by(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) }, AbstractMap::Step::put()) ); assert(AbstractMap::State::next(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) })); vw_apply();
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::put_records(am2())));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a put of LSN 1 on a running map: drops the frozen image
pub proof fn vpwit_cm_put_2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(1), Some(sm(1)));
    let post = CrashTolerantMap::State{ persistent: sm(1), ephemeral: Ephemeral::Known{ v: am2() }, in_flight: None };
    let lbl = CrashTolerantMap::Label::PutRecordsLabel{ records: rec(1) };
    assert(AbstractMap::State::next_by(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) }, AbstractMap::Step::put()) ); assert(AbstractMap::State::next(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) })); vw_apply();
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::put_records(am2())));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a put of LSN 1 on a running map: is lost
pub proof fn vpwit_cm_put_3() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(1), Some(sm(1)));
    let post = st(1, kn(1), Some(sm(1)));
    let lbl = CrashTolerantMap::Label::PutRecordsLabel{ records: rec(1) };
    assert(AbstractMap::State::next_by(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) }, AbstractMap::Step::put()) ); assert(AbstractMap::State::next(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) })); vw_apply();
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::put_records(am2())));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a put may replace the running map by any other
pub proof fn vpwit_cm_put_any() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(1), None);
    let post = st(1, kn(5), None);
    let lbl = CrashTolerantMap::Label::PutRecordsLabel{ records: rec(1) };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::put_records(am(5))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// records of LSN 2 are put on a running map at LSN 1
pub proof fn vpwit_cm_put_gap() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(1), None);
    let post = CrashTolerantMap::State{ persistent: sm(1), ephemeral: Ephemeral::Known{ v: AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(2)) } }, in_flight: None };
    let lbl = CrashTolerantMap::Label::PutRecordsLabel{ records: rec(2) };
    assert(AbstractMap::State::next_by(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(2)) }, AbstractMap::Label::PutLabel{ puts: rec(2) }, AbstractMap::Step::put()) ); assert(AbstractMap::State::next(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(2)) }, AbstractMap::Label::PutLabel{ puts: rec(2) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::put_records(AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(2)) })));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a query of a running map at LSN 1: moves it
pub proof fn vpwit_cm_query_0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(0, kn(1), None);
    let post = st(0, kn(2), None);
    let lbl = CrashTolerantMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) };
    assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }, AbstractMap::Step::query()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::query(am(1))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a query of a running map at LSN 1: sets it back
pub proof fn vpwit_cm_query_1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(0, kn(1), None);
    let post = st(0, kn(0), None);
    let lbl = CrashTolerantMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) };
    assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }, AbstractMap::Step::query()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::query(am(1))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a query of a running map at LSN 1: makes it durable
pub proof fn vpwit_cm_query_2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(0, kn(1), None);
    let post = st(1, kn(1), None);
    let lbl = CrashTolerantMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) };
    assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }, AbstractMap::Step::query()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::query(am(1))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a query of a running map at LSN 1: loses it
pub proof fn vpwit_cm_query_3() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(0, kn(1), None);
    let post = st(0, Ephemeral::Unknown, None);
    let lbl = CrashTolerantMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) };
    assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }, AbstractMap::Step::query()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::query(am(1))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a query of a running map at LSN 1 whose values are all 7: wrong value accepted
pub proof fn vpwit_cm_query_value() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(0, kn(1), None);
    let post = st(0, kn(1), None);
    let lbl = CrashTolerantMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(8) };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::query(am(1))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a query of a running map at LSN 1 whose values are all 7: wrong lsn accepted
pub proof fn vpwit_cm_query_lsn() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(0, kn(1), None);
    let post = st(0, kn(1), None);
    let lbl = CrashTolerantMap::Label::QueryLabel{ end_lsn: 0, key: k(), value: Value(7) };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::query(am(1))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a query is answered from the durable map (values 7) though the running map holds 8
pub proof fn vpwit_cm_query_durable() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = CrashTolerantMap::State{ persistent: sm(1), ephemeral: Ephemeral::Known{ v: AbstractMap::State{ stamped_map: Stamped{ value: vals(8), seq_end: 1 } } }, in_flight: None };
    let post = pre;
    let lbl = CrashTolerantMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) };
    assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }, AbstractMap::Step::query()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::query(am(1))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::query(AbstractMap::State{ stamped_map: Stamped{ value: vals(8), seq_end: 1 } })));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a frozen image at LSN 2 that is being written is replaced by one at LSN 4
pub proof fn vpwit_cm_freeze_again() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(2)));
    let post = st(1, kn(4), Some(sm(4)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(4), am(4))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// freezing a running map at LSN 4 (durable: 1): yields the durable image
pub proof fn vpwit_cm_freeze_0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = st(1, kn(4), Some(sm(1)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }));assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(4), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(1))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(5), am(4))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// freezing a running map at LSN 4 (durable: 1): yields an image ahead of the map
pub proof fn vpwit_cm_freeze_1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = st(1, kn(4), Some(sm(5)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }));assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(4), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(1))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(5), am(4))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// freezing a running map at LSN 4 (durable: 1): makes it durable at once
pub proof fn vpwit_cm_freeze_2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = st(4, kn(4), None);
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }));assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(4), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(1))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(5), am(4))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// freezing a running map at LSN 4 (durable: 1): makes it durable at once
pub proof fn vpwit_cm_freeze_3() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = st(4, kn(4), Some(sm(4)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }));assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(4), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(1))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(5), am(4))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// freezing a running map at LSN 4 (durable: 1): sets the running map back
pub proof fn vpwit_cm_freeze_4() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = st(1, kn(1), Some(sm(4)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }));assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(4), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(1))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(5), am(4))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// freezing a running map at LSN 4 (durable: 1): loses the running map
pub proof fn vpwit_cm_freeze_5() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = st(1, Ephemeral::Unknown, Some(sm(4)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }));assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(1) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(4), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(1), am(1))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(sm(5), am(4))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// an internal step of a running map at LSN 4: makes it durable
pub proof fn vpwit_cm_internal_0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(2)));
    let post = st(4, kn(4), Some(sm(2)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::InternalLabel, AbstractMap::Step::internal()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::InternalLabel));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(5))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(2))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// an internal step of a running map at LSN 4: commits the frozen image
pub proof fn vpwit_cm_internal_1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(2)));
    let post = st(2, kn(4), Some(sm(2)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::InternalLabel, AbstractMap::Step::internal()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::InternalLabel));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(5))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(2))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// an internal step of a running map at LSN 4: drops the frozen image
pub proof fn vpwit_cm_internal_2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(2)));
    let post = st(1, kn(4), None);
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::InternalLabel, AbstractMap::Step::internal()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::InternalLabel));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(5))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(2))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// an internal step of a running map at LSN 4: replaces the frozen image
pub proof fn vpwit_cm_internal_3() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(2)));
    let post = st(1, kn(4), Some(sm(4)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::InternalLabel, AbstractMap::Step::internal()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::InternalLabel));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(5))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(2))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// an internal step of a running map at LSN 4: changes it
pub proof fn vpwit_cm_internal_4() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(2)));
    let post = st(1, kn(5), Some(sm(2)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::InternalLabel, AbstractMap::Step::internal()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::InternalLabel));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(5))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(2))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// an internal step of a running map at LSN 4: sets it back
pub proof fn vpwit_cm_internal_5() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(2)));
    let post = st(1, kn(2), Some(sm(2)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::InternalLabel, AbstractMap::Step::internal()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::InternalLabel));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(4))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(5))) || CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(am(2))));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit starts with no frozen image
pub proof fn vpwit_cm_cstart_none() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = pre;
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 4 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit starts with no frozen image
pub proof fn vpwit_cm_cstart_none1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = pre;
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 1 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit of the image at LSN 3 starts with boundary 2
pub proof fn vpwit_cm_cstart_low() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = pre;
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 2 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit of the image at LSN 3 starts with boundary 4
pub proof fn vpwit_cm_cstart_high() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = pre;
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 4 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit starts that takes the durable map back from LSN 3 to LSN 2
pub proof fn vpwit_cm_cstart_back() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(3, kn(4), Some(sm(2)));
    let post = pre;
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 2 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// starting a commit of the image at LSN 3: is durable before it completes
pub proof fn vpwit_cm_cstart_p0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(3, kn(4), Some(sm(3)));
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 3 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// starting a commit of the image at LSN 3: is durable before it completes
pub proof fn vpwit_cm_cstart_p1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(3, kn(4), None);
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 3 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// starting a commit of the image at LSN 3: drops the image
pub proof fn vpwit_cm_cstart_p2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, kn(4), None);
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 3 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// starting a commit of the image at LSN 3: replaces the image
pub proof fn vpwit_cm_cstart_p3() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, kn(4), Some(sm(4)));
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 3 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// starting a commit of the image at LSN 3: sets the running map back
pub proof fn vpwit_cm_cstart_p4() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, kn(3), Some(sm(3)));
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 3 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// starting a commit of the image at LSN 3: loses the running map
pub proof fn vpwit_cm_cstart_p5() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, Ephemeral::Unknown, Some(sm(3)));
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 3 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit of the image at LSN 3 completes (running: 4, durable: 1): the durable map stays
pub proof fn vpwit_cm_cdone_0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, kn(4), None);
    let lbl = CrashTolerantMap::Label::CommitCompleteLabel;
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_complete()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit of the image at LSN 3 completes (running: 4, durable: 1): the running map becomes durable, not the image written
pub proof fn vpwit_cm_cdone_1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(4, kn(4), None);
    let lbl = CrashTolerantMap::Label::CommitCompleteLabel;
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_complete()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit of the image at LSN 3 completes (running: 4, durable: 1): the frozen image stays in flight
pub proof fn vpwit_cm_cdone_2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(3, kn(4), Some(sm(3)));
    let lbl = CrashTolerantMap::Label::CommitCompleteLabel;
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_complete()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit of the image at LSN 3 completes (running: 4, durable: 1): nothing happens
pub proof fn vpwit_cm_cdone_3() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, kn(4), Some(sm(3)));
    let lbl = CrashTolerantMap::Label::CommitCompleteLabel;
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_complete()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit of the image at LSN 3 completes (running: 4, durable: 1): the durable map is empty
pub proof fn vpwit_cm_cdone_4() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = CrashTolerantMap::State{ persistent: empty(), ephemeral: kn(4), in_flight: None };
    let lbl = CrashTolerantMap::Label::CommitCompleteLabel;
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_complete()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit of the image at LSN 3 completes (running: 4, durable: 1): the running map is set back
pub proof fn vpwit_cm_cdone_5() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(3, kn(3), None);
    let lbl = CrashTolerantMap::Label::CommitCompleteLabel;
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_complete()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit of the image at LSN 3 completes (running: 4, durable: 1): the running map is lost
pub proof fn vpwit_cm_cdone_6() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(3, Ephemeral::Unknown, None);
    let lbl = CrashTolerantMap::Label::CommitCompleteLabel;
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_complete()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit completes that never started
pub proof fn vpwit_cm_cdone_none() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = CrashTolerantMap::State{ persistent: pre.in_flight.unwrap(), ephemeral: kn(4), in_flight: None };
    let lbl = CrashTolerantMap::Label::CommitCompleteLabel;
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_complete()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit completes that never started, and makes the running map durable
pub proof fn vpwit_cm_cdone_none4() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = st(4, kn(4), None);
    let lbl = CrashTolerantMap::Label::CommitCompleteLabel;
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_complete()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit completes that never started
pub proof fn vpwit_cm_cdone_none1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = st(1, kn(4), None);
    let lbl = CrashTolerantMap::Label::CommitCompleteLabel;
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_complete()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock landed (durable: 1, image: 3, running: 4): the other image survives
pub proof fn vpwit_cm_crash_true_0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, Ephemeral::Unknown, None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: true };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock landed (durable: 1, image: 3, running: 4): the running map survives as the durable one
pub proof fn vpwit_cm_crash_true_1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(4, Ephemeral::Unknown, None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: true };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock landed (durable: 1, image: 3, running: 4): nothing survives
pub proof fn vpwit_cm_crash_true_2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = CrashTolerantMap::State{ persistent: empty(), ephemeral: Ephemeral::Unknown, in_flight: None };
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: true };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock landed (durable: 1, image: 3, running: 4): the running map survives in memory
pub proof fn vpwit_cm_crash_true_3() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(3, kn(4), None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: true };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock landed (durable: 1, image: 3, running: 4): the image stays in flight
pub proof fn vpwit_cm_crash_true_4() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(3, Ephemeral::Unknown, Some(sm(3)));
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: true };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock landed (durable: 1, image: 3, running: 4): the running map is known
pub proof fn vpwit_cm_crash_true_5() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(3, kn(3), None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: true };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock not landed (durable: 1, image: 3, running: 4): the other image survives
pub proof fn vpwit_cm_crash_false_0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(3, Ephemeral::Unknown, None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock not landed (durable: 1, image: 3, running: 4): the running map survives as the durable one
pub proof fn vpwit_cm_crash_false_1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(4, Ephemeral::Unknown, None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock not landed (durable: 1, image: 3, running: 4): nothing survives
pub proof fn vpwit_cm_crash_false_2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = CrashTolerantMap::State{ persistent: empty(), ephemeral: Ephemeral::Unknown, in_flight: None };
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock not landed (durable: 1, image: 3, running: 4): the running map survives in memory
pub proof fn vpwit_cm_crash_false_3() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, kn(4), None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock not landed (durable: 1, image: 3, running: 4): the image stays in flight
pub proof fn vpwit_cm_crash_false_4() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, Ephemeral::Unknown, Some(sm(3)));
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with the superblock not landed (durable: 1, image: 3, running: 4): the running map is known
pub proof fn vpwit_cm_crash_false_5() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, kn(1), None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash during recovery (durable: 1): nothing survives
pub proof fn vpwit_cm_crash_unk_0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = CrashTolerantMap::State{ persistent: empty(), ephemeral: Ephemeral::Unknown, in_flight: None };
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash during recovery (durable: 1): anything survives
pub proof fn vpwit_cm_crash_unk_1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = CrashTolerantMap::State{ persistent: None::<StoreImage>.unwrap(), ephemeral: Ephemeral::Unknown, in_flight: None };
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with no image in flight (durable: 1, running: 4): the running map survives as the durable one
pub proof fn vpwit_cm_crash_nofl_0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = st(4, Ephemeral::Unknown, None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a crash with no image in flight (durable: 1, running: 4): nothing survives
pub proof fn vpwit_cm_crash_nofl_1() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = CrashTolerantMap::State{ persistent: empty(), ephemeral: Ephemeral::Unknown, in_flight: None };
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::crash()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// records are put on a map that was not recovered
pub proof fn vpwit_cm_unk_put() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = CrashTolerantMap::State{ persistent: sm(1), ephemeral: Ephemeral::Known{ v: AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(xm().stamped_map, rec(xm().stamped_map.seq_end)) } }, in_flight: None };
    let lbl = CrashTolerantMap::Label::PutRecordsLabel{ records: rec(xm().stamped_map.seq_end) };
    assert(AbstractMap::State::next_by(xm(), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(xm().stamped_map, rec(xm().stamped_map.seq_end)) }, AbstractMap::Label::PutLabel{ puts: rec(xm().stamped_map.seq_end) }, AbstractMap::Step::put()) ); assert(AbstractMap::State::next(xm(), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(xm().stamped_map, rec(xm().stamped_map.seq_end)) }, AbstractMap::Label::PutLabel{ puts: rec(xm().stamped_map.seq_end) }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::put_records(AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(xm().stamped_map, rec(xm().stamped_map.seq_end)) })));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a query is answered by a map that was not recovered
pub proof fn vpwit_cm_unk_query() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = pre;
    let lbl = CrashTolerantMap::Label::QueryLabel{ end_lsn: xm().stamped_map.seq_end, key: k(), value: xm().stamped_map.value[k()]->value };
    assert(AbstractMap::State::next_by(xm(), xm(), AbstractMap::Label::QueryLabel{ end_lsn: xm().stamped_map.seq_end, key: k(), value: xm().stamped_map.value[k()]->value }, AbstractMap::Step::query()) ); assert(AbstractMap::State::next(xm(), xm(), AbstractMap::Label::QueryLabel{ end_lsn: xm().stamped_map.seq_end, key: k(), value: xm().stamped_map.value[k()]->value }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::query(xm())));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a map that was not recovered is frozen
pub proof fn vpwit_cm_unk_freeze() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = CrashTolerantMap::State{ persistent: sm(1), ephemeral: Ephemeral::Known{ v: xm() }, in_flight: Some(xm().stamped_map) };
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(xm(), xm(), AbstractMap::Label::FreezeAsLabel{ stamped_map: xm().stamped_map }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(xm(), xm(), AbstractMap::Label::FreezeAsLabel{ stamped_map: xm().stamped_map }));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::freeze_map_internal(xm().stamped_map, xm())));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a map that was not recovered becomes a running one by an internal step
pub proof fn vpwit_cm_unk_internal() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = CrashTolerantMap::State{ persistent: sm(1), ephemeral: Ephemeral::Known{ v: xm() }, in_flight: None };
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(xm(), xm(), AbstractMap::Label::InternalLabel, AbstractMap::Step::internal()) ); assert(AbstractMap::State::next(xm(), xm(), AbstractMap::Label::InternalLabel));
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::ephemeral_internal(xm())));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit starts on a map that was not recovered
pub proof fn vpwit_cm_cstart_unk() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, Some(sm(3)));
    let post = pre;
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 3 };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// a commit starts with no frozen image
pub proof fn vpwit_cm_cstart_any() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = CrashTolerantMap::State{ persistent: empty(), ephemeral: kn(4), in_flight: None };
    let post = pre;
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: pre.in_flight.unwrap().seq_end };
    
    assert(CrashTolerantMap::State::next_by(pre, post, lbl, CrashTolerantMap::Step::commit_start()));
    assert(CrashTolerantMap::State::next(pre, post, lbl)); // the code accepts this step
}
/// refuses to answer a query of a map at LSN 1 with the value it holds
pub proof fn vpwit_al_query() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = am(1);
    let post = am(1);
    let lbl = AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) };
    
    assert(!AbstractMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a put that follows the map
pub proof fn vpwit_al_put() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = am(1);
    let post = am2();
    let lbl = AbstractMap::Label::PutLabel{ puts: rec(1) };
    
    assert(!AbstractMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses to freeze the map as it stands
pub proof fn vpwit_al_freeze() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = am(2);
    let post = am(2);
    let lbl = AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(2) };
    
    assert(!AbstractMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a step that changes nothing
pub proof fn vpwit_al_internal() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = am(2);
    let post = am(2);
    let lbl = AbstractMap::Label::InternalLabel;
    
    assert(!AbstractMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: recovery loads the durable map
pub proof fn vpwit_cl_load() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = st(1, kn(1), None);
    let lbl = CrashTolerantMap::Label::LoadEphemeralFromPersistentLabel{ end_lsn: 1 };
    
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: recovery loads the durable map
pub proof fn vpwit_cl_load0() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = CrashTolerantMap::State{ persistent: empty(), ephemeral: Ephemeral::Unknown, in_flight: None };
    let post = CrashTolerantMap::State{ persistent: empty(), ephemeral: Ephemeral::Known{ v: AbstractMap::State{ stamped_map: empty() } }, in_flight: None };
    let lbl = CrashTolerantMap::Label::LoadEphemeralFromPersistentLabel{ end_lsn: 0 };
    
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a put on a running map
pub proof fn vpwit_cl_put() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(1), None);
    let post = CrashTolerantMap::State{ persistent: sm(1), ephemeral: Ephemeral::Known{ v: am2() }, in_flight: None };
    let lbl = CrashTolerantMap::Label::PutRecordsLabel{ records: rec(1) };
    assert(AbstractMap::State::next_by(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) }, AbstractMap::Step::put()) ); assert(AbstractMap::State::next(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) })); vw_apply();
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a put while an image is in flight
pub proof fn vpwit_cl_put2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(1), Some(sm(1)));
    let post = CrashTolerantMap::State{ persistent: sm(1), ephemeral: Ephemeral::Known{ v: am2() }, in_flight: Some(sm(1)) };
    let lbl = CrashTolerantMap::Label::PutRecordsLabel{ records: rec(1) };
    assert(AbstractMap::State::next_by(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) }, AbstractMap::Step::put()) ); assert(AbstractMap::State::next(am(1), AbstractMap::State{ stamped_map: MsgHistory::map_plus_history(sm(1), rec(1)) }, AbstractMap::Label::PutLabel{ puts: rec(1) })); vw_apply();
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a query of a running map
pub proof fn vpwit_cl_query() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(0, kn(1), None);
    let post = st(0, kn(1), None);
    let lbl = CrashTolerantMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) };
    assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }, AbstractMap::Step::query()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }));
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a query while an image is in flight
pub proof fn vpwit_cl_query2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(0, kn(1), Some(sm(1)));
    let post = st(0, kn(1), Some(sm(1)));
    let lbl = CrashTolerantMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) };
    assert(AbstractMap::State::next_by(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }, AbstractMap::Step::query()) ); assert(AbstractMap::State::next(am(1), am(1), AbstractMap::Label::QueryLabel{ end_lsn: 1, key: k(), value: Value(7) }));
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a running map is frozen
pub proof fn vpwit_cl_freeze() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), None);
    let post = st(1, kn(4), Some(sm(4)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }));
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a running map that did not change is frozen
pub proof fn vpwit_cl_freeze2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(4, kn(4), None);
    let post = st(4, kn(4), Some(sm(4)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }, AbstractMap::Step::freeze_as()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::FreezeAsLabel{ stamped_map: sm(4) }));
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a step that changes nothing
pub proof fn vpwit_cl_internal() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(2)));
    let post = st(1, kn(4), Some(sm(2)));
    let lbl = CrashTolerantMap::Label::InternalLabel;
    assert(AbstractMap::State::next_by(am(4), am(4), AbstractMap::Label::InternalLabel, AbstractMap::Step::internal()) ); assert(AbstractMap::State::next(am(4), am(4), AbstractMap::Label::InternalLabel));
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a commit of the frozen image starts
pub proof fn vpwit_cl_cstart() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, kn(4), Some(sm(3)));
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 3 };
    
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a commit of a frozen image that equals the durable map starts
pub proof fn vpwit_cl_cstart2() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(3, kn(4), Some(sm(3)));
    let post = st(3, kn(4), Some(sm(3)));
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 3 };
    
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a commit of a frozen image that equals the running map starts
pub proof fn vpwit_cl_cstart3() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(3), Some(sm(3)));
    let post = st(1, kn(3), Some(sm(3)));
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 3 };
    
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a commit of a frozen image at the start of the log
pub proof fn vpwit_cl_cstart4() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = CrashTolerantMap::State{ persistent: empty(), ephemeral: kn(0), in_flight: Some(sm(0)) };
    let post = CrashTolerantMap::State{ persistent: empty(), ephemeral: kn(0), in_flight: Some(sm(0)) };
    let lbl = CrashTolerantMap::Label::CommitStartLabel{ new_boundary_lsn: 0 };
    
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a commit completes
pub proof fn vpwit_cl_cdone() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(3, kn(4), None);
    let lbl = CrashTolerantMap::Label::CommitCompleteLabel;
    
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a crash, superblock landed: true
pub proof fn vpwit_cl_crash_true_k() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(3, Ephemeral::Unknown, None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: true };
    
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a crash, superblock landed: false
pub proof fn vpwit_cl_crash_false_k() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, kn(4), Some(sm(3)));
    let post = st(1, Ephemeral::Unknown, None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}
/// refuses a legal step: a crash, superblock landed: false
pub proof fn vpwit_cl_crash_false_E() {
    reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); reveal(AbstractMap::State::next); reveal(AbstractMap::State::next_by); reveal(AbstractMap::State::init); reveal(AbstractMap::State::init_by);
    let pre = st(1, Ephemeral::Unknown, None);
    let post = st(1, Ephemeral::Unknown, None);
    let lbl = CrashTolerantMap::Label::CrashLabel{ keep_in_flight: false };
    
    assert(!CrashTolerantMap::State::next(pre, post, lbl)); // the code refuses this step
}

proof fn vpfail_consistent(pre: CrashTolerantMap::State, post: CrashTolerantMap::State, lbl: CrashTolerantMap::Label)
    requires CrashTolerantMap::State::next(pre, post, lbl), ensures false { reveal(CrashTolerantMap::State::next); reveal(CrashTolerantMap::State::next_by); }
}
