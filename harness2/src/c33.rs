//! bounds: three loans, rents or subscriptions of up to 1000 units at any times from 2021 to 2030, any clock in that time; every order, kind and network; every protocol version
use crate::{entries, st::*, vf::*};
use snapchain::core::util::FarcasterTime;
use snapchain::proto::{self, message_data::Body, on_chain_event::Body as OB, FarcasterNetwork, MessageType, OnChainEvent, OnChainEventType as OT, StorageUnitType, TierType};
use snapchain::storage::db::*;
use snapchain::storage::store::account::*;
use snapchain::storage::store::stores::{StoreLimits, Stores};
use snapchain::storage::trie::merkle_trie::MerkleTrie;
use snapchain::version::version::{EngineVersion, ProtocolFeature};

const YEAR: u64 = 365 * 24 * 60 * 60;
fn time(name: &str) -> u64 { let t = any_u64(name); assume((t >= 1_600_000_000) & (t < 1_900_000_000)); t }
fn now() -> u64 { let n = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs(); assume((n >= 1_600_000_000) & (n < 2_000_000_000)); n }
/// a number of units of two varint bytes
fn units() -> u32 { let u = any_u32("units"); assume((u >= 128) & (u < 1000)); u }
fn all3(s: &StorageSlot) -> [u32; 3] { [s.units_for(StorageUnitType::UnitTypeLegacy), s.units_for(StorageUnitType::UnitType2024), s.units_for(StorageUnitType::UnitType2025)] }
fn ev(ty: OT, fid: u64, block: u32, at: u64, body: OB) -> OnChainEvent {
    OnChainEvent { r#type: ty as i32, chain_id: 10, block_number: block, block_hash: vec![1], block_timestamp: at, transaction_hash: vec![2], log_index: 1, fid, tx_index: 0, version: 0, body: Some(body) }
}
fn rent(fid: u64, block: u32, at: u64, n: u32) -> OnChainEvent { ev(OT::EventTypeStorageRent, fid, block, at, OB::StorageRentEventBody(proto::StorageRentEventBody { payer: vec![1], units: n, expiry: 1 })) }
fn tier(fid: u64, block: u32, at: u64, kind: i32, days: u64) -> OnChainEvent { ev(OT::EventTypeTierPurchase, fid, block, at, OB::TierPurchaseEventBody(proto::TierPurchaseBody { tier_type: kind, for_days: days, payer: vec![1] })) }
fn lend(from: u64, to: u64, t: u32, hash: u8, n: u64, kind: i32) -> proto::Message {
    msg(from, MessageType::LendStorage, t, &[hash; 20], Body::LendStorageBody(proto::LendStorageBody { to_fid: to, num_units: n, unit_type: kind }))
}
fn events(name: &str) -> OnchainEventStore { OnchainEventStore::new(db(name), StoreEventHandler::new()) }
fn merge(s: &OnchainEventStore, e: &OnChainEvent) { let mut txn = RocksDbTransactionBatch::new(); s.merge_onchain_event(e.clone(), &mut txn).unwrap(); s.db.commit(txn).unwrap(); }
fn net() -> FarcasterNetwork { [FarcasterNetwork::Mainnet, FarcasterNetwork::Testnet, FarcasterNetwork::Devnet][choose("network", 0, 2)] }
/// the announced life of rented storage: its kind and when it ends
fn life(at: u64, main: bool, extended: bool) -> (usize, u64) {
    let (c24, c25) = if main { (1752685200, 1782147600) } else { (1752426000, 1781283600) };
    let x = extended as u64;
    if at < 1724889600 { (0, at + YEAR * (3 + x)) } else if at < c24 { (1, at + YEAR * (2 + x)) } else if at < c25 { (2, at + YEAR * (1 + x)) } else { (2, at + YEAR) }
}
/// a time of rental in the k-th period of the storage rules
fn period(k: usize) -> u64 { let e = [1_600_000_000, 1724889600, 1752685200, 1782147600, 1_900_000_000]; let t = any_u64("rented"); assume((t >= e[k]) & (t < e[k + 1])); t }
fn add(a: &mut [u32; 3], k: usize, n: u32) { a[k] += n; }

fn tiers(whose: usize) {
    // a subscription runs from its purchase, or from the end of the one before, for the days paid
    let s = events("d");
    let t = [0, 1, 2].map(|_| time("bought"));
    assume((t[0] <= t[1]) & (t[1] <= t[2]));
    let d = [0, 1, 2].map(|_| { let d = any_u64("days"); assume((d > 0) & (d < 128)); d });
    let pro = TierType::Pro as i32;
    let other = (whose == 4) as usize;
    for i in [2, 0, 1] { merge(&s, &if whose >> i & 1 == 0 { tier(9, 5 + i as u32, t[i], pro, d[i]) } else if other == 0 { tier(10, 5 + i as u32, t[i], pro, d[i]) } else { tier(9, 5 + i as u32, t[i], 0, d[i]) }); }
    let at = any_u32("asked") as u64;
    assume((at > 0) & (at < 900_000_000));
    let ft = FarcasterTime::new(at);
    let unix = ft.to_unix_seconds();
    let (mut all, mut then, mut code) = (0u64, 0u64, 1u64);
    for i in 0..3 {
        if whose >> i & 1 == 1 { continue; }
        let over = conc_bool(t[i] > all);
        all = if over { t[i] } else { all } + d[i] * 86400;
        let by = conc_bool(t[i] <= unix);
        if by { then = all; }
        code = code * 4 + over as u64 * 2 + by as u64;
    }
    split(code * 16 + whose as u64 * 2 + other as u64);
    check(s.tier_subscription_exires_at(TierType::Pro, 9, None).unwrap() == all, "a subscription ends when its days are used up");
    check(s.tier_subscription_exires_at(TierType::Pro, 9, Some(&ft)).unwrap() == then, "purchases count from when they were made");
    check(s.is_tier_subscription_active_at(TierType::Pro, 9, &ft).unwrap() == (then >= unix), "a user is subscribed until then");
    check(s.tier_subscription_exires_at(TierType::Pro, 8, None).unwrap() == 0, "no purchase, no subscription");
    cover("done");
}

entries! {
    fn c33_rent() {
        // rented storage counts from its rental on for the announced time
        let n = net();
        let (now, at, u) = (now(), time("rented"), units());
        let v = EngineVersion::latest();
        let old = EngineVersion::V17;
        let which = choose("version", 0, 1);
        let s = StorageSlot::from_event(&rent(9, 5, at, u), n, if which == 0 { v } else { old }).unwrap();
        let (k, end) = life(at, n == FarcasterNetwork::Mainnet, which == 0);
        let mut want = [0; 3];
        want[k] = u;
        check(all3(&s) == want, "rented storage is of the kind of its time");
        check(s.invalidate_at as u64 == end, "rented storage lasts as long as announced");
        check(s.is_active() == (now < end), "and counts until then");
        check(StorageSlot::from_event(&tier(9, 5, at, 1, 5), n, v).is_err(), "other events give no storage");
        cover("done");
    }
    fn c33_slot() {
        // a user's storage: what is rented and not expired, less lent, plus borrowed
        let now = now();
        let s = events("d");
        let which = choose("whose", 0, 7);
        let when = choose("when", 0, 2);
        let t = [[0, 1, 2], [2, 2, 3], [1, 0, 1]][when].map(|k| period(k));
        let u = [0, 1, 2].map(|_| units());
        // stored or pending, the first always the user's own
        let mut pending = vec![];
        let (mut sum, mut end, mut code) = ([0u32; 3], 0u64, 1u64);
        for i in 0..3 {
            let mine = i == 0 || which >> i & 1 == 0;
            let e = rent(if mine { 9 } else { 10 }, 5 + i as u32, t[i], u[i]);
            if i == 2 && which & 1 == 1 { pending.push(e); } else { merge(&s, &e); }
            let (k, x) = life(t[i], true, true);
            let active = conc_bool(now < x);
            code = code * 2 + active as u64;
            if mine & active { sum[k] += u[i]; end = if end == 0 { x } else if conc_bool(x < end) { x } else { end }; }
        }
        split(code * 24 + which as u64 * 3 + when as u64);
        let (lent, borrowed) = (units(), units());
        let none = StorageSlot::new(0, 0, 0, u32::MAX);
        let v = EngineVersion::latest();
        let plain = s.get_storage_slot_for_fid(9, FarcasterNetwork::Mainnet, v, &pending, &none.clone(), &StorageSlot::new(0, 0, 0, 0)).unwrap();
        check(all3(&plain) == sum && plain.invalidate_at as u64 == end, "storage is the sum of what has not expired");
        let got = s.get_storage_slot_for_fid(9, FarcasterNetwork::Mainnet, v, &pending, &StorageSlot::new(0, 0, lent, u32::MAX), &StorageSlot::new(0, borrowed, 0, u32::MAX)).unwrap();
        let g = all3(&got);
        if end > 0 { check((g[0] == sum[0]) & (g[1] == sum[1] + borrowed) & (g[2] == sum[2].saturating_sub(lent)), "less what is lent, plus what is borrowed"); cover("has"); }
        else { check((g[0] == 0) & (g[1] == borrowed) & (g[2] == 0), "a user without storage has what is borrowed"); cover("none"); }
    }
    fn c33_loans() {
        // of the loans from one user to another the last counts, in whatever order they came; each is taken from the lender and given to the borrower
        let now = now();
        let _ = now;
        let s = StorageLendStore::new(db("d"), StoreEventHandler::new(), 100);
        let to = [0, 1, 2].map(|_| 20 + choose("to", 0, 1) as u64);
        let how = choose("order", 0, 5);
        let zero = choose("returned", 0, 3);
        split((how * 32) as u64 + (zero * 8) as u64 + (to[0] * 4 + to[1] * 2 + to[2]) % 8);
        let t = [0, 1, 2].map(|_| ts("time"));
        assume((t[0] < t[1]) & (t[1] < t[2]));
        let kinds = [2, 1, 2];
        let n = [0, 1, 2].map(|i| if zero == i + 1 { 0 } else { units() as u64 });
        let m: Vec<_> = (0..3).map(|i| lend(9, to[i], t[i], i as u8, n[i], kinds[i])).collect();
        let other = lend(10, 20, t[0], 7, 200, 2);
        let (mut txn, mut taken) = (RocksDbTransactionBatch::new(), [false; 3]);
        let _ = StorageLendStore::merge(&s, &other, &mut txn, &ctx()).unwrap();
        s.db().commit(txn).unwrap();
        for i in ORDERS[how] {
            let mut txn = RocksDbTransactionBatch::new();
            let r = StorageLendStore::merge(&s, &m[i], &mut txn, &ctx());
            if let Ok(e) = &r { check((e.len() == 2) == (n[i] == 0), "returning a loan tells of its removal"); }
            taken[i] = r.is_ok();
            if taken[i] { s.db().commit(txn).unwrap(); }
        }
        let (mut lent, mut borrowed) = ([0u32; 3], [[0u32; 3], [0u32; 3]]);
        add(&mut borrowed[0], 2, 200);
        for b in 0..2 {
            // the last loan to this borrower; one returned leaves nothing behind it, so only what came before is gone
            let order: Vec<usize> = ORDERS[how].iter().cloned().filter(|i| to[*i] == 20 + b as u64).collect();
            let mut cur: Option<usize> = None;
            for i in order { if cur.map_or(true, |c| i > c) { cur = if n[i] == 0 { None } else { Some(i) }; } }
            if let Some(i) = cur { add(&mut lent, kinds[i] as usize, n[i] as u32); add(&mut borrowed[b], kinds[i] as usize, n[i] as u32); }
        }
        check(all3(&StorageLendStore::get_lent_storage(&s, 9).unwrap()) == lent, "a lender has lent exactly the loans that stand");
        for b in 0..2 {
            check(all3(&StorageLendStore::get_borrowed_storage(&s, 20 + b as u64).unwrap()) == borrowed[b], "a borrower has exactly the loans that stand");
            let ms = StorageLendStore::get_messages_by_borrower_fid(&s, 20 + b as u64).unwrap();
            let u: u64 = ms.iter().map(|m| match &m.data.as_ref().unwrap().body { Some(Body::LendStorageBody(l)) => l.num_units, _ => 0 }).sum();
            check(u == borrowed[b].iter().sum::<u32>() as u64, "and is shown them");
        }
        check(all3(&StorageLendStore::get_lent_storage(&s, 20).unwrap()) == [0; 3] && all3(&StorageLendStore::get_borrowed_storage(&s, 9).unwrap()) == [0; 3], "a loan goes one way");
        cover("done");
    }
    fn c33_stores() {
        // the limits a node reports and enforces follow the storage bought, lent and borrowed
        let now = now();
        assume(now >= 1_790_000_000); // when all known versions are in force
        let d = db("d");
        let statsd = snapchain::utils::statsd_wrapper::StatsdClientWrapper::new(cadence::StatsdClient::builder("", cadence::NopMetricSink {}).build(), false);
        let s = Stores::new(d.clone(), 1, MerkleTrie::new().unwrap(), StoreLimits::default(), FarcasterNetwork::Mainnet, statsd);
        let when = choose("when", 0, 3);
        let (at, u, lent, got) = (period(when), units(), units(), units());
        merge(&s.onchain_event_store, &rent(9, 5, at, u));
        let mut txn = RocksDbTransactionBatch::new();
        StorageLendStore::merge(&s.storage_lend_store, &lend(9, 20, 3_000_000, 1, lent as u64, 2), &mut txn, &ctx()).unwrap();
        StorageLendStore::merge(&s.storage_lend_store, &lend(10, 9, 3_000_000, 2, got as u64, 2), &mut txn, &ctx()).unwrap();
        d.commit(txn).unwrap();
        // (kind, end) of what is rented, as of today's rules
        let (k, end) = life(at, true, EngineVersion::current(FarcasterNetwork::Mainnet).is_enabled(ProtocolFeature::StorageExpiryExtension2026));
        let (active, enough) = (conc_bool(now < end), conc_bool(u >= lent));
        split((when * 4 + active as usize * 2 + enough as usize) as u64);
        let bought = |j: usize| if j == k && active { u } else { 0 };
        let net = |j: usize| if j == 2 { bought(2).saturating_sub(lent) + got } else { bought(j) };
        let l = s.get_storage_limits(9).unwrap();
        check(l.units == net(0) + net(1) + net(2), "a user has the units bought and borrowed, less those lent");
        let per = [[5000, 2000, 100], [2500, 1000, 200], [2500, 1000, 200], [50, 50, 25], [25, 25, 5], [5, 5, 2], [1, 1, 1u64]];
        let order = [proto::StoreType::Casts, proto::StoreType::Links, proto::StoreType::Reactions, proto::StoreType::UserData, proto::StoreType::Verifications, proto::StoreType::UsernameProofs, proto::StoreType::StorageLends];
        check(l.limits.len() == 7, "every store has a limit");
        for i in 0..7 {
            let of = |j: usize| if i == 6 { bought(j) } else { net(j) };
            check(l.limits[i].store_type == order[i] as i32 && l.limits[i].used == 0, "limits by store");
            check(l.limits[i].limit == per[i][0] * of(0) as u64 + per[i][1] * of(1) as u64 + per[i][2] * of(2) as u64, "a store's limit is what its units hold");
        }
        for j in 0..3 {
            let x = &l.unit_details[j];
            check((x.unit_type == j as i32) & (x.unit_size == net(j)) & (x.purchased_unit_size == bought(j)) & (x.borrowed_unit_size == if j == 2 { got } else { 0 }) & (x.lent_unit_size == if j == 2 { lent } else { 0 }), "units by kind");
        }
        check(s.get_storage_slot_for_fid(9, EngineVersion::latest(), false, &[]).unwrap().units_for(StorageUnitType::UnitType2025) <= u, "borrowed storage cannot be lent on");
        cover("done");
    }
    fn c33_tier() { tiers(1 << choose("whose", 0, 2)) }
    fn t_c33_tier() { tiers(0) }
}
