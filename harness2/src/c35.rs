//! bounds: shard 0 on two or three nodes over the in-memory database, two or three registered users, one channel; one block on top of two, of nine kinds, with and without a heartbeat, any block time, any rent time, any clock per node; a commit stopped after 0, 1 or 2 writes; every message type shard 0 hosts with every kind of body; five claimed addresses per unit of storage; mainnet's network id (and so its minimum for lenders) is not used
use crate::{com::*, en::*, entries, st::*, vf::*};
use snapchain::core::util::FarcasterTime;
use snapchain::storage::db::*;
use snapchain::storage::store::account::*;
use snapchain::storage::store::block_engine::*;
use snapchain::proto::{self, hub_event::Body as EB, message_data::Body, MessageType};
use snapchain::storage::store::mempool_poller::MempoolMessage;

const S3: [u8; 32] = [7; 32];
fn chain(e: proto::OnChainEvent) -> MempoolMessage { MempoolMessage::OnchainEvent(e) }
/// nodes on which users 9 and 10 (of some units of storage) can write from block 1 on, 9 owns channel "ab" from block 2 on
fn start(names: &[&str], rented: u64, units: u32) -> Vec<BlockEngine> {
    flag("fmt", 1);
    let mut es: Vec<_> = names.iter().map(|n| block0(n)).collect();
    let mut ms = user(9, 5, &S1, rented, units);
    ms.extend(user(10, 10, &S2, rented, units));
    ms.push(chain(channel(13, 1, "ab", &eth_addr(&S1))));
    let c = propose0(&mut es[0], 1, ms, T as u64 - 100);
    for e in &mut es { commit0(e, 1, &c); }
    let c = propose0(&mut es[0], 2, vec![um(&claim(&S1, 9, &S1, T - 10)), um(&member(&S2, 10, 2, 10, T - 9))], T as u64);
    for e in &mut es { commit0(e, 2, &c); }
    es
}
const MIXES: usize = 9;
fn mix(k: usize, rented: u64) -> Vec<MempoolMessage> {
    match k {
        // more than can be lent, then less, then again
        0 => vec![um(&lent(&S1, 9, 10, 3, T)), um(&lent(&S1, 9, 10, 1, T + 1)), um(&lent(&S1, 9, 10, 2, T + 2)), um(&lent(&S2, 10, 9, 1, T))],
        // claimed, dropped, claimed
        1 => vec![um(&claim(&S2, 10, &S2, T)), um(&unclaim(&S2, 10, &S2, T + 1)), um(&claim(&S2, 10, &S2, T + 2)), um(&unclaim(&S1, 9, &S2, T)), um(&unclaim(&S1, 9, &S1, T - 20))],
        // a channel's life
        2 => vec![um(&update(&S1, 9, 1, T)), um(&member(&S2, 10, 1, 10, T)), um(&member(&S1, 9, 3, 11, T)), um(&pin(&S1, 9, &[4; 20], T)), um(&moderate(&S1, 9, &[5; 20], 1, T)), um(&moderate(&S1, 9, &[5; 20], 2, T))],
        // a channel that changes hands while it is used
        3 => vec![chain(channel(14, 3, "ab", &eth_addr(&S2))), um(&update(&S1, 9, 1, T)), um(&claim(&S2, 10, &S2, T)), um(&update(&S2, 10, 1, T + 1))],
        // an owner that gives up its address
        4 => vec![um(&unclaim(&S1, 9, &S1, T)), um(&update(&S1, 9, 1, T)), um(&member(&S1, 9, 1, 11, T))],
        // much that is refused
        5 => {
            let mut bad = lent(&S1, 9, 10, 1, T);
            bad.signature[3] ^= 1;
            let mut other = claim(&S2, 10, &S1, T);
            other.hash[0] ^= 1;
            vec![um(&cast(&S1, 9, T, "x")), um(&bad), um(&other), um(&lent(&S1, 11, 10, 1, T)), um(&member(&S2, 10, 5, 9, T)), um(&update(&S2, 10, 1, T)), um(&lent(&S1, 9, 10, 1, T)), um(&lent(&S1, 9, 10, 1, T))]
        }
        // a new user who claims and lends at once
        6 => { let mut v = user(12, 40, &S2, rented, 2); v.push(um(&claim(&S2, 12, &S3, T))); v.push(um(&lent(&S2, 12, 9, 1, T))); v }
        // a key removed while it signs, a user who moves, another channel, more rented
        7 => vec![um(&lent(&S1, 9, 10, 1, T)), chain(key(9, 30, &S1, false)), chain(register(10, 31)), chain(channel(32, 1, "abc", &[2; 20])), chain(rent(10, 33, rented, 1)), um(&lent(&S2, 10, 9, 2, T))],
        _ => vec![],
    }
}
fn any_start(names: &[&str]) -> (Vec<BlockEngine>, Vec<MempoolMessage>, u64, u64) {
    let _ = clock();
    let rented = any_u64("rented");
    assume((rented >= 1_752_700_000) & (rented < 1_760_000_000));
    let at = any_u32("block time") as u64;
    assume((at >= T as u64 + 200) & (at < 1 << 28));
    let k = choose("block", 0, MIXES - 1);
    let h = if choose("heartbeat", 0, 1) == 1 { 5 } else { 3 };
    split(k as u64 * 8 + h);
    (start(names, rented, 3), mix(k, rented), at, h)
}
fn events_ok(p: &BlockStateChange, h: u64, first: u64) {
    use prost::Message;
    let mut all = vec![];
    for (i, e) in p.events.iter().enumerate() {
        let d = e.data.as_ref().unwrap();
        check((d.seqnum == first + i as u64) & (d.event_index == i as u64) & (d.block_number == h) & (d.block_timestamp == p.timestamp.to_u64()), "the events of a block continue those of the blocks before");
        check(same(&e.hash, &blake3(&d.encode_to_vec())), "an event's hash is that of what it says");
        all.extend_from_slice(&e.hash);
    }
    if p.events.is_empty() { check(p.events_hash.is_empty(), "no events, no hash"); } else { check(same(&p.events_hash, &blake3(&all)), "a block's events are those its hash names"); }
    let beat = p.events.iter().filter(|e| matches!(e.data.as_ref().unwrap().body, Some(proto::block_event_data::Body::HeartbeatEventBody(_)))).count();
    check(beat == (h % 5 == 0) as usize, "a heartbeat every few blocks");
}

fn lend_case(wide: bool) {
    // a user lends what it has rented, keeping one unit; its newest lend to another counts
    let (now, rented) = (clock(), 1_752_700_000);
    assume(now < rented + 2 * 365 * 24 * 3600);
    let u = any_u8("units") as u32;
    assume((u > 0) & (u < 100));
    let n = [[0, 1, 3][choose("lent", 0, 2)], [0, 1, 3][choose("lent", 0, 2)], [1, 3][choose("lent", 0, 1)]];
    let (how, apart, again) = (choose("order", 0, 5), choose("blocks", 0, 1) == 1, choose("the first again", 0, 1) == 1);
    // the quick check leaves out what differs little
    if !wide && ((n[0] == 1) | (n[1] == 1) | (apart && how % 2 == 1)) { return; }
    // what must become of them
    let (mut out, mut code) = (None::<(usize, u32)>, 1u64);
    let (mut taken, mut revived) = (vec![], false);
    let seq = [ORDERS[how][0], ORDERS[how][1], if again { ORDERS[how][0] } else { ORDERS[how][2] }];
    let mut newest: Option<usize> = None;
    for k in seq.iter() {
        let have = match out { Some((_, x)) => u - x, None => u };
        let fits = conc_bool(have >= n[*k] + 1);
        let newer = match out { Some((j, _)) => *k > j, None => true };
        let ok = fits && newer;
        code = code * 4 + fits as u64 * 2 + ok as u64;
        if ok {
            if newest.is_some_and(|j| *k <= j) { revived = true; }
            newest = Some(newest.map_or(*k, |j| j.max(*k)));
            out = if n[*k] == 0 { None } else { Some((*k, n[*k])) };
        }
        taken.push(ok);
    }
    split((code * 64 + (n[0] * 16 + n[1] * 4 + n[2]) as u64) * 64 + (how * 8 + apart as usize * 4 + again as usize * 2) as u64);
    known(!revived, "KF9: a lend that was revoked (or replaced and then revoked) can be told again by anyone, and counts again");
    let mut e = start(&["a"], rented, u).pop().unwrap();
    let ms: Vec<_> = (0..3).map(|i| lent(&S1, 9, 10, n[i] as u64, T + i as u32)).collect();
    let blocks = if apart { vec![vec![um(&ms[seq[0]])], vec![um(&ms[seq[1]])], vec![um(&ms[seq[2]])]] } else { vec![seq.iter().map(|k| um(&ms[*k])).collect()] };
    let mut told = vec![];
    for (i, b) in blocks.into_iter().enumerate() {
        let p = propose0(&mut e, 6 + i as u64, b, T as u64 + 100);
        for x in &p.events { if let Some(proto::block_event_data::Body::MergeMessageEventBody(b)) = &x.data.as_ref().unwrap().body { told.push(b.message.clone().unwrap()); } }
        commit0(&mut e, 6 + i as u64, &p);
    }
    let want: Vec<_> = (0..3).filter(|i| taken[*i]).map(|i| &ms[seq[i]]).collect();
    check(told.len() == want.len(), "what may be lent is lent, and nothing else");
    for i in 0..told.len() { check(same(&told[i].hash, &want[i].hash), "and the data shards are told"); }
    let s = e.stores();
    let lent_now = out.map_or(0, |x| x.1);
    check(StorageLendStore::get_lent_storage(&s.storage_lend_store, 9).unwrap().units_for(proto::StorageUnitType::UnitType2025) == lent_now, "what is lent is the newest lend");
    check(StorageLendStore::get_borrowed_storage(&s.storage_lend_store, 10).unwrap().units_for(proto::StorageUnitType::UnitType2025) == lent_now, "and is borrowed");
    cover("done");
}

entries! {
    fn c35_agree() {
        // who proposed a block of shard 0, who voted on it and who only heard of it hold the same afterwards
        let (mut es, ms, at, h) = any_start(&["a", "b", "c"]);
        let before = root0(&es[0]);
        let first = es[0].stores().block_event_store.max_seqnum().unwrap() + 1;
        let p = propose0(&mut es[0], h, ms, at);
        events_ok(&p, h, first);
        check(validate0(&mut es[1], h, &p), "what one node proposes every other finds valid");
        check(same(&root0(&es[0]), &before) && same(&root0(&es[1]), &before) && same_all("a", "c") && same_all("b", "c"), "proposing and voting change nothing");
        for e in &mut es { commit0(e, h, &p); }
        check(same_all("a", "b") && same_all("a", "c"), "all nodes hold the same");
        for e in &es { check(same(&root0(e), &p.new_state_root), "and the root that was proposed"); }
        check(es[1].get_confirmed_height().block_number == h && es[1].stores().block_event_store.max_seqnum().unwrap() == first - 1 + p.events.len() as u64, "and where they stand");
        let again = block0("a");
        check(same(&root0(&again), &p.new_state_root), "also after a restart");
        cover("done");
    }
    fn c35_crash() {
        // a node that stops at any moment of a commit and takes the block again holds what the others hold
        let (mut es, ms, at, h) = any_start(&["a", "b"]);
        let p = propose0(&mut es[0], h, ms, at);
        commit0(&mut es[0], h, &p);
        let n = choose("writes", 0, 2);
        split(n as u64);
        ::rocksdb::crash_after(Some(n as u64));
        commit0(&mut es[1], h, &p);
        ::rocksdb::crash_after(None);
        es.pop();
        let mut b = block0("b");
        let now = b.get_confirmed_height().block_number;
        check((now == 2) | (now == h), "a restarted node is before the block or after it");
        if now == 2 { check(validate0(&mut b, h, &p), "it finds the block valid"); commit0(&mut b, h, &p); cover("again"); }
        check(same_all("a", "b") && same(&root0(&b), &p.new_state_root), "a restarted node holds what the others hold");
        cover("done");
    }
    fn c35_later() {
        // a node that takes the block later, by its own clock, holds the same
        let rented = any_u64("rented");
        assume((rented >= 1_752_700_000) & (rented < 1_760_000_000));
        let (now, end) = (clock(), rented + 2 * 365 * 24 * 3600);
        let k = choose("block", 0, MIXES - 1);
        split(k as u64);
        let mut es = start(&["a", "b"], rented, 3);
        let p = propose0(&mut es[0], 3, mix(k, rented), T as u64 + 300);
        commit0(&mut es[0], 3, &p);
        tick(1);
        let later = clock();
        assume(later >= now);
        let ok = validate0(&mut es[1], 3, &p);
        known(ok | (now >= end) | (later < end), "KF10: a block of shard 0 taken after the storage it was written with has run out (by the node's own clock) leads to another state");
        check(ok, "a block is as valid later");
        commit0(&mut es[1], 3, &p);
        let alike = same_all("a", "b");
        known(alike | (now >= end) | (later < end), "KF10: a block of shard 0 taken after the storage it was written with has run out (by the node's own clock) leads to another state");
        check(alike, "a node that comes later holds the same");
        cover("done");
    }
    fn c35_tampered() {
        // a block that claims another state or other events, or leaves out or changes what leads to it, is refused and leaves no trace
        let (now, rented) = (clock(), 1_752_700_000);
        let mut es = start(&["a", "b"], rented, 3);
        assume(now < rented + 2 * 365 * 24 * 3600);
        let p = propose0(&mut es[0], 5, vec![um(&lent(&S1, 9, 10, 1, T)), um(&pin(&S1, 9, &[4; 20], T)), um(&claim(&S2, 10, &S2, T))], T as u64 + 200);
        check(p.transactions.len() == 2 && p.events.len() == 4, "all is taken");
        let before = root0(&es[1]);
        let d: [u8; 1] = any_arr("change");
        assume(d[0] != 0);
        let how = choose("tampering", 0, 9);
        split(how as u64);
        let mut q = p.clone();
        let mut h = 5;
        match how {
            0 => q.new_state_root[0] ^= d[0],
            1 => q.new_state_root[19] ^= d[0],
            2 => q.transactions[0].account_root[5] ^= d[0],
            3 => q.transactions[1].account_root[19] ^= d[0],
            4 => { q.transactions.pop(); }
            5 => { q.transactions[0].user_messages.pop(); }
            6 => q.transactions[0].user_messages[0].signature[7] ^= d[0],
            7 => { let m = &mut q.transactions[1].user_messages[0]; m.hash[2] ^= d[0]; }
            8 => q.events_hash[d[0] as usize % 32] ^= 1,
            _ => h = 4, // a heartbeat that is not due
        }
        check(!validate0(&mut es[1], h, &q), "a false block is refused");
        check(same_all("a", "b") && same(&root0(&es[1]), &before), "and leaves no trace");
        check(validate0(&mut es[1], 5, &p), "the true one is still valid");
        for e in &mut es { commit0(e, 5, &p); }
        check(same_all("a", "b"), "and leads to the same state");
        cover("done");
    }
    fn c35_lend() { lend_case(false); }
    fn c35t_lend() { lend_case(true); }
    fn c35_lend_rents() {
        // what is rented counts once, in the block that tells of it too
        let (now, rented) = (clock(), 1_752_700_000);
        assume(now < rented + 2 * 365 * 24 * 3600);
        let (u, x, more) = (any_u8("units") as u32, any_u8("more") as u32, choose("lent", 0, 6) as u32);
        assume((u > 0) & (u < 50) & (x > 0) & (x < 50));
        let (told, at) = (choose("told", 0, 3), choose("then", 0, 1) as u64);
        let has = if told == 0 || told == 1 { u } else { u + x };
        let (fits, fits2) = (conc_bool(has >= more + 1), conc_bool(has + if told == 3 { x } else { u } >= more + 1));
        split(((told * 8 + more as usize) * 2 + at as usize) as u64 * 4 + fits as u64 * 2 + fits2 as u64);
        let mut e = start(&["a"], rented, u).pop().unwrap();
        let mut ms = vec![um(&lent(&S1, 9, 10, more as u64, T))];
        match told {
            0 => {}
            1 => ms.push(chain(rent(9, 5, rented, u))), // known already
            2 => ms.push(chain(rent(9, 50, rented, x))),
            _ => { ms.push(chain(rent(9, 50, rented, x))); ms.push(chain(rent(9, 50, rented, x))); }
        }
        known((told != 1 && told != 3) || fits || !fits2, "KF8: a rent told again within a block counts twice there, so that more is lent than is rented");
        let p = propose0(&mut e, 6, ms, T as u64 + 100);
        check((p.events.len() == 1) == fits, "what is lent is rented");
        cover("done");
    }
    fn c35_quota() {
        // a user claims as many addresses as its storage allows, and may always replace or drop a claim
        let (now, rented) = (clock(), 1_752_700_000);
        assume(now < rented + 2 * 365 * 24 * 3600);
        let seeds: Vec<[u8; 32]> = (0..7).map(|i| [20 + i as u8; 32]).collect();
        let mut ops = vec![];
        for _ in 0..3 { ops.push((choose("claims", 0, 1) == 1, [3, 5, 6][choose("address", 0, 2)])); }
        let cuts = choose("blocks", 0, 1);
        if cuts == 1 && (ops[0].1 == 3 || ops[2].1 == 6) { return; }
        split(ops.iter().fold(cuts as u64 + 2, |a, (c, i)| a * 16 + *c as u64 * 8 + *i as u64));
        flag("fmt", 1);
        let mut e = block0("a");
        let mut ms = user(9, 5, &S1, rented, 1);
        let mut live = vec![0, 1, 2, 3];
        for i in 0..4 { ms.push(um(&claim(&S1, 9, &seeds[i], T - 50))); }
        let p = propose0(&mut e, 1, ms, T as u64 - 10);
        commit0(&mut e, 1, &p);
        check(p.events.len() == 4, "a unit of storage holds five addresses");
        let mut want = vec![];
        let mut all = vec![];
        for (i, (c, a)) in ops.iter().enumerate() {
            let m = if *c { claim(&S1, 9, &seeds[*a], T + i as u32) } else { unclaim(&S1, 9, &seeds[*a], T + i as u32) };
            let ok = !*c || live.contains(a) || live.len() < 5;
            if ok { live.retain(|x| x != a); if *c { live.push(*a); } want.push(m.hash.clone()); }
            all.push(um(&m));
        }
        let mut told = vec![];
        let blocks = if cuts == 0 { vec![all] } else { all.into_iter().map(|m| vec![m]).collect() };
        for (i, b) in blocks.into_iter().enumerate() {
            let p = propose0(&mut e, 6 + i as u64, b, T as u64 + 100);
            for x in &p.events { if let Some(proto::block_event_data::Body::MergeMessageEventBody(b)) = &x.data.as_ref().unwrap().body { told.push(b.message.clone().unwrap().hash); } }
            commit0(&mut e, 6 + i as u64, &p);
        }
        check(told == want, "a claim counts exactly if there is room, a drop always");
        for i in 0..7 { check(VerificationStore::get_verification_add(&e.stores().verification_store, 9, &eth_addr(&seeds[i]), None).unwrap().is_some() == live.contains(&i), "and is kept"); }
        cover("done");
    }
    fn c35_channel() {
        // who may do what to whom in a channel
        let (now, rented) = (clock(), 1_752_700_000);
        assume(now < rented + 2 * 365 * 24 * 3600);
        // what 10 and 11 are: nothing, gone, member, moderator, banned; who acts: 9 (the owner) or 10; on whom: 9, 10, 11
        let (ten, eleven) = (choose("state of 10", 0, 4), choose("state of 11", 0, 4));
        let (owner_acts, whom) = (choose("the owner acts", 0, 1) == 1, choose("on", 9, 11) as u64);
        let mode = choose("mode", 0, 2) as i32;
        let parked = choose("parked", 0, 1) == 1;
        let what = choose("what", 0, 9);
        // what has no influence is left out
        if owner_acts && whom != 10 && ten != 0 { return; }
        if whom != 11 && eleven != 0 { return; }
        if mode != 0 && (what != 1 || owner_acts) { return; }
        if what > 6 && (whom != 9 || eleven != 0) { return; }
        if parked && ((mode == 2) | (eleven > 2)) { return; }
        let full = what == 3 && owner_acts && whom == 11 && !parked && choose("ten moderators", 0, 1) == 1;
        split([ten, eleven, owner_acts as usize, whom as usize - 9, mode as usize, parked as usize, full as usize].iter().fold(what as u64, |a, x| a * 5 + *x as u64));
        let author = if owner_acts { 9 } else { 10 };
        let seed = if owner_acts { &S1 } else { &S2 };
        flag("fmt", 1);
        let mut e = block0("a");
        let mut ms = user(9, 5, &S1, rented, 1);
        ms.extend(user(10, 10, &S2, rented, 1));
        ms.push(chain(channel(13, 1, "ab", &eth_addr(&S1))));
        let p = propose0(&mut e, 1, ms, T as u64 - 100);
        commit0(&mut e, 1, &p);
        let mut ms = vec![um(&claim(&S1, 9, &S1, T - 50))];
        let mut n = 0;
        for (who, state) in [(10, ten), (11, eleven)] {
            for a in [&[][..], &[1, 2], &[1], &[3], &[5]][state] { ms.push(um(&member(&S1, 9, *a, who, T - 40 + n))); n += 1; }
        }
        if mode > 0 { ms.push(um(&update(&S1, 9, mode, T - 30))); n += 1; }
        if full { for i in 0..(10 - (ten == 3) as u32 - (eleven == 3) as u32) { ms.push(um(&member(&S1, 9, 3, 20 + i as u64, T - 20 + i))); n += 1; } }
        if parked { ms.push(um(&unclaim(&S1, 9, &S1, T - 2))); n += 1; }
        let p = propose0(&mut e, 2, ms, T as u64);
        check(p.events.len() as u32 == n + 1, "the owner makes members, moderators and bans");
        commit0(&mut e, 2, &p);
        let state = match whom { 9 => 0, 10 => ten, _ => eleven };
        let (moderator, itself) = (!owner_acts && ten == 3, author == whom);
        let good = if parked { what == 2 && itself && (state == 2 || state == 3) } else { match what {
            // in: owner and moderators take in who is out; anyone goes in where all may
            1 => state < 2 && (owner_acts || moderator || (itself && mode == 1)),
            // out: owner and moderators send members away; anyone leaves
            2 => state == 2 && (owner_acts || moderator || itself) || state == 3 && itself,
            // moderators are the owner's to make, and to dismiss
            3 => state < 3 && owner_acts && !full,
            4 => state == 3 && owner_acts,
            // owner and moderators ban, moderators only the owner, the owner nobody
            5 => whom != 9 && (state < 3 && (owner_acts || moderator) || state == 3 && owner_acts),
            6 => state == 4 && (owner_acts || moderator),
            // the channel is the owner's to describe, moderators pin and hide
            7 => owner_acts,
            8 | 9 => owner_acts || moderator,
            _ => false,
        } };
        let m = match what {
            7 => update(seed, author, 2, T),
            8 => pin(seed, author, &[4; 20], T),
            9 => moderate(seed, author, &[4; 20], 1, T),
            a => member(seed, author, a as i32, whom, T),
        };
        let before = root0(&e);
        let p = propose0(&mut e, 3, vec![um(&m)], T as u64 + 100);
        check((p.events.len() == 1) == good, "who may act on a channel, acts; nobody else");
        commit0(&mut e, 3, &p);
        let now = ChannelMemberStore::member_state(&e.stores().channel_member_store, &label("ab"), whom, None).unwrap();
        let of = |s: usize| [None, Some(ChannelMemberState::Removed), Some(ChannelMemberState::Member), Some(ChannelMemberState::Moderator), Some(ChannelMemberState::Banned)][s];
        let becomes = if !good { of(state) } else { match what { 1 | 4 => of(2), 2 | 6 => of(1), 3 => of(3), 5 => of(4), _ => of(state) } };
        // a dismissed moderator stays a member, who is no longer banned is out
        check(now == becomes, "and the one acted on becomes what was said");
        if good { cover("done"); } else { cover("refused"); }
    }
    fn c35_mixed() {
        // a message whose body is not of its type stops no node and is not stored
        let now = clock();
        let rented = 1_752_700_000;
        assume(now < rented + 2 * 365 * 24 * 3600);
        let (ty, body) = (choose("type", 0, 23), choose("body", 0, 10));
        split((ty * 16 + body) as u64);
        let mut e = start(&["a"], rented, 3).pop().unwrap();
        let (b, of) = match body {
            0 => (lent(&S1, 9, 10, 1, T).data.unwrap().body, 15),
            1 => (claim(&S1, 9, &S3, T).data.unwrap().body, 7),
            2 => (unclaim(&S1, 9, &S1, T).data.unwrap().body, 8),
            3 => (update(&S1, 9, 1, T).data.unwrap().body, 18),
            4 => (member(&S1, 9, 1, 12, T).data.unwrap().body, 19),
            5 => (pin(&S1, 9, &[4; 20], T).data.unwrap().body, 20),
            6 => (moderate(&S1, 9, &[4; 20], 1, T).data.unwrap().body, 21),
            7 => (Some(Body::KeyAddBody(proto::KeyAddBody { key: ed_public(&S1).to_vec(), key_type: 1, custody_signature: vec![1; 65], deadline: T + 100, nonce: 1, metadata: vec![1; 192], metadata_type: 1, registration_tx_hash: vec![], scopes: vec![1], ttl: 100 })), 99),
            8 => (Some(Body::KeyRemoveBody(proto::KeyRemoveBody { key: ed_public(&S1).to_vec(), signature: vec![1; 65], signature_type: 1, deadline: T + 100, nonce: 1 })), 99),
            9 => (cast(&S1, 9, T, "x").data.unwrap().body, 99),
            _ => (None, 99),
        };
        use prost::Message;
        let data = proto::MessageData { r#type: ty as i32, fid: 9, timestamp: T, network: proto::FarcasterNetwork::Devnet as i32, body: b };
        let hash = blake3(&data.encode_to_vec())[..20].to_vec();
        let m = proto::Message { signature: ed_sign(&S1, &hash).to_vec(), signer: ed_public(&S1).to_vec(), data: Some(data), hash, hash_scheme: 1, signature_scheme: 1, data_bytes: None };
        let before = root0(&e);
        let p = propose0(&mut e, 3, vec![um(&m)], T as u64 + 100);
        let taken = !same(&p.new_state_root, &before);
        check((p.events.len() == 1) == taken, "what is taken is told");
        commit0(&mut e, 3, &p);
        check(taken == (of == ty), "a message is taken exactly if its body is of its type");
        if taken { cover("taken"); } else { cover("refused"); }
    }
    fn c35_simulate() {
        // trying a message out tells whether it would be taken and changes nothing
        let (now, rented) = (clock(), 1_752_700_000);
        assume((now < 1609459200 + T as u64 + 500) & (now > 1609459200 + T as u64));
        let d: [u8; 1] = any_arr("change");
        let k = choose("message", 0, 12);
        let whole = conc_bool(d[0] == 0);
        split(k as u64 * 2 + whole as u64);
        let mut e = start(&["a"], rented, 3).pop().unwrap();
        if k > 10 { let p = propose0(&mut e, 3, vec![um(&lent(&S1, 9, 10, 1, T))], T as u64 + 200); commit0(&mut e, 3, &p); }
        let (before, rows) = (root0(&e), all_rows("a"));
        let (mut m, good) = match k {
            0 => (lent(&S1, 9, 10, 2, T), true),
            1 => (lent(&S1, 9, 10, 3, T), false),
            2 => (claim(&S2, 10, &S2, T), true),
            3 => (claim(&S2, 10, &S1, T), true),
            4 => (claim(&S1, 9, &S1, T - 10), false), // known
            5 => (unclaim(&S1, 9, &S1, T - 20), false), // too late
            6 => (unclaim(&S1, 9, &S1, T), true),
            7 => (update(&S1, 9, 1, T), true),
            8 => (member(&S2, 10, 1, 10, T), false),
            9 => (cast(&S1, 9, T, "x"), false),
            10 => (lent(&S2, 12, 10, 1, T), false),
            11 => (lent(&S1, 9, 10, 1, T), false), // known
            _ => (lent(&S1, 9, 10, 1, T - 1), false), // too late
        };
        m.signature[11] ^= d[0];
        let good = good && whole;
        check(e.simulate_message(&m).is_ok() == good, "a message that would be taken is found good");
        check(same(&root0(&e), &before), "and nothing changes");
        let after = all_rows("a");
        check(after.len() == rows.len(), "and nothing is written");
        for i in 0..rows.len() { check(same(&rows[i].0, &after[i].0) & same(&rows[i].1, &after[i].1), "and nothing is written"); }
        let p = propose0(&mut e, 4, vec![um(&m)], T as u64 + 300);
        check(same(&p.new_state_root, &before) != good, "what is found good is taken");
        cover("done");
    }
    fn c35_fanout() {
        // a data shard that is told what happened on shard 0 holds what shard 0 holds
        let now = clock();
        let rented = any_u64("rented");
        assume((rented >= 1_752_700_000) & (rented < 1_760_000_000));
        assume(now < rented + 2 * 365 * 24 * 3600);
        let at = any_u32("block time") as u64;
        assume((at >= T as u64 + 200) & (at < 1 << 28));
        let (k, h) = (choose("block", 0, MIXES - 1), if choose("heartbeat", 0, 1) == 1 { 5 } else { 3 });
        let (name, at_once) = (["d", "db"][choose("hash order", 0, 1)], choose("at once", 0, 1) == 1);
        split((k as u64 * 8 + h) * 4 + (name.len() - 1) as u64 * 2 + at_once as u64);
        let (mut e, ms) = (start(&["a"], rented, 3).pop().unwrap(), mix(k, rented));
        let p = propose0(&mut e, h, ms.clone(), at);
        commit0(&mut e, h, &p);
        let told: Vec<_> = (1..=e.stores().block_event_store.max_seqnum().unwrap()).map(|s| e.stores().block_event_store.get_block_event_by_seqnum(s).unwrap().unwrap()).collect();
        let mut d = shard(name, 50);
        let chained: Vec<_> = ms.into_iter().filter(|m| matches!(m, MempoolMessage::OnchainEvent(_))).collect();
        let first = told.len() - p.events.len();
        let mut one = user(9, 5, &S1, rented, 3);
        one.extend(user(10, 10, &S2, rented, 3));
        for x in &told[..first] { one.push(MempoolMessage::BlockEvent { for_shard: 1, message: x.clone() }); }
        let mut two = chained;
        for x in &told[first..] { two.push(MempoolMessage::BlockEvent { for_shard: 1, message: x.clone() }); }
        if at_once { one.extend(two.drain(..)); }
        let c = propose(&mut d, 1, one, &FarcasterTime::new(at));
        commit(&mut d, 1, &c);
        let c = propose(&mut d, 2, two, &FarcasterTime::new(at + 1));
        commit(&mut d, 2, &c);
        let (mut x, mut y) = (all_rows("a"), all_rows(name));
        use snapchain::storage::constants::RootPrefix as R;
        let keep = |k: &[u8]| [R::User as u8, R::VerificationByAddress as u8, R::LendStorageByRecipient as u8, R::Channel as u8].contains(&k[0]);
        x.retain(|r| keep(&r.0)); y.retain(|r| keep(&r.0));
        check(x.len() == y.len(), "as many rows");
        for i in 0..x.len().min(y.len()) { check(same(&x[i].0, &y[i].0) && same(&x[i].1, &y[i].1), "and the same"); }
        cover("done");
    }
}

