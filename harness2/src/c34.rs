//! bounds: one data shard of two or three nodes over the in-memory database, two registered users; one block on top of two, of nine kinds (casts, removes, reactions, links, compaction, user data, names, transfers, chain events, shard-0 events, refused messages), any block time, any rent time, any clock per node; storage of 1, 2 or 5 messages per unit; a commit stopped after 0, 1 or 2 writes; a message of every type with every kind of body; mainnet's network id is not used
use crate::{com::*, en::*, entries, st::*, vf::*};
use snapchain::core::util::FarcasterTime;
use snapchain::storage::db::*;
use snapchain::storage::store::account::*;
use snapchain::proto::{self, hub_event::Body as EB, message_data::Body, MessageType};
use snapchain::storage::store::engine::*;
use snapchain::storage::store::mempool_poller::MempoolMessage;

/// nodes on which users 9 and 10 can write from block 1 on
fn start(names: &[&str], cap: u32, rented: u64, units: u32) -> Vec<ShardEngine> {
    let mut es: Vec<_> = names.iter().map(|n| shard(n, cap)).collect();
    let mut ms = user(9, 5, &S1, rented, units);
    ms.extend(user(10, 10, &S2, rented, units));
    let c = propose(&mut es[0], 1, ms, &FarcasterTime::new(T as u64 - 100));
    for e in &mut es { commit(e, 1, &c); }
    es
}
fn link(add: bool, to: u64, t: u32) -> proto::Message {
    let b = Body::LinkBody(proto::LinkBody { r#type: "follow".into(), display_timestamp: None, target: Some(proto::link_body::Target::TargetFid(to)) });
    signed(&S1, 9, t, if add { MessageType::LinkAdd } else { MessageType::LinkRemove }, b)
}
fn profile(fid: u64, seed: &[u8; 32], t: u32, kind: proto::UserDataType, value: &str) -> proto::Message {
    signed(seed, fid, t, MessageType::UserDataAdd, Body::UserDataBody(proto::UserDataBody { r#type: kind as i32, value: value.into() }))
}
/// blocks of everything a shard takes
const MIXES: usize = 9;
fn mix(k: usize, rented: u64) -> Vec<MempoolMessage> {
    let c1 = cast(&S1, 9, T, "x");
    match k {
        // more than fits
        0 => vec![um(&c1), um(&cast(&S1, 9, T + 1, "y")), um(&cast(&S2, 10, T, "z"))],
        // added and removed at once, and liked
        1 => vec![um(&c1), um(&signed(&S1, 9, T + 1, MessageType::CastRemove, Body::CastRemoveBody(proto::CastRemoveBody { target_hash: c1.hash.clone() }))),
            um(&signed(&S2, 10, T, MessageType::ReactionAdd, Body::ReactionBody(proto::ReactionBody { r#type: 1, target: Some(proto::reaction_body::Target::TargetCastId(proto::CastId { fid: 9, hash: c1.hash.clone() })) })))],
        // follows, one undone, all compacted
        2 => vec![um(&link(true, 20, T)), um(&link(true, 21, T)), um(&link(false, 21, T + 1)),
            um(&signed(&S1, 9, T + 2, MessageType::LinkCompactState, Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: "follow".into(), target_fids: vec![10] })))],
        // a key removed while it signs
        3 => vec![um(&c1), MempoolMessage::OnchainEvent(key(9, 30, &S1, false)), MempoolMessage::OnchainEvent(register(10, 31)), um(&cast(&S2, 10, T, "z"))],
        // a name and its use
        4 => vec![fname(0, 9, "alice"), um(&profile(9, &S1, T, proto::UserDataType::Username, "alice")), um(&profile(9, &S1, T, proto::UserDataType::Bio, "b")), um(&profile(10, &S2, T, proto::UserDataType::Username, "alice"))],
        // what shard 0 decided
        5 => vec![shard0(1, verification(T, true)), block_event(2, proto::block_event_data::Body::HeartbeatEventBody(proto::HeartbeatEventBody {})), shard0(3, lend(T, 1)), shard0(5, lend(T + 5, 2))],
        // much that is refused
        6 => {
            let mut bad = cast(&S1, 9, T, "q");
            bad.signature[3] ^= 1;
            vec![um(&cast(&S2, 9, T, "x")), um(&bad), um(&cast(&S1, 11, T, "x")), um(&verification(T, true)), um(&lend(T, 1)), um(&c1), um(&c1)]
        }
        // a new user who writes at once
        7 => { let mut v = user(12, 40, &S2, rented, 1); v.push(um(&cast(&S2, 12, T, "n"))); v }
        // more rented, and a key added that signs at once
        _ => vec![MempoolMessage::OnchainEvent(rent(9, 50, rented, 1)), MempoolMessage::OnchainEvent(key(9, 51, &S2, true)), um(&cast(&S2, 9, T, "n")), um(&c1), um(&cast(&S1, 9, T + 1, "o")), um(&link(true, 23, T)), um(&profile(9, &S1, T, proto::UserDataType::Bio, "c"))],
    }
}
/// what was there before the block
fn old() -> Vec<MempoolMessage> { vec![um(&cast(&S1, 9, T - 1, "old")), um(&link(true, 22, T - 1)), um(&profile(9, &S1, T - 1, proto::UserDataType::Username, ""))] }
/// two nodes that start alike, a clock, and a block of some kind
fn setup(names: &[&str]) -> (Vec<ShardEngine>, Vec<MempoolMessage>, FarcasterTime, u64) {
    let _ = clock();
    let rented = any_u64("rented");
    assume((rented >= 1_752_700_000) & (rented < 1_760_000_000));
    let at = any_u32("block time") as u64;
    assume((at >= T as u64 + 200) & (at < 1 << 28));
    let k = choose("block", 0, MIXES - 1);
    split(k as u64);
    let mut es = start(names, 1, rented, 1);
    let c = propose(&mut es[0], 2, old(), &FarcasterTime::new(T as u64));
    for e in &mut es { commit(e, 2, &c); }
    (es, mix(k, rented), FarcasterTime::new(at), rented + 2 * 365 * 24 * 3600)
}

entries! {
    fn c34_agree() {
        // who proposed a block, who voted on it and who only heard of it hold the same afterwards
        let (mut es, ms, at, _) = setup(&["a", "b", "c"]);
        let before = root(&es[0]);
        let p = propose(&mut es[0], 3, ms, &at);
        check(validate(&mut es[1], 3, &p), "what one node proposes every other finds valid");
        check(same(&root(&es[0]), &before) && same(&root(&es[1]), &before) && same_all("a", "c") && same_all("b", "c"), "proposing and voting change nothing");
        for e in &mut es { commit(e, 3, &p); }
        check(same_all("a", "b") && same_all("a", "c"), "all nodes hold the same");
        for e in &es { check(same(&root(e), &p.new_state_root), "and the root that was proposed"); }
        let again = shard("a", 1);
        check(same(&root(&again), &p.new_state_root), "also after a restart");
        cover("done");
    }
    fn c34_crash() {
        // a node that stops at any moment of a commit and takes the block again holds what the others hold
        let (mut es, ms, at, _) = setup(&["a", "b"]);
        let p = propose(&mut es[0], 3, ms, &at);
        commit(&mut es[0], 3, &p);
        let n = choose("writes", 0, 2);
        split(n as u64);
        ::rocksdb::crash_after(Some(n as u64));
        commit(&mut es[1], 3, &p);
        ::rocksdb::crash_after(None);
        es.pop();
        let mut b = shard("b", 1);
        let h = b.get_confirmed_height().block_number;
        check((h == 2) | (h == 3), "a restarted node is before the block or after it");
        if h == 2 { check(validate(&mut b, 3, &p), "it finds the block valid"); commit(&mut b, 3, &p); cover("again"); }
        check(same_all("a", "b") && same(&root(&b), &p.new_state_root), "a restarted node holds what the others hold");
        cover("done");
    }
    fn c34_later() {
        // a node that takes the block later, by its own clock, holds the same
        let _ = clock();
        let rented = any_u64("rented");
        assume((rented >= 1_752_700_000) & (rented < 1_760_000_000));
        let end = rented + 2 * 365 * 24 * 3600;
        let k = choose("block", 0, MIXES - 1);
        let cap = choose("messages per unit", 1, 5);
        assume((cap == 1) | (cap == 2) | (cap == 5));
        split(k as u64 * 8 + cap as u64);
        let mut es = start(&["a", "b"], cap as u32, rented, 1);
        let at = FarcasterTime::new(T as u64 + 300);
        let c = propose(&mut es[0], 2, old(), &FarcasterTime::new(T as u64));
        for e in &mut es { commit(e, 2, &c); }
        let now = clock();
        let p = propose(&mut es[0], 3, mix(k, rented), &at);
        commit(&mut es[0], 3, &p);
        tick(1);
        let later = clock();
        let ok = validate(&mut es[1], 3, &p);
        known(ok | (now >= end) | (later < end), "KF5: a block taken after the storage it was written with has run out (by the node's own clock) leads to another state");
        check(ok, "a block is as valid later");
        commit(&mut es[1], 3, &p);
        let alike = same_all("a", "b");
        known(alike | (now >= end) | (later < end), "KF5: a block taken after the storage it was written with has run out (by the node's own clock) leads to another state");
        check(alike, "a node that comes later holds the same");
        cover("done");
    }
    fn c34_tampered() {
        // a proposal that claims another state, or leaves out or changes what leads to it, is refused and leaves no trace
        let (now, rented) = (clock(), 1_752_700_000);
        let mut es = start(&["a", "b"], 5, rented, 1);
        assume(now < rented + 2 * 365 * 24 * 3600);
        let at = FarcasterTime::new(T as u64 + 200);
        let p = propose(&mut es[0], 2, mix(0, rented), &at);
        let before = root(&es[1]);
        let d: [u8; 1] = any_arr("change");
        assume(d[0] != 0);
        let how = choose("tampering", 0, 7);
        split(how as u64);
        let mut q = p.clone();
        match how {
            0 => q.new_state_root[0] ^= d[0],
            1 => q.new_state_root[19] ^= d[0],
            2 => q.transactions[0].account_root[5] ^= d[0],
            3 => q.transactions[1].account_root[19] ^= d[0],
            4 => { q.transactions.pop(); }
            5 => { q.transactions[0].user_messages.pop(); }
            6 => q.transactions[0].user_messages[0].signature[7] ^= d[0],
            _ => { let m = &mut q.transactions[1].user_messages[0]; m.hash[2] ^= d[0]; }
        }
        check(!validate(&mut es[1], 2, &q), "a false proposal is refused");
        check(same_all("a", "b") && same(&root(&es[1]), &before), "and leaves no trace");
        check(validate(&mut es[1], 2, &p), "the true one is still valid");
        for e in &mut es { commit(e, 2, &p); }
        check(same_all("a", "b"), "and leads to the same state");
        cover("done");
    }
    fn c34_auth() {
        // a message is taken exactly if its user is registered and has storage, and it is valid at the block's time and signed by a key the user has then
        let now = clock();
        let rented = any_u64("rented");
        assume((rented >= 1_752_700_000) & (rented < 1_760_000_000));
        let at = any_u32("block time") as u64;
        assume((at >= T as u64 - 2000) & (at < T as u64 + 2000));
        let (registered, keys, rents) = (choose("registered", 0, 1) == 1, choose("keys", 0, 5), choose("rents", 0, 2));
        let bad = choose("flaw", 0, 2);
        let (active, in_time) = (conc_bool(now < rented + 2 * 365 * 24 * 3600), conc_bool(T as u64 <= at + 600));
        split((((registered as usize * 6 + keys) * 3 + rents) * 3 + bad) as u64 * 4 + active as u64 * 2 + in_time as u64);
        let mut e = shard("a", 5);
        let mut ms = vec![];
        if registered { ms.push(register(9, 6)); } else { ms.push(register(10, 6)); }
        match keys {
            0 => {}
            1 => ms.push(key(9, 7, &S1, true)),
            2 => { ms.push(key(9, 7, &S1, true)); ms.push(key(9, 8, &S1, false)); }
            3 => { ms.push(key(9, 7, &S1, false)); ms.push(key(9, 8, &S1, true)); }
            4 => ms.push(key(9, 7, &S2, true)),
            _ => ms.push(key(10, 7, &S1, true)),
        }
        match rents { 0 => {}, 1 => ms.push(rent(9, 5, rented, 1)), _ => ms.push(rent(10, 5, rented, 1)) }
        if ms.len() > 0 {
            let p = propose(&mut e, 1, ms.into_iter().map(MempoolMessage::OnchainEvent).collect(), &FarcasterTime::new(T as u64 - 3000));
            commit(&mut e, 1, &p);
        }
        let mut m = cast(&S1, 9, T, "x");
        let d: [u8; 1] = any_arr("change");
        assume(d[0] != 0);
        match bad { 0 => {}, 1 => m.signature[9] ^= d[0], _ => m.hash[0] ^= d[0] }
        let before = root(&e);
        let good = registered && (keys == 1 || keys == 3) && rents == 1 && active && bad == 0 && in_time;
        let h = if e.get_last_shard_chunk().is_some() { 2 } else { 1 };
        let p = propose(&mut e, h, vec![um(&m)], &FarcasterTime::new(at));
        check(same(&p.new_state_root, &before) != good, "a message counts exactly if it is authorised");
        commit(&mut e, h, &p);
        check((e.get_casts_by_fid(9).unwrap().messages.len() == 1) == good, "a message is stored exactly if it is authorised");
        if good { cover("taken") } else { cover("refused") }
    }
    fn c34_mixed() {
        // a message whose body is not of its type stops no node and is not stored
        let now = clock();
        let rented = 1_752_700_000;
        assume(now < rented + 2 * 365 * 24 * 3600);
        let (ty, body) = (choose("type", 0, 23), choose("body", 0, 11));
        split((ty * 16 + body) as u64);
        let mut e = start(&["a"], 5, rented, 1).pop().unwrap();
        let (b, of) = match body {
            0 => (cast(&S1, 9, T, "x").data.unwrap().body, vec![1]),
            1 => (Some(Body::CastRemoveBody(proto::CastRemoveBody { target_hash: vec![1; 20] })), vec![2]),
            2 => (Some(Body::ReactionBody(proto::ReactionBody { r#type: 1, target: Some(proto::reaction_body::Target::TargetUrl("u".into())) })), vec![3, 4]),
            3 => (verification(T, true).data.unwrap().body, vec![]),
            4 => (verification(T, false).data.unwrap().body, vec![]),
            5 => (profile(9, &S1, T, proto::UserDataType::Bio, "x").data.unwrap().body, vec![11]),
            6 => (Some(Body::LinkBody(proto::LinkBody { r#type: "follow".into(), display_timestamp: None, target: Some(proto::link_body::Target::TargetFid(10)) })), vec![5, 6]),
            7 => (Some(Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: "follow".into(), target_fids: vec![10] })), vec![14]),
            8 => (lend(T, 1).data.unwrap().body, vec![]),
            9 => (Some(Body::FrameActionBody(proto::FrameActionBody { url: b"http://a".to_vec(), button_index: 1, ..Default::default() })), vec![]),
            10 => (Some(Body::UsernameProofBody(proto::UserNameProof { timestamp: T as u64, name: b"a.eth".to_vec(), owner: vec![3; 20], signature: vec![4; 65], fid: 9, r#type: 2 })), vec![12]),
            _ => (None, vec![]),
        };
        use prost::Message;
        let data = proto::MessageData { r#type: ty as i32, fid: 9, timestamp: T, network: proto::FarcasterNetwork::Devnet as i32, body: b };
        let hash = blake3(&data.encode_to_vec())[..20].to_vec();
        let m = proto::Message { signature: ed_sign(&S1, &hash).to_vec(), signer: ed_public(&S1).to_vec(), data: Some(data), hash, hash_scheme: 1, signature_scheme: 1, data_bytes: None };
        let before = root(&e);
        let p = propose(&mut e, 2, vec![um(&m)], &FarcasterTime::new(T as u64 + 100));
        let taken = !same(&p.new_state_root, &before);
        let good = of.contains(&ty);
        commit(&mut e, 2, &p);
        check(same(&root(&e), &before) != taken, "");
        if good { check(taken, "a whole message is taken"); cover("taken"); } else {
            known(!taken || (ty, body) != (1, 1), "KF7: a CastAdd whose body is that of a CastRemove is taken");
            known(!taken || (ty, body) != (2, 0), "KF7: a CastRemove whose body is that of a CastAdd is taken");
            check(!taken, "a message whose body is not of its type is not taken"); }
        cover("done");
    }
    fn c34_limits() {
        // beyond what the last block brought a user has no more messages than its storage holds, and the oldest go first
        let now = clock();
        let rented = 1_759_000_000;
        assume(now < rented + 2 * 365 * 24 * 3600);
        let u = any_u8("units") as u32;
        assume((u > 0) & (u < 128));
        let how = choose("order", 0, 5);
        let kind = choose("kind", 0, 3);
        let room = if conc_bool(u == 1) { 1 } else if conc_bool(u == 2) { 2 } else if conc_bool(u == 3) { 3 } else { 4 };
        split((how * 32 + kind * 8 + room) as u64);
        let mut e = start(&["a"], 1, rented, u).pop().unwrap();
        let ms: Vec<proto::Message> = (0..4).map(|i| match kind {
            0 => cast(&S1, 9, T + i, "x"),
            1 => link(i != 2, 20 + i as u64, T + i),
            2 => signed(&S1, 9, T + i, if i == 1 { MessageType::ReactionRemove } else { MessageType::ReactionAdd }, Body::ReactionBody(proto::ReactionBody { r#type: 1, target: Some(proto::reaction_body::Target::TargetUrl(format_url(i))) })),
            _ => profile(9, &S1, T + i, [proto::UserDataType::Bio, proto::UserDataType::Display, proto::UserDataType::Location, proto::UserDataType::Url][i as usize], ""),
        }).collect();
        let at = FarcasterTime::new(T as u64 + 300);
        let o = ORDERS[how];
        let p = propose(&mut e, 2, vec![um(&ms[o[0]])], &at);
        commit(&mut e, 2, &p);
        let p = propose(&mut e, 3, vec![um(&ms[o[1]]), um(&ms[o[2]])], &at);
        commit(&mut e, 3, &p);
        let old = left(&e, kind);
        let mut want = vec![0, 1, 2];
        if room < 3 { want.retain(|i| *i != o[0]); }
        known(room >= 3 || (room == 2 && o[0] == 0), "KF6: messages of the block itself are not pruned: one that brings more than fits leaves too many, and an older message of the block outlives a newer one of the blocks before");
        check(old.len() == want.len(), "what was there before the block goes for what the block brings");
        for i in 0..want.len() { check(same(&old[i].hash, &ms[want[i]].hash), "and no more of it than must"); }
        let p = propose(&mut e, 4, vec![um(&ms[3])], &at);
        commit(&mut e, 4, &p);
        while want.len() + 1 > room && want.len() > 0 { want.remove(0); }
        want.push(3);
        let new = left(&e, kind);
        check(new.len() == want.len(), "no more than the storage holds, no less");
        for i in 0..want.len() { check(same(&new[i].hash, &ms[want[i]].hash), "and the newest stay"); }
        cover("done");
    }
    fn c34_simulate() {
        // trying a message out tells whether it would be taken and changes nothing
        let (now, rented) = (clock(), 1_752_700_000);
        assume((now < rented + 2 * 365 * 24 * 3600) & (now > 1609459200 + T as u64 + 2000));
        let mut e = start(&["a"], 5, rented, 1).pop().unwrap();
        let c1 = cast(&S1, 9, T, "x");
        let p = propose(&mut e, 2, vec![um(&c1)], &FarcasterTime::new(T as u64 + 200));
        commit(&mut e, 2, &p);
        let (before, rows) = (root(&e), all_rows("a"));
        let d: [u8; 1] = any_arr("change");
        let k = choose("message", 0, 5);
        let whole = conc_bool(d[0] == 0);
        split(k as u64 * 2 + whole as u64);
        let mut m = match k {
            0 => cast(&S1, 9, T + 1, "y"),
            1 => c1.clone(),
            2 => cast(&S2, 9, T, "x"),
            3 => cast(&S2, 12, T, "x"),
            4 => profile(9, &S1, T, proto::UserDataType::Username, "bob"),
            _ => signed(&S1, 9, T + 1, MessageType::CastRemove, Body::CastRemoveBody(proto::CastRemoveBody { target_hash: c1.hash.clone() })),
        };
        m.signature[11] ^= d[0];
        let good = whole && (k == 0 || k == 5);
        check(e.simulate_message(&m).is_ok() == good, "a message that would be taken is found good");
        let o = cast(&S2, 10, T, "o");
        let r = e.simulate_bulk_messages(&[m.clone(), o.clone()]);
        check(r.len() == 2 && r[0].is_ok() == good && r[1].is_ok(), "also one of several");
        let r = e.simulate_bulk_messages(&[o, m.clone()]);
        check(r.len() == 2 && r[1].is_ok() == good && r[0].is_ok(), "in any order");
        check(same(&root(&e), &before), "and nothing changes");
        let after = all_rows("a");
        check(after.len() == rows.len(), "and nothing is written");
        for i in 0..rows.len() { check(same(&rows[i].0, &after[i].0) & same(&rows[i].1, &after[i].1), "and nothing is written"); }
        let p = propose(&mut e, 3, vec![um(&m)], &FarcasterTime::new(T as u64 + 300));
        check(same(&p.new_state_root, &before) != good, "what is found good is taken");
        cover("done");
    }
    fn c34_together() {
        // who rents storage, registers, adds a key and writes in one block has written
        let now = clock();
        let rented = any_u64("rented");
        assume((rented >= 1_752_700_000) & (rented < 1_760_000_000));
        assume(now < rented + 2 * 365 * 24 * 3600);
        let mut e = shard("a", 5);
        let p = propose(&mut e, 1, mix(7, rented), &FarcasterTime::new(T as u64 + 300));
        commit(&mut e, 1, &p);
        check(e.get_casts_by_fid(12).unwrap().messages.len() == 1, "what is written with its storage stays");
        cover("done");
    }
}
fn format_url(i: u32) -> String { ["u", "v", "w", "x"][i as usize].into() }
/// a user's messages of a kind, oldest first
fn left(e: &ShardEngine, kind: usize) -> Vec<proto::Message> {
    let s = e.get_stores();
    let page = PageOptions::default();
    let mut v = match kind {
        0 => e.get_casts_by_fid(9).unwrap().messages,
        1 => { let mut v = e.get_links_by_fid(9).unwrap().messages; v.extend(LinkStore::get_link_removes_by_fid(&s.link_store, 9, "follow".into(), &page).unwrap().messages); v }
        2 => { let mut v = e.get_reactions_by_fid(9).unwrap().messages; v.extend(ReactionStore::get_reaction_removes_by_fid(&s.reaction_store, 9, 1, &page).unwrap().messages); v }
        _ => e.get_user_data_by_fid(9).unwrap().messages,
    };
    v.sort_by_key(|m| m.data.as_ref().unwrap().timestamp);
    v
}
