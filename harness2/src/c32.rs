//! bounds: three events per user, key or channel at any blocks (of four varint bytes) in every order; every mix of kinds; two users, two keys, two channels, two or three owners; pages of 1 to 3
use crate::{entries, st::*, vf::*};
use snapchain::proto::{self, on_chain_event::Body as OB, OnChainEvent, OnChainEventType as OT};
use snapchain::storage::db::*;
use snapchain::storage::store::account::*;
use std::sync::Arc;

fn ev(ty: OT, fid: u64, block: u32, log: u32, body: OB) -> OnChainEvent {
    OnChainEvent { r#type: ty as i32, chain_id: 10, block_number: block, block_hash: vec![1], block_timestamp: 7, transaction_hash: vec![2], log_index: log, fid, tx_index: 0, version: 0, body: Some(body) }
}
fn signer(fid: u64, block: u32, log: u32, key: u8, event: i32, kind: u32) -> OnChainEvent {
    ev(OT::EventTypeSigner, fid, block, log, OB::SignerEventBody(proto::SignerEventBody { key: vec![key; 32], key_type: kind, event_type: event, metadata: vec![], metadata_type: 1 }))
}
fn id(fid: u64, block: u32, log: u32, event: i32, to: u8) -> OnChainEvent {
    ev(OT::EventTypeIdRegister, fid, block, log, OB::IdRegisterEventBody(proto::IdRegisterEventBody { to: vec![to; 20], event_type: event, from: vec![], recovery_address: vec![] }))
}
fn store(name: &str) -> OnchainEventStore { OnchainEventStore::new(db(name), StoreEventHandler::new()) }
fn merge(s: &OnchainEventStore, e: &OnChainEvent) -> bool {
    let mut txn = RocksDbTransactionBatch::new();
    let ok = s.merge_onchain_event(e.clone(), &mut txn).is_ok();
    if ok { s.db.commit(txn).unwrap(); }
    ok
}
/// all in one transaction, seen before it is committed
fn pending(s: &OnchainEventStore, es: &[&OnChainEvent]) -> RocksDbTransactionBatch {
    let mut txn = RocksDbTransactionBatch::new();
    for e in es { s.merge_onchain_event((*e).clone(), &mut txn).unwrap(); }
    txn
}
/// three blocks, in chain order, no two the same
fn blocks() -> [u32; 3] { let b = [0, 1, 2].map(|_| ts("block")); assume((b[0] < b[1]) & (b[1] < b[2])); b }
fn page(n: usize, token: Option<Vec<u8>>, reverse: bool) -> PageOptions { PageOptions { page_size: Some(n), page_token: token, reverse } }

fn signers(kinds: [i32; 3], how: usize) {
    let b = blocks();
    let kt = any_u32("key type");
    assume(kt < 128);
    let e: Vec<OnChainEvent> = (0..3).map(|i| signer(9, b[i], 4, 1, kinds[i], if i == 2 { kt } else { 1 })).collect();
    let s = store("d");
    let o = ORDERS[how % 6];
    let active = kinds[2] == 1;
    let look = |txn: Option<&RocksDbTransactionBatch>| {
        let got = s.get_active_signer(9, vec![1; 32], txn).unwrap();
        if active & (kt == 1) { check(got.as_ref() == Some(&e[2]), "a key whose latest event adds it is active"); } else { check(got.is_none(), "a key whose latest event removes it, or of an unknown kind, is not active"); }
        check(s.get_active_signer(9, vec![2; 32], txn).unwrap().is_none() && s.get_active_signer(8, vec![1; 32], txn).unwrap().is_none(), "no other key is active, nor the key for another user");
    };
    if how < 6 {
        for i in o { check(merge(&s, &e[i]), "an event is taken"); }
        look(None);
    } else { let txn = pending(&s, &[&e[o[0]], &e[o[1]], &e[o[2]]]); look(Some(&txn)); check(s.get_active_signer(9, vec![1; 32], None).unwrap().is_none(), "and counts from its commit on for everyone else"); }
    cover("done");
}
fn chan(block: u32, tx: u32, log: u32, kind: i32, name: &str, owner: u8, expiry: u64) -> OnChainEvent {
    let label = alloy_primitives::keccak256(name.as_bytes()).to_vec();
    ev(OT::EventTypeChannelRegister, 0, block, log, OB::ChannelRegisterEventBody(proto::ChannelRegisterBody { channel_key: if kind == 3 { String::new() } else { name.into() }, expiry, owner_address: vec![owner; 20], event_type: kind, label }))
        .with_tx(tx)
}
trait Tx { fn with_tx(self, tx: u32) -> Self; }
impl Tx for OnChainEvent { fn with_tx(mut self, tx: u32) -> Self { self.tx_index = tx; self } }
const NAMES: [&str; 2] = ["ab", "abc"];
/// who owns a channel, until when, after a history in chain order
fn fold(h: &[(i32, usize, u8, u64)], name: usize) -> Option<(u8, u64)> {
    let mut s = None;
    for (kind, n, owner, expiry) in h {
        if *n != name { continue; }
        s = match (kind, s) { (1, _) => Some((*owner, *expiry)), (2, Some((o, _))) => Some((o, *expiry)), (3, Some((_, x))) => Some((*owner, x)), (_, s) => s };
    }
    s
}
fn owners(s: &OnchainEventStore, want: [Option<(u8, u64)>; 2]) {
    for n in 0..2 {
        let got = s.get_channel_owner(NAMES[n], None).unwrap();
        match want[n] {
            None => check(got.is_none(), "an unregistered channel has no owner"),
            Some((o, x)) => { let g = got.unwrap(); check((g.owner_address == [o; 20]) & (g.expiry == x) & (g.channel_key == NAMES[n]), "a channel's owner and term are the latest given"); }
        }
        check((s.get_channel_key_by_label(alloy_primitives::keccak256(NAMES[n].as_bytes()).as_slice(), None).unwrap().as_deref() == Some(NAMES[n])) == want[n].is_some(), "a registered channel is found by its label");
    }
    for o in [1u8, 2, 3] {
        let mut w: Vec<&str> = vec![];
        for n in 0..2 { if want[n].map(|x| x.0) == Some(o) { w.push(NAMES[n]); } }
        let (got, token) = get_channel_keys_by_owner_address(&s.db, &[o; 20], &page(5, None, false)).unwrap();
        check(got == w && token.is_none(), "an owner's channels are those owned now");
    }
}

entries! {
    fn c32_events() {
        // events are kept by user, kind, block and place in it, and listed for exactly what is asked
        let s = store("d");
        let b = [ts("block"), ts("block"), ts("block")];
        let l = [0, 1, 2].map(|_| { let l = any_u32("log"); assume((l > 0) & (l < 128)); l });
        assume((b[0] < b[1]) | ((b[0] == b[1]) & (l[0] < l[1])));
        assume((b[1] < b[2]) | ((b[1] == b[2]) & (l[1] < l[2])));
        let all = [(OT::EventTypeStorageRent, 9u64), (OT::EventTypeStorageRent, 10), (OT::EventTypeTierPurchase, 9)];
        let mut put: Vec<(OT, u64, OnChainEvent)> = vec![];
        for i in 0..3 {
            let (t, f) = all[choose("which", 0, 2)];
            put.push((t, f, ev(t, f, b[i], l[i], OB::SignerMigratedEventBody(proto::SignerMigratedEventBody { migrated_at: i as u32 }))));
        }
        split(put.iter().fold(0, |a, p| a * 3 + all.iter().position(|x| *x == (p.0, p.1)).unwrap() as u64));
        let o = ORDERS[[0, 3, 5][choose("order", 0, 2)]];
        for i in o { check(!s.exists(&put[i].2).unwrap() && merge(&s, &put[i].2), "a new event is taken"); }
        let before = rows("d");
        for i in 0..3 {
            let mut again = put[i].2.clone();
            again.transaction_hash = vec![9];
            check(s.exists(&again).unwrap() && !merge(&s, &again), "the same event is not taken twice");
        }
        check(rows("d") == before, "a refused event leaves nothing");
        for (t, f) in all {
            let want: Vec<&OnChainEvent> = put.iter().filter(|p| p.0 == t && p.1 == f).map(|p| &p.2).collect();
            let got = s.get_onchain_events(t, Some(f)).unwrap();
            check(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == *b), "a user's events of a kind, in chain order");
        }
        check(s.get_onchain_events(OT::EventTypeStorageRent, None).unwrap().len() == put.iter().filter(|p| p.0 == OT::EventTypeStorageRent).count(), "everyone's events of a kind");
        let n = choose("size", 1, 3);
        let reverse = n == 1;
        let (mut got, mut token) = (0, None);
        for _ in 0..5 { let p = s.get_all_onchain_events(&page(n, token, reverse)).unwrap(); check(p.onchain_events.len() <= n, "no page is larger than asked for"); got += p.onchain_events.len(); token = p.next_page_token; if token.is_none() { break; } }
        check(token.is_none() && got == 3, "all events, page by page");
        cover("done");
    }
    fn c32_signer() {
        let k = [0, 1, 2].map(|_| 1 + choose("event", 0, 1) as i32);
        let how = choose("order", 0, 5);
        split((how * 8 + (k[0] * 4 + k[1] * 2 + k[2]) as usize) as u64);
        signers(k, how);
    }
    fn c32_signer_pending() {
        let k = [0, 1, 2].map(|_| 1 + choose("event", 0, 1) as i32);
        let how = choose("order", 6, 11);
        split((how * 8 + (k[0] * 4 + k[1] * 2 + k[2]) as usize) as u64);
        signers(k, how);
    }
    fn c32_signer_block() {
        // added and removed within one block
        let b = ts("block");
        let l = [any_u32("log"), any_u32("log")];
        assume((l[0] < 128) & (l[1] < 128) & (l[0] != l[1]));
        let s = store("d");
        let (add, rem) = (signer(9, b, l[0], 1, 1, 1), signer(9, b, l[1], 1, 2, 1));
        let first = choose("first", 0, 1);
        split(first as u64);
        for e in if first == 0 { [&add, &rem] } else { [&rem, &add] } { check(merge(&s, e), "taken"); }
        let active = s.get_active_signer(9, vec![1; 32], None).unwrap().is_some();
        known(active == (l[0] > l[1]), "KF4: of events of one block about one key, or of one user's registrations, the one merged last counts, not the last on chain");
        if (first == 0) == (l[0] < l[1]) { check(active == (l[0] > l[1]), "in chain order the last counts"); }
        cover("done");
    }
    fn c32_signer_reset() {
        // a reset makes the key active again by the event that added it
        let b = blocks();
        let s = store("d");
        for e in [signer(9, b[0], 1, 1, 1, 1), signer(9, b[1], 1, 1, 2, 1)] { merge(&s, &e); }
        check(s.get_active_signer(9, vec![1; 32], None).unwrap().is_none(), "removed");
        let key = choose("key", 1, 2) as u8;
        split(key as u64);
        check(merge(&s, &signer(9, b[2], 1, key, 3, 1)), "a reset is taken");
        check(s.get_active_signer(9, vec![1; 32], None).unwrap() == if key == 1 { Some(signer(9, b[0], 1, 1, 1, 1)) } else { None }, "a reset reactivates exactly its key");
        check(s.get_active_signer(9, vec![2; 32], None).unwrap().is_none(), "a reset adds no key");
        cover("done");
    }
    fn c32_signer_list() {
        // a user's active keys are listed, page by page; other users' and removed keys are not
        let b = blocks();
        let s = store("d");
        let kinds = choose("removed", 0, 7);
        let (n, reverse) = (choose("size", 1, 3), choose("reverse", 0, 1) == 1);
        split((kinds * 8 + n * 2 + reverse as usize) as u64);
        let mut want = vec![];
        for i in 0..3 {
            let e = signer(9, b[i], 1, i as u8, 1, 1);
            merge(&s, &e);
            if kinds >> i & 1 == 0 { want.push(e); }
        }
        merge(&s, &signer(10, b[1], 1, 7, 1, 1));
        for i in 0..3 { if kinds >> i & 1 == 1 { merge(&s, &signer(9, b[2], 2 + i, i as u8, 2, 1)); } }
        if reverse { want.reverse(); }
        let (mut got, mut token) = (vec![], None);
        for _ in 0..5 { let p = s.get_signers(Some(9), &page(n, token, reverse)).unwrap(); check(p.onchain_events.len() <= n, "no page is larger than asked for"); got.extend(p.onchain_events); token = p.next_page_token; if token.is_none() { break; } }
        check(token.is_none() && got == want, "the active keys of a user, each once");
        check(s.get_signers(None, &page(9, None, false)).unwrap().onchain_events.len() == want.len() + 1, "everyone's active keys");
        cover("done");
    }
    fn c32_ids() {
        // a user's registration is the latest one on chain, whatever order they come in
        let b = blocks();
        let k = [0, 1, 2].map(|_| 1 + choose("event", 0, 2) as i32);
        let how = choose("order", 0, 5);
        split((how * 27 + (k[0] * 9 + k[1] * 3 + k[2]) as usize) as u64);
        let s = store("d");
        let e: Vec<OnChainEvent> = (0..3).map(|i| id(9, b[i], 4, k[i], i as u8)).collect();
        merge(&s, &id(10, b[1], 4, 1, 9));
        for i in ORDERS[how] { check(merge(&s, &e[i]), "an event is taken"); }
        let want = (0..3).rev().find(|i| k[*i] != 3).map(|i| e[i].clone());
        check(s.get_id_register_event_by_fid(9, None).unwrap() == want, "the latest registration or transfer is the user's");
        check(s.get_id_register_event_by_fid(10, None).unwrap() == Some(id(10, b[1], 4, 1, 9)) && s.get_id_register_event_by_fid(11, None).unwrap().is_none(), "others keep theirs");
        cover("done");
    }
    fn c32_fids() {
        // the registered users, page by page and by iteration, from any user on
        let b = blocks();
        let s = store("d");
        let f = [0, 1, 2].map(|_| ts("fid") as u64);
        assume((f[0] < f[1]) & (f[1] < f[2]));
        let some = choose("registered", 0, 7);
        let (n, reverse) = (choose("size", 1, 3), choose("reverse", 0, 1) == 1);
        split((some * 8 + n * 2 + reverse as usize) as u64);
        let (mut want, mut again) = (vec![], 0);
        for i in 0..3 {
            if some >> i & 1 == 1 { want.push(f[i]); merge(&s, &id(f[i], b[i], 1, 1, 1)); again = f[i]; }
            else { merge(&s, &id(f[i], b[i], 1, 2, 1)); }
        }
        let from = any_u32("from") as u64;
        assume(from < u32::MAX as u64);
        let mut it = FIDIterator::new(s.db.clone(), from);
        for x in &want { if *x > from { check(it.next() == Some(*x), "iterates over each user after the given one, in order"); } }
        check(it.next().is_none() && it.take_error().is_none(), "and no other");
        if reverse { want.reverse(); }
        let (mut got, mut token) = (vec![], None);
        for _ in 0..5 { let (p, t) = s.get_fids(&page(n, token, reverse)).unwrap(); check(p.len() <= n, "no page is larger than asked for"); got.extend(p); token = t; if token.is_none() { break; } }
        check(token.is_none() && got == want, "each registered user once");
        if want.len() > 0 {
            // a few users were registered twice
            merge(&s, &id(again, b[2], 9, 1, 1));
            check(FIDIterator::new(s.db.clone(), 0).count() == want.len(), "a user registered twice is iterated over once");
        }
        cover("done");
    }
    fn c32_channels() {
        // any history of three channel events, in chain order: the owner and term are the latest given
        let mut h = vec![];
        let (mut at, mut code) = ((1u32, 1u32, 1u32), 0);
        let s = store("d");
        let r = store("replica");
        for i in 0..3 {
            let (kind, n, owner) = (choose("kind", 1, 3) as i32, choose("channel", 0, 1), choose("owner", 1, 2) as u8);
            if kind == 2 { assume(owner == 1); }
            if i == 0 { assume(n == 0); }
            code = code * 12 + (kind as u64 * 4 + n as u64 * 2 + owner as u64);
            h.push((kind, n, owner, ts("term") as u64));
        }
        split(code);
        for (kind, n, owner, term) in &h {
            let step = *kind as u32 + at.0;
            at = if step % 2 == 0 { (at.0 + 1, 0, 0) } else { (at.0, at.1 + 1, at.2 + 1) };
            let e = chan(at.0, at.1, at.2, *kind, NAMES[*n], *owner, *term);
            check(merge(&s, &e), "an event is taken");
            let mut txn = RocksDbTransactionBatch::new();
            let change = snapchain::storage::store::account::onchain_event_store::fold_channel_register_replica(&r.db, &mut txn, &e).unwrap();
            r.db.commit(txn).unwrap();
            if let Some(c) = &change { check(*kind != 2 && c.channel_key == NAMES[*n] && c.owner_address == [*owner; 20], "a change of owner is told as it is"); }
            check(*kind != 1 || change.is_some(), "a registration is a change of owner");
        }
        let want = [fold(&h, 0), fold(&h, 1)];
        owners(&s, want);
        owners(&r, want);
        cover("done");
    }
    fn c32_channels_late() {
        // registrations in any order: the latest on chain stays
        let b = [0, 1, 2].map(|_| any_u32("block"));
        let l = [0, 1, 2].map(|_| any_u32("log"));
        let t = [0, 1, 2].map(|_| any_u32("tx"));
        for i in 0..3 { assume((b[i] >= 1 << 21) & (b[i] < 1 << 28) & (t[i] > 0) & (t[i] < 128) & (l[i] > 0) & (l[i] < 128)); }
        let lt = |i: usize, j: usize| (b[i] < b[j]) | ((b[i] == b[j]) & ((t[i] < t[j]) | ((t[i] == t[j]) & (l[i] < l[j]))));
        // logs are numbered within a block
        assume(lt(0, 1) & lt(1, 2) & ((b[0] != b[1]) | (l[0] < l[1])) & ((b[1] != b[2]) | (l[1] < l[2])));
        let how = choose("order", 0, 5);
        let last = choose("last", 1, 2) as i32;
        split((how * 2) as u64 + last as u64);
        let s = store("d");
        let term = [5, 6, 7u64];
        let e: Vec<OnChainEvent> = (0..3).map(|i| chan(b[i], t[i], l[i], if i == 2 { last } else { 1 }, "ab", i as u8 + 1, term[i])).collect();
        for i in ORDERS[how] { check(merge(&s, &e[i]), "taken"); }
        if last == 1 { owners(&s, [Some((3, term[2])), None]); }
        else {
            // a renewal counts for what was registered before it arrived
            let o = ORDERS[how];
            let g = s.get_channel_owner("ab", None).unwrap().unwrap();
            if o[2] == 2 { check(g.owner_address == [2; 20] && g.expiry == term[2], "a renewal extends the latest registration"); }
        }
        cover("done");
    }
    fn c32_channel_bad() {
        // a registration whose label is not its name's, or whose owner is no address, grants nothing
        let s = store("d");
        check(merge(&s, &chan(5, 1, 1, 1, "ab", 1, 7)), "taken");
        let before: Vec<_> = rows("d").into_iter().filter(|(k, _)| k[1] != 1).collect();
        let what = choose("what", 0, 5);
        let kind = choose("kind", 1, 3) as i32;
        split((what * 4) as u64 + kind as u64);
        let mut e = chan(6, 1, 1, kind, "ab", 2, 9);
        if let Some(OB::ChannelRegisterEventBody(b)) = &mut e.body {
            match what {
                0 => { if kind == 3 { return; } b.label = vec![any_u8("label"); 32]; }
                1 => b.label = vec![1; choose("label length", 0, 33)],
                2 => { if kind == 2 { return; } b.owner_address = vec![2; choose("owner length", 0, 32)]; assume(b.owner_address.len() != 20); }
                3 => b.event_type = 4 + any_u8("unknown") as i32,
                4 => { if kind == 1 { return; } b.channel_key = "zz".into(); b.label = alloy_primitives::keccak256(b"zz").to_vec(); } // nobody's
                _ => b.event_type = 0,
            }
            if b.label.len() == 32 && what == 1 { assume(false); }
        }
        check(merge(&s, &e), "the event itself is kept");
        let mut log = rows("d"); log.retain(|(k, _)| k[1] != 1);
        check(log == before, "it changes no channel");
        cover("done");
    }
    fn c32_owner_pages() {
        // the channels of several owners, page by page, whatever is asked in between
        let s = store("d");
        let o = [0, 1, 2].map(|_| choose("owner", 1, 3) as u8);
        let n = choose("size", 1, 3);
        split(o.iter().fold(n as u64, |a, x| a * 4 + *x as u64));
        let names = ["a", "ab", "b"];
        for i in 0..3 { merge(&s, &chan(5 + i as u32, 1, 1, 1, names[i], o[i], 7)); }
        let asked: Vec<Vec<u8>> = match choose("asked", 0, 2) { 0 => vec![vec![1; 20], vec![3; 20]], 1 => vec![vec![2; 20]], _ => vec![vec![1; 20], vec![2; 20], vec![3; 20]] };
        let mut want = vec![];
        for a in &asked { for i in 0..3 { if a[0] == o[i] { want.push((a.clone(), names[i].to_string())); } } }
        let (mut got, mut token) = (vec![], None);
        for _ in 0..6 {
            let (p, t) = get_channel_keys_for_owner_addresses(&s.db, &asked, token.as_deref(), n).unwrap();
            check(p.len() <= n, "no page is larger than asked for");
            got.extend(p); token = t;
            if token.is_none() { break; }
        }
        check(token.is_none() && got == want, "each channel of each owner once, in order");
        check(get_channel_keys_by_owner_address(&s.db, &[1; 19], &page(1, None, false)).is_err(), "what is no address is refused");
        cover("done");
    }
}
