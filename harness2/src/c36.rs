//! bounds: three key messages in a row over two users, two keys and two requesting apps, any nonces of two varint bytes, in one transaction or one each; any count; any time, any deadline, any life of a key, each of up to 2^28 seconds; every message type against two scope lists; two data shards' worth of replay over the in-memory database
use crate::{com::*, en::*, entries, st::*, vf::*};
use alloy_primitives::{Address, Bytes, U256};
use alloy_sol_types::SolValue;
use snapchain::core::util::FarcasterTime;
use snapchain::core::validations::key::*;
use snapchain::proto::{self, message_data::Body, on_chain_event::Body as OB, MessageType, OnChainEvent, OnChainEventType as OT};
use snapchain::storage::db::*;
use snapchain::storage::store::account::*;
use snapchain::storage::store::mempool_poller::MempoolMessage;

const A1: [u8; 32] = [7; 32];
const A2: [u8; 32] = [8; 32];
const K1: [u8; 32] = [21; 32];
const K2: [u8; 32] = [22; 32];
/// whose custody is whose: users 9 and 10, apps 1 and 2
fn seed(fid: u64) -> &'static [u8; 32] { match fid { 9 => &S1, 10 => &S2, 1 => &A1, _ => &A2 } }
fn reg(fid: u64, block: u32, to: &[u8; 32]) -> OnChainEvent {
    chain_event(OT::EventTypeIdRegister, fid, block, 1_700_000_000, OB::IdRegisterEventBody(proto::IdRegisterEventBody { to: eth_addr(to).to_vec(), event_type: 1, from: vec![], recovery_address: vec![] }))
}
fn request(app: u64, by: &[u8; 32], key: &[u8; 32], until: u64) -> Vec<u8> {
    let sig = eth_sign(by, &eip712("SignedKeyRequest(uint256 requestFid,bytes key,uint256 deadline)", &[word(app), kk(&ed_public(key)), word(until)]));
    SignedKeyRequestMetadata { requestFid: U256::from(app), requestSigner: Address::from(eth_addr(by)), signature: Bytes::from(sig.to_vec()), deadline: U256::from(until) }.abi_encode()
}
fn word(v: u64) -> [u8; 32] { let mut w = [0u8; 32]; w[24..].copy_from_slice(&v.to_be_bytes()); w }
fn kk(b: &[u8]) -> [u8; 32] { alloy_primitives::keccak256(b).0 }
/// EIP-712 by hand
fn eip712(ty: &str, words: &[[u8; 32]]) -> [u8; 32] {
    let mut d = vec![];
    d.extend(kk(b"EIP712Domain(string name,string version,uint256 chainId)"));
    d.extend(kk(b"Farcaster KeyAdd")); d.extend(kk(b"1")); d.extend(word(1));
    let mut s = kk(ty.as_bytes()).to_vec();
    for w in words { s.extend(w); }
    let mut m = vec![0x19, 1];
    m.extend(kk(&d)); m.extend(kk(&s));
    kk(&m)
}

/// a user gives a key that an app asked for some scopes for some time
#[derive(Clone)]
struct Add { user: u64, key: [u8; 32], app: u64, nonce: u32, until: u32, ttl: u32, scopes: Vec<i32>, by: [u8; 32], asked: [u8; 32] }
fn add(user: u64, key: &[u8; 32], app: u64, nonce: u32) -> Add { Add { user, key: *key, app, nonce, until: T + 3000, ttl: 1000, scopes: vec![1, 5], by: *seed(user), asked: *seed(app) } }
impl Add {
    fn body(&self) -> Body {
        let mut sc = vec![];
        for s in &self.scopes { sc.extend(word(*s as u64)); }
        let h = eip712("KeyAdd(uint256 fid,bytes key,uint32 keyType,uint32[] scopes,uint32 ttl,uint32 nonce,uint256 deadline)",
            &[word(self.user), kk(&ed_public(&self.key)), word(1), kk(&sc), word(self.ttl as u64), word(self.nonce as u64), word(self.until as u64)]);
        Body::KeyAddBody(proto::KeyAddBody {
            key: ed_public(&self.key).to_vec(), key_type: 1, custody_signature: eth_sign(&self.by, &h).to_vec(), deadline: self.until, nonce: self.nonce,
            metadata: request(self.app, &self.asked, &self.key, T as u64 + 3000), metadata_type: 1, registration_tx_hash: vec![], scopes: self.scopes.clone(), ttl: self.ttl,
        })
    }
    fn msg(&self, t: u32) -> proto::Message { signed(&self.key, self.user, t, MessageType::KeyAdd, self.body()) }
    /// as the stores take it, where hashes and signatures are not looked at any more
    fn raw(&self, t: u32, hash: &[u8]) -> proto::Message { msg(self.user, MessageType::KeyAdd, t, hash, self.body()) }
}
fn drop_body(user: u64, key: &[u8; 32], nonce: u32, until: u32, by: Option<&[u8; 32]>) -> Body {
    let h = eip712("KeyRemove(uint256 fid,bytes key,uint32 nonce,uint256 deadline)", &[word(user), kk(&ed_public(key)), word(nonce as u64), word(until as u64)]);
    Body::KeyRemoveBody(proto::KeyRemoveBody { key: ed_public(key).to_vec(), signature: by.map_or(vec![], |b| eth_sign(b, &h).to_vec()), signature_type: if by.is_some() { 1 } else { 2 }, deadline: until, nonce })
}
fn dropped(signer: &[u8; 32], user: u64, key: &[u8; 32], nonce: u32, t: u32, by: Option<&[u8; 32]>) -> proto::Message { signed(signer, user, t, MessageType::KeyRemove, drop_body(user, key, nonce, T + 3000, by)) }
fn chain_store(name: &str) -> OnchainEventStore {
    let s = OnchainEventStore::new(db(name), StoreEventHandler::new());
    for (i, f) in [9, 10, 1, 2].into_iter().enumerate() { take(&s, reg(f, 5 + i as u32, seed(f))); }
    s
}
fn take(s: &OnchainEventStore, e: OnChainEvent) { let mut t = RocksDbTransactionBatch::new(); s.merge_onchain_event(e, &mut t).unwrap(); s.db.commit(t).unwrap(); }
fn nonce() -> u32 { let n = any_u32("nonce"); assume((n >= 128) & (n < 16384)); n }
fn merge(s: &OnchainEventStore, m: &proto::Message, t: &mut RocksDbTransactionBatch, replay: bool) -> Option<Vec<proto::Message>> {
    let r = if type_of(m) == MessageType::KeyAdd as i32 { merge_key_add(&s.db, s, m, t, replay) } else { merge_key_remove(&s.db, s, m, t) };
    match r.ok()?.body.unwrap() {
        proto::hub_event::Body::MergeMessageBody(b) => { check(b.message.as_ref() == Some(m), "what is told is the message"); Some(b.deleted_messages) }
        _ => { check(false, "a key message is told as a message"); None }
    }
}
/// what must be: of each key its owner, app and message; the nonces; in the order of the messages
struct Keys { of: Vec<(usize, u64, u64, usize)>, users: [u32; 2], apps: [u32; 2] }
impl Keys {
    fn add(&mut self, i: usize, key: usize, user: u64, app: u64, nonce: u32) -> Option<Option<usize>> {
        let old = self.of.iter().find(|k| k.0 == key).cloned();
        if let Some((_, u, a, _)) = old { if u != user || a != app { return None; } }
        if !conc_bool(nonce > self.users[user as usize - 9]) { return None; }
        self.users[user as usize - 9] = nonce;
        self.of.retain(|k| k.0 != key);
        self.of.push((key, user, app, i));
        Some(old.map(|k| k.3))
    }
    fn remove(&mut self, key: usize, user: u64, nonce: u32, itself: bool) -> Option<Option<usize>> {
        let (_, u, a, i) = *self.of.iter().find(|k| k.0 == key)?;
        if u != user { return None; }
        let n = if itself { &mut self.apps[a as usize - 1] } else { &mut self.users[user as usize - 9] };
        if !conc_bool(nonce > *n) { return None; }
        *n = nonce;
        self.of.retain(|k| k.0 != key);
        Some(Some(i))
    }
}
fn history(wide: bool) {
    flag("fmt", 1);
    let ks = [K1, K2];
    let mut m = Keys { of: vec![], users: [0; 2], apps: [0; 2] };
    // the first message gives user 9 the first key; by symmetry it stands for any
    let mut ops = vec![(0, 0, 9, 1)];
    for _ in 0..2 {
        let what = choose("what", 0, 2);
        let (key, user) = (choose("key", 0, 1), choose("user", 9, 10) as u64);
        let app = if what == 0 { choose("app", 1, 2) as u64 } else { 1 };
        ops.push((what, key, user, app));
    }
    let joint = choose("one transaction", 0, 1) == 1;
    // a key dropped that nobody has and other pairs that differ little are left to the wide check
    if !wide && (joint != ((ops[1].1 + ops[2].1 + ops[2].0) % 2 == 0)) { return; }
    let ns = [nonce(), nonce(), nonce()];
    let mut want = vec![];
    for (i, (what, key, user, app)) in ops.iter().enumerate() {
        want.push(match what { 0 => m.add(i, *key, *user, *app, ns[i]), w => m.remove(*key, *user, ns[i], *w == 2) });
    }
    let code = want.iter().fold(joint as u64, |a, w| a * 2 + w.is_some() as u64);
    split(ops.iter().fold(code, |a, o| a * 48 + (o.0 * 16 + o.1 * 8 + (o.2 as usize - 9) * 4 + o.3 as usize) as u64));
    let (a, b) = (chain_store("a"), chain_store("b"));
    let ms: Vec<_> = ops.iter().enumerate().map(|(i, (what, key, user, app))| match what {
        0 => Add { ttl: 1000 + i as u32, ..add(*user, &ks[*key], *app, ns[i]) }.raw(T + i as u32, &[i as u8; 20]),
        1 => { let mut x = msg(*user, MessageType::KeyRemove, T + i as u32, &[i as u8; 20], drop_body(*user, &ks[*key], ns[i], T + 3000, Some(seed(*user)))); x.signer = ed_public(&K2).to_vec(); x }
        _ => { let mut x = msg(*user, MessageType::KeyRemove, T + i as u32, &[i as u8; 20], drop_body(*user, &ks[*key], ns[i], T + 3000, None)); x.signer = ed_public(&ks[*key]).to_vec(); x }
    }).collect();
    let mut all = RocksDbTransactionBatch::new();
    for (i, x) in ms.iter().enumerate() {
        let mut own = RocksDbTransactionBatch::new();
        let t = if joint { &mut all } else { &mut own };
        let got = merge(&a, x, t, false);
        check(got.is_some() == want[i].is_some(), "a key is given, changed and taken exactly by who may");
        if let (Some(gone), Some(w)) = (got, &want[i]) { check(gone == w.iter().map(|j| ms[*j].clone()).collect::<Vec<_>>(), "what a message replaces is told with it"); }
        if !joint { a.db.commit(own).unwrap(); }
        // the other node hears only of what counts, from its block events
        if want[i].is_some() { let mut t = RocksDbTransactionBatch::new(); check(merge(&b, x, &mut t, true).is_some(), "and counts on every shard"); b.db.commit(t).unwrap(); }
    }
    if joint { a.db.commit(all).unwrap(); }
    check(same_rows("a", "b"), "what is refused leaves no trace; what counts leaves the same everywhere");
    let t = RocksDbTransactionBatch::new();
    for u in [9, 10] {
        let mine: Vec<_> = m.of.iter().filter(|k| k.1 == u).collect();
        check(get_gasless_key_count(&a.db, &t, u).unwrap() == mine.len() as u32, "a user's keys are counted");
        check((get_user_nonce(&a.db, &t, u).unwrap().unwrap_or(0) == m.users[u as usize - 9]) & (get_app_nonce(&a.db, &t, u - 8).unwrap().unwrap_or(0) == m.apps[u as usize - 9]), "and a nonce is used once, by user or app");
        let page = list_gasless_keys_by_fid(&a.db, u, &PageOptions::default()).unwrap();
        check(page.records.len() == mine.len(), "and listed");
        for (k, s) in ks.iter().enumerate() {
            let r = get_gasless_key_record(&a.db, &t, u, &ed_public(s)).unwrap();
            let w = mine.iter().find(|x| x.0 == k);
            check(r.is_some() == w.is_some(), "a key is kept for its user");
            let used = get_last_used_at(&a.db, &t, u, &ed_public(s)).unwrap();
            check(used == w.map(|x| T + x.3 as u32), "as used when it was last given");
            if let (Some(r), Some(x)) = (r, w) { check(r.message.as_ref() == Some(&ms[x.3]) && r.request_fid == x.2, "with what it was given for"); }
            let live = get_active_key(&a, &a.db, &t, u, &ed_public(s)).unwrap();
            check(live == w.map(|x| ActiveKey::Gasless { scopes_mask: 1 << 1 | 1 << 5, ttl_seconds: 1000 + x.3 as u32 }), "and is what it may be used for");
        }
    }
    for (k, s) in ks.iter().enumerate() { check(get_gasless_key_owner_fid(&a.db, &t, &ed_public(s)).unwrap() == m.of.iter().find(|x| x.0 == k).map(|x| x.1), "a key has one owner"); }
    cover("done");
}

entries! {
    fn c36_history() { history(false); }
    fn c36t_history() { history(true); }
    fn c36_authority() {
        // nobody but the user gives a key, at the request of nobody but the app, unless the chain has it already
        flag("fmt", 1);
        let case = choose("case", 0, 13);
        let replay = choose("replay", 0, 1) == 1;
        split(case as u64 * 2 + replay as u64);
        let s = chain_store("a");
        let mut x = add(9, &K1, 1, 300);
        let mut good = true;
        match case {
            0 => {}
            1 => { x.by = S2; good = false }                                // another user's custody
            2 => { x.by = K1; good = false }                                // the key itself
            3 => { x.asked = A2; good = replay }                            // another app's custody asks in this app's name
            4 => { x.app = 3; x.asked = A1; good = replay }                 // an app nobody knows
            5 => { x.user = 11; x.by = S1; good = false }                   // a user nobody knows
            6 => { take(&s, reg(9, 40, &S2)); good = false }                // a user that has moved
            7 => { take(&s, reg(9, 40, &S2)); x.by = S2 }
            8 => { take(&s, reg(1, 40, &A2)); good = replay }               // an app that has moved
            9 => { take(&s, reg(1, 40, &A2)); x.asked = A2 }
            10 => { take(&s, key(9, 40, &K1, true)); good = false }         // on chain already
            11 => { take(&s, key(9, 40, &K1, true)); take(&s, key(9, 41, &K1, false)) }
            12 => take(&s, key(10, 40, &K1, true)),
            _ => take(&s, key(9, 40, &K2, true)),
        }
        let mut t = RocksDbTransactionBatch::new();
        let ok = merge(&s, &x.raw(T, &[1; 20]), &mut t, replay).is_some();
        check(ok == good, "a key is given by its user at the app's request");
        if ok { cover("given"); } else { check(t.batch.is_empty(), "what is refused leaves no trace"); cover("refused"); }
    }
    fn c36_removal() {
        // a key is taken by its user's custody or by itself
        flag("fmt", 1);
        let case = choose("case", 0, 10);
        split(case as u64);
        let s = chain_store("a");
        let mut t = RocksDbTransactionBatch::new();
        check(merge(&s, &add(9, &K1, 1, 300).raw(T, &[1; 20]), &mut t, false).is_some(), "given");
        let (mut user, mut k, mut by, mut signer) = (9, K1, Some(&S1), K2);
        let mut kind = None;
        let good = match case {
            0 => true,
            1 => { by = Some(&S2); false }
            2 => { by = Some(&A1); false }
            3 => { by = None; signer = K1; true }
            4 => { by = None; false }                                       // another key in its name
            5 => { by = None; signer = S1; false }
            6 => { k = K2; false }
            7 => { user = 10; by = Some(&S2); false }
            8 => { t.batch.len(); take(&s, reg(9, 40, &S2)); by = Some(&S2); true }
            9 => { kind = Some(3); false }
            _ => { kind = Some(0); signer = K1; false }
        };
        let mut x = msg(user, MessageType::KeyRemove, T, &[2; 20], drop_body(user, &k, 400, T + 3000, by));
        x.signer = ed_public(&signer).to_vec();
        if let (Some(n), Some(Body::KeyRemoveBody(b))) = (kind, &mut x.data.as_mut().unwrap().body) { b.signature_type = n; }
        let n = t.batch.len();
        let ok = merge(&s, &x, &mut t, false).is_some();
        check(ok == good, "a key is taken by its user or by itself");
        if !ok { check(t.batch.len() == n, "what is refused leaves no trace"); cover("refused"); } else { cover("taken"); }
        check(get_gasless_key_record(&s.db, &t, 9, &ed_public(&K1)).unwrap().is_some() == !ok, "and is there until then");
    }
    fn c36_cap() {
        // no more than a thousand keys at a time; one of them may always be changed
        flag("fmt", 1);
        let n = any_u32("keys");
        let (has, room) = (choose("has it", 0, 1) == 1, conc_bool(n < 1000));
        split(has as u64 * 2 + room as u64);
        let s = chain_store("a");
        let mut t = RocksDbTransactionBatch::new();
        if has { merge(&s, &add(9, &K1, 1, 300).raw(T, &[1; 20]), &mut t, false); }
        t.put(make_gasless_key_count_by_fid_key(9), n.to_be_bytes().to_vec());
        let ok = merge(&s, &add(9, &K1, 1, 301).raw(T, &[2; 20]), &mut t, false).is_some();
        check(ok == (has || room), "a user has a thousand keys at most");
        let now = get_gasless_key_count(&s.db, &t, 9).unwrap();
        check(now == if ok && !has { n + 1 } else { n }, "and each is counted once");
        check(get_gasless_key_count(&s.db, &t, 10).unwrap() == 0 && merge(&s, &add(10, &K2, 1, 1).raw(T, &[3; 20]), &mut t, false).is_some(), "for each user apart");
        if ok { cover("given"); } else { cover("full"); }
    }
    fn c36_life() {
        // a key lives as long as it is used; its use is noted, not too often
        let (stored, ttl, t, now) = (any_u32("last used"), any_u32("life"), any_u32("said"), any_u64("now"));
        let there = choose("there", 0, 1) == 1;
        split(there as u64);
        let d = db("a");
        let mut x = RocksDbTransactionBatch::new();
        let k = [3; 32];
        init_last_used_at(&d, &mut x, 10, &k, 5).unwrap();
        if there { init_last_used_at(&d, &mut x, 9, &k, stored).unwrap(); }
        let ok = check_and_bump_last_used_at(&d, &mut x, 9, &k, ttl, t, now).is_ok();
        check(ok == (there & (stored as u64 + ttl as u64 >= now)), "a key lives until it has not been used for its life");
        let want = if ok && conc_bool(t as u64 > stored as u64 + 300) { t } else { stored };
        let is = get_last_used_at(&d, &x, 9, &k).unwrap();
        check(is == if there { Some(want) } else { None }, "its use is noted if it was noted long ago, and never forward in vain");
        check(get_last_used_at(&d, &x, 10, &k).unwrap() == Some(5), "another's is not");
        if ok { cover("alive"); } else { cover("dead"); }
    }
    fn c36_use() {
        // a key signs what it was given for while it lives, on the shard that keeps its user
        flag("fmt", 1);
        let (now, rented) = (clock(), 1_752_700_000);
        assume(now < rented + 2 * 365 * 24 * 3600);
        let ttl = any_u32("life");
        let said = any_u32("said");
        let at = any_u32("block time");
        assume((ttl >= 1 << 21) & (ttl <= 90 * 86400) & (said >= T) & (said < 1 << 28) & (at >= said) & (at as u64 <= said as u64 + 5000));
        let (what, scopes) = (choose("what", 0, 3), choose("scopes", 0, 1));
        let alive = conc_bool(T as u64 + ttl as u64 >= at as u64);
        let noted = conc_bool(said as u64 > T as u64 + 300);
        split(what as u64 * 8 + scopes as u64 * 4 + alive as u64 * 2 + noted as u64);
        let mut e = shard("a", 10);
        let c = propose(&mut e, 1, vec![MempoolMessage::OnchainEvent(rent(9, 5, rented, 1)), MempoolMessage::OnchainEvent(reg(9, 6, &S1))], &FarcasterTime::new(T as u64));
        commit(&mut e, 1, &c);
        let give = Add { ttl, scopes: [vec![1, 5], vec![3]][scopes].clone(), ..add(9, &K1, 1, 300) }.msg(T);
        let c = propose(&mut e, 2, vec![shard0(1, give)], &FarcasterTime::new(T as u64 + 100));
        commit(&mut e, 2, &c);
        let seed = if what == 3 { &K2 } else { &K1 };
        let m = match what {
            0 | 3 => signed(seed, 9, said, MessageType::CastAdd, Body::CastAddBody(proto::CastAddBody { text: "x".into(), ..Default::default() })),
            1 => signed(seed, 9, said, MessageType::LinkAdd, Body::LinkBody(proto::LinkBody { r#type: "follow".into(), display_timestamp: None, target: Some(proto::link_body::Target::TargetFid(10)) })),
            _ => signed(seed, 9, said, MessageType::ReactionAdd, Body::ReactionBody(proto::ReactionBody { r#type: 1, target: Some(proto::reaction_body::Target::TargetUrl("u".into())) })),
        };
        let may = alive && match what { 0 | 1 => scopes == 0, 2 => scopes == 1, _ => false };
        let c = propose(&mut e, 3, vec![um(&m)], &FarcasterTime::new(at as u64));
        let took = c.events.iter().any(|x| x.r#type == proto::HubEventType::MergeMessage as i32);
        check(took == may, "a key signs what it was given for, while it lives");
        commit(&mut e, 3, &c);
        let is = get_last_used_at(&e.db, &RocksDbTransactionBatch::new(), 9, &ed_public(&K1)).unwrap();
        check(is == Some(if may && noted { said } else { T }), "and its use is noted");
        if took { cover("taken"); } else { cover("refused"); }
    }
    fn c36_simulate() {
        // trying a key message out tells whether it would be taken and changes nothing
        flag("fmt", 1);
        let now = clock();
        assume((now < 1609459200 + T as u64 + 500) & (now > 1609459200 + T as u64));
        let case = choose("case", 0, 9);
        split(case as u64);
        let mut e = block0("a");
        let ms = [9, 10, 1, 2].into_iter().enumerate().map(|(i, f)| MempoolMessage::OnchainEvent(reg(f, 5 + i as u32, seed(f)))).chain([9, 10].into_iter().map(|f| MempoolMessage::OnchainEvent(rent(f, 20, 1_752_700_000, 1)))).collect();
        let c = propose0(&mut e, 1, ms, T as u64 + 5);
        commit0(&mut e, 1, &c);
        let c = propose0(&mut e, 2, vec![um(&add(9, &K1, 1, 300).msg(T))], T as u64 + 10);
        check(c.events.len() == 1, "given");
        commit0(&mut e, 2, &c);
        let (m, good) = match case {
            0 => (add(9, &K2, 1, 301).msg(T + 1), true),
            1 => (add(9, &K2, 1, 300).msg(T + 1), false),                  // a used nonce
            2 => (add(10, &K1, 1, 301).msg(T + 1), false),                 // another's key
            3 => (add(9, &K1, 2, 301).msg(T + 1), false),                  // another app's key
            4 => (Add { by: S2, ..add(9, &K2, 1, 301) }.msg(T + 1), false),
            5 => (dropped(&K1, 9, &K1, 301, T + 1, Some(&S1)), true),
            6 => (dropped(&K1, 9, &K1, 300, T + 1, Some(&S1)), false),
            7 => (dropped(&K1, 9, &K1, 1, T + 1, None), true),
            8 => (dropped(&K2, 9, &K2, 301, T + 1, Some(&S1)), false),     // nobody's key
            _ => (dropped(&K2, 9, &K1, 1, T + 1, None), false),            // another key in its name
        };
        let (before, rows) = (root0(&e), all_rows("a"));
        check(e.simulate_message(&m).is_ok() == good, "trying a key message out tells whether it counts");
        check(same(&before, &root0(&e)) && all_rows("a") == rows, "and changes nothing");
        let c = propose0(&mut e, 6, vec![um(&m)], T as u64 + 100);
        check((c.events.len() == 1) == good, "and it does");
        if good { cover("good"); } else { cover("bad"); }
    }
    fn c36_deadline() {
        // a custody signature is no good after the time it names
        flag("fmt", 1);
        let until = any_u32("deadline");
        assume((until >= 1 << 21) & (until < 1 << 28));
        let what = choose("what", 0, 1);
        let past = conc_bool(until < T);
        split(what as u64 * 2 + past as u64);
        let s = chain_store("a");
        let mut t = RocksDbTransactionBatch::new();
        let x = if what == 0 { Add { until, ..add(9, &K1, 1, 301) }.raw(T, &[1; 20]) } else {
            merge(&s, &add(9, &K1, 1, 300).raw(T - 1, &[1; 20]), &mut t, false);
            msg(9, MessageType::KeyRemove, T, &[2; 20], drop_body(9, &K1, 301, until, Some(&S1)))
        };
        let ok = merge(&s, &x, &mut t, false).is_some();
        known(!(ok && past), "KF11: a custody signature over a key's addition or removal counts after the deadline it names");
        check(ok == !past, "a signature counts until its deadline");
        if ok { cover("in time"); }
    }
}
