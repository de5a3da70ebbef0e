//! bounds: three or four messages of any kind, any times of up to 2^28 seconds, any two-byte ends of the hashes, any count asked for; one to three data shards; every message type and every user number of a list; every junk form of a message; two clocks in a row; all storage limits of a fresh and a renting user; over the in-memory database
use crate::{com::*, en::*, entries, st::*, vf::*};
use snapchain::core::error::HubError;
use snapchain::core::types::SnapchainValidatorContext;
use snapchain::mempool::mempool::*;
use snapchain::network::gossip::GossipEvent;
use snapchain::proto::{self, message_data::Body, on_chain_event::Body as OB, FarcasterNetwork, MessageType, OnChainEventType as OT};
use snapchain::storage::db::*;
use snapchain::storage::store::block_engine::BlockEngine;
use snapchain::storage::store::engine::ShardEngine;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::version::version::*;
use std::collections::HashMap;
use tokio::sync::{broadcast, mpsc, oneshot};

type Told = mpsc::Receiver<GossipEvent<SnapchainValidatorContext>>;
/// a mempool over n data shards with databases m1, m2, … and shard 0 with m0
struct Pool { p: Mempool, told: Told, shards: Vec<ShardEngine>, zero: BlockEngine, _asks: mpsc::Sender<MempoolRequest>, _keep: (mpsc::Sender<MempoolMessagesRequest>, broadcast::Sender<proto::ShardChunk>, broadcast::Sender<proto::Block>) }
fn pool(n: u32, limits: bool, net: FarcasterNetwork) -> Pool {
    let (asks, mrx) = mpsc::channel(10);
    let (k1, rrx) = mpsc::channel(10);
    let (k2, srx) = broadcast::channel(10);
    let (k3, brx) = broadcast::channel(10);
    let (gtx, told) = mpsc::channel(256);
    let shards: Vec<_> = (1..=n).map(|i| shard(["", "m1", "m2", "m3"][i as usize], 3)).collect();
    let zero = block0("m0");
    let stores: HashMap<_, _> = shards.iter().enumerate().map(|(i, e)| (1 + i as u32, e.get_stores())).collect();
    let p = Mempool::new(Config { enable_rate_limits: limits, ..Config::default() }, net, mrx, rrx, n, stores, zero.stores(), gtx, srx, brx, statsd());
    Pool { p, told, shards, zero, _asks: asks, _keep: (k1, k2, k3) }
}
impl Pool {
    fn give(&mut self, m: &MempoolMessage, from: MempoolSource) -> Result<(), HubError> { wait(self.p.insert(m.clone(), from)) }
    fn user(&mut self, m: &proto::Message) -> Result<(), HubError> { self.give(&um(m), MempoolSource::RPC) }
    fn ask(&mut self, shard: u32, most: u32) -> Vec<MempoolMessage> {
        let (tx, rx) = oneshot::channel();
        wait(self.p.pull_messages(MempoolMessagesRequest { shard_id: shard, message_tx: tx, max_messages_per_block: most }));
        wait(rx).unwrap()
    }
    fn told(&mut self) -> Vec<MempoolMessage> {
        let mut v = vec![];
        while let Ok(e) = self.told.try_recv() { match e { GossipEvent::BroadcastMempoolMessage(m) => v.push(m), _ => check(false, "only messages are told") } }
        v
    }
    fn decide(&mut self, shard: u32, ms: Vec<MempoolMessage>) { self.p.remove_committed_txns(proto::Height { shard_index: shard, block_number: 1 }, &vec![txn(ms)]) }
}
fn txn(ms: Vec<MempoolMessage>) -> proto::Transaction {
    let mut t = proto::Transaction { fid: 9, account_root: vec![], system_messages: vec![], user_messages: vec![] };
    for m in ms {
        let (mut on_chain_event, mut fname_transfer, mut block_event) = (None, None, None);
        match m {
            MempoolMessage::UserMessage(m) => { t.user_messages.push(m); continue }
            MempoolMessage::OnchainEvent(e) | MempoolMessage::OnchainEventForMigration(e) => on_chain_event = Some(e),
            MempoolMessage::FnameTransfer(f) => fname_transfer = Some(f),
            MempoolMessage::BlockEvent { message, .. } => block_event = Some(message),
        }
        t.system_messages.push(proto::ValidatorMessage { on_chain_event, fname_transfer, block_event });
    }
    t
}
/// the tag a message was made with
fn tag(m: &MempoolMessage) -> u64 {
    match m {
        MempoolMessage::UserMessage(m) => m.signer[0] as u64,
        MempoolMessage::OnchainEvent(e) | MempoolMessage::OnchainEventForMigration(e) => e.version as u64,
        MempoolMessage::FnameTransfer(f) => f.proof.as_ref().unwrap().owner[0] as u64,
        MempoolMessage::BlockEvent { message, .. } => message.data.as_ref().unwrap().event_index,
    }
}
fn tags(v: &[MempoolMessage]) -> Vec<u64> { v.iter().map(tag).collect() }
/// kind 0 to 9: a user's message; 10: a chain event; 11: a name transfer; 12: a block event
fn make(kind: usize, i: usize, t: u32, hash: &[u8; 20]) -> MempoolMessage {
    match kind {
        10 => MempoolMessage::OnchainEvent(proto::OnChainEvent { version: i as u32, transaction_hash: hash.to_vec(), ..rent(9, 5, t as u64, 1) }),
        11 => MempoolMessage::FnameTransfer(proto::FnameTransfer { id: 40 + i as u64, from_fid: 0, proof: Some(proto::UserNameProof { timestamp: t as u64, name: b"ab".to_vec(), owner: vec![i as u8; 20], signature: vec![], fid: 9, r#type: 1 }) }),
        12 => MempoolMessage::BlockEvent { for_shard: 1, message: proto::BlockEvent { hash: hash.to_vec(), data: Some(proto::BlockEventData { seqnum: 60 + i as u64, r#type: 0, block_number: 3, event_index: i as u64, block_timestamp: t as u64, body: None }) } },
        k => { let mut m = sample(k, i, 9, t, hash); m.signer = vec![i as u8; 32]; um(&m) }
    }
}
fn status(i: usize, fid: u64, t: u32, hash: &[u8; 20]) -> proto::Message {
    let mut m = msg(fid, MessageType::UserDataAdd, t, hash, Body::UserDataBody(proto::UserDataBody { r#type: proto::UserDataType::LiveAt as i32, value: "1".into() }));
    m.signer = vec![i as u8; 32];
    m
}
fn bare(ty: MessageType, fid: u64, i: usize) -> proto::Message {
    let mut m = msg(fid, ty, T + 5, &[i as u8; 20], Body::CastRemoveBody(proto::CastRemoveBody { target_hash: vec![] }));
    m.signer = vec![i as u8; 32];
    m
}
fn keyadd(fid: u64, i: usize) -> proto::Message {
    let mut m = msg(fid, MessageType::KeyAdd, T + 5, &[i as u8; 20], Body::KeyAddBody(proto::KeyAddBody::default()));
    m.signer = vec![i as u8; 32];
    m
}
fn home(fid: u64, n: u32) -> u32 {
    use sha2::{Digest, Sha256};
    let d: [u8; 32] = Sha256::digest((fid as u32).to_be_bytes()).into();
    u32::from_be_bytes(d[..4].try_into().unwrap()) % n + 1
}
/// storage as the shard's database keeps it
fn has_storage(p: &Pool, s: usize, e: proto::OnChainEvent) {
    let st = p.shards[s].get_stores();
    let mut t = RocksDbTransactionBatch::new();
    st.onchain_event_store.merge_onchain_event(e, &mut t).unwrap();
    st.db.commit(t).unwrap();
}

entries! {
    fn c37_order() {
        // chain events, name transfers and shard 0's events before users' messages, older before newer, as many as asked for, each once
        let kinds: Vec<usize> = (0..3).map(|_| [0, 2, 10, 11, 12][choose("kind", 0, 4)]).collect();
        let most = choose("most", 0, 4);
        split((kinds[0] * 200 + kinds[1] * 15 + kinds[2]) as u64 * 5 + most as u64);
        clock();
        let h = hashes();
        let t: Vec<u32> = (0..3).map(|_| ts("t")).collect();
        let mut p = pool(1, false, FarcasterNetwork::Devnet);
        let ms: Vec<_> = (0..3).map(|i| make(kinds[i], i, t[i], &h[i])).collect();
        for m in &ms { check(p.give(m, MempoolSource::Gossip).is_ok(), "what is new is taken"); }
        let mut got = p.ask(1, most as u32);
        check(got.len() == most.min(3), "as many as asked for, while there are");
        got.extend(p.ask(1, 5));
        check(p.ask(1, 5).is_empty(), "each is offered once");
        let at = tags(&got);
        check(at.len() == 3, "all are offered");
        let mut seen = at.clone();
        seen.sort();
        check(seen == [0, 1, 2], "each is offered");
        for k in 0..2 {
            let (a, b) = (at[k] as usize, at[k + 1] as usize);
            let (ua, ub) = (kinds[a] < 10, kinds[b] < 10);
            check(!ua | ub, "validators' messages go before users'");
            if ua == ub {
                let (ta, tb) = if ua { (t[a], t[b]) } else { (t[a], t[b]) };
                check(ta <= tb, "older messages go before newer ones");
                if ua { check((ta < tb) | !later(&h[a], &h[b]), "messages of one time go by their hash"); }
            }
        }
        check(p.told().is_empty(), "what came by gossip is not told again");
        cover("in order");
    }
    fn c37_routes() {
        // each message waits at the shards it concerns, and nowhere else
        let n = choose("shards", 1, 3) as u32;
        let f = choose("user", 0, 6);
        let fid = [1u64, 2, 9, 10, 77, 1 << 31, u32::MAX as u64][f];
        let what = choose("what", 0, 24);
        split((what * 3 + n as usize) as u64 * 8 + f as u64);
        clock();
        let mut p = pool(n, false, FarcasterNetwork::Devnet);
        let here = home(fid, n);
        let all: Vec<u32> = (1..=n).collect();
        let (m, to): (MempoolMessage, Vec<u32>) = match what {
            20 => (MempoolMessage::OnchainEvent(rent(fid, 5, 1_700_000_000, 1)), vec![0, here]),
            21 => (MempoolMessage::OnchainEventForMigration(rent(fid, 5, 1_700_000_000, 1)), vec![0]),
            22 => (fname(3, fid, "ab"), all),
            23 => { let s = choose("for", 1, n as usize) as u32; let MempoolMessage::BlockEvent { message, .. } = make(12, 1, T, &[1; 20]) else { unreachable!() }; (MempoolMessage::BlockEvent { for_shard: s, message }, vec![s]) }
            24 => { // not for shard 0
                let MempoolMessage::BlockEvent { message, .. } = make(12, 1, T, &[1; 20]) else { unreachable!() };
                check(p.give(&MempoolMessage::BlockEvent { for_shard: 0, message }, MempoolSource::Local).is_err(), "shard 0's events are not for shard 0");
                for s in 0..=n { check(p.ask(s, 5).is_empty(), "nothing waits"); }
                cover("refused");
                return;
            }
            w => {
                let (ty, zero) = [(MessageType::CastAdd, false), (MessageType::CastRemove, false), (MessageType::ReactionAdd, false), (MessageType::ReactionRemove, false), (MessageType::LinkAdd, false), (MessageType::LinkRemove, false), (MessageType::LinkCompactState, false),
                    (MessageType::UserDataAdd, false), (MessageType::UsernameProof, false), (MessageType::FrameAction, false), (MessageType::VerificationAddEthAddress, true), (MessageType::VerificationRemove, true), (MessageType::LendStorage, true), (MessageType::KeyAdd, true), (MessageType::KeyRemove, true),
                    (MessageType::ChannelUpdate, true), (MessageType::ChannelMember, true), (MessageType::ChannelPin, true), (MessageType::ChannelModerate, true), (MessageType::CastAdd, false)][w];
                (um(&bare(ty, fid, 3)), vec![if zero { 0 } else { here }])
            }
        };
        let told = p.give(&m, MempoolSource::Local);
        check(told.is_ok(), "what is new is taken");
        for s in 0..=n {
            let got = p.ask(s, 5);
            check(got.len() == to.iter().filter(|x| **x == s).count(), "a message waits at the shards it concerns");
            check(got.iter().all(|g| tag(g) == tag(&m)), "it is the message that waits");
        }
        check(p.told().len() == (what < 20) as usize, "users' messages are told to other nodes, and only they");
        cover("routed");
    }
    fn c37_merged() {
        // what counts already is neither taken nor offered
        let kind = choose("kind", 0, 9);
        let when = choose("when", 0, 3);
        split(kind as u64 * 4 + when as u64);
        clock();
        let h = hashes();
        let (t, u) = (ts("t"), ts("u"));
        let name = if kind == 6 || kind == 7 { "m0" } else { "m1" };
        let mut p = pool(1, false, FarcasterNetwork::Devnet);
        let m = sample(kind, 1, 9, t, &h[0]);
        // the same subject at another time, by another hash, of another user
        let other = [sample(kind, 1, 9, t, &h[1]), sample(kind, 1, 10, t, &h[0])][choose("other", 0, 1)].clone();
        let late = sample(kind, 2, 9, u, &h[2]);
        if when == 1 { crate::store!(kind, name, s, { check(put(&s, &m).is_ok(), "it counts") }); }
        if when == 3 { crate::store!(kind, name, s, { check(put(&s, &other).is_ok(), "another counts"); check(put(&s, &late).is_ok(), "and one more") }); }
        let r = p.user(&m);
        check(r.is_ok() == (when != 1), "what counts already is refused, and nothing else");
        check(p.told().len() == (when != 1) as usize, "what is refused is not told");
        if when == 2 { crate::store!(kind, name, s, { check(put(&s, &m).is_ok(), "it counts") }); }
        let got = p.ask(if name == "m0" { 0 } else { 1 }, 5);
        check(got.len() == (when == 0 || when == 3) as usize, "what counts already is not offered");
        cover("told apart");
    }
    fn c37_twice() {
        // what waits already is refused, told once, and gone when decided or offered
        let kind = [0, 4, 8, 10, 11, 12][choose("kind", 0, 5)];
        let then = choose("then", 0, 3);
        let same_t = choose("at", 0, 1) == 0;
        split((kind * 4 + then) as u64 * 2 + same_t as u64);
        clock();
        let h = hashes();
        let (t, u) = (ts("t"), ts("u"));
        assume((t == u) == same_t);
        let mut p = pool(1, false, FarcasterNetwork::Devnet);
        let (a, b) = (make(kind, 1, t, &h[0]), make(kind, 2, u, &h[1]));
        check(p.give(&a, MempoolSource::Local).is_ok(), "the first is taken");
        check(p.give(&a, MempoolSource::Gossip).is_err(), "what waits is refused");
        check(p.give(&b, MempoolSource::RPC).is_ok(), "another is taken");
        check(p.told().len() == 2 * (kind < 10) as usize, "each is told once");
        let mut left = vec![1, 2];
        match then {
            0 => {}
            1 => { p.decide(1, vec![a.clone()]); left = vec![2] }
            2 => { p.decide(0, vec![a.clone()]); p.decide(2, vec![b.clone()]) } // other shards' blocks
            _ => { p.decide(1, vec![b.clone(), a.clone()]); left = vec![] }
        }
        // (a chain event always waits at one of its two shards still)
        check(p.give(&a, MempoolSource::Gossip).is_ok() == (!left.contains(&1) & (kind != 10)), "what waits is refused, what does not is taken");
        if !left.contains(&1) { left.push(1); }
        let mut got = tags(&p.ask(1, 5));
        got.sort();
        left.sort();
        check(got == left, "what waits is what was given and not decided");
        if kind == 10 { check(p.ask(0, 5).len() == 2, "a block takes messages from its own shard only"); }
        cover("each once");
    }
    fn c37_status() {
        // of a user's statuses the newest waits, whatever comes between
        let between = choose("between", 0, 3);
        split(between as u64);
        assume(clock() < 1_820_000_000);
        let h = hashes();
        let t: Vec<u32> = (0..3).map(|_| ts("t")).collect();
        let mut p = pool(1, false, FarcasterNetwork::Devnet);
        has_storage(&p, 0, rent(9, 5, 1_800_000_000, 1));
        has_storage(&p, 0, rent(10, 6, 1_800_000_000, 1));
        let s: Vec<_> = (0..3).map(|i| status(1 + i, 9, t[i], &h[i])).collect();
        let other = status(7, 10, T, &[9; 20]);
        let word = make(8, 8, T, &[8; 20]);
        let newer = |a: usize, b: usize| (t[a] > t[b]) | ((t[a] == t[b]) & later(&h[a], &h[b]));
        check(p.user(&s[0]).is_ok(), "the first is taken");
        check(p.user(&other).is_ok(), "another user's is taken");
        check(p.give(&word, MempoolSource::Local).is_ok(), "other data is taken");
        let up = conc_bool(newer(1, 0));
        check(p.user(&s[1]).is_ok() == up, "a newer one is taken, an older one refused");
        let mut now = Some(if up { 1 } else { 0 });
        match between {
            0 => {}
            1 => { let got = p.ask(1, 9); check(got.len() == 3, "one of each is offered"); now = None }
            2 => { p.decide(1, vec![um(&s[now.unwrap()])]); now = None }
            _ => { p.decide(1, vec![um(&s[1 - now.unwrap()])]) } // one that does not wait
        }
        let fits = match now { None => true, Some(k) => conc_bool(newer(2, k)) };
        check(p.user(&s[2]).is_ok() == fits, "a newer one is taken, an older one refused, any after the last was offered or decided");
        if fits { now = Some(2); }
        let mut got = tags(&p.ask(1, 9));
        got.sort();
        let mut want = if between == 1 { vec![] } else { vec![7, 8] };
        if let Some(k) = now { want.insert(0, k as u64 + 1); }
        check(got == want, "one status of each user waits, and all else");
        cover("newest");
    }
    fn c37_keys() {
        // a user's keys are added at one a minute at most, others' are not held up, and removals never
        let gap = choose("gap", 0, 1) == 1;
        split(gap as u64);
        let a = clock();
        let mut p = pool(1, false, FarcasterNetwork::Devnet);
        check(p.user(&keyadd(9, 1)).is_ok(), "the first is taken");
        check(p.user(&keyadd(10, 2)).is_ok(), "another user's is taken");
        for i in 0..3 { check(p.user(&bare(MessageType::KeyRemove, 9, 20 + i)).is_ok(), "removals are taken"); }
        if gap { tick(1); let b = clock(); assume((b - a < 59) | ((b - a > 61) & (b - a < 100))); let far = conc_bool(b - a > 61); check(p.user(&keyadd(9, 3)).is_ok() == far, "one a minute"); }
        else { check(p.user(&keyadd(9, 3)).is_err(), "one a minute"); }
        check(p.user(&bare(MessageType::KeyRemove, 9, 30)).is_ok(), "removals are taken");
        cover("limited");
    }
    fn c37_junk() {
        // what a peer sends, whatever it is, leaves the mempool working
        let case = choose("case", 0, 6);
        let reads = choose("node", 0, 1) == 1;
        let live = choose("live", 0, 1) == 1;
        split(case as u64 * 4 + reads as u64 * 2 + live as u64);
        clock();
        let mut p = pool(1, false, FarcasterNetwork::Devnet);
        let mut m = if live { status(3, 9, T, &[4; 20]) } else { cast(&S1, 9, T, "ab") };
        let mut bad = true;
        match case {
            0 => m.data = None,
            1 => m.hash = vec![],
            2 => { m.hash = any_vec("hash", 19) }
            3 => { m.hash = any_vec("hash", 21) }
            4 => { m.data = None; m.hash = vec![] }
            5 => { m.data.as_mut().unwrap().body = None; bad = false }
            _ => { m.data.as_mut().unwrap().r#type = any_i32("type"); bad = false }
        }
        if live && !reads { has_storage(&p, 0, rent(9, 5, 1_800_000_000, 1)); }
        if reads { check(reader(&p, &um(&m), MempoolSource::Gossip).0 == !bad, "junk is refused"); }
        else {
            let r = p.give(&um(&m), MempoolSource::Gossip);
            check(r.is_ok() | bad | (case == 6), "what can be looked at is taken");
            check(r.is_err() | !bad, "junk is refused");
        }
        check(p.user(&cast(&S1, 9, T + 7, "next")).is_ok(), "the next is taken");
        check(p.ask(1, 5).len() + p.ask(0, 5).len() >= 1, "and offered");
        cover("working");
    }
    fn c37_gates() {
        // what a network does not know yet is refused, and goes the old ways, up to its published day
        let net = any_net();
        let what = choose("what", 0, 7);
        split(what as u64 * 8 + net as u64);
        let now = clock();
        let mut p = pool(3, false, net);
        let (main, test) = (net == FarcasterNetwork::Mainnet, net == FarcasterNetwork::Testnet);
        let keys = if main { now >= 1_778_173_200 } else if test { now >= 1_777_406_400 } else { true };
        let names = if main { now >= 1_750_093_200 } else { true };
        let late = !main & !test; // shard 0's verifications and channels have no day yet
        let (m, ok, to) = match what {
            0..=3 => (um(&bare([MessageType::ChannelUpdate, MessageType::ChannelMember, MessageType::ChannelPin, MessageType::ChannelModerate][what], 9, 3)), late, vec![0]),
            4 => (um(&keyadd(9, 3)), keys, vec![0]),
            5 => (um(&bare(MessageType::KeyRemove, 9, 3)), keys, vec![0]),
            6 => (um(&bare(MessageType::VerificationAddEthAddress, 9, 3)), true, vec![if late { 0 } else { home(9, 3) }]),
            _ => (fname(3, 9, "ab"), true, if conc_bool(names) { vec![1, 2, 3] } else { vec![home(9, 3)] }),
        };
        check(p.give(&m, MempoolSource::RPC).is_ok() == ok, "taken from the published day on");
        let ok = conc_bool(ok);
        check(p.told().len() == (ok && what < 7) as usize, "what is refused is not told");
        for s in 0..=3 { check(p.ask(s, 5).len() == (ok && to.contains(&s)) as usize, "it waits where the day's rules say"); }
        cover("gated");
    }
    fn c37_events() {
        // shard 0's events wait until they count
        let when = choose("when", 0, 2);
        split(when as u64);
        clock();
        let (top, seq) = (any_u64("top"), any_u64("seq"));
        assume((top >= 128) & (top < 16384) & (seq >= 128) & (seq < 16384));
        let mut p = pool(2, false, FarcasterNetwork::Devnet);
        let ev = |n: u64| proto::BlockEvent { hash: vec![1; 20], data: Some(proto::BlockEventData { seqnum: n, r#type: 0, block_number: 3, event_index: 5, block_timestamp: 100, body: None }) };
        let m = MempoolMessage::BlockEvent { for_shard: 1, message: ev(seq) };
        if when == 1 { counts(&p, &ev(top)); }
        let fresh = seq > top;
        check(p.give(&m, MempoolSource::Local).is_ok() == ((when != 1) | fresh), "an event that counts already is refused");
        check(p.give(&MempoolMessage::BlockEvent { for_shard: 2, message: ev(seq) }, MempoolSource::Local).is_ok(), "the other shard has its own count");
        if when == 2 { counts(&p, &ev(top)); }
        check(p.ask(1, 5).is_empty() == ((when != 0) & !fresh), "an event that counts already is not offered");
        check(p.ask(2, 5).len() == 1, "the other shard has its own count");
        check(p.told().is_empty(), "events are not told");
        cover("counted");
    }
    fn c37_storage() {
        // who rents nothing is refused, who rents has a hundred messages an hour at least, anew when renting or lending more
        let case = choose("case", 0, 4);
        split(case as u64);
        let at = clock();
        assume(at < 1_820_000_000);
        let mut p = pool(1, true, FarcasterNetwork::Devnet);
        let rented = rent(9, 5, 1_800_000_000, 1);
        check(p.user(&cast(&S1, 9, T, "none")).is_err(), "no storage, no message");
        check(p.user(&status(3, 9, T, &[4; 20])).is_err(), "no storage, no status");
        check(p.give(&MempoolMessage::OnchainEvent(rented.clone()), MempoolSource::Local).is_ok() & p.give(&fname(0, 9, "ab"), MempoolSource::Local).is_ok(), "validators' messages are not limited");
        check(p.told().is_empty(), "what is refused is not told");
        has_storage(&p, 0, rented.clone());
        p.decide(1, vec![MempoolMessage::OnchainEvent(rented)]);
        check(p.user(&status(3, 9, T, &[4; 20])).is_ok(), "statuses have their own count");
        let word = |i: usize| { let mut h = [3; 20]; h[0] = i as u8; h[1] = 77; sample(0, 1, 9, T + 9, &h) };
        for i in 0..100 { check(p.user(&word(i)).is_ok(), "a hundred an hour"); }
        check(p.user(&word(100)).is_err(), "and no more");
        check(p.user(&status(4, 9, T + 50, &[5; 20])).is_ok(), "statuses have their own count");
        match case {
            0 => { tick(1); let b = clock(); assume((b - at < 35) | ((b - at > 37) & (b - at < 70))); let far = conc_bool(b - at > 37); check(p.user(&word(101)).is_ok() == far, "one more in 36 seconds"); }
            1 => { p.decide(1, vec![MempoolMessage::OnchainEvent(rent(9, 7, 1_800_000_000, 1))]); check(p.user(&word(101)).is_ok(), "anew after renting more"); }
            2 => { p.decide(0, vec![um(&lent(&S1, 9, 10, 1, T))]); check(p.user(&word(101)).is_ok(), "anew after lending"); }
            3 => { p.decide(0, vec![um(&lent(&S1, 10, 9, 1, T))]); check(p.user(&word(101)).is_ok(), "anew after being lent to"); }
            _ => { p.decide(1, vec![MempoolMessage::OnchainEvent(rent(10, 7, 1_800_000_000, 1)), MempoolMessage::OnchainEvent(register(9, 8))]); check(p.user(&word(101)).is_err(), "not after others rent"); }
        }
        cover("limited");
    }
    fn c37_reader() {
        // a node that only reads passes on what is new to any of its shards, and keeps nothing
        let kind = choose("kind", 0, 12);
        let merged = choose("merged", 0, 1) == 1;
        let from = choose("from", 0, 2);
        split((kind * 2 + merged as usize) as u64 * 3 + from as u64);
        clock();
        let h = hashes();
        let t = ts("t");
        let p = pool(1, false, FarcasterNetwork::Devnet);
        let m = make(kind, 1, t, &h[0]);
        let was = merged && kind < 10;
        if was { if let MempoolMessage::UserMessage(m) = &m { crate::store!(kind, if kind == 6 || kind == 7 { "m0" } else { "m1" }, s, { check(put(&s, m).is_ok(), "it counts") }); } }
        let (ok, told) = reader(&p, &m, [MempoolSource::RPC, MempoolSource::Local, MempoolSource::Gossip][from].clone());
        check(ok == !was, "what counts already is refused, and nothing else");
        check(told == (!was && kind < 10 && from != 2) as usize, "new messages of users are passed on, but for those from gossip");
        cover("passed on");
    }
}
fn counts(p: &Pool, e: &proto::BlockEvent) {
    let st = p.shards[0].get_stores();
    let mut t = RocksDbTransactionBatch::new();
    st.block_event_store.put_block_event(e, &mut t).unwrap();
    st.db.commit(t).unwrap();
}
/// hands a message to the mempool of a node that only reads: its answer, and how many it told on
fn reader(p: &Pool, m: &MempoolMessage, from: MempoolSource) -> (bool, usize) {
    let (tx, mrx) = mpsc::channel(10);
    let (gtx, mut told) = mpsc::channel(256);
    let stores: HashMap<_, _> = p.shards.iter().enumerate().map(|(i, e)| (1 + i as u32, e.get_stores())).collect();
    let mut r = ReadNodeMempool::new(mrx, 1, stores, p.zero.stores(), gtx, statsd(), FarcasterNetwork::Devnet);
    let (back, mut reply) = oneshot::channel();
    tx.try_send(MempoolRequest::AddMessage(m.clone(), from, Some(back))).unwrap();
    let mut f = Box::pin(r.run());
    let w = futures::task::noop_waker();
    let idle = std::future::Future::poll(f.as_mut(), &mut std::task::Context::from_waker(&w)).is_pending();
    check(idle, "it goes on");
    let mut n = 0;
    while told.try_recv().is_ok() { n += 1; }
    (matches!(reply.try_recv(), Ok(Ok(()))), n)
}
