//! bounds: every time; on-chain positions of every log number below 256 and transaction hash of 2 arbitrary bytes; every transfer and block event number below 65536; message hashes of 3 arbitrary bytes; every user
use crate::{com::*, entries, vf::*};
use snapchain::core::util::FarcasterTime;
use snapchain::mempool::mempool::*;
use snapchain::proto::{self, block_event_data, BlockEvent, BlockEventData, FnameTransfer, Message, MessageData, OnChainEvent, UserNameProof};
use snapchain::storage::store::mempool_poller::MempoolMessage as M;

fn user(ts: u32, hash: Vec<u8>) -> M { M::UserMessage(Message { data: Some(MessageData { timestamp: ts, fid: any_u64("fid"), ..Default::default() }), hash, ..Default::default() }) }
fn event(t: u64, hash: &[u8], log: u32) -> OnChainEvent { OnChainEvent { block_timestamp: t, transaction_hash: hash.to_vec(), log_index: log, fid: any_u64("fid"), ..Default::default() } }
fn transfer(t: u64, id: u64) -> M { M::FnameTransfer(FnameTransfer { id, from_fid: any_u64("from"), proof: Some(UserNameProof { timestamp: t, fid: any_u64("fid"), ..Default::default() }) }) }
fn block_event(t: u64, seq: u64) -> M { M::BlockEvent { for_shard: any_u32("shard"), message: BlockEvent { hash: vec![any_u8("hash")], data: Some(BlockEventData { block_timestamp: t, seqnum: seq, ..Default::default() }) } } }
/// 0: user message, 1: chain event, 2: name transfer, 3: block event
fn any_message(k: usize, t: u64, n: u16, b: [u8; 2]) -> M {
    match k { 0 => user(t as u32, vec![b[0], b[1], n as u8]), 1 => M::OnchainEvent(event(t, &b, n as u8 as u32)), 2 => transfer(t, n as u64), _ => block_event(t, n as u64) }
}
fn unix(k: usize, t: u64) -> u64 { if k == 0 { FarcasterTime::new(t as u32 as u64).to_unix_seconds() } else { t } }

entries! {
    fn c22_order() {
        flag("fmt", 1);
        let (i, j) = (choose("kind", 0, 3), choose("other kind", 0, 3));
        let (t, u) = (any_u64("time"), any_u64("other time"));
        let (a, b) = (any_message(i, t, 7, [1, 2]).mempool_key(), any_message(j, u, 8, [3, 4]).mempool_key());
        let (x, y) = (unix(i, t), unix(j, u));
        check(a.timestamp == x && b.timestamp == y, "a pending message keeps its time in seconds");
        let (va, vb) = (i != 0, j != 0);
        if va != vb { check((a < b) == va, "chain events, names and block events go before user messages"); cover("kinds"); }
        else if conc_bool(x != y) { check((a < b) == (x < y), "older messages go first"); cover("times"); }
        else { check(a != b, "different messages are both kept"); cover("same time"); }
    }
    fn c22_identity() {
        flag("fmt", 1);
        let k = choose("kind", 0, 3);
        let t = any_u64("time");
        let (m, n) = (any_u16("number"), any_u16("other number"));
        let (p, q) = (any_arr::<2>("hash"), any_arr::<2>("other hash"));
        let (a, b) = (any_message(k, t, m, p).mempool_key(), any_message(k, t, n, q).mempool_key());
        let eq = match k { 0 | 1 => same(&p, &q) & (m as u8 == n as u8), _ => m == n };
        check((a == b) == eq, "two pending messages are one exactly when they are the same entry");
        check(same(a.clone().identity().as_bytes(), a.identity.as_bytes()), "a pending message is known by its identity");
        if eq { cover("same"); } else { cover("different"); }
    }
    fn c22_fid() {
        let f = any_u64("fid");
        let e = |f| OnChainEvent { fid: f, ..Default::default() };
        let msg = |f| Message { data: Some(MessageData { fid: f, ..Default::default() }), ..Default::default() };
        let be = |b| M::BlockEvent { for_shard: 3, message: BlockEvent { hash: vec![], data: Some(BlockEventData { body: b, ..Default::default() }) } };
        check(M::UserMessage(msg(f)).fid() == f && M::OnchainEvent(e(f)).fid() == f && M::OnchainEventForMigration(e(f)).fid() == f, "a pending message is its user's");
        check(M::FnameTransfer(FnameTransfer { id: 1, from_fid: any_u64("from"), proof: Some(UserNameProof { fid: f, ..Default::default() }) }).fid() == f, "a name transfer is its receiver's");
        check(be(Some(block_event_data::Body::MergeMessageEventBody(proto::MergeMessageEventBody { message: Some(msg(f)) }))).fid() == f, "a block event is its message's user's");
        check(be(Some(block_event_data::Body::MergeOnChainEventEventBody(proto::MergeOnChainEventEventBody { on_chain_event: Some(e(f)) }))).fid() == f, "a block event is its chain event's user's");
        check(be(Some(block_event_data::Body::MergeOnChainEventEventBody(proto::MergeOnChainEventEventBody { on_chain_event: None }))).fid() == 0 && be(Some(block_event_data::Body::HeartbeatEventBody(Default::default()))).fid() == 0 && be(None).fid() == 0, "other block events are nobody's");
        check(M::UserMessage(Message::default()).fid() == 0, "a message without data is nobody's");
        cover("fid");
    }
}
