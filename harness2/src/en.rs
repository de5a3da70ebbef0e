//! Shard engines over the in-memory database.
use crate::{com::*, st::*, vf::*};
use snapchain::core::util::FarcasterTime;
use snapchain::mempool::mempool::MempoolMessagesRequest;
use snapchain::proto::{self, message_data::Body, on_chain_event::Body as OB, FarcasterNetwork, MessageType, OnChainEvent, OnChainEventType as OT};
use snapchain::storage::store::engine::*;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::stores::{Limits, StoreLimits};
use snapchain::storage::trie::merkle_trie::MerkleTrie;

pub fn statsd() -> snapchain::utils::statsd_wrapper::StatsdClientWrapper {
    snapchain::utils::statsd_wrapper::StatsdClientWrapper::new(cadence::StatsdClient::builder("", cadence::NopMetricSink {}).build(), false)
}
pub fn limits(n: u32) -> Limits { Limits { casts: n, links: n, reactions: n, user_data: n, user_name_proofs: n, verifications: n, storage_lends: n } }
/// node b meets the entries of its hash maps in another order than the others
fn on<R>(other: bool, f: impl FnOnce() -> R) -> R { map_order(other as u64); let r = f(); map_order(0); r }
fn is_b(e: &ShardEngine) -> bool { e.db.location().ends_with('b') }
/// a data shard whose storage units hold n messages per store
pub fn shard(name: &str, n: u32) -> ShardEngine {
    on(name.ends_with('b'), || wait(ShardEngine::new(db(name), FarcasterNetwork::Devnet, MerkleTrie::new().unwrap(), 1, StoreLimits::new(limits(n), limits(n), limits(n)), statsd(), 256, None, None, None)).unwrap())
}
/// any clock between 2025 and 2028
pub fn clock() -> u64 { let n = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs(); assume((n >= 1_750_000_000) & (n < 1_850_000_000)); n }
pub fn chain_event(ty: OT, fid: u64, block: u32, at: u64, body: OB) -> OnChainEvent {
    OnChainEvent { r#type: ty as i32, chain_id: 10, block_number: block, block_hash: vec![1], block_timestamp: at, transaction_hash: vec![block as u8; 4], log_index: 1, fid, tx_index: 0, version: 0, body: Some(body) }
}
pub fn rent(fid: u64, block: u32, at: u64, n: u32) -> OnChainEvent { chain_event(OT::EventTypeStorageRent, fid, block, at, OB::StorageRentEventBody(proto::StorageRentEventBody { payer: vec![1], units: n, expiry: 1 })) }
pub fn register(fid: u64, block: u32) -> OnChainEvent { chain_event(OT::EventTypeIdRegister, fid, block, 1_700_000_000, OB::IdRegisterEventBody(proto::IdRegisterEventBody { to: vec![fid as u8; 20], event_type: 1, from: vec![], recovery_address: vec![] })) }
pub fn key(fid: u64, block: u32, seed: &[u8; 32], add: bool) -> OnChainEvent {
    chain_event(OT::EventTypeSigner, fid, block, 1_700_000_000, OB::SignerEventBody(proto::SignerEventBody { key: ed_public(seed).to_vec(), key_type: 1, event_type: if add { 1 } else { 2 }, metadata: vec![], metadata_type: 1 }))
}
/// the events that make a user able to write
pub fn user(fid: u64, block: u32, seed: &[u8; 32], rented: u64, units: u32) -> Vec<MempoolMessage> {
    vec![rent(fid, block, rented, units), register(fid, block + 1), key(fid, block + 2, seed, true)].into_iter().map(MempoolMessage::OnchainEvent).collect()
}
pub fn signed(seed: &[u8; 32], fid: u64, t: u32, ty: MessageType, body: Body) -> proto::Message {
    use prost::Message;
    let data = proto::MessageData { r#type: ty as i32, fid, timestamp: t, network: FarcasterNetwork::Devnet as i32, body: Some(body) };
    let bytes = data.encode_to_vec();
    let hash = blake3(&bytes)[..20].to_vec();
    proto::Message { signature: ed_sign(seed, &hash).to_vec(), signer: ed_public(seed).to_vec(), data: Some(data), hash, hash_scheme: 1, signature_scheme: 1, data_bytes: None }
}
pub fn cast(seed: &[u8; 32], fid: u64, t: u32, text: &str) -> proto::Message { signed(seed, fid, t, MessageType::CastAdd, Body::CastAddBody(proto::CastAddBody { text: text.into(), ..Default::default() })) }
pub fn chunk(height: u64, c: &ShardStateChange) -> proto::ShardChunk {
    proto::ShardChunk {
        header: Some(proto::ShardHeader { height: Some(proto::Height { shard_index: 1, block_number: height }), timestamp: c.timestamp.to_u64(), parent_hash: vec![], shard_root: c.new_state_root.clone() }),
        hash: vec![7; 32], transactions: c.transactions.clone(), commits: None,
    }
}
pub fn propose(e: &mut ShardEngine, height: u64, ms: Vec<MempoolMessage>, at: &FarcasterTime) -> ShardStateChange {
    on(is_b(e), || {
        e.start_round(proto::Height { shard_index: 1, block_number: height }, informalsystems_malachitebft_core_types::Round::new(0));
        e.propose_state_change(1, ms, Some(at.clone()))
    })
}
pub fn validate(e: &mut ShardEngine, height: u64, c: &ShardStateChange) -> bool {
    let h = proto::Height { shard_index: 1, block_number: height };
    on(is_b(e), || {
        e.start_round(h, informalsystems_malachitebft_core_types::Round::new(0));
        e.validate_state_change(c, h)
    })
}
pub fn commit(e: &mut ShardEngine, height: u64, c: &ShardStateChange) { on(is_b(e), || wait(e.commit_shard_chunk(&chunk(height, c)))) }
pub fn root(e: &ShardEngine) -> Vec<u8> { on(is_b(e), || e.get_stores().trie.root_hash().unwrap()) }
pub const T: u32 = 150_000_000;
/// all a node holds: the rows of two nodes are the same; of the events that confirm a block (whose counts by type are written in no particular order) what they say is
pub fn same_all(a: &str, b: &str) -> bool {
    let (a, b) = (all_rows(a), all_rows(b));
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for i in 0..a.len() {
        if !conc_bool(same(&a[i].0, &b[i].0)) { return false; }
        if a[i].0[0] == snapchain::storage::constants::RootPrefix::HubEvents as u8 {
            let (x, y) = (event(&a[i].1), event(&b[i].1));
            ok &= (x.r#type == y.r#type) & (x.id == y.id);
            if let (Some(snapchain::proto::hub_event::Body::BlockConfirmedBody(p)), Some(snapchain::proto::hub_event::Body::BlockConfirmedBody(q))) = (&x.body, &y.body) {
                ok &= (p.block_number == q.block_number) & (p.timestamp == q.timestamp) & (p.total_events == q.total_events) & (p.max_block_event_seqnum == q.max_block_event_seqnum) & (p.event_counts_by_type.len() == q.event_counts_by_type.len());
                for (t, n) in &p.event_counts_by_type { ok &= q.event_counts_by_type.get(t) == Some(n); }
                continue;
            }
        }
        // a trie node's children are written in no particular order
        if a[i].0[0] == snapchain::storage::constants::RootPrefix::MerkleTrieNode as u8 {
            let (x, y) = (node(&a[i].1), node(&b[i].1));
            ok &= same(&x.key, &y.key) & (x.items == y.items) & (x.child_hashes.len() == y.child_hashes.len()) & (x.child_chars.len() == y.child_chars.len());
            for (c, h) in &x.child_hashes { ok &= y.child_hashes.get(c).is_some_and(|k| same(h, k)); }
            for c in &x.child_chars { ok &= y.child_chars.contains(c); }
            continue;
        }
        ok &= same(&a[i].1, &b[i].1);
    }
    ok
}
pub fn node(b: &[u8]) -> proto::DbTrieNode { use prost::Message; proto::DbTrieNode::decode(b).unwrap() }
pub fn event(b: &[u8]) -> proto::HubEvent { use prost::Message; proto::HubEvent::decode(b).unwrap() }
pub fn all_rows(name: &str) -> Vec<(Vec<u8>, Vec<u8>)> { let d = ::rocksdb::disk(std::path::Path::new(name)); let d = d.lock().unwrap(); d.rows.clone() }
pub fn um(m: &proto::Message) -> MempoolMessage { MempoolMessage::UserMessage(m.clone()) }
pub fn fname(from: u64, to: u64, name: &str) -> MempoolMessage {
    MempoolMessage::FnameTransfer(proto::FnameTransfer { id: 1, from_fid: from, proof: Some(proto::UserNameProof { timestamp: 1_700_000_000, name: name.into(), owner: vec![3; 20], signature: vec![4; 65], fid: to, r#type: 1 }) })
}
pub fn block_event(seq: u64, body: proto::block_event_data::Body) -> MempoolMessage {
    use prost::Message;
    let data = proto::BlockEventData { seqnum: seq, r#type: 0, block_number: 3, event_index: seq, block_timestamp: T as u64 + 100, body: Some(body) };
    let hash = blake3(&data.encode_to_vec()).to_vec();
    MempoolMessage::BlockEvent { for_shard: 1, message: proto::BlockEvent { hash, data: Some(data) } }
}
pub fn shard0(seq: u64, m: proto::Message) -> MempoolMessage { block_event(seq, proto::block_event_data::Body::MergeMessageEventBody(proto::MergeMessageEventBody { message: Some(m) })) }
pub fn verification(t: u32, add: bool) -> proto::Message {
    if add { signed(&S1, 9, t, MessageType::VerificationAddEthAddress, Body::VerificationAddAddressBody(proto::VerificationAddAddressBody { address: eth_addr(&S1).to_vec(), ..Default::default() })) }
    else { signed(&S1, 9, t, MessageType::VerificationRemove, Body::VerificationRemoveBody(proto::VerificationRemoveBody { address: eth_addr(&S1).to_vec(), protocol: 0 })) }
}
pub fn lend(t: u32, units: u64) -> proto::Message { signed(&S1, 9, t, MessageType::LendStorage, Body::LendStorageBody(proto::LendStorageBody { to_fid: 10, num_units: units, unit_type: 2 })) }
// shard 0
use snapchain::storage::store::block_engine::*;
fn b0(e: &BlockEngine) -> bool { e.stores().db.location().ends_with('b') }
pub fn block0(name: &str) -> BlockEngine { on(name.ends_with('b'), || BlockEngine::new(MerkleTrie::new().unwrap(), statsd(), db(name), 256, None, FarcasterNetwork::Devnet)) }
pub fn height0(h: u64) -> proto::Height { proto::Height { shard_index: 0, block_number: h } }
pub fn propose0(e: &mut BlockEngine, h: u64, ms: Vec<MempoolMessage>, at: u64) -> BlockStateChange { on(b0(e), || e.propose_state_change(ms, height0(h), Some(FarcasterTime::new(at)))) }
pub fn validate0(e: &mut BlockEngine, h: u64, c: &BlockStateChange) -> bool { on(b0(e), || e.validate_state_change(c, height0(h))) }
pub fn commit0(e: &mut BlockEngine, h: u64, c: &BlockStateChange) {
    let b = proto::Block {
        header: Some(proto::BlockHeader { height: Some(height0(h)), timestamp: c.timestamp.to_u64(), version: 1, chain_id: 3, shard_witnesses_hash: vec![], parent_hash: vec![], state_root: c.new_state_root.clone(), events_hash: c.events_hash.clone() }),
        hash: vec![8; 32], shard_witness: Some(proto::ShardWitness { shard_chunk_witnesses: vec![] }), commits: None, transactions: c.transactions.clone(), events: c.events.clone(),
    };
    on(b0(e), || e.commit_block(&b));
}
pub fn root0(e: &BlockEngine) -> Vec<u8> { on(b0(e), || e.trie_root_hash()) }
/// the EIP-712 hash of a claim of an address, written out
pub fn claim_hash(addr: &[u8], block: &[u8; 32], fid: u64, net: i32) -> [u8; 32] {
    let k = |b: &[u8]| alloy_primitives::keccak256(b).0;
    let word = |v: u64| { let mut w = [0u8; 32]; w[24..].copy_from_slice(&v.to_be_bytes()); w };
    let salt = hex::decode("f2d857f4a3edcb9b78b4d503bfe733db1e3f6cdc2b7971ee739626c97e86a558").unwrap();
    let mut d = vec![];
    d.extend(k(b"EIP712Domain(string name,string version,bytes32 salt)"));
    d.extend(k(b"Farcaster Verify Ethereum Address")); d.extend(k(b"2.0.0")); d.extend(salt);
    let domain = k(&d);
    let mut s = vec![];
    s.extend(k(b"VerificationClaim(uint256 fid,address address,bytes32 blockHash,uint8 network)"));
    s.extend(word(fid)); s.extend([0; 12]); s.extend(addr); s.extend(block); s.extend(word(net as u64));
    let st = k(&s);
    let mut m = vec![0x19, 1]; m.extend(domain); m.extend(st);
    k(&m)
}
/// a user's claim of the address of a seed, signed by a key of the user's
pub fn claim(signer: &[u8; 32], fid: u64, of: &[u8; 32], t: u32) -> proto::Message {
    let a = eth_addr(of);
    let sig = eth_sign(of, &claim_hash(&a, &[9; 32], fid, 3));
    signed(signer, fid, t, MessageType::VerificationAddEthAddress, Body::VerificationAddAddressBody(proto::VerificationAddAddressBody { address: a.to_vec(), claim_signature: sig.to_vec(), block_hash: vec![9; 32], verification_type: 0, chain_id: 0, protocol: 0 }))
}
pub fn unclaim(signer: &[u8; 32], fid: u64, of: &[u8; 32], t: u32) -> proto::Message {
    signed(signer, fid, t, MessageType::VerificationRemove, Body::VerificationRemoveBody(proto::VerificationRemoveBody { address: eth_addr(of).to_vec(), protocol: 0 }))
}
pub fn lent(signer: &[u8; 32], fid: u64, to: u64, units: u64, t: u32) -> proto::Message { signed(signer, fid, t, MessageType::LendStorage, Body::LendStorageBody(proto::LendStorageBody { to_fid: to, num_units: units, unit_type: 2 })) }
// channels
pub fn label(name: &str) -> Vec<u8> { alloy_primitives::keccak256(name.as_bytes()).to_vec() }
pub fn channel(block: u32, kind: i32, name: &str, owner: &[u8; 20]) -> OnChainEvent {
    chain_event(OT::EventTypeChannelRegister, 0, block, 1_700_000_000, OB::ChannelRegisterEventBody(proto::ChannelRegisterBody { channel_key: if kind == 3 { String::new() } else { name.into() }, expiry: 5, owner_address: owner.to_vec(), event_type: kind, label: label(name) }))
}
pub fn member(signer: &[u8; 32], fid: u64, action: i32, who: u64, t: u32) -> proto::Message { signed(signer, fid, t, MessageType::ChannelMember, Body::ChannelMemberBody(proto::ChannelMemberBody { channel_id: label("ab"), fid: who, action })) }
pub fn update(signer: &[u8; 32], fid: u64, mode: i32, t: u32) -> proto::Message { signed(signer, fid, t, MessageType::ChannelUpdate, Body::ChannelUpdateBody(proto::ChannelUpdateBody { channel_id: label("ab"), membership_mode: Some(mode), ..Default::default() })) }
pub fn pin(signer: &[u8; 32], fid: u64, hash: &[u8], t: u32) -> proto::Message { signed(signer, fid, t, MessageType::ChannelPin, Body::ChannelPinBody(proto::ChannelPinBody { channel_id: label("ab"), cast_hash: hash.to_vec() })) }
pub fn moderate(signer: &[u8; 32], fid: u64, hash: &[u8], action: i32, t: u32) -> proto::Message { signed(signer, fid, t, MessageType::ChannelModerate, Body::ChannelModerateBody(proto::ChannelModerateBody { channel_id: label("ab"), cast_hash: hash.to_vec(), action })) }
