//! Stores over the in-memory database.
use crate::vf::*;
use snapchain::proto::{self, message_data::Body, HubEvent, MessageType};
use snapchain::core::error::HubError;
use snapchain::storage::db::*;
use snapchain::storage::store::account::*;
use snapchain::version::version::EngineVersion;
use std::sync::Arc;

pub fn db(name: &str) -> Arc<RocksDB> { let d = RocksDB::new(name); d.open().unwrap(); Arc::new(d) }
/// a Farcaster timestamp that takes four bytes as a varint (2021 to 2029)
pub fn ts(name: &str) -> u32 { let t = any_u32(name); assume((t >= 1 << 21) & (t < 1 << 28)); t }
pub fn msg(fid: u64, ty: MessageType, timestamp: u32, hash: &[u8], body: Body) -> proto::Message {
    proto::Message {
        data: Some(proto::MessageData { r#type: ty as i32, fid, timestamp, network: 1, body: Some(body) }),
        hash: hash.to_vec(), hash_scheme: 1, signature: vec![], signature_scheme: 1, signer: vec![5; 32], data_bytes: None,
    }
}
pub fn ctx() -> MergeContext { MergeContext { version: EngineVersion::latest() } }
pub fn put<T: StoreDef + Clone>(s: &Store<T>, m: &proto::Message) -> Result<HubEvent, HubError> {
    let mut txn = RocksDbTransactionBatch::new();
    let r = s.merge(m, &mut txn, &ctx());
    if r.is_ok() { s.db().commit(txn).unwrap(); }
    r
}
/// what a database holds, but for the event log
pub fn rows(name: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
    let d = ::rocksdb::disk(std::path::Path::new(name));
    let d = d.lock().unwrap();
    d.rows.iter().filter(|(k, _)| k[0] != snapchain::storage::constants::RootPrefix::HubEvents as u8).cloned().collect()
}
pub fn same_rows(a: &str, b: &str) -> bool {
    let (a, b) = (rows(a), rows(b));
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for i in 0..a.len() { ok &= same(&a[i].0, &b[i].0) & same(&a[i].1, &b[i].1); }
    ok
}
pub fn run<T: StoreDef + Clone>(s: &Store<T>, ms: &[&proto::Message]) { for m in ms { let _ = put(s, m); } }
/// the six orders of three
pub const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
pub fn hash_of(m: &proto::Message) -> [u8; 20] { m.hash[..].try_into().unwrap() }
pub fn ts_of(m: &proto::Message) -> u32 { m.data.as_ref().unwrap().timestamp }
pub fn type_of(m: &proto::Message) -> i32 { m.data.as_ref().unwrap().r#type }
/// different hashes, told apart by their first or last byte
pub fn hashes() -> [[u8; 20]; 3] {
    let mut h = [[0x55; 20]; 3];
    for i in 0..3 { let b: [u8; 2] = any_arr("hash ends"); h[i][0] = b[0]; h[i][19] = b[1]; }
    assume(!same(&h[0], &h[1]) & !same(&h[0], &h[2]) & !same(&h[1], &h[2]));
    h
}
pub fn later(a: &[u8], b: &[u8]) -> bool { num(a) > num(b) }
/// the two ends of a hash, as a number that orders like the hash
fn num(h: &[u8]) -> u16 { (h[0] as u16) << 8 | h[h.len() - 1] as u16 }
/// messages of every kind (one per subject i), as the stores keep them
pub fn sample(kind: usize, i: usize, fid: u64, t: u32, hash: &[u8]) -> proto::Message {
    let to = Some(proto::reaction_body::Target::TargetCastId(proto::CastId { fid: 3, hash: vec![i as u8; 20] }));
    let link = proto::LinkBody { r#type: "follow".into(), display_timestamp: None, target: Some(proto::link_body::Target::TargetFid(20 + i as u64)) };
    match kind {
        0 => msg(fid, MessageType::CastAdd, t, hash, Body::CastAddBody(proto::CastAddBody { text: "x".into(), mentions: vec![9, 10], mentions_positions: vec![0, 0], parent: Some(proto::cast_add_body::Parent::ParentUrl("p".into())), ..Default::default() })),
        1 => msg(fid, MessageType::CastRemove, t, hash, Body::CastRemoveBody(proto::CastRemoveBody { target_hash: vec![i as u8; 20] })),
        2 => msg(fid, MessageType::ReactionAdd, t, hash, Body::ReactionBody(proto::ReactionBody { r#type: 1, target: to })),
        3 => msg(fid, MessageType::ReactionRemove, t, hash, Body::ReactionBody(proto::ReactionBody { r#type: 1, target: to })),
        4 => msg(fid, MessageType::LinkAdd, t, hash, Body::LinkBody(link)),
        5 => msg(fid, MessageType::LinkRemove, t, hash, Body::LinkBody(link)),
        6 => msg(fid, MessageType::VerificationAddEthAddress, t, hash, Body::VerificationAddAddressBody(proto::VerificationAddAddressBody { address: vec![i as u8; 20], ..Default::default() })),
        7 => msg(fid, MessageType::VerificationRemove, t, hash, Body::VerificationRemoveBody(proto::VerificationRemoveBody { address: vec![i as u8; 20], ..Default::default() })),
        8 => msg(fid, MessageType::UserDataAdd, t, hash, Body::UserDataBody(proto::UserDataBody { r#type: 1 + i as i32, value: "v".into() })),
        _ => msg(fid, MessageType::UsernameProof, t, hash, Body::UsernameProofBody(proto::UserNameProof { timestamp: 1, name: vec![b'a' + i as u8; 3], owner: vec![1; 20], signature: vec![], fid, r#type: 2 })),
    }
}
#[macro_export]
macro_rules! store { ($kind:expr, $name:expr, $s:ident, $e:expr) => {{
    use snapchain::storage::store::account::*;
    let (d, h) = (db($name), StoreEventHandler::new());
    match $kind {
        0 | 1 => { let $s = CastStore::new(d, h, 100); $e }
        2 | 3 => { let $s = ReactionStore::new(d, h, 100, None); $e }
        4 | 5 => { let $s = LinkStore::new(d, h, 100); $e }
        6 | 7 => { let $s = VerificationStore::new(d, h, 100); $e }
        8 => { let $s = UserDataStore::new(d, h, 100); $e }
        _ => { let $s = UsernameProofStore::new(d, h, 100); $e }
    }
}} }
/// the result of something that waits for nothing but time
pub fn wait<F: std::future::Future>(f: F) -> F::Output {
    if !engine() { return tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f); }
    let mut f = Box::pin(f);
    let w = futures::task::noop_waker();
    match f.as_mut().poll(&mut std::task::Context::from_waker(&w)) { std::task::Poll::Ready(r) => r, _ => panic!("the call waits") }
}
