//! Shared generators.
use crate::vf::*;
use snapchain::core::util::FarcasterTime;
use snapchain::proto::{self, FarcasterNetwork};
use snapchain::version::version::*;

pub fn any_net() -> FarcasterNetwork { match choose("network", 0, 3) { 0 => FarcasterNetwork::None, 1 => FarcasterNetwork::Mainnet, 2 => FarcasterNetwork::Testnet, _ => FarcasterNetwork::Devnet } }
/// every engine version, as one symbolic value
pub fn any_version() -> EngineVersion {
    let n = any_u8("version");
    assume(n <= EngineVersion::latest() as u8);
    // the discriminants are 0..=latest (checked here, for every value in range)
    use strum::IntoEnumIterator;
    for (i, v) in EngineVersion::iter().enumerate() { assert!(v as usize == i); }
    unsafe { std::mem::transmute::<u8, EngineVersion>(n) }
}
/// a string with a symbolic length up to max; its bytes are all b'a'
pub fn text(name: &str, max: usize) -> String {
    let mut v = vec![b'a'; max.max(1)];
    let n = any_u32(name) as usize;
    assume(n <= max);
    unsafe { v.set_len(n); String::from_utf8_unchecked(v) }
}
/// bytes with a symbolic length up to max
pub fn blob(name: &str, max: usize) -> Vec<u8> {
    let mut v = any_vec(name, max.max(1));
    let n = any_u32(name) as usize;
    assume(n <= max);
    unsafe { v.set_len(n); }
    v
}
/// bytes with a symbolic length up to max, contents all 7
pub fn filler(name: &str, max: usize) -> Vec<u8> { text(name, max).into_bytes() }
pub fn any_cast_id() -> proto::CastId { proto::CastId { fid: any_u64("cast fid"), hash: filler("cast hash len", 40) } }
pub fn cast_id_ok(c: &proto::CastId) -> bool { (c.fid != 0) & (c.hash.len() == 20) }
pub fn url_ok(u: &str) -> bool { (u.len() >= 1) & (u.len() <= 256) }
pub const S1: [u8; 32] = [1; 32];
pub const S2: [u8; 32] = [2; 32];
/// a protobuf varint padded to exactly n bytes
pub fn varint(out: &mut Vec<u8>, v: u64, n: usize) {
    for i in 0..n { let b = ((v >> (7 * i)) & 0x7f) as u8; out.push(if i + 1 < n { b | 0x80 } else { b }); }
}
/// MessageData with no body, every field in a fixed number of bytes
pub fn data_bytes(ty: u8, fid: u32, ts: u32, net: u8) -> Vec<u8> {
    let mut v = vec![8]; varint(&mut v, ty as u64, 2);
    v.push(0x10); varint(&mut v, fid as u64, 5);
    v.push(0x18); varint(&mut v, ts as u64, 5);
    v.push(0x20); varint(&mut v, net as u64, 2);
    v
}
/// hashed and signed by the key S1
pub fn envelope(data_bytes: Vec<u8>) -> proto::Message {
    let hash = blake3(&data_bytes)[..20].to_vec();
    let signature = ed_sign(&S1, &hash).to_vec();
    proto::Message { data: None, hash, hash_scheme: 1, signature, signature_scheme: 1, signer: ed_public(&S1).to_vec(), data_bytes: Some(data_bytes) }
}
/// the same with the data in structured form only
pub fn sealed(data: proto::MessageData) -> proto::Message {
    use prost::Message;
    let mut m = envelope(data.encode_to_vec());
    m.data_bytes = None;
    m.data = Some(data);
    m
}
pub fn xor(a: &mut [u8], d: &[u8]) { for i in 0..a.len() { a[i] ^= d[i]; } }
pub fn zero(d: &[u8]) -> bool { let mut x = 0; for b in d { x |= *b; } x == 0 }

/// a protobuf message written field by field, every integer in ten bytes
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W { W(vec![]) }
    fn tag(&mut self, f: u32, w: u32) { let k = f << 3 | w; if k < 128 { self.0.push(k as u8); } else { self.0.push(k as u8 | 0x80); self.0.push((k >> 7) as u8); } }
    pub fn int(mut self, f: u32, v: u64) -> W { self.tag(f, 0); varint(&mut self.0, v, 10); self }
    pub fn enumv(self, f: u32, v: i32) -> W { self.int(f, v as i64 as u64) }
    pub fn bytes(mut self, f: u32, b: &[u8]) -> W { self.tag(f, 2); varint(&mut self.0, b.len() as u64, 3); self.0.extend_from_slice(b); self }
}
/// data with a body in field f, hashed and signed by S1
pub fn with_body(ty: u8, fid: u32, ts: u32, net: u8, f: u32, body: W) -> proto::Message {
    let d = W(data_bytes(ty, fid, ts, net)).bytes(f, &body.0);
    envelope(d.0)
}
