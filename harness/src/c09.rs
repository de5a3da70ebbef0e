//! bounds: every FID, every pair of FIDs; every shard count up to 2^32-1; every message type and version; message hashes of 20 bytes; transaction hashes of 32 bytes; names of up to 20 bytes
//! assume: sha256 is a function (uninterpreted on symbolic input)
use crate::{com::*, entries, vf::*};
use snapchain::mempool::routing::*;
use snapchain::proto::{self, hub_event, message_data::Body, MessageData};
use snapchain::storage::trie::merkle_trie::TrieKey;
use snapchain::version::version::*;
use sha2::{Digest, Sha256};

fn msg(ty: i32, fid: u64, hash: Vec<u8>) -> proto::Message { proto::Message { data: Some(MessageData { r#type: ty, fid, ..Default::default() }), hash, ..Default::default() } }

entries! {
    fn c09_route_fid() {
        let f = any_u64("fid");
        let n = any_u32("shards");
        assume(n >= 1);
        let s = ShardRouter {}.route_fid(f, n);
        check((s >= 1) & (s <= n), "a user lives on one of the data shards");
        let h = Sha256::digest((f as u32).to_be_bytes());
        check(s == u32::from_be_bytes([h[0], h[1], h[2], h[3]]) % n + 1, "the shard is the published function of the user");
        check(TrieKey::fid_shard(f) == h[3], "the trie's virtual shard is the published function of the user");
        cover("routed");
    }
    fn c09_message() {
        let n = any_u32("shards");
        assume(n >= 1);
        let (f, ty) = (any_u64("fid"), any_i32("type"));
        let v = any_version();
        let r: Box<dyn MessageRouter> = Box::new(ShardRouter {});
        let s = route_message(&r, &msg(ty, f, vec![]), n, v);
        let zero = (ty == 15) | ((ty >= 16) & (ty <= 21)) | (((ty == 7) | (ty == 8)) & v.is_enabled(ProtocolFeature::VerificationsOnShardZero));
        let home = ShardRouter {}.route_fid(f, n);
        check(s == if zero { 0 } else { home }, "shared state goes to shard 0, everything else to its user's shard");
        check(s <= n, "no message goes to a shard that does not exist");
        if zero { cover("shard 0"); } else { cover("data shard"); }
    }
    fn c09_content() {
        // routing sees the user, the type and the version only
        let n = any_u32("shards");
        assume(n >= 1);
        let (f, ty) = (any_u64("fid"), any_i32("type"));
        let v = any_version();
        let r: Box<dyn MessageRouter> = Box::new(ShardRouter {});
        let a = route_message(&r, &msg(ty, f, vec![]), n, v);
        let mut m = msg(ty, f, any_arr::<20>("hash").to_vec());
        m.signer = any_arr::<32>("signer").to_vec();
        m.hash_scheme = any_i32("scheme");
        let d = m.data.as_mut().unwrap();
        d.timestamp = any_u32("timestamp"); d.network = any_i32("network");
        d.body = match choose("body", 0, 3) {
            0 => None,
            1 => Some(Body::LendStorageBody(proto::LendStorageBody { to_fid: any_u64("to"), num_units: 1, unit_type: 1 })),
            2 => Some(Body::CastAddBody(proto::CastAddBody::default())),
            _ => Some(Body::ChannelMemberBody(proto::ChannelMemberBody { channel_id: vec![1; 32], fid: any_u64("member"), action: 1 })),
        };
        check(route_message(&r, &m, n, v) == a, "copies of a message agree on its shard");
        check(route_message(&r, &proto::Message::default(), n, v) == ShardRouter {}.route_fid(0, n), "a message without data is nobody's");
        cover("content");
    }
}
