//! bounds: every pair of name proofs with signatures of up to 3 arbitrary bytes; every pair of on-chain positions; every pair of live status messages with 20-byte hashes
use crate::{com::*, entries, vf::*};
use snapchain::proto::{self, MessageData, OnChainEvent, UserNameProof};
use snapchain::storage::store::account::onchain_event_store::*;
use snapchain::storage::store::account::user_data_store::UserDataStore;

fn proof() -> UserNameProof { UserNameProof { timestamp: any_u64("timestamp"), signature: any_vec_upto("signature", 0, 3), name: any_vec("name", 1), fid: any_u64("fid"), owner: any_vec("owner", 1), r#type: 1 } }
fn event() -> OnChainEvent { OnChainEvent { block_number: any_u32("block"), tx_index: any_u32("tx"), log_index: any_u32("log"), fid: any_u64("fid"), block_timestamp: any_u64("time"), ..Default::default() } }
fn owner(e: &OnChainEvent) -> ChannelOwner { ChannelOwner { block_number: e.block_number, tx_index: e.tx_index, log_index: e.log_index, ..Default::default() } }
fn at(e: &OnChainEvent) -> (u32, u32, u32) { (e.block_number, e.tx_index, e.log_index) }

entries! {
    fn c15_name_order() {
        let (a, b) = (proof(), proof());
        let c = UserDataStore::username_proof_compare(&a, &b);
        let want = if a.timestamp != b.timestamp { if a.timestamp < b.timestamp { -1 } else { 1 } } else { match a.signature.cmp(&b.signature) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 } };
        check(c == want, "the later proof of a name wins, the greater signature on a tie");
        check(UserDataStore::username_proof_compare(&b, &a) == -c, "two proofs agree on the winner whichever comes first");
        cover("compared");
    }
    fn c15_channel_order() {
        let (a, b) = (event(), event());
        let r = incoming_channel_event_is_older(&owner(&a), &b);
        check(r == (at(&b) < at(&a)), "a channel event is stale exactly when it is earlier in the chain");
        let mut o = owner(&a);
        o.channel_key = "k".into(); o.owner_address = vec![any_u8("owner")]; o.expiry = any_u64("expiry");
        let before = o.clone();
        set_channel_owner_event_position(&mut o, &b);
        check((o.block_number == b.block_number) & (o.tx_index == b.tx_index) & (o.log_index == b.log_index), "the record takes the event's place in the chain");
        check((o.expiry == before.expiry) && same(&o.owner_address, &before.owner_address) && o.channel_key == "k", "and nothing else");
        check(!incoming_channel_event_is_older(&o, &b), "an event is not older than itself");
        let body = proto::ChannelRegisterBody { channel_key: "c".into(), owner_address: vec![any_u8("new owner"), 7], expiry: any_u64("new expiry"), ..Default::default() };
        let n = channel_owner_from_event(&b, &body);
        check(n.channel_key == "c" && same(&n.owner_address, &body.owner_address) && (n.expiry == body.expiry) & (n.block_number == b.block_number) & (n.tx_index == b.tx_index) & (n.log_index == b.log_index), "a registration is recorded as it was");
        cover("event");
    }
    fn c15_live_order() {
        let m = |t: u32, h: Vec<u8>| proto::Message { data: Some(MessageData { timestamp: t, ..Default::default() }), hash: h, ..Default::default() };
        let (ta, tb, ha, hb) = (any_u32("ta"), any_u32("tb"), any_arr::<20>("ha"), any_arr::<20>("hb"));
        let (a, b) = (m(ta, ha.to_vec()), m(tb, hb.to_vec()));
        let want = if (ta, ha) < (tb, hb) { -1 } else if (ta, ha) > (tb, hb) { 1 } else { 0 };
        check(snapchain::mempool::mempool::live_at_lww_compare(&a, &b) == Some(want), "the later status wins, the greater hash on a tie");
        check(snapchain::mempool::mempool::live_at_lww_compare(&a, &m(tb, vec![1; 19])).is_none(), "without a hash there is no winner");
        cover("compared");
    }
}
