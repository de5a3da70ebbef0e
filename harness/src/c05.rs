//! bounds: every value of every integer and enum field of the frame, storage-lend and channel bodies; channel ids and cast hashes with lengths around the right ones; frame fields with every length up to twice their limit; every engine version; block times from 600 s up to 2^32; username proofs of every type with names from pieces
//! assume: the messages are otherwise valid and correctly signed
use crate::{com::*, entries, vf::*};
use snapchain::core::util::FarcasterTime;
use snapchain::core::validations::message::*;
use snapchain::proto::{self, message_data::Body, FarcasterNetwork, MessageData};
use snapchain::version::version::*;

fn accepted(f: u32, body: W, ts: u32, now: u64, v: EngineVersion) -> bool {
    validate_message(&with_body(1, 7, ts, 1, f, body), FarcasterNetwork::Mainnet, false, &FarcasterTime::new(now), v).is_ok()
}
const T: u32 = 100_000_000;
fn ch(ok: &mut bool) -> Vec<u8> { let n = pick("channel id length", &[32, 0, 31, 33, 20]); *ok &= n == 32; vec![3; n] }

entries! {
    fn c05_frame_message() {
        let n = pick("url length", &[0, 1, 1024, 1025]);
        let k = any_u32("button");
        let b = W::new().bytes(1, &vec![b'u'; n]).int(2, k as u64);
        check(accepted(16, b, T, T as u64, any_version()) == (n >= 1 && n <= 1024 && k <= 5), "a frame action message");
        cover("frame");
    }
    fn c05_lend() {
        let (ts, now) = (any_u32("timestamp"), any_u64("block time"));
        assume((now >= 600) & (now < 1 << 32));
        let v = any_version();
        let b = proto::LendStorageBody { to_fid: any_u64("to"), num_units: any_u64("units"), unit_type: any_i32("unit type") };
        let fresh = (ts as u64 + 600 >= now) & (if v.is_enabled(ProtocolFeature::FutureTimestampValidation) { ts as u64 <= now + 600 } else { true });
        let want = fresh & (b.num_units <= 5000) & (b.unit_type >= 0) & (b.unit_type <= 2);
        let ok = accepted(18, W::new().int(1, b.to_fid).int(2, b.num_units).enumv(3, b.unit_type), ts, now, v);
        check(ok == want, "a storage lend is at most ten minutes old, of at most 5000 units of a known type");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c05_channel_update() {
        let v = any_version();
        let mut want = v.is_enabled(ProtocolFeature::ChannelMessages);
        let mut b = W::new().bytes(1, &ch(&mut want));
        if any_bool("casting") { let m = any_i32("casting mode"); want &= (m >= 0) & (m <= 3); b = b.enumv(7, m); }
        if any_bool("membership") { let m = any_i32("membership mode"); want &= (m >= 0) & (m <= 2); b = b.enumv(8, m); }
        if any_bool("name") { b = b.bytes(2, b"n"); }
        let ok = accepted(21, b, T, T as u64, v);
        check(ok == want, "a channel update");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c05_channel_member() {
        let v = any_version();
        let mut want = v.is_enabled(ProtocolFeature::ChannelMessages);
        let b = proto::ChannelMemberBody { channel_id: ch(&mut want), fid: any_u64("fid"), action: any_i32("action") };
        want &= (b.fid >= 1) & (b.fid <= u32::MAX as u64) & (b.action >= 1) & (b.action <= 6);
        let ok = accepted(22, W::new().bytes(1, &b.channel_id).int(2, b.fid).enumv(3, b.action), T, T as u64, v);
        check(ok == want, "a channel member action names a user that fits on disk and a known action");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c05_channel_pin() {
        let v = any_version();
        let mut want = v.is_enabled(ProtocolFeature::ChannelMessages);
        let id = ch(&mut want);
        let n = choose("cast hash length", 0, 33);
        want &= n == 0 || n == 20;
        let ok = accepted(23, W::new().bytes(1, &id).bytes(2, &vec![1; n]), T, T as u64, v);
        check(ok == want, "a channel pin");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c05_channel_moderate() {
        let v = any_version();
        let mut want = v.is_enabled(ProtocolFeature::ChannelMessages);
        let id = ch(&mut want);
        let n = pick("cast hash length", &[0, 19, 20, 21, 32]);
        let a = any_i32("action");
        want &= n == 20 && (a >= 1) & (a <= 2);
        let ok = accepted(24, W::new().bytes(1, &id).bytes(2, &vec![1; n]).enumv(3, a), T, T as u64, v);
        check(ok == want, "a channel moderation");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c05_username_proof() {
        let v = any_version();
        let ty = any_i32("type");
        let k = choose("name", 0, 5);
        let name: Vec<u8> = [&b"alice.eth"[..], b"alice.base.eth", b"alice", b"a.alice.eth", b"\xff.eth", b""][k].to_vec();
        let want = match ty {
            2 => !v.is_enabled(ProtocolFeature::EnsValidation) || k == 0,
            3 => v.is_enabled(ProtocolFeature::Basenames) && k == 1,
            _ => false,
        };
        let ok = accepted(15, W::new().bytes(2, &name).enumv(6, ty), T, T as u64, v);
        check(ok == want, "username proofs are for ENS and Base names, each from its version on");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
}
