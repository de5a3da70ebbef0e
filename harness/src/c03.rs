//! bounds: bodiless message data with every type below 2^14, FID and timestamp below 2^32, network below 2^14; every tampering of hash, signature and signer bytes, with lengths around the right ones; every scheme value; every pair of message and block time; data sizes around every limit; every body kind in one valid and one invalid form; arbitrary data of up to 4 bytes
//! assume: Ed25519 signatures are unforgeable and blake3 is collision free on its first 20 bytes; block times are below 2^40
use crate::{com::*, entries, vf::*};
use snapchain::core::util::FarcasterTime;
use snapchain::core::validations::error::ValidationError;
use snapchain::core::validations::message::*;
use snapchain::proto::{self, message_data::Body, FarcasterNetwork, MessageData, MessageType};
use snapchain::version::version::*;

fn len_of(name: &str, v: &mut Vec<u8>, of: &[usize]) { let n = pick(name, of); v.resize(n, 0); }
fn base(body: Body) -> MessageData { MessageData { r#type: 1, fid: 7, timestamp: 100_000_000, network: 1, body: Some(body) } }
fn now() -> FarcasterTime { FarcasterTime::new(100_000_000) }

entries! {
    fn c03_tamper() {
        let d = data_bytes(any_u8("type"), any_u32("fid"), 5, 1);
        let mut m = envelope(d);
        m.hash_scheme = any_i32("hash scheme");
        m.signature_scheme = any_i32("signature scheme");
        let (dh, ds, dk) = (any_arr::<20>("hash delta"), any_arr::<64>("signature delta"), any_arr::<32>("signer delta"));
        xor(&mut m.hash, &dh); xor(&mut m.signature, &ds); xor(&mut m.signer, &dk);
        len_of("hash len", &mut m.hash, &[20, 0, 19, 21]);
        let (hl, mut sl, mut kl) = (m.hash.len(), 64, 32);
        if hl == 20 {
            len_of("signature len", &mut m.signature, &[64, 0, 63, 65]);
            len_of("signer len", &mut m.signer, &[32, 0, 31, 33, 64]);
            sl = m.signature.len(); kl = m.signer.len();
        }
        let ok = validate_message(&m, FarcasterNetwork::Mainnet, false, &FarcasterTime::new(10), EngineVersion::latest()).is_ok();
        let want = hl == 20 && sl == 64 && kl == 32 && (m.hash_scheme == 1) & (m.signature_scheme == 1) & zero(&dh) & zero(&ds) & zero(&dk);
        check(ok == want, "a message is accepted exactly when its hash is the data's and its signature is the signer's over that hash");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c03_other_data() {
        // the hash and signature of one message on another's data
        let (a, b) = (data_bytes(3, any_u32("fid"), any_u32("ts"), 1), data_bytes(3, any_u32("fid'"), any_u32("ts'"), 1));
        let eq = same(&a, &b);
        let mut m = envelope(a);
        m.data_bytes = Some(b);
        let ok = validate_message(&m, FarcasterNetwork::Mainnet, false, &FarcasterTime::new(1 << 33), any_version()).is_ok();
        check(ok == eq, "a signature is for one message only");
        if ok { cover("same"); } else { cover("other"); }
    }
    fn c03_context() {
        let (ts, net) = (any_u32("timestamp"), any_u8("network"));
        let cur = any_net();
        let m = envelope(data_bytes(any_u8("type"), any_u32("fid"), ts, net));
        let bt = any_u64("block time");
        assume(bt < 1 << 40);
        let v = any_version();
        let ok = validate_message(&m, cur, any_bool("pro"), &FarcasterTime::new(bt), v).is_ok();
        let net_ok = if cur == FarcasterNetwork::Mainnet { net == 1 } else { (net >= 1) & (net <= 3) };
        let early = if v.is_enabled(ProtocolFeature::FutureTimestampValidation) { ts as u64 <= bt + 600 } else { true };
        check(ok == (net_ok & early), "network and clock skew decide");
        check(validate_timestamp(ts, &FarcasterTime::new(bt), v).is_ok() == early, "timestamps up to ten minutes ahead");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c03_size() {
        let ty = pick("type", &[1, 14, 12, 5, 0]);
        let n = pick("size", &[2048, 2049, 16384, 16385, 65536, 65537]);
        let mut d = data_bytes(ty as u8, 7, 5, 1);
        let pad = n - d.len() - 5;
        d.extend([0xa2, 0x06]); varint(&mut d, pad as u64, 3);
        d.resize(n, 0);
        let (pro, v) = (any_bool("pro"), any_version());
        let limit = if !v.is_enabled(ProtocolFeature::MessageLengthCheckFix) { 2048 } else {
            match ty { 14 => 65536, 1 if pro => 16384, 12 if v.is_enabled(ProtocolFeature::IncreaseUsernameProofSizeLimit) => 16384, _ => 2048 }
        };
        let ok = validate_message(&envelope(d), FarcasterNetwork::Mainnet, pro, &FarcasterTime::new(10), v).is_ok();
        check(ok == (n <= limit), "the size limit depends on the type, pro status and version only");
        if ok && n == 65536 { cover("big compact state"); }
        if !ok && n == 2049 { cover("too big"); }
    }
    fn c03_raw() {
        let n = choose("length", 0, 4);
        let d = any_vec("data", n);
        let m = envelope(d.clone());
        use prost::Message;
        let r = validate_message(&m, any_net(), false, &FarcasterTime::new(1 << 33), EngineVersion::latest());
        match MessageData::decode(d.as_slice()) {
            Ok(x) => { if r.is_ok() { check(n > 0 && x.network >= 1 && x.network <= 3, "accepted data names a network"); cover("accepted"); } }
            Err(_) => { check(r.is_err(), "undecodable data is refused"); cover("undecodable"); }
        }
        let mut e = m.clone();
        e.data_bytes = None;
        check(validate_message(&e, any_net(), false, &FarcasterTime::new(1 << 33), EngineVersion::latest()).is_err(), "a message without data is refused");
    }
    fn c03_forms() {
        // structured data and its serialisation are judged alike
        let x = MessageData { r#type: choose("type", 1, 3) as i32, fid: any_u8("fid") as u64, timestamp: any_u8("ts") as u32, network: choose("network", 0, 4) as i32, body: None };
        let m = sealed(x);
        let mut b = m.clone();
        use prost::Message;
        b.data_bytes = Some(m.data.as_ref().unwrap().encode_to_vec());
        b.data = None;
        let (v, cur) = (any_version(), any_net());
        let t = any_u16("block time") as u64;
        let (p, q) = (validate_message(&m, cur, false, &FarcasterTime::new(t), v).is_ok(), validate_message(&b, cur, false, &FarcasterTime::new(t), v).is_ok());
        check(p == q, "both forms of the data are judged alike");
        if p { cover("accepted"); }
    }
    fn c03_both_forms() {
        // when both forms are there, the signed bytes are what is judged
        let (a, b) = ((any_u32("ts"), any_u8("network")), (any_u32("ts'"), any_u8("network'")));
        let mut m = envelope(data_bytes(3, 7, a.0, a.1));
        let cast = |g: bool| Some(Body::CastAddBody(proto::CastAddBody { text: if g { "x".into() } else { "".into() }, ..Default::default() }));
        let (free, v, bt, cur) = (conc_bool(any_bool("free")), any_version(), FarcasterTime::new(100_000_000), any_net());
        if free {
            let alone = validate_message(&m, cur, false, &bt, v).is_ok();
            m.data = Some(MessageData { r#type: 3, fid: 7, timestamp: b.0, network: b.1 as i32, body: None });
            check(validate_message(&m, cur, false, &bt, v).is_ok() == alone, "an unsigned copy of the data does not matter");
        } else {
            let (g, h) = (conc_bool(any_bool("good")), conc_bool(any_bool("good copy")));
            use prost::Message;
            let mut m = envelope(base(cast(g).unwrap()).encode_to_vec());
            m.data = Some(base(cast(h).unwrap()));
            check(validate_message(&m, cur, false, &bt, v).is_ok() == g, "an unsigned copy of the data does not matter");
            m.hash = blake3(&m.data.as_ref().unwrap().encode_to_vec())[..20].to_vec();
            m.signature = ed_sign(&S1, &m.hash).to_vec();
            check(validate_message(&m, cur, false, &bt, v).is_ok() == (g & h), "the hash is of the bytes");
        }
        cover("both");
    }
    fn c03_dispatch() {
        let good = any_bool("good");
        let g = conc_bool(good);
        let cid = |ok: bool| proto::CastId { fid: 1, hash: vec![1; if ok { 20 } else { 19 }] };
        let ch = vec![3u8; if g { 32 } else { 31 }];
        let body = match choose("kind", 0, 18) {
            0 => Body::CastAddBody(proto::CastAddBody { text: if g { "x".into() } else { "".into() }, ..Default::default() }),
            1 => Body::CastRemoveBody(proto::CastRemoveBody { target_hash: cid(g).hash }),
            2 => Body::ReactionBody(proto::ReactionBody { r#type: 1, target: Some(proto::reaction_body::Target::TargetCastId(cid(g))) }),
            3 => Body::VerificationRemoveBody(proto::VerificationRemoveBody { address: vec![1; if g { 20 } else { 21 }], protocol: 0 }),
            4 => Body::UserDataBody(proto::UserDataBody { r#type: 2, value: "x".repeat(if g { 32 } else { 33 }) }),
            5 => Body::LinkBody(proto::LinkBody { r#type: "follow".into(), display_timestamp: None, target: Some(proto::link_body::Target::TargetFid(if g { 1 } else { 0 })) }),
            6 => Body::UsernameProofBody(proto::UserNameProof { r#type: 2, name: if g { b"alice.eth".to_vec() } else { b"alice".to_vec() }, ..Default::default() }),
            7 => Body::FrameActionBody(proto::FrameActionBody { url: b"u".to_vec(), button_index: if g { 1 } else { 6 }, ..Default::default() }),
            8 => Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: "follow".into(), target_fids: if g { vec![1] } else { vec![1, 0] } }),
            9 => Body::LendStorageBody(proto::LendStorageBody { to_fid: 5, num_units: if g { 1 } else { 5001 }, unit_type: 1 }),
            10 => Body::KeyAddBody(proto::KeyAddBody { key: vec![1; 32], key_type: 1, deadline: 1, ttl: if g { 1 } else { 0 }, metadata: vec![1], metadata_type: 1, scopes: vec![1], ..Default::default() }),
            11 => Body::KeyRemoveBody(proto::KeyRemoveBody { key: vec![1; 32], signature_type: if g { 1 } else { 3 }, deadline: 1, ..Default::default() }),
            12 => Body::ChannelUpdateBody(proto::ChannelUpdateBody { channel_id: ch, ..Default::default() }),
            13 => Body::ChannelMemberBody(proto::ChannelMemberBody { channel_id: ch, fid: 1, action: 1 }),
            14 => Body::ChannelPinBody(proto::ChannelPinBody { channel_id: ch, cast_hash: vec![] }),
            15 => Body::ChannelModerateBody(proto::ChannelModerateBody { channel_id: ch, cast_hash: vec![1; 20], action: 1 }),
            16 => Body::VerificationAddAddressBody(proto::VerificationAddAddressBody { address: vec![1; 20], block_hash: vec![2; 32], claim_signature: vec![1; 10], verification_type: 1, chain_id: if g { 10 } else { 2 }, protocol: 0 }),
            17 => Body::UsernameProofBody(proto::UserNameProof { r#type: 3, name: if g { b"alice.base.eth".to_vec() } else { b"alice.eth".to_vec() }, ..Default::default() }),
            _ => Body::UsernameProofBody(proto::UserNameProof { r#type: if g { 2 } else { 1 }, name: b"alice.eth".to_vec(), ..Default::default() }),
        };
        let v = EngineVersion::latest();
        let mut m = sealed(base(body));
        check(validate_message(&m, FarcasterNetwork::Mainnet, false, &now(), v).is_ok() == g, "every kind of body is checked");
        if g { cover("valid"); } else { cover("invalid"); }
        m.hash[3] ^= 1;
        check(validate_message(&m, FarcasterNetwork::Mainnet, false, &now(), v).is_err(), "no kind of body escapes the hash check");
    }
}
