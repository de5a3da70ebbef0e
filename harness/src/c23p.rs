//! bounds: every page size, direction and token of up to 2 bytes; channel ids up to 40 bytes; names of up to 6 ASCII characters; every profile type; every time, ttl below 2^32 and last use below 2^40; up to two shards in every state
use crate::{com::*, entries, vf::*};
use snapchain::core::error::HubError;
use snapchain::network::server::*;
use snapchain::storage::store::account::GaslessKeyRecord;
use snapchain::proto::{self, message_data::Body, Message, MessageData, OnChainEvent, UserDataType};
use snapchain::storage::store::account::ChannelMemberState as S;
use tonic::Code;

fn msg(b: Option<Body>) -> Message { Message { data: Some(MessageData { body: b, timestamp: 5, ..Default::default() }), ..Default::default() } }
fn err(code: &str) -> HubError { HubError { code: code.into(), message: "m".into() } }

entries! {
    fn c23_channel_pages() {
        let size = if choose("has size", 0, 1) == 1 { Some(any_u32("size")) } else { None };
        let token = match choose("token", 0, 3) { 0 => None, n => Some(any_vec("token", n - 1)) };
        let rev = match choose("reverse", 0, 2) { 0 => None, n => Some(n == 2) };
        let o = channel_page_options(size, token.clone(), rev);
        let max = snapchain::storage::constants::PAGE_SIZE_MAX;
        check(o.page_size == Some(size.map_or(max, |s| (s as usize).min(max))), "a page is at most the largest page");
        check(o.reverse == rev.unwrap_or(false), "a page is in the direction requested");
        check(match (&o.page_token, &token) { (Some(a), Some(b)) => !b.is_empty() && same(a, b), (None, Some(b)) => b.is_empty(), (None, None) => true, _ => false }, "a page starts where requested");
        check(require_nonzero_page_size(size).is_err() == (size == Some(0)), "an empty page is refused, nothing else");
        let id = blob("channel", 40);
        let r = require_channel_id_width(&id);
        check(r.is_ok() == (id.len() == 32), "a channel id has 32 bytes");
        if let Ok(r) = r { check(same(&r, &id[..32]), "a channel id is as given"); cover("id"); }
    }
    fn c23_states() {
        let k = choose("state", 0, 4);
        let p = proto::ChannelMemberState::try_from(k as i32).unwrap();
        let want = [None, Some(S::Member), Some(S::Moderator), Some(S::Removed), Some(S::Banned)][match p { proto::ChannelMemberState::None => 0, proto::ChannelMemberState::Member => 1, proto::ChannelMemberState::Moderator => 2, proto::ChannelMemberState::Removed => 3, proto::ChannelMemberState::Banned => 4 }];
        let s = channel_member_state_from_proto(p);
        check(s == want, "a member state is read as named");
        if let Some(s) = s { check(channel_member_state_to_proto(s) == p, "a member state is reported as it is"); cover("state"); }
    }
    fn c23_errors() {
        let codes = ["bad_request.invalid_param", "bad_request.validation_failure", "bad_request", "bad_request.duplicate", "not_found", "unavailable", "db.internal_error", "", "xbad_request"];
        let k = choose("code", 0, codes.len() - 1);
        check((signer_store_error_to_status(err(codes[k])).code() == Code::InvalidArgument) == (k <= 3), "a bad request is the caller's fault");
        check((signer_store_error_to_status(err(codes[k])).code() == Code::Internal) == (k > 3), "other failures are the node's");
        check((channel_store_error_to_status(err(codes[k])).code() == Code::InvalidArgument) == (k == 0), "a bad parameter is the caller's fault");
        check((channel_store_error_to_status(err(codes[k])).code() == Code::Internal) == (k != 0), "what the node cannot read is the node's");
        use snapchain::storage::store::engine::MessageValidationError as E;
        check(simulate_error_to_hub_error(E::StoreError(err(codes[k]))).code == codes[k], "a store error keeps its code");
        check(simulate_error_to_hub_error(E::MissingSigner).code == "bad_request.validation_failure" && simulate_error_to_hub_error(E::NoMessageData).code == "bad_request.validation_failure", "a refused message is a bad request");
        cover("error");
    }
    fn c23_recovery() {
        let n = choose("length", 0, 6);
        let v = any_ascii("name", n);
        let t = any_i32("type");
        let r = username_for_fname_recovery(&msg(Some(Body::UserDataBody(proto::UserDataBody { r#type: t, value: v.clone() }))));
        let eth = n >= 4 && same(&v.as_bytes()[n - 4..], b".eth");
        check(r.is_some() == ((t == UserDataType::Username as i32) & (n > 0) & !eth), "exactly a username of the registry is looked up");
        if let Some(r) = r { check(same(r.as_bytes(), v.as_bytes()), "the name looked up is the one wanted"); cover("name"); } else { cover("none"); }
        check(username_for_fname_recovery(&msg(None)).is_none() && username_for_fname_recovery(&Message::default()).is_none() && username_for_fname_recovery(&msg(Some(Body::LinkBody(Default::default())))).is_none(), "other messages need no name");
    }
    fn c23_signers() {
        let (fid, t) = (any_u64("fid"), any_u64("block time"));
        let kt = any_u32("key type");
        let key = any_arr::<32>("key").to_vec();
        let e = OnChainEvent { fid, block_timestamp: t, body: Some(proto::on_chain_event::Body::SignerEventBody(proto::SignerEventBody { key: key.clone(), key_type: kt, ..Default::default() })), ..Default::default() };
        let s = signer_from_onchain_event(&e);
        check((s.fid == fid) & (s.key_type == kt) & (s.added_at == Some(t)) && same(&s.key, &key) && s.source == proto::SignerSource::Onchain as i32, "an on-chain key is reported as it is");
        check(s.expires_at.is_none() && s.ttl.is_none() && s.scopes.is_empty() && s.last_used_at.is_none(), "an on-chain key does not expire and has no scope");
        // gasless
        let (ts, ttl, nonce, rf) = (any_u32("added"), any_u32("ttl"), any_u32("nonce"), any_u64("request fid"));
        let used = any_u64("used");
        assume(used < 1 << 40);
        let has = choose("used once", 0, 1) == 1;
        let scopes = vec![any_i32("scope"), 3];
        let body = proto::KeyAddBody { key: vec![9], key_type: kt, ttl, nonce, scopes: scopes.clone(), ..Default::default() };
        let mut m = msg(Some(Body::KeyAddBody(body)));
        m.data.as_mut().unwrap().timestamp = ts;
        let r = GaslessKeyRecord { message: Some(m), request_fid: rf, ..Default::default() };
        let Some(s) = signer_from_gasless_record(&r, &key, fid, if has { Some(used) } else { None }) else { check(false, "a gasless key is reported"); return };
        let epoch = 1609459200u64;
        check((s.fid == fid) & (s.key_type == kt) & (s.added_at == Some(ts as u64 + epoch)) & (s.ttl == Some(ttl)) & (s.nonce == Some(nonce)) & (s.request_fid == Some(rf)) && same(&s.key, &key) && s.scopes == scopes && s.source == proto::SignerSource::Offchain as i32, "a gasless key is reported as it was added");
        check(s.last_used_at == if has { Some(used + epoch) } else { None }, "a key's last use is reported in unix time");
        let want = if has && conc_bool(ttl > 0) { Some(used + epoch + ttl as u64) } else { None };
        check(s.expires_at == want, "a key expires its time to live after its last use");
        check(signer_from_gasless_record(&GaslessKeyRecord::default(), &key, fid, None).is_none(), "an empty record is no key");
        if has { cover("used"); } else { cover("unused"); }
    }
    fn c23_cursors() {
        let n = choose("shards", 0, 2);
        let mut all_done = true;
        let mut v = vec![];
        let mut kinds = vec![];
        for i in 0..n {
            let k = choose("scan", 0, 2);
            all_done &= k == 2;
            kinds.push(k);
            v.push(ShardCursor { shard_id: i as u32 + 1, scan: match k { 0 => ShardScan::Fresh, 1 => ShardScan::Resume(vec![i as u8, 7]), _ => ShardScan::Exhausted } });
        }
        let r = encode_shard_cursors(v).unwrap();
        check(r.is_none() == all_done, "paging ends exactly when every shard is exhausted");
        if let Some(t) = r {
            let Ok(b) = serde_json::from_slice::<Vec<ShardCursor>>(&t) else { check(false, "a page token can be read"); return };
            check(b.len() == n, "a page token has every shard");
            for (i, c) in b.iter().enumerate() { check(c.shard_id == i as u32 + 1 && c.scan == match kinds[i] { 0 => ShardScan::Fresh, 1 => ShardScan::Resume(vec![i as u8, 7]), _ => ShardScan::Exhausted }, "a shard continues where it stopped"); }
            cover("token");
        } else { cover("end"); }
        for t in [&br#"[{"shard_id":1}]"#[..], br#"[{"shard_id":1,"scan":null}]"#, br#"[{"scan":"Fresh"}]"#, br#"[{"shard_id":1,"scan":"Fresh","x":1}]"#, br#"{}"#, b""] { check(serde_json::from_slice::<Vec<ShardCursor>>(t).is_err(), "a mangled page token is refused"); }
    }
}
