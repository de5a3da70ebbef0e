//! bounds: every message body, on-chain body and hub event kind; every value of every number field; byte fields and texts of 2 arbitrary bytes, one more or fewer list element; every enum value the protocol defines
use crate::{com::*, entries, vf::*};
use snapchain::network::http_server as j;
use snapchain::proto::{self, hub_event::Body as EB, message_data::Body, on_chain_event::Body as OB};

fn b2(n: &str) -> Vec<u8> { any_vec(n, 2) }
fn t2(n: &str) -> String { any_ascii(n, 2) }
fn hex(b: &[u8]) -> String { let mut v = b"0x".to_vec(); for x in b { for d in [x >> 4, x & 15] { v.push(if d < 10 { b'0' + d } else { b'a' + d - 10 }); } } unsafe { String::from_utf8_unchecked(v) } }
fn eq(a: &str, b: &str) -> bool { same(a.as_bytes(), b.as_bytes()) }
fn eqo(a: &Option<String>, b: &Option<String>) -> bool { match (a, b) { (Some(a), Some(b)) => eq(a, b), (None, None) => true, _ => false } }
fn eqs(a: &[u64], b: &[u64]) -> bool { a.len() == b.len() && { let mut r = true; for i in 0..a.len() { r &= a[i] == b[i]; } r } }
fn opt<T>(n: &str, v: T) -> Option<T> { if choose(n, 0, 1) == 1 { Some(v) } else { None } }
const TYPES: [(i32, &str); 20] = [(0, "MESSAGE_TYPE_NONE"), (1, "MESSAGE_TYPE_CAST_ADD"), (2, "MESSAGE_TYPE_CAST_REMOVE"), (3, "MESSAGE_TYPE_REACTION_ADD"), (4, "MESSAGE_TYPE_REACTION_REMOVE"), (5, "MESSAGE_TYPE_LINK_ADD"), (6, "MESSAGE_TYPE_LINK_REMOVE"), (7, "MESSAGE_TYPE_VERIFICATION_ADD_ETH_ADDRESS"), (8, "MESSAGE_TYPE_VERIFICATION_REMOVE"), (11, "MESSAGE_TYPE_USER_DATA_ADD"), (12, "MESSAGE_TYPE_USERNAME_PROOF"), (13, "MESSAGE_TYPE_FRAME_ACTION"), (14, "MESSAGE_TYPE_LINK_COMPACT_STATE"), (15, "MESSAGE_TYPE_LEND_STORAGE"), (16, "MESSAGE_TYPE_KEY_ADD"), (17, "MESSAGE_TYPE_KEY_REMOVE"), (18, "MESSAGE_TYPE_CHANNEL_UPDATE"), (19, "MESSAGE_TYPE_CHANNEL_MEMBER"), (20, "MESSAGE_TYPE_CHANNEL_PIN"), (21, "MESSAGE_TYPE_CHANNEL_MODERATE")];
fn type_name(t: i32) -> &'static str { TYPES.iter().find(|x| x.0 == t).unwrap().1 }
const NETS: [&str; 4] = ["FARCASTER_NETWORK_NONE", "FARCASTER_NETWORK_MAINNET", "FARCASTER_NETWORK_TESTNET", "FARCASTER_NETWORK_DEVNET"];
fn cast_id() -> proto::CastId { proto::CastId { fid: any_u64("cast fid"), hash: b2("cast hash") } }
fn is_cast(a: &Option<j::CastId>, b: &proto::CastId) -> bool { a.as_ref().is_some_and(|a| (a.fid == b.fid) & eq(&a.hash, &hex(&b.hash))) }
fn msg(t: i32, net: i32, body: Body) -> proto::Message {
    proto::Message { data: Some(proto::MessageData { r#type: t, fid: any_u64("fid"), timestamp: any_u32("timestamp"), network: net, body: Some(body) }), hash: b2("hash"), hash_scheme: 1, signature: b2("signature"), signature_scheme: 1, signer: b2("signer"), data_bytes: None }
}
/// the message as an event reports it
fn shown(m: &proto::Message) -> j::Message {
    let e = proto::HubEvent { r#type: 2, id: 1, body: Some(EB::PruneMessageBody(proto::PruneMessageBody { message: Some(m.clone()) })), ..Default::default() };
    j::map_proto_hub_event_to_json_hub_event(e).ok().unwrap().prune_message_body.unwrap().message
}
/// envelope and header, and which bodies are there
fn is(r: &j::Message, m: &proto::Message) -> bool {
    let d = m.data.as_ref().unwrap();
    eq(&r.hash, &hex(&m.hash)) & eq(&r.signer, &hex(&m.signer)) & same(&r.signature, &m.signature) & (r.data.fid == d.fid) & (r.data.timestamp == d.timestamp) & (r.data.message_type == type_name(d.r#type)) & (r.data.network == NETS[d.network as usize])
}
fn only(d: &j::MessageData, k: usize) -> bool {
    [d.cast_add_body.is_some(), d.cast_remove_body.is_some(), d.reaction_body.is_some(), d.verification_add_address_body.is_some(), d.verification_remove_body.is_some(), d.user_data_body.is_some(), d.link_body.is_some(), d.username_proof_body.is_some(), d.frame_action_body.is_some(), d.link_compact_state_body.is_some(), d.lend_storage_body.is_some(), d.key_add_body.is_some(), d.key_remove_body.is_some(), d.channel_update_body.is_some(), d.channel_member_body.is_some(), d.channel_pin_body.is_some(), d.channel_moderate_body.is_some()].iter().enumerate().all(|(i, x)| *x == (i == k))
}
fn chain_event(t: i32, body: Option<OB>) -> proto::OnChainEvent {
    proto::OnChainEvent { r#type: t, chain_id: any_u32("chain"), block_number: any_u32("number"), block_hash: b2("block hash"), block_timestamp: any_u64("time"), transaction_hash: b2("tx"), log_index: any_u32("log"), fid: any_u64("fid"), body, tx_index: any_u32("tx index"), version: any_u32("version") }
}
fn shown_event(e: &proto::OnChainEvent) -> j::OnChainEvent {
    let h = proto::HubEvent { r#type: 9, body: Some(EB::MergeOnChainEventBody(proto::MergeOnChainEventBody { on_chain_event: Some(e.clone()) })), ..Default::default() };
    j::map_proto_hub_event_to_json_hub_event(h).ok().unwrap().merge_on_chain_event_body.unwrap().on_chain_event
}
fn proof() -> (proto::UserNameProof, usize) {
    let t = choose("name type", 0, 3);
    (proto::UserNameProof { timestamp: any_u64("proof time"), name: t2("name").into_bytes(), owner: b2("owner"), signature: b2("proof signature"), fid: any_u64("proof fid"), r#type: t as i32 }, t)
}
fn is_proof(r: &j::UsernameProofBody, p: &(proto::UserNameProof, usize)) -> bool {
    (r.timestamp == p.0.timestamp) & same(r.name.as_bytes(), &p.0.name) & eq(&r.owner, &hex(&p.0.owner)) & same(&r.signature, &p.0.signature) & (r.fid == p.0.fid) & (r.username_proof_type == ["USERNAME_TYPE_NONE", "USERNAME_TYPE_FNAME", "USERNAME_TYPE_ENS_L1", "USERNAME_TYPE_BASENAME"][p.1])
}

entries! {
    fn c24_envelope() {
        flag("fmt", 1);
        let t = choose("type", 0, TYPES.len() - 1);
        let mut m = msg(TYPES[t].0, if t == 1 { choose("network", 0, 3) as i32 } else { 1 }, Body::CastRemoveBody(proto::CastRemoveBody { target_hash: b2("target") }));
        if t == 2 { m.hash_scheme = choose("hash scheme", 0, 1) as i32; m.signature_scheme = choose("signature scheme", 0, 2) as i32; }
        let r = shown(&m);
        check(is(&r, &m) & only(&r.data, 1), "a message is reported with its own header and body");
        check(r.hash_scheme == ["HASH_SCHEME_NONE", "HASH_SCHEME_BLAKE3"][m.hash_scheme as usize], "the hash scheme is reported");
        check(r.signature_scheme == ["SIGNATURE_SCHEME_NONE", "SIGNATURE_SCHEME_ED25519", "SIGNATURE_SCHEME_EIP712"][m.signature_scheme as usize], "the signature scheme is reported");
        let Some(Body::CastRemoveBody(b)) = m.data.unwrap().body else { return };
        check(same(&r.data.cast_remove_body.unwrap().target_hash, &b.target_hash), "a removal names its cast");
        cover("envelope");
    }
    fn c24_casts() {
        flag("fmt", 1);
        let ct = choose("cast type", 0, 2);
        let (url, cid) = (t2("url"), cast_id());
        let p = choose("parent", 0, 2);
        let e = choose("embeds", 0, 2);
        let ec = cast_id();
        let mut embeds = vec![];
        if e >= 1 { embeds.push(proto::Embed { embed: Some(proto::embed::Embed::Url(url.clone())) }); }
        if e >= 2 { embeds.push(proto::Embed { embed: Some(proto::embed::Embed::CastId(ec.clone())) }); }
        let b = proto::CastAddBody { embeds_deprecated: if e == 1 { vec![t2("old embed")] } else { vec![] }, mentions: (0..e).map(|_| any_u64("mention")).collect(), mentions_positions: (0..e).map(|_| any_u32("position")).collect(), text: t2("text"), embeds, r#type: ct as i32,
            parent: match p { 0 => None, 1 => Some(proto::cast_add_body::Parent::ParentCastId(cid.clone())), _ => Some(proto::cast_add_body::Parent::ParentUrl(url.clone())) } };
        let m = msg(1, 1, Body::CastAddBody(b.clone()));
        let r = shown(&m);
        check(is(&r, &m) & only(&r.data, 0), "a message is reported with its own header and body");
        let c = r.data.cast_add_body.unwrap();
        check(eq(&c.text, &b.text) & eqs(&c.mentions, &b.mentions) & (c.mentions_positions == b.mentions_positions) & (c.cast_type == ["CAST", "LONG_CAST", "TEN_K_CAST"][ct]), "a cast is reported as written");
        check(match p { 0 => c.parent_cast_id.is_none() & c.parent_url.is_none(), 1 => is_cast(&c.parent_cast_id, &cid) & c.parent_url.is_none(), _ => c.parent_cast_id.is_none() & eqo(&c.parent_url, &Some(url.clone())) }, "a reply names its parent");
        check(c.embeds.len() == e && (e < 1 || matches!(&c.embeds[0], j::EmbedUrlOrCastId::Url(u) if eq(&u.url, &url))) && (e < 2 || matches!(&c.embeds[1], j::EmbedUrlOrCastId::CastId(x) if (x.cast_id.fid == ec.fid) & eq(&x.cast_id.hash, &hex(&ec.hash)))), "embeds are reported in order");
        check(c.embeds_deprecated.len() == b.embeds_deprecated.len() && (e != 1 || eq(&c.embeds_deprecated[0], &b.embeds_deprecated[0])), "old embeds are reported");
        cover("cast");
    }
    fn c24_social() {
        flag("fmt", 1);
        let add = choose("add", 0, 1) as i32;
        match choose("kind", 0, 3) {
            0 => {
                let t = choose("reaction", 0, 2);
                let (url, cid) = (t2("url"), cast_id());
                let k = choose("target", 0, 2);
                let m = msg(4 - add, 2, Body::ReactionBody(proto::ReactionBody { r#type: t as i32, target: match k { 0 => None, 1 => Some(proto::reaction_body::Target::TargetCastId(cid.clone())), _ => Some(proto::reaction_body::Target::TargetUrl(url.clone())) } }));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 2), "a message is reported with its own header and body");
                let b = r.data.reaction_body.unwrap();
                check(b.reaction_type == ["REACTION_TYPE_NONE", "REACTION_TYPE_LIKE", "REACTION_TYPE_RECAST"][t], "a reaction has its type");
                check(match k { 0 => b.target_cast_id.is_none() & b.target_url.is_none(), 1 => is_cast(&b.target_cast_id, &cid) & b.target_url.is_none(), _ => b.target_cast_id.is_none() & eqo(&b.target_url, &Some(url)) }, "a reaction names its target");
                cover("reaction");
            }
            1 => {
                let (t, f, at) = (t2("link type"), any_u64("target"), opt("shown at", any_u32("shown")));
                let m = msg(6 - add, 3, Body::LinkBody(proto::LinkBody { r#type: t.clone(), display_timestamp: at, target: Some(proto::link_body::Target::TargetFid(f)) }));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 6), "a message is reported with its own header and body");
                let b = r.data.link_body.unwrap();
                check(eq(&b.link_type, &t) & (b.target_fid == f) & (b.display_timestamp == at), "a link is reported as made");
                cover("link");
            }
            2 => {
                let (t, n) = (t2("link type"), choose("targets", 0, 2));
                let f: Vec<u64> = (0..n).map(|_| any_u64("target")).collect();
                let m = msg(14, 0, Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: t.clone(), target_fids: f.clone() }));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 9), "a message is reported with its own header and body");
                let b = r.data.link_compact_state_body.unwrap();
                check(eq(&b.link_compact_type, &t) & eqs(&b.target_fids, &f), "a compacted link list is reported whole");
                cover("compact");
            }
            _ => {
                let t = choose("data type", 0, 13);
                const N: [(i32, &str); 14] = [(0, "USER_DATA_TYPE_NONE"), (1, "USER_DATA_TYPE_PFP"), (2, "USER_DATA_TYPE_DISPLAY"), (3, "USER_DATA_TYPE_BIO"), (5, "USER_DATA_TYPE_URL"), (6, "USER_DATA_TYPE_USERNAME"), (7, "USER_DATA_TYPE_LOCATION"), (8, "USER_DATA_TYPE_TWITTER"), (9, "USER_DATA_TYPE_GITHUB"), (10, "USER_DATA_TYPE_BANNER"), (11, "USER_DATA_PRIMARY_ADDRESS_ETHEREUM"), (12, "USER_DATA_PRIMARY_ADDRESS_SOLANA"), (13, "USER_DATA_TYPE_PROFILE_TOKEN"), (14, "USER_DATA_TYPE_LIVE_AT")];
                let v = t2("value");
                let m = msg(11, 1, Body::UserDataBody(proto::UserDataBody { r#type: N[t].0, value: v.clone() }));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 5), "a message is reported with its own header and body");
                let b = r.data.user_data_body.unwrap();
                check((b.user_data_type == N[t].1) & eq(&b.value, &v), "a profile value is reported as set");
                cover("profile");
            }
        }
    }
    fn c24_identity() {
        flag("fmt", 1);
        let pr = choose("protocol", 0, 1);
        let enc = |v: &[u8]| if pr == 0 { hex(v) } else { bs58::encode(v).into_string() };
        let small = || vec![any_u8("address")];
        match choose("kind", 0, 2) {
            0 => {
                let b = proto::VerificationAddAddressBody { address: small(), claim_signature: b2("claim"), block_hash: small(), verification_type: any_u32("type"), chain_id: any_u32("chain"), protocol: pr as i32 };
                let m = msg(7, 1, Body::VerificationAddAddressBody(b.clone()));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 3), "a message is reported with its own header and body");
                let v = r.data.verification_add_address_body.unwrap();
                check(eq(&v.address, &enc(&b.address)) & eq(&v.block_hash, &enc(&b.block_hash)) & same(&v.claim_signature, &b.claim_signature) & (v.verification_type == b.verification_type) & (v.chain_id == b.chain_id) & (v.protocol == ["PROTOCOL_ETHEREUM", "PROTOCOL_SOLANA"][pr]), "a verification is reported as claimed");
                cover("add");
            }
            1 => {
                let b = proto::VerificationRemoveBody { address: small(), protocol: pr as i32 };
                let m = msg(8, 1, Body::VerificationRemoveBody(b.clone()));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 4), "a message is reported with its own header and body");
                let v = r.data.verification_remove_body.unwrap();
                check(eq(&v.address, &enc(&b.address)) & (v.protocol == ["PROTOCOL_ETHEREUM", "PROTOCOL_SOLANA"][pr]), "a removal names its address");
                cover("remove");
            }
            _ => {
                let p = proof();
                let m = msg(12, 1, Body::UsernameProofBody(p.0.clone()));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 7), "a message is reported with its own header and body");
                check(is_proof(&r.data.username_proof_body.unwrap(), &p), "a name proof is reported as given");
                cover("proof");
            }
        }
    }
    fn c24_actions() {
        flag("fmt", 1);
        match choose("kind", 0, 3) {
            0 => {
                let c = opt("has cast", cast_id());
                let b = proto::FrameActionBody { url: b2("url"), button_index: any_u32("button"), cast_id: c.clone(), input_text: b2("input"), state: b2("state"), transaction_id: b2("tx id"), address: b2("address") };
                let m = msg(13, 1, Body::FrameActionBody(b.clone()));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 8), "a message is reported with its own header and body");
                let f = r.data.frame_action_body.unwrap();
                check(same(&f.url, &b.url) & (f.button_index == b.button_index) & same(&f.input_text, &b.input_text) & same(&f.state, &b.state) & same(&f.transaction_id, &b.transaction_id) & same(&f.address, &b.address) & match &c { Some(c) => is_cast(&f.cast_id, c), None => f.cast_id.is_none() }, "a frame action is reported as made");
                cover("frame");
            }
            1 => {
                let u = choose("unit", 0, 2);
                let b = proto::LendStorageBody { to_fid: any_u64("to"), num_units: any_u64("units"), unit_type: u as i32 };
                let m = msg(15, 1, Body::LendStorageBody(b.clone()));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 10), "a message is reported with its own header and body");
                let l = r.data.lend_storage_body.unwrap();
                check((l.to_fid == b.to_fid) & (l.num_units == b.num_units) & matches!((l.unit_type, u), (j::StorageUnitType::UnitTypeLegacy, 0) | (j::StorageUnitType::UnitType2024, 1) | (j::StorageUnitType::UnitType2025, 2)), "a loan is reported as made");
                cover("lend");
            }
            2 => {
                let s = choose("scope", 0, TYPES.len() - 1);
                let n = choose("scopes", 0, 2);
                let b = proto::KeyAddBody { key: b2("key"), key_type: any_u32("key type"), custody_signature: b2("custody"), deadline: any_u32("deadline"), nonce: any_u32("nonce"), metadata: b2("metadata"), metadata_type: any_u32("metadata type"), registration_tx_hash: b2("registration"), scopes: [TYPES[s].0, 1][..n].to_vec(), ttl: any_u32("ttl") };
                let m = msg(16, 1, Body::KeyAddBody(b.clone()));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 11), "a message is reported with its own header and body");
                let k = r.data.key_add_body.unwrap();
                check(same(&k.key, &b.key) & (k.key_type == b.key_type) & same(&k.custody_signature, &b.custody_signature) & (k.deadline == b.deadline) & (k.nonce == b.nonce) & same(&k.metadata, &b.metadata) & (k.metadata_type == b.metadata_type) & same(&k.registration_tx_hash, &b.registration_tx_hash) & (k.ttl == b.ttl), "a key is reported as added");
                check(k.scopes.len() == n && (n < 1 || k.scopes[0] == TYPES[s].1) && (n < 2 || k.scopes[1] == TYPES[1].1), "a key's scopes are reported by name");
                cover("key");
            }
            _ => {
                let b = proto::KeyRemoveBody { key: b2("key"), signature: b2("key signature"), signature_type: any_u32("signature type"), deadline: any_u32("deadline"), nonce: any_u32("nonce") };
                let m = msg(17, 1, Body::KeyRemoveBody(b.clone()));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 12), "a message is reported with its own header and body");
                let k = r.data.key_remove_body.unwrap();
                check(same(&k.key, &b.key) & same(&k.signature, &b.signature) & (k.signature_type == b.signature_type) & (k.deadline == b.deadline) & (k.nonce == b.nonce), "a key removal is reported as made");
                cover("removal");
            }
        }
    }
    fn c24_channels() {
        flag("fmt", 1);
        let id = b2("channel");
        match choose("kind", 0, 3) {
            0 => {
                let k = choose("which", 0, 6);
                let t = |i: usize, n: &str| if k == i { Some(t2(n)) } else { None };
                let (c, a) = (choose("casting", 0, 4), choose("membership", 0, 3));
                let b = proto::ChannelUpdateBody { channel_id: id.clone(), name: t(0, "name"), description: t(1, "description"), image_url: t(2, "image"), header: t(3, "header"), rules: t(4, "rules"), casting_mode: if c == 4 { None } else { Some(c as i32) }, membership_mode: if a == 3 { None } else { Some(a as i32) } };
                let m = msg(18, 1, Body::ChannelUpdateBody(b.clone()));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 13), "a message is reported with its own header and body");
                let u = r.data.channel_update_body.unwrap();
                check(same(&u.channel_id, &id) & eqo(&u.name, &b.name) & eqo(&u.description, &b.description) & eqo(&u.image_url, &b.image_url) & eqo(&u.header, &b.header) & eqo(&u.rules, &b.rules), "a channel update is reported as made, unset fields unset");
                use j::{CastingMode::*, MembershipMode::*};
                check(matches!((u.casting_mode, c), (Some(CASTING_MODE_NONE), 0) | (Some(CASTING_MODE_EVERYONE), 1) | (Some(CASTING_MODE_MEMBERS_ONLY), 2) | (Some(CASTING_MODE_RECOMMENDED), 3) | (None, 4)), "the casting mode is reported");
                check(matches!((u.membership_mode, a), (Some(MEMBERSHIP_MODE_NONE), 0) | (Some(MEMBERSHIP_MODE_OPEN), 1) | (Some(MEMBERSHIP_MODE_APPROVAL), 2) | (None, 3)), "the membership mode is reported");
                cover("update");
            }
            1 => {
                let (f, a) = (any_u64("member"), choose("action", 0, 6));
                let m = msg(19, 1, Body::ChannelMemberBody(proto::ChannelMemberBody { channel_id: id.clone(), fid: f, action: a as i32 }));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 14), "a message is reported with its own header and body");
                let b = r.data.channel_member_body.unwrap();
                use j::ChannelMemberAction::*;
                check(same(&b.channel_id, &id) & (b.fid == f) & matches!((b.action, a), (CHANNEL_MEMBER_ACTION_NONE, 0) | (CHANNEL_MEMBER_ACTION_ADD_MEMBER, 1) | (CHANNEL_MEMBER_ACTION_REMOVE_MEMBER, 2) | (CHANNEL_MEMBER_ACTION_ADD_MODERATOR, 3) | (CHANNEL_MEMBER_ACTION_REMOVE_MODERATOR, 4) | (CHANNEL_MEMBER_ACTION_BAN, 5) | (CHANNEL_MEMBER_ACTION_UNBAN, 6)), "a member action is reported as made");
                cover("member");
            }
            2 => {
                let h = b2("cast");
                let m = msg(20, 1, Body::ChannelPinBody(proto::ChannelPinBody { channel_id: id.clone(), cast_hash: h.clone() }));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 15), "a message is reported with its own header and body");
                let b = r.data.channel_pin_body.unwrap();
                check(same(&b.channel_id, &id) & same(&b.cast_hash, &h), "a pin is reported as made");
                cover("pin");
            }
            _ => {
                let (h, a) = (b2("cast"), choose("action", 0, 2));
                let m = msg(21, 1, Body::ChannelModerateBody(proto::ChannelModerateBody { channel_id: id.clone(), cast_hash: h.clone(), action: a as i32 }));
                let r = shown(&m);
                check(is(&r, &m) & only(&r.data, 16), "a message is reported with its own header and body");
                let b = r.data.channel_moderate_body.unwrap();
                use j::ChannelModerateAction::*;
                check(same(&b.channel_id, &id) & same(&b.cast_hash, &h) & matches!((b.action, a), (CHANNEL_MODERATE_ACTION_NONE, 0) | (CHANNEL_MODERATE_ACTION_HIDE, 1) | (CHANNEL_MODERATE_ACTION_UNHIDE, 2)), "a moderation is reported as made");
                cover("moderate");
            }
        }
    }
    fn c24_chain_events() {
        flag("fmt", 1);
        let k = choose("kind", 0, 6);
        let ty = if k == 0 { choose("type", 0, 6) } else { k };
        let n = choose("event type", 0, if k == 0 || k == 2 || k == 4 { 0 } else if k == 5 { 1 } else { 3 }) as i32;
        let sb = proto::SignerEventBody { key: b2("key"), key_type: any_u32("key type"), event_type: n, metadata: b2("metadata"), metadata_type: any_u32("metadata type") };
        let mb = proto::SignerMigratedEventBody { migrated_at: any_u32("at") };
        let ib = proto::IdRegisterEventBody { to: b2("to"), event_type: n, from: b2("from"), recovery_address: b2("recovery") };
        let rb = proto::StorageRentEventBody { payer: b2("payer"), units: any_u32("units"), expiry: any_u32("expiry") };
        let tb = proto::TierPurchaseBody { tier_type: n, for_days: any_u64("days"), payer: b2("payer") };
        let cb = proto::ChannelRegisterBody { channel_key: t2("key"), expiry: any_u64("expiry"), owner_address: b2("owner"), event_type: n, label: b2("label") };
        let e = chain_event(ty as i32, match k { 0 => None, 1 => Some(OB::SignerEventBody(sb.clone())), 2 => Some(OB::SignerMigratedEventBody(mb.clone())), 3 => Some(OB::IdRegisterEventBody(ib.clone())), 4 => Some(OB::StorageRentEventBody(rb.clone())), 5 => Some(OB::TierPurchaseEventBody(tb.clone())), _ => Some(OB::ChannelRegisterEventBody(cb.clone())) });
        let r = shown_event(&e);
        check((r.chain_id == e.chain_id) & (r.block_number == e.block_number) & same(&r.block_hash, &e.block_hash) & (r.block_timestamp == e.block_timestamp) & same(&r.transaction_hash, &e.transaction_hash) & (r.log_index == e.log_index) & (r.fid == e.fid) & (r.tx_index == e.tx_index) & (r.version == e.version), "a chain event is reported at its place");
        check(r.r#type as usize == ty, "a chain event is reported with its type");
        check(r.signer_event_body.is_some() == (k == 1) && r.signer_migrated_event_body.is_some() == (k == 2) && r.id_register_event_body.is_some() == (k == 3) && r.storage_rent_event_body.is_some() == (k == 4) && r.tier_purchase_event_body.is_some() == (k == 5) && r.channel_register_event_body.is_some() == (k == 6), "a chain event is reported with its own body only");
        if let Some(b) = r.signer_event_body { check(same(&b.key, &sb.key) & (b.key_type == sb.key_type) & (b.event_type as i32 == n) & same(&b.metadata, &sb.metadata) & (b.metadata_type == sb.metadata_type), "a signer event is reported as it was"); cover("signer"); }
        if let Some(b) = r.signer_migrated_event_body { check(b.migrated_at == mb.migrated_at, "a migration is reported as it was"); cover("migration"); }
        if let Some(b) = r.id_register_event_body { check(same(&b.to, &ib.to) & same(&b.from, &ib.from) & same(&b.recovery_address, &ib.recovery_address) & (b.event_type as i32 == n), "a registration is reported as it was"); cover("id"); }
        if let Some(b) = r.storage_rent_event_body { check(same(&b.payer, &rb.payer) & (b.units == rb.units) & (b.expiry == rb.expiry), "a rent is reported as it was"); cover("rent"); }
        if let Some(b) = r.tier_purchase_event_body { check(same(&b.payer, &tb.payer) & (b.for_days == tb.for_days) & (b.tier_type as i32 == n), "a purchase is reported as it was"); cover("tier"); }
        if let Some(b) = r.channel_register_event_body { check(eq(&b.channel_key, &cb.channel_key) & (b.expiry == cb.expiry) & same(&b.owner_address, &cb.owner_address) & (b.event_type as i32 == n) & same(&b.label, &cb.label), "a channel registration is reported as it was"); cover("channel"); }
    }
    fn c24_events() {
        flag("fmt", 1);
        let k = choose("kind", 0, 8);
        let small = |n: &str| msg(2, 1, Body::CastRemoveBody(proto::CastRemoveBody { target_hash: b2(n) }));
        let (m, d) = (small("m"), small("d"));
        let has = if k == 4 { choose("has", 0, 3) } else { 0 };
        let dels: Vec<proto::Message> = if k == 1 { vec![d.clone(), m.clone()][..choose("deleted", 0, 2)].to_vec() } else { vec![] };
        let (p, q) = (proof(), proof());
        let (code, reason) = (t2("code"), t2("reason"));
        let conf = proto::BlockConfirmedBody { block_number: any_u64("number"), shard_index: any_u32("shard"), timestamp: any_u64("time"), block_hash: b2("hash"), total_events: any_u64("total"), ..Default::default() };
        let hint = proto::ChannelOwnerChangeHintBody { channel_key: t2("key"), owner_address: b2("owner"), cause: if k == 8 { choose("cause", 0, 4) as i32 } else { 0 }, ..Default::default() };
        let types = [(0, "HUB_EVENT_TYPE_NONE"), (1, "HUB_EVENT_TYPE_MERGE_MESSAGE"), (2, "HUB_EVENT_TYPE_PRUNE_MESSAGE"), (3, "HUB_EVENT_TYPE_REVOKE_MESSAGE"), (6, "HUB_EVENT_TYPE_MERGE_USERNAME_PROOF"), (9, "HUB_EVENT_TYPE_MERGE_ON_CHAIN_EVENT"), (10, "HUB_EVENT_TYPE_MERGE_FAILURE"), (11, "HUB_EVENT_TYPE_BLOCK_CONFIRMED"), (12, "HUB_EVENT_TYPE_CHANNEL_OWNER_CHANGE_HINT")];
        let e = proto::HubEvent { r#type: types[k].0, id: any_u64("id"), block_number: any_u64("block"), shard_index: any_u32("shard"), timestamp: 0, body: match k {
            0 => None,
            1 => Some(EB::MergeMessageBody(proto::MergeMessageBody { message: Some(m.clone()), deleted_messages: dels.clone() })),
            2 => Some(EB::PruneMessageBody(proto::PruneMessageBody { message: Some(m.clone()) })),
            3 => Some(EB::RevokeMessageBody(proto::RevokeMessageBody { message: Some(m.clone()) })),
            4 => Some(EB::MergeUsernameProofBody(proto::MergeUserNameProofBody { username_proof: if has == 0 { Some(p.0.clone()) } else { None }, deleted_username_proof: if has == 1 { Some(q.0.clone()) } else { None }, username_proof_message: if has == 2 { Some(m.clone()) } else { None }, deleted_username_proof_message: if has == 3 { Some(d.clone()) } else { None } })),
            5 => Some(EB::MergeOnChainEventBody(proto::MergeOnChainEventBody { on_chain_event: Some(chain_event(2, None)) })),
            6 => Some(EB::MergeFailure(proto::MergeFailureBody { message: Some(m.clone()), code: code.clone(), reason: reason.clone() })),
            7 => Some(EB::BlockConfirmedBody(conf.clone())),
            _ => Some(EB::ChannelOwnerChangeHintBody(hint.clone())),
        } };
        let Ok(r) = j::map_proto_hub_event_to_json_hub_event(e.clone()) else { check(false, "an event is reported"); return };
        check((r.id == e.id) & (r.block_number == e.block_number) & (r.shard_index == e.shard_index) & (r.hub_event_type == types[k].1), "an event is reported at its place with its type");
        check(r.merge_message_body.is_some() == (k == 1) && r.prune_message_body.is_some() == (k == 2) && r.revoke_message_body.is_some() == (k == 3) && r.merge_username_proof_body.is_some() == (k == 4) && r.merge_on_chain_event_body.is_some() == (k == 5) && r.merge_failure_body.is_some() == (k == 6) && r.block_confirmed_body.is_some() == (k == 7) && r.channel_owner_change_hint_body.is_some() == (k == 8), "an event is reported with its own body only");
        let sm = |r: &j::Message, m: &proto::Message| { let Some(Body::CastRemoveBody(b)) = &m.data.as_ref().unwrap().body else { return false }; is(r, m) & r.data.cast_remove_body.as_ref().is_some_and(|x| same(&x.target_hash, &b.target_hash)) };
        if let Some(b) = r.merge_message_body { check(sm(&b.message, &m) && b.deleted_messages.len() == dels.len() && { let mut ok = true; for i in 0..dels.len() { ok &= sm(&b.deleted_messages[i], &dels[i]); } ok }, "a merge reports its message and those it replaced"); cover("merge"); }
        if let Some(b) = r.prune_message_body { check(sm(&b.message, &m), "a pruning reports its message"); cover("prune"); }
        if let Some(b) = r.revoke_message_body { check(sm(&b.message, &m), "a revocation reports its message"); cover("revoke"); }
        if let Some(b) = r.merge_username_proof_body {
            check(match has { 0 => b.username_proof.as_ref().is_some_and(|x| is_proof(x, &p)), _ => b.username_proof.is_none() }, "a name event reports the proof it merged");
            check(match has { 1 => b.deleted_username_proof.as_ref().is_some_and(|x| is_proof(x, &q)), _ => b.deleted_username_proof.is_none() }, "a name event reports the proof it replaced");
            check(match has { 2 => b.username_proof_message.as_ref().is_some_and(|x| sm(x, &m)), _ => b.username_proof_message.is_none() }, "a name event reports the message it merged");
            check(match has { 3 => b.deleted_username_proof_message.as_ref().is_some_and(|x| sm(x, &d)), _ => b.deleted_username_proof_message.is_none() }, "a name event reports the message it replaced");
            cover("name");
        }
        if let Some(b) = r.merge_failure_body { check(sm(&b.message, &m) & eq(&b.code, &code) & eq(&b.reason, &reason), "a failure reports its message and reason"); cover("failure"); }
        if let Some(b) = r.block_confirmed_body { check((b.block_number == conf.block_number) & (b.shard_index == conf.shard_index) & (b.timestamp == conf.timestamp) & same(&b.block_hash, &conf.block_hash) & (b.total_events == conf.total_events), "a confirmation reports its block"); cover("block"); }
        if let Some(b) = r.channel_owner_change_hint_body { check(eq(&b.channel_key, &hint.channel_key) & same(&b.owner_address, &hint.owner_address) & (b.cause as i32 == hint.cause), "an owner change is reported as it was"); cover("owner"); }
    }
    fn c24_json() {
        flag("fmt", 1);
        let mut lines = include_str!("c24.json").lines();
        fn form(lines: &mut std::str::Lines, v: serde_json::Value) { let want: serde_json::Value = serde_json::from_str(lines.next().unwrap()).unwrap(); check(v == want, "each kind of message and event has its published JSON form"); }
        let cid = || proto::CastId { fid: 7, hash: vec![1, 2] };
        let bodies: Vec<(i32, Body)> = vec![
            (1, Body::CastAddBody(proto::CastAddBody { text: "t".into(), mentions: vec![5], mentions_positions: vec![0], embeds: vec![proto::Embed { embed: Some(proto::embed::Embed::CastId(cid())) }, proto::Embed { embed: Some(proto::embed::Embed::Url("u".into())) }], parent: Some(proto::cast_add_body::Parent::ParentCastId(cid())), ..Default::default() })),
            (2, Body::CastRemoveBody(proto::CastRemoveBody { target_hash: vec![1, 2] })),
            (3, Body::ReactionBody(proto::ReactionBody { r#type: 1, target: Some(proto::reaction_body::Target::TargetCastId(cid())) })),
            (4, Body::ReactionBody(proto::ReactionBody { r#type: 2, target: Some(proto::reaction_body::Target::TargetUrl("u".into())) })),
            (5, Body::LinkBody(proto::LinkBody { r#type: "follow".into(), display_timestamp: Some(3), target: Some(proto::link_body::Target::TargetFid(9)) })),
            (7, Body::VerificationAddAddressBody(proto::VerificationAddAddressBody { address: vec![1], claim_signature: vec![2], block_hash: vec![3], verification_type: 1, chain_id: 10, protocol: 0 })),
            (8, Body::VerificationRemoveBody(proto::VerificationRemoveBody { address: vec![1], protocol: 0 })),
            (11, Body::UserDataBody(proto::UserDataBody { r#type: 3, value: "v".into() })),
            (12, Body::UsernameProofBody(proto::UserNameProof { timestamp: 1, name: b"n".to_vec(), owner: vec![1], signature: vec![2], fid: 3, r#type: 1 })),
            (13, Body::FrameActionBody(proto::FrameActionBody { url: vec![1], button_index: 2, cast_id: Some(cid()), input_text: vec![3], state: vec![4], transaction_id: vec![5], address: vec![6] })),
            (14, Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: "follow".into(), target_fids: vec![1, 2] })),
            (15, Body::LendStorageBody(proto::LendStorageBody { to_fid: 1, num_units: 2, unit_type: 2 })),
            (16, Body::KeyAddBody(proto::KeyAddBody { key: vec![1], key_type: 1, custody_signature: vec![2], deadline: 3, nonce: 4, metadata: vec![5], metadata_type: 1, registration_tx_hash: vec![6], scopes: vec![1], ttl: 7 })),
            (17, Body::KeyRemoveBody(proto::KeyRemoveBody { key: vec![1], signature: vec![2], signature_type: 1, deadline: 3, nonce: 4 })),
            (18, Body::ChannelUpdateBody(proto::ChannelUpdateBody { channel_id: vec![1], name: Some("n".into()), description: Some("d".into()), image_url: Some("i".into()), header: Some("h".into()), rules: Some("r".into()), casting_mode: Some(2), membership_mode: Some(1) })),
            (18, Body::ChannelUpdateBody(proto::ChannelUpdateBody { channel_id: vec![1], ..Default::default() })),
            (19, Body::ChannelMemberBody(proto::ChannelMemberBody { channel_id: vec![1], fid: 2, action: 1 })),
            (20, Body::ChannelPinBody(proto::ChannelPinBody { channel_id: vec![1], cast_hash: vec![2] })),
            (21, Body::ChannelModerateBody(proto::ChannelModerateBody { channel_id: vec![1], cast_hash: vec![2], action: 1 })),
        ];
        for (t, b) in bodies {
            let m = proto::Message { data: Some(proto::MessageData { r#type: t, fid: 4, timestamp: 5, network: 1, body: Some(b) }), hash: vec![0xab], hash_scheme: 1, signature: vec![9], signature_scheme: 1, signer: vec![0xcd], data_bytes: None };
            let e = proto::HubEvent { r#type: 2, id: 1, body: Some(EB::PruneMessageBody(proto::PruneMessageBody { message: Some(m) })), ..Default::default() };
            form(&mut lines, serde_json::to_value(&j::map_proto_hub_event_to_json_hub_event(e).ok().unwrap().prune_message_body.unwrap().message).unwrap());
        }
        let bodies = vec![None, Some(OB::SignerEventBody(proto::SignerEventBody { key: vec![1], key_type: 1, event_type: 1, metadata: vec![2], metadata_type: 1 })), Some(OB::SignerMigratedEventBody(proto::SignerMigratedEventBody { migrated_at: 1 })), Some(OB::IdRegisterEventBody(proto::IdRegisterEventBody { to: vec![1], event_type: 1, from: vec![2], recovery_address: vec![3] })), Some(OB::StorageRentEventBody(proto::StorageRentEventBody { payer: vec![1], units: 2, expiry: 3 })), Some(OB::TierPurchaseEventBody(proto::TierPurchaseBody { tier_type: 1, for_days: 2, payer: vec![3] })), Some(OB::ChannelRegisterEventBody(proto::ChannelRegisterBody { channel_key: "k".into(), expiry: 1, owner_address: vec![2], event_type: 1, label: vec![3] }))];
        for (t, b) in bodies.into_iter().enumerate() {
            let e = proto::OnChainEvent { r#type: t as i32, chain_id: 10, block_number: 1, block_hash: vec![1], block_timestamp: 2, transaction_hash: vec![2], log_index: 3, fid: 4, body: b, tx_index: 5, version: 6 };
            let h = proto::HubEvent { r#type: 9, body: Some(EB::MergeOnChainEventBody(proto::MergeOnChainEventBody { on_chain_event: Some(e) })), ..Default::default() };
            form(&mut lines, serde_json::to_value(&j::map_proto_hub_event_to_json_hub_event(h).ok().unwrap()).unwrap());
        }
        let p = || proto::UserNameProof { timestamp: 1, name: b"n".to_vec(), owner: vec![1], signature: vec![2], fid: 3, r#type: 1 };
        for (t, b) in vec![(11, EB::BlockConfirmedBody(proto::BlockConfirmedBody { block_number: 1, shard_index: 2, timestamp: 3, block_hash: vec![4], total_events: 5, ..Default::default() })), (12, EB::ChannelOwnerChangeHintBody(proto::ChannelOwnerChangeHintBody { channel_key: "k".into(), owner_address: vec![1], cause: 1, ..Default::default() })), (6, EB::MergeUsernameProofBody(proto::MergeUserNameProofBody { username_proof: Some(p()), deleted_username_proof: Some(p()), ..Default::default() }))] {
            let h = proto::HubEvent { r#type: t, id: 1, block_number: 2, shard_index: 3, body: Some(b), ..Default::default() };
            form(&mut lines, serde_json::to_value(&j::map_proto_hub_event_to_json_hub_event(h).ok().unwrap()).unwrap());
        }
        check(lines.next().is_none(), "every form is checked");
        cover("forms");
    }
}
