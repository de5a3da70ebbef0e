//! bounds: every endpoint; every value of every number; byte fields of 2 arbitrary bytes, hex text concrete; every combination of old and new paging fields; lists of one and two entries; every status code
use crate::{com::*, entries, vf::*};
use snapchain::network::http_server::{self as j, ErrorResponse, HubHttpService, HubHttpServiceImpl};
use snapchain::proto::{self, hub_service_server::HubService, message_data::Body, *};
use std::any::Any;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use tonic::{Request, Response, Status};

type Boxed = Box<dyn Any + Send>;
/// a node that notes what it is asked and answers what it is told to
pub struct Node { asked: Mutex<Vec<(&'static str, Boxed, Option<String>)>>, answer: Mutex<Option<Boxed>>, code: i32 }
impl Node {
    fn reply<Q: Send + 'static, R: 'static>(&self, name: &'static str, r: Request<Q>) -> Result<Response<R>, Status> {
        let auth = r.metadata().get("authorization").map(|x| x.to_str().unwrap().to_string());
        self.asked.lock().unwrap().push((name, Box::new(r.into_inner()), auth));
        match self.answer.lock().unwrap().take() { Some(a) => Ok(Response::new(*a.downcast::<R>().ok().unwrap())), None => Err(Status::new(tonic::Code::from_i32(self.code), "no")) }
    }
}
macro_rules! node { ($($n:ident($q:ident) $r:ident;)*) => {
    #[tonic::async_trait]
    impl HubService for Node {
        type GetBlocksStream = futures::stream::Empty<Result<Block, Status>>;
        type SubscribeStream = futures::stream::Empty<Result<HubEvent, Status>>;
        async fn get_blocks(&self, _: Request<BlocksRequest>) -> Result<Response<Self::GetBlocksStream>, Status> { Err(Status::unimplemented("")) }
        async fn subscribe(&self, _: Request<SubscribeRequest>) -> Result<Response<Self::SubscribeStream>, Status> { Err(Status::unimplemented("")) }
        $(async fn $n(&self, r: Request<proto::$q>) -> Result<Response<proto::$r>, Status> { self.reply(stringify!($n), r) })*
    }
} }
node! { submit_message(Message) Message; submit_bulk_messages(SubmitBulkMessagesRequest) SubmitBulkMessagesResponse; validate_message(Message) ValidationResponse; get_shard_chunks(ShardChunksRequest) ShardChunksResponse; get_info(GetInfoRequest) GetInfoResponse; get_fids(FidsRequest) FidsResponse; get_connected_peers(GetConnectedPeersRequest) GetConnectedPeersResponse; get_mesh_view(GetMeshViewRequest) MeshView; get_mesh_topology(GetMeshViewRequest) MeshTopology; get_event(EventRequest) HubEvent; get_events(EventsRequest) EventsResponse; get_cast(CastId) Message; get_casts_by_fid(FidRequest) MessagesResponse; get_casts_by_parent(CastsByParentRequest) MessagesResponse; get_casts_by_mention(FidRequest) MessagesResponse; get_reaction(ReactionRequest) Message; get_reactions_by_fid(ReactionsByFidRequest) MessagesResponse; get_reactions_by_cast(ReactionsByTargetRequest) MessagesResponse; get_reactions_by_target(ReactionsByTargetRequest) MessagesResponse; get_user_data(UserDataRequest) Message; get_user_data_by_fid(FidRequest) MessagesResponse; get_username_proof(UsernameProofRequest) UserNameProof; get_user_name_proofs_by_fid(FidRequest) UsernameProofsResponse; get_verification(VerificationRequest) Message; get_verifications_by_fid(FidRequest) MessagesResponse; get_on_chain_signer(SignerRequest) OnChainEvent; get_on_chain_signers_by_fid(FidRequest) OnChainEventResponse; get_signer(SignerRequest) SignerResponse; get_signers_by_fid(SignersByFidRequest) SignersByFidResponse; get_on_chain_events(OnChainEventRequest) OnChainEventResponse; get_channel_owner(ChannelOwnerRequest) ChannelOwnerResponse; get_channels_by_address(ChannelsByAddressRequest) ChannelsResponse; get_channels_by_fid(ChannelsByFidRequest) ChannelsResponse; get_channel_member(ChannelMemberRequest) ChannelMemberResponse; get_channel_members(ChannelMembersRequest) ChannelMembersResponse; get_channel_pin(ChannelRequest) ChannelPinResponse; get_channel_moderations(ChannelModerationsRequest) ChannelModerationsResponse; get_channel_metadata(ChannelRequest) ChannelMetadataResponse; get_channel_memberships_by_fid(ChannelMembershipsByFidRequest) ChannelMembershipsResponse; get_channel_followers(ChannelFollowersRequest) ChannelFollowersResponse; get_channel_follower_count(ChannelFollowerCountRequest) ChannelFollowerCountResponse; get_channel_follows(ChannelFollowsRequest) ChannelFollowsResponse; is_following_channel(IsFollowingChannelRequest) IsFollowingChannelResponse; get_id_registry_on_chain_event(FidRequest) OnChainEvent; get_id_registry_on_chain_event_by_address(IdRegistryEventByAddressRequest) OnChainEvent; get_current_storage_limits_by_fid(FidRequest) StorageLimitsResponse; get_fid_address_type(FidAddressTypeRequest) FidAddressTypeResponse; get_link(LinkRequest) Message; get_links_by_fid(LinksByFidRequest) MessagesResponse; get_links_by_target(LinksByTargetRequest) MessagesResponse; get_link_compact_state_message_by_fid(FidRequest) MessagesResponse; get_all_cast_messages_by_fid(FidTimestampRequest) MessagesResponse; get_all_reaction_messages_by_fid(FidTimestampRequest) MessagesResponse; get_all_verification_messages_by_fid(FidTimestampRequest) MessagesResponse; get_all_user_data_messages_by_fid(FidTimestampRequest) MessagesResponse; get_all_link_messages_by_fid(FidTimestampRequest) MessagesResponse; get_all_lend_storage_messages_by_fid(FidTimestampRequest) MessagesResponse; get_trie_metadata_by_prefix(TrieNodeMetadataRequest) TrieNodeMetadataResponse; }
fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = futures::task::noop_waker();
    match f.as_mut().poll(&mut std::task::Context::from_waker(&w)) { std::task::Poll::Ready(r) => r, _ => panic!("the call waits") }
}
fn node(answer: Option<Boxed>, code: i32) -> (Arc<Node>, HubHttpServiceImpl<Node>) {
    let n = Arc::new(Node { asked: Mutex::new(vec![]), answer: Mutex::new(answer), code });
    (n.clone(), HubHttpServiceImpl { service: n })
}
/// calls an endpoint; what the node was asked, and what came back
macro_rules! ask { ($e:ident($($a:expr),*) of $n:ident($q:ty) = $r:expr) => {{
    let (n, s) = node(Some(Box::new($r)), 0);
    let r = now(s.$e($($a),*));
    let mut a = n.asked.lock().unwrap();
    check(a.len() == 1, concat!(stringify!($e), " asks the node once"));
    let (m, q, auth) = a.pop().unwrap();
    check(m == stringify!($n), concat!(stringify!($e), " asks for ", stringify!($n)));
    let Ok(q) = q.downcast::<$q>() else { return };
    let _ = &auth;
    (*q, r, auth)
}} }
/// an endpoint whose request does not reach the node
macro_rules! refused { ($e:ident($($a:expr),*)) => {{
    let (n, s) = node(None, 5);
    let r = now(s.$e($($a),*));
    check(r.is_err() && n.asked.lock().unwrap().is_empty(), concat!(stringify!($e), " refuses it"));
}} }
macro_rules! fails { ($c:expr, $e:ident($($a:expr),*)) => {{
    let (_n, s) = node(None, $c);
    let r = now(s.$e($($a),*));
    check(r.is_err(), concat!(stringify!($e), " reports a failure"));
    r.err()
}} }
fn eqo(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool { match (a, b) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false } }
fn b2(n: &str) -> Vec<u8> { any_vec(n, 2) }
fn hex(b: &[u8]) -> String { let mut v = b"0x".to_vec(); for x in b { for d in [x >> 4, x & 15] { v.push(if d < 10 { b'0' + d } else { b'a' + d - 10 }); } } unsafe { String::from_utf8_unchecked(v) } }
fn eq(a: &str, b: &str) -> bool { same(a.as_bytes(), b.as_bytes()) }
/// paging fields in the new and the old spelling, and what they come to
#[derive(Clone)]
struct P { size: Option<u32>, token: Option<Vec<u8>>, reverse: Option<bool>, old_size: Option<u32>, old_token: Option<Vec<u8>> }
fn p() -> P {
    let s = choose("size given", 0, 3);
    let t = choose("token given", 0, 3);
    P { size: (s & 1 == 1).then(|| any_u32("size")), old_size: (s & 2 == 2).then(|| any_u32("old size")), token: (t & 1 == 1).then(|| b2("token")), old_token: (t & 2 == 2).then(|| b2("old token")), reverse: (s != 2).then(|| any_bool("reverse")) }
}
macro_rules! paged { ($t:ident { $($f:ident: $v:expr),* }, $p:expr) => { j::$t { $($f: $v,)* page_size: $p.size, page_token: $p.token.clone(), reverse: $p.reverse, pageSize: $p.old_size, pageToken: $p.old_token.clone() } } }
macro_rules! page { ($q:expr, $p:expr) => {
    check($q.page_size == $p.size.or($p.old_size), "the page size asked for is passed on");
    check(eqo(&$q.page_token, &$p.token.clone().or($p.old_token.clone())), "the page token is passed on");
    check($q.reverse == $p.reverse, "the direction is passed on");
} }
fn msg() -> Message { Message { data: Some(MessageData { r#type: 2, fid: any_u64("message fid"), timestamp: any_u32("message time"), network: 1, body: Some(Body::CastRemoveBody(CastRemoveBody { target_hash: b2("target") })) }), hash: b2("hash"), hash_scheme: 1, signature: b2("signature"), signature_scheme: 1, signer: b2("signer"), data_bytes: None } }
fn is_msg(r: &j::Message, m: &Message) -> bool { let d = m.data.as_ref().unwrap(); (r.data.fid == d.fid) & (r.data.timestamp == d.timestamp) & eq(&r.hash, &hex(&m.hash)) & same(&r.signature, &m.signature) & eq(&r.signer, &hex(&m.signer)) }
fn token() -> (Option<Vec<u8>>, Option<&'static str>) { match choose("more", 0, 2) { 0 => (None, None), 1 => (Some(vec![0xfb, 0xff]), Some("+/8=")), _ => (Some(vec![]), Some("")) } }
fn page_of_messages() -> (MessagesResponse, Vec<Message>, Option<&'static str>) {
    let ms: Vec<Message> = (0..2).map(|_| msg()).collect();
    let t = token();
    (MessagesResponse { messages: ms.clone(), next_page_token: t.0 }, ms, t.1)
}
fn is_page(r: Result<j::PagedResponse, ErrorResponse>, ms: &[Message], t: Option<&str>) {
    let Ok(r) = r else { check(false, "a page is answered"); return };
    check(r.messages.len() == ms.len(), "every message of the page is there");
    for i in 0..ms.len() { check(is_msg(&r.messages[i], &ms[i]), "messages are reported in order, as they are"); }
    check(r.next_page_token.as_deref() == Some(t.unwrap_or("")), "the next page's token is passed on");
}
fn is_token(r: &Option<String>, t: Option<&str>) { check(r.as_deref() == t, "the next page's token is passed on"); }
const HASH: [&str; 3] = ["0x0aFf", "0aff", "0x0AFF"];
const BYTES: [u8; 2] = [0x0a, 0xff];
fn any_hash() -> String { HASH[choose("hash", 0, 2)].to_string() }
fn chain() -> OnChainEvent { OnChainEvent { r#type: 2, chain_id: any_u32("chain"), block_number: any_u32("number"), block_hash: b2("block hash"), block_timestamp: any_u64("time"), transaction_hash: b2("tx"), log_index: any_u32("log"), fid: any_u64("event fid"), body: Some(on_chain_event::Body::SignerMigratedEventBody(SignerMigratedEventBody { migrated_at: any_u32("at") })), tx_index: any_u32("tx index"), version: any_u32("version") } }
fn is_chain(r: &j::OnChainEvent, e: &OnChainEvent) -> bool {
    let Some(on_chain_event::Body::SignerMigratedEventBody(b)) = &e.body else { return false };
    (r.chain_id == e.chain_id) & (r.block_number == e.block_number) & same(&r.block_hash, &e.block_hash) & (r.block_timestamp == e.block_timestamp) & same(&r.transaction_hash, &e.transaction_hash) & (r.log_index == e.log_index) & (r.fid == e.fid) & (r.tx_index == e.tx_index) & (r.version == e.version) & r.signer_migrated_event_body.as_ref().is_some_and(|x| x.migrated_at == b.migrated_at)
}
fn signer() -> Signer { let o = choose("details", 0, 1) == 1; Signer { source: choose("source", 0, 2) as i32, key: b2("key"), key_type: any_u32("key type"), fid: any_u64("signer fid"), added_at: o.then(|| any_u64("added")), last_used_at: o.then(|| any_u64("used")), ttl: o.then(|| any_u32("ttl")), expires_at: o.then(|| any_u64("expires")), scopes: if o { vec![1, 5, 11] } else { vec![] }, request_fid: o.then(|| any_u64("request fid")), nonce: o.then(|| any_u32("nonce")), onchain_event: (!o).then(chain) } }
fn is_signer(r: &j::Signer, s: &Signer) -> bool {
    (r.source.clone() as i32 == s.source) & same(&r.key, &s.key) & (r.key_type == s.key_type) & (r.fid == s.fid) & (r.added_at == s.added_at) & (r.last_used_at == s.last_used_at) & (r.ttl == s.ttl) & (r.expires_at == s.expires_at) & (r.request_fid == s.request_fid) & (r.nonce == s.nonce)
        & (r.scopes == if s.scopes.is_empty() { vec![] } else { vec!["MESSAGE_TYPE_CAST_ADD", "MESSAGE_TYPE_LINK_ADD", "MESSAGE_TYPE_USER_DATA_ADD"] }) & match (&r.onchain_event, &s.onchain_event) { (Some(a), Some(b)) => is_chain(a, b), (None, None) => true, _ => false }
}
fn kind() -> ReactionType { if choose("reaction", 0, 1) == 0 { ReactionType::Like } else { ReactionType::Recast } }
fn is_cast(c: &CastId, fid: u64, hash: &[u8]) -> bool { (c.fid == fid) & same(&c.hash, hash) }

entries! {
    fn c25_casts() {
        flag("fmt", 1);
        let p = p();
        let fid = any_u64("fid");
        let (a, ms, t) = page_of_messages();
        match choose("endpoint", 0, 2) {
            0 => {
                let (s, e) = (choose("times", 0, 2), any_u64("from"));
                let u = any_u64("until");
                let r = j::FidTimestampRequest { fid, page_size: p.size, page_token: p.token.clone(), reverse: p.reverse, start_timestamp: (s == 1).then_some(e), stop_timestamp: (s == 1).then_some(u), pageSize: p.old_size, pageToken: p.old_token.clone(), startTimestamp: (s == 2).then_some(e), stopTimestamp: (s == 2).then_some(u) };
                let (q, r, _) = ask!(get_casts_by_fid(r) of get_all_cast_messages_by_fid(FidTimestampRequest) = a);
                page!(q, p);
                check((q.fid == fid) & (q.start_timestamp == (s > 0).then_some(e)) & (q.stop_timestamp == (s > 0).then_some(u)), "casts of this user and time are asked for");
                is_page(r, &ms, t);
                cover("by fid");
            }
            1 => { let (q, r, _) = ask!(get_casts_by_mention(paged!(FidRequest { fid: fid }, p)) of get_casts_by_mention(FidRequest) = a); page!(q, p); check(q.fid == fid, "mentions of this user are asked for"); is_page(r, &ms, t); }
            _ => {
                let url = choose("parent", 0, 1) == 1;
                let (q, r, _) = ask!(get_casts_by_parent(paged!(CastsByParentRequest { fid: (!url).then_some(fid), hash: (!url).then(any_hash), url: url.then(|| any_ascii("url", 2)) }, p)) of get_casts_by_parent(CastsByParentRequest) = a);
                page!(q, p);
                match q.parent { Some(casts_by_parent_request::Parent::ParentCastId(c)) => check(!url && is_cast(&c, fid, &BYTES), "replies to this cast are asked for"), Some(casts_by_parent_request::Parent::ParentUrl(_)) => check(url, "replies to a page are asked for"), None => check(false, "a parent is asked for") }
                is_page(r, &ms, t);
                cover("by parent");
            }
        }
    }
    fn c25_one() {
        flag("fmt", 1);
        let m = msg();
        let fid = any_u64("fid");
        match choose("endpoint", 0, 3) {
            0 => { let (q, r, _) = ask!(get_cast_by_id(j::IdRequest { fid: "18446744073709551615".into(), hash: any_hash() }) of get_cast(CastId) = m.clone()); check(is_cast(&q, u64::MAX, &BYTES), "this cast is asked for"); check(r.is_ok_and(|r| is_msg(&r, &m)), "the cast is reported"); }
            1 => {
                let k = kind();
                let url = choose("target", 0, 1) == 1;
                let t = any_u64("target fid");
                let (q, r, _) = ask!(get_reaction_by_id(j::ReactionRequest { fid, target_url: url.then(|| "u".to_string()), target_fid: (!url).then_some(t), target_hash: (!url).then(any_hash), reaction_type: k }) of get_reaction(ReactionRequest) = m.clone());
                check((q.fid == fid) & (q.reaction_type == k as i32), "this user's reaction of this kind is asked for");
                match q.target { Some(reaction_request::Target::TargetCastId(c)) => check(!url && is_cast(&c, t, &BYTES), "a reaction to this cast is asked for"), Some(reaction_request::Target::TargetUrl(u)) => check(url && u == "u", "a reaction to this page is asked for"), None => check(false, "a target is asked for") }
                check(r.is_ok_and(|r| is_msg(&r, &m)), "the reaction is reported");
                cover("reaction");
            }
            2 => {
                let t = any_u64("target fid");
                let (q, r, _) = ask!(get_link_by_id(j::LinkRequest { fid, link_type: "follow".into(), target_fid: Some(t) }) of get_link(LinkRequest) = m.clone());
                check((q.fid == fid) & (q.link_type == "follow") & match q.target { Some(link_request::Target::TargetFid(x)) => x == t, None => false }, "this link is asked for");
                check(r.is_ok_and(|r| is_msg(&r, &m)), "the link is reported");
            }
            _ => {
                refused!(get_cast_by_id(j::IdRequest { fid: ["", "-1", "18446744073709551616", "x"][choose("fid", 0, 3)].into(), hash: "0x00".into() }));
                refused!(get_cast_by_id(j::IdRequest { fid: "1".into(), hash: "0x0".into() }));
                refused!(get_cast_by_id(j::IdRequest { fid: "1".into(), hash: "zz".into() }));
                refused!(get_reaction_by_id(j::ReactionRequest { fid, target_url: None, target_fid: None, target_hash: None, reaction_type: ReactionType::Like }));
                refused!(get_link_by_id(j::LinkRequest { fid, link_type: "follow".into(), target_fid: None }));
                refused!(get_reactions_by_target(j::ReactionsByTargetRequest { target_cast_id: None, target_url: None, reaction_type: None, page_size: None, page_token: None, reverse: None, pageSize: None, pageToken: None }));
                refused!(get_links_by_target_fid(j::LinksByTargetRequest { target_fid: None, link_type: None, page_size: None, page_token: None, reverse: None, pageSize: None, pageToken: None }));
                refused!(get_casts_by_parent(j::CastsByParentRequest { fid: Some(fid), hash: None, url: None, page_size: None, page_token: None, reverse: None, pageSize: None, pageToken: None }));
                refused!(get_casts_by_parent(j::CastsByParentRequest { fid: Some(fid), hash: Some("zz".into()), url: None, page_size: None, page_token: None, reverse: None, pageSize: None, pageToken: None }));
                cover("refused");
            }
        }
    }
    fn c25_reactions_links() {
        flag("fmt", 1);
        let p = p();
        let fid = any_u64("fid");
        let k = kind();
        let (a, ms, t) = page_of_messages();
        match choose("endpoint", 0, 4) {
            0 => { let (q, r, _) = ask!(get_reactions_by_fid(paged!(ReactionsByFidRequest { fid: fid, reaction_type: k }, p)) of get_reactions_by_fid(ReactionsByFidRequest) = a); page!(q, p); check((q.fid == fid) & (q.reaction_type == Some(k as i32)), "this user's reactions of this kind are asked for"); is_page(r, &ms, t); }
            1 => {
                let some = choose("kind given", 0, 1) == 1;
                let (q, r, _) = ask!(get_reactions_by_cast(paged!(ReactionsByCastRequest { target_fid: fid, target_hash: Some(any_hash()), reaction_type: some.then_some(k) }, p)) of get_reactions_by_target(ReactionsByTargetRequest) = a);
                page!(q, p);
                check(q.reaction_type == some.then_some(k as i32), "reactions of this kind are asked for");
                match q.target { Some(reactions_by_target_request::Target::TargetCastId(c)) => check(is_cast(&c, fid, &BYTES), "reactions to this cast are asked for"), _ => check(false, "reactions to a cast are asked for") }
                is_page(r, &ms, t);
            }
            2 => {
                let some = choose("kind given", 0, 1) == 1;
                let url = choose("target", 0, 1) == 1;
                let (q, r, _) = ask!(get_reactions_by_target(paged!(ReactionsByTargetRequest { target_cast_id: (!url).then(|| j::CastId { fid, hash: any_hash() }), target_url: url.then(|| "u".to_string()), reaction_type: some.then_some(k) }, p)) of get_reactions_by_target(ReactionsByTargetRequest) = a);
                page!(q, p);
                check(q.reaction_type == some.then_some(k as i32), "reactions of this kind are asked for");
                match q.target { Some(reactions_by_target_request::Target::TargetCastId(c)) => check(!url && is_cast(&c, fid, &BYTES), "reactions to this cast are asked for"), Some(reactions_by_target_request::Target::TargetUrl(u)) => check(url && u == "u", "reactions to this page are asked for"), _ => check(false, "reactions to a target are asked for") }
                is_page(r, &ms, t);
                cover("by target");
            }
            3 => {
                let l = choose("type given", 0, 1) == 1;
                let (q, r, _) = ask!(get_links_by_fid(paged!(LinksByFidRequest { fid: fid, link_type: l.then(|| "follow".to_string()) }, p)) of get_links_by_fid(LinksByFidRequest) = a);
                page!(q, p);
                check((q.fid == fid) & (q.link_type.as_deref() == l.then_some("follow")), "this user's links of this type are asked for");
                is_page(r, &ms, t);
            }
            _ => {
                let l = choose("type given", 0, 1) == 1;
                let (q, r, _) = ask!(get_links_by_target_fid(paged!(LinksByTargetRequest { target_fid: Some(fid), link_type: l.then(|| "follow".to_string()) }, p)) of get_links_by_target(LinksByTargetRequest) = a);
                page!(q, p);
                check((q.link_type.as_deref() == l.then_some("follow")) & match q.target { Some(links_by_target_request::Target::TargetFid(x)) => x == fid, None => false }, "links of this type to this user are asked for");
                is_page(r, &ms, t);
                cover("links");
            }
        }
    }
    fn c25_by_user() {
        flag("fmt", 1);
        let p = p();
        let fid = any_u64("fid");
        let (a, ms, t) = page_of_messages();
        match choose("endpoint", 0, 3) {
            0 => { let (q, r, _) = ask!(get_user_data_by_fid(paged!(FidRequest { fid: fid }, p)) of get_user_data_by_fid(FidRequest) = a); page!(q, p); check(q.fid == fid, "this user's profile is asked for"); is_page(r, &ms, t); }
            1 => { let (q, r, _) = ask!(get_verifications_by_fid(paged!(FidRequest { fid: fid }, p)) of get_verifications_by_fid(FidRequest) = a); page!(q, p); check(q.fid == fid, "this user's verifications are asked for"); is_page(r, &ms, t); }
            2 => {
                let e = [chain(), chain()];
                let (q, r, _) = ask!(get_on_chain_signers_by_fid(paged!(FidRequest { fid: fid }, p)) of get_on_chain_signers_by_fid(FidRequest) = OnChainEventResponse { events: e.to_vec(), next_page_token: token().0 });
                page!(q, p);
                let Ok(r) = r else { check(false, "signers are reported"); return };
                check((q.fid == fid) & (r.events.len() == 2) && is_chain(&r.events[0], &e[0]) & is_chain(&r.events[1], &e[1]), "this user's signers are reported");
            }
            _ => {
                let e = [chain()];
                let k = choose("event kind", 0, 6);
                let kind = [j::OnChainEventType::EVENT_TYPE_NONE, j::OnChainEventType::EVENT_TYPE_SIGNER, j::OnChainEventType::EVENT_TYPE_SIGNER_MIGRATED, j::OnChainEventType::EVENT_TYPE_ID_REGISTER, j::OnChainEventType::EVENT_TYPE_STORAGE_RENT, j::OnChainEventType::EVENT_TYPE_TIER_PURCHASE, j::OnChainEventType::EVENT_TYPE_CHANNEL_REGISTER][k].clone();
                let (n, nt) = token();
                let (q, r, _) = ask!(get_on_chain_events_by_fid(paged!(OnChainEventRequest { fid: fid, event_type: kind }, p)) of get_on_chain_events(OnChainEventRequest) = OnChainEventResponse { events: e.to_vec(), next_page_token: n });
                page!(q, p);
                let Ok(r) = r else { check(false, "events are reported"); return };
                check((q.fid == fid) & (q.event_type == k as i32) & (r.events.len() == 1) && is_chain(&r.events[0], &e[0]), "this user's events of this kind are reported");
                is_token(&r.next_page_token, nt);
                cover("events");
            }
        }
    }
    fn c25_limits() {
        flag("fmt", 1);
        let fid = any_u64("fid");
        let s = choose("store", 0, 6);
        let u = choose("unit", 0, 2);
        let l = StorageLimit { store_type: s as i32, name: "n".into(), limit: any_u64("limit"), used: any_u64("used"), earliest_timestamp: any_u64("earliest"), earliest_hash: b2("earliest hash") };
        let d = StorageUnitDetails { unit_type: u as i32, unit_size: any_u32("unit size"), ..Default::default() };
        let td = TierDetails { tier_type: choose("tier", 0, 1) as i32, expires_at: any_u64("tier until") };
        let units = any_u32("units");
        let l0 = StorageLimit::default();
        let (q, r, _) = ask!(get_storage_limits_by_fid(j::FidRequest { fid, page_size: None, page_token: None, reverse: None, pageSize: None, pageToken: None }) of get_current_storage_limits_by_fid(FidRequest) = StorageLimitsResponse { limits: vec![l.clone(), l0], units, unit_details: vec![d.clone()], tier_subscriptions: vec![td.clone()] });
        check(q.fid == fid, "this user's limits are asked for");
        let Ok(r) = r else { check(false, "limits are reported"); return };
        check((r.limits.len() == 2) & (r.units == units) & (r.unit_details.len() == 1) & (r.tier_subscriptions.len() == 1), "every limit is reported");
        let x = &r.limits[0];
        check((x.store_type.clone() as usize == s) & (x.name == "n") & (x.limit == l.limit) & (x.used == l.used) & (x.earliest_timestamp == l.earliest_timestamp) & same(&x.earliest_hash, &l.earliest_hash), "a limit is reported as it is");
        check((r.unit_details[0].unit_type.clone() as usize == u) & (r.unit_details[0].unit_size == d.unit_size), "storage units are reported by kind");
        check((r.tier_subscriptions[0].tier_type.clone() as i32 == td.tier_type) & (r.tier_subscriptions[0].expires_at == td.expires_at), "subscriptions are reported");
        cover("limits");
    }
    fn c25_names() {
        flag("fmt", 1);
        let t = choose("name type", 0, 3);
        let names = ["USERNAME_TYPE_NONE", "USERNAME_TYPE_FNAME", "USERNAME_TYPE_ENS_L1", "USERNAME_TYPE_BASENAME"];
        let pr = UserNameProof { timestamp: any_u64("proof time"), name: b"ab".to_vec(), owner: b2("owner"), signature: b2("signature"), fid: any_u64("proof fid"), r#type: t as i32 };
        let ok = |r: &j::UserNameProof| (r.timestamp == pr.timestamp) & (r.name == "ab") & eq(&r.owner, &hex(&pr.owner)) & same(&r.signature, &pr.signature) & (r.fid == pr.fid) & (r.r#type == names[t]);
        if choose("by", 0, 1) == 0 {
            let n = any_ascii("name", 2);
            let (q, r, _) = ask!(get_user_name_proof_by_name(j::UsernameProofRequest { name: n.clone() }) of get_username_proof(UsernameProofRequest) = pr.clone());
            check(same(&q.name, n.as_bytes()), "this name is asked for");
            check(r.is_ok_and(|r| ok(&r)), "the proof is reported as it is");
        } else {
            let fid = any_u64("fid");
            let (q, r, _) = ask!(get_user_name_proofs_by_fid(j::FidRequest { fid, page_size: None, page_token: None, reverse: None, pageSize: None, pageToken: None }) of get_user_name_proofs_by_fid(FidRequest) = UsernameProofsResponse { proofs: vec![pr.clone(), pr.clone()] });
            check(q.fid == fid, "this user's names are asked for");
            check(r.is_ok_and(|r| r.proofs.len() == 2 && ok(&r.proofs[0]) & ok(&r.proofs[1])), "the proofs are reported as they are");
            cover("by fid");
        }
    }
    fn c25_submit() {
        flag("fmt", 1);
        let m = msg();
        let mut h = hyper::HeaderMap::new();
        let with = choose("credentials", 0, 1) == 1;
        if with { h.insert("authorization", "Basic dXNlcjpwYXNz".parse().unwrap()); h.insert("x-other", "1".parse().unwrap()); }
        let want = with.then_some("Basic dXNlcjpwYXNz");
        match choose("endpoint", 0, 2) {
            0 => {
                let (q, r, auth) = ask!(submit_message(m.clone(), h) of submit_message(Message) = m.clone());
                check(auth.as_deref() == want, "the caller's credentials reach the node");
                check(same(&q.hash, &m.hash) & (q.data == m.data) & same(&q.signature, &m.signature) & same(&q.signer, &m.signer), "the message reaches the node unchanged");
                check(r.is_ok_and(|r| is_msg(&r, &m)), "the message accepted is reported");
                cover("submitted");
            }
            1 => {
                let e = MessageError { hash: b2("error hash"), err_code: "bad".into(), message: "why".into() };
                use bulk_message_response::Response as BR;
                let none = choose("empty", 0, 1) == 1;
                let mut v = vec![BulkMessageResponse { response: Some(BR::Message(m.clone())) }, BulkMessageResponse { response: Some(BR::MessageError(e.clone())) }];
                if none { v.push(BulkMessageResponse { response: None }); }
                let (q, r, auth) = ask!(submit_bulk_messages(SubmitBulkMessagesRequest { messages: vec![m.clone(), Message::default()] }, h) of submit_bulk_messages(SubmitBulkMessagesRequest) = SubmitBulkMessagesResponse { messages: v });
                check(auth.as_deref() == want, "the caller's credentials reach the node");
                check((q.messages.len() == 2) && same(&q.messages[0].hash, &m.hash), "all messages reach the node in order");
                check(r.is_ok() != none, "an empty outcome is an error");
                if let Ok(r) = r {
                    check(r.messages.len() == 2, "every outcome is reported");
                    check(match &r.messages[0] { j::BulkMessageResponse::Message(x) => is_msg(x, &m), _ => false }, "an accepted message is reported");
                    check(match &r.messages[1] { j::BulkMessageResponse::Error(x) => same(&x.hash, &e.hash) & (x.err_code == "bad") & (x.message == "why"), _ => false }, "a refusal is reported with its reason");
                    cover("bulk");
                }
            }
            _ => {
                let valid = any_bool("valid");
                let (q, r, _) = ask!(validate_message(m.clone()) of validate_message(Message) = ValidationResponse { valid, message: Some(m.clone()) });
                check(same(&q.hash, &m.hash) & same(&q.signature, &m.signature), "the message reaches the node unchanged");
                check(r.is_ok_and(|r| (r.valid == valid) & r.message.is_some_and(|x| is_msg(&x, &m))), "the verdict is reported");
            }
        }
    }
    fn c25_signers() {
        flag("fmt", 1);
        let fid = any_u64("fid");
        let s = signer();
        match choose("endpoint", 0, 2) {
            0 => {
                let k = b2("signer");
                let (q, r, _) = ask!(get_signer(j::SignerHttpRequest { fid, signer: k.clone() }) of get_signer(SignerRequest) = SignerResponse { signer: Some(s.clone()) });
                check((q.fid == fid) & same(&q.signer, &k), "this signer is asked for");
                check(r.is_ok_and(|r| is_signer(&r.signer, &s)), "the signer is reported as it is");
                cover("signer");
            }
            1 => { let (_, r, _) = ask!(get_signer(j::SignerHttpRequest { fid, signer: vec![] }) of get_signer(SignerRequest) = SignerResponse { signer: None }); check(r.is_err(), "no signer is an error"); }
            _ => {
                let p = P { size: None, old_size: Some(any_u32("size")), token: Some(b2("token")), old_token: None, reverse: Some(any_bool("reverse")) };
                let old = choose("spelling", 0, 1) == 1;
                let f = [any_u64("requester"), any_u64("requester")];
                let r = j::SignersByFidHttpRequest { fid, page_size: p.size, page_token: p.token.clone(), reverse: p.reverse, requester_fids: if old { vec![] } else { f.to_vec() }, pageSize: p.old_size, pageToken: p.old_token.clone(), requesterFids: if old { f.to_vec() } else { vec![] } };
                let c = [any_u32("count"), any_u32("limit"), any_u32("nonce"), any_u32("app nonce")];
                let (n, nt) = token();
                let (q, r, _) = ask!(get_signers_by_fid(r) of get_signers_by_fid(SignersByFidRequest) = SignersByFidResponse { signers: vec![s.clone()], next_page_token: n, gasless_signer_count: c[0], gasless_signer_limit: c[1], current_user_nonce: c[2], requester_fid_nonces: [(7u64, c[3])].into_iter().collect() });
                page!(q, p);
                check((q.fid == fid) & (q.requester_fids.len() == 2) && (q.requester_fids[0] == f[0]) & (q.requester_fids[1] == f[1]), "signers of this user and nonces of these are asked for");
                let Ok(r) = r else { check(false, "signers are reported"); return };
                check((r.signers.len() == 1) && is_signer(&r.signers[0], &s), "the signers are reported as they are");
                check((r.gasless_signer_count == c[0]) & (r.gasless_signer_limit == c[1]) & (r.current_user_nonce == c[2]) & (r.requester_fid_nonces.get(&7) == Some(&c[3])), "counts and nonces are reported as they are");
                is_token(&r.next_page_token, nt);
                cover("signers");
            }
        }
    }
    fn c25_channels() {
        flag("fmt", 1);
        let fid = any_u64("fid");
        match choose("endpoint", 0, 2) {
            0 => {
                let a = ChannelOwnerResponse { fid, owner_address: b2("owner"), expiry: any_u64("expiry") };
                let (q, r, _) = ask!(get_channel_owner(j::ChannelOwnerRequest { channel_key: "k".into() }) of get_channel_owner(ChannelOwnerRequest) = a.clone());
                check(q.channel_key == "k", "this channel is asked for");
                check(r.is_ok_and(|r| (r.fid == fid) & same(&r.owner_address, &a.owner_address) & (r.expiry == a.expiry)), "the owner is reported as it is");
            }
            k => {
                let p = p();
                let c: Vec<ChannelInfo> = (0..2).map(|i| ChannelInfo { channel_key: format!("k{i}"), fid: any_u64("channel fid"), owner_address: b2("owner"), expiry: any_u64("expiry") }).collect();
                let (n, nt) = token();
                let a = ChannelsResponse { channels: c.clone(), next_page_token: n };
                let r = if k == 1 {
                    let addr = b2("address");
                    let (q, r, _) = ask!(get_channels_by_address(paged!(ChannelsByAddressRequest { owner_address: addr.clone() }, p)) of get_channels_by_address(ChannelsByAddressRequest) = a);
                    page!(q, p);
                    check(same(&q.owner_address, &addr), "channels of this address are asked for");
                    r
                } else {
                    let r = j::ChannelsByFidRequest { fid, page_size: p.size, page_token: p.token.clone(), pageSize: p.old_size, pageToken: p.old_token.clone() };
                    let (q, r, _) = ask!(get_channels_by_fid(r) of get_channels_by_fid(ChannelsByFidRequest) = a);
                    check((q.fid == fid) & (q.page_size == p.size.or(p.old_size)) & eqo(&q.page_token, &p.token.clone().or(p.old_token.clone())), "this page of this user's channels is asked for");
                    r
                };
                let Ok(r) = r else { check(false, "channels are reported"); return };
                check(r.channels.len() == 2, "every channel is reported");
                for i in 0..2 { let x = &r.channels[i]; check((x.channel_key == c[i].channel_key) & (x.fid == c[i].fid) & same(&x.owner_address, &c[i].owner_address) & (x.expiry == c[i].expiry), "a channel is reported as it is"); }
                is_token(&r.next_page_token, nt);
                cover("channels");
            }
        }
    }
    fn c25_channel_state() {
        flag("fmt", 1);
        let fid = any_u64("fid");
        let id = b2("channel");
        let st = choose("state", 0, 5);
        match choose("endpoint", 0, 3) {
            0 => {
                let ts = (choose("acted", 0, 1) == 1).then(|| any_u32("when"));
                let (q, r, _) = ask!(get_channel_member(j::ChannelMemberRequest { channel_id: id.clone(), fid }) of get_channel_member(ChannelMemberRequest) = ChannelMemberResponse { state: st as i32, last_action_ts: ts });
                check((q.fid == fid) & same(&q.channel_id, &id), "this member is asked for");
                check(r.is_ok() == (st < 5), "an unknown state is an error");
                if let Ok(r) = r { check((r.state as usize == st) & (r.last_action_ts == ts), "the member's state is reported as it is"); cover("member"); }
            }
            1 => {
                let c = choose("pinned", 0, 1) == 1;
                let pin = ChannelPin { cast_hash: b2("cast"), author_fid: fid };
                let (q, r, _) = ask!(get_channel_pin(j::ChannelIdRequest { channel_id: id.clone() }) of get_channel_pin(ChannelRequest) = ChannelPinResponse { pin: c.then(|| pin.clone()) });
                check(same(&q.channel_id, &id), "this channel is asked for");
                check(r.is_ok_and(|r| match r.pin { Some(x) => c && same(&x.cast_hash, &pin.cast_hash) & (x.author_fid == fid), None => !c }), "the pin is reported as it is");
            }
            2 => {
                let (cm, mm) = (choose("casting", 0, 3), choose("membership", 0, 2));
                let which = choose("absent", 0, 5);
                let f = |i: usize| (i != which).then(|| format!("t{i}"));
                let (q, r, _) = ask!(get_channel_metadata(j::ChannelIdRequest { channel_id: id.clone() }) of get_channel_metadata(ChannelRequest) = ChannelMetadataResponse { name: f(0), description: f(1), image_url: f(2), header: f(3), rules: f(4), casting_mode: cm as i32, membership_mode: mm as i32 });
                check(same(&q.channel_id, &id), "this channel is asked for");
                let Ok(r) = r else { check(false, "the channel is reported"); return };
                check((r.name == f(0)) & (r.description == f(1)) & (r.image_url == f(2)) & (r.header == f(3)) & (r.rules == f(4)), "each text is reported in its place");
                check((r.casting_mode.clone() as usize == cm) & (r.membership_mode.clone() as usize == mm), "the modes are reported as they are");
                cover("metadata");
            }
            _ => {
                let n = any_u64("count");
                let (q, r, _) = ask!(get_channel_follower_count(j::ChannelFollowerCountRequest { channel_id: id.clone() }) of get_channel_follower_count(ChannelFollowerCountRequest) = ChannelFollowerCountResponse { count: n });
                check(same(&q.channel_id, &id) && r.is_ok_and(|r| r.count == n), "the count is reported as it is");
                let y = any_bool("following");
                let at = (choose("since", 0, 1) == 1).then(|| any_u32("since when"));
                let (q, r, _) = ask!(is_following_channel(j::IsFollowingChannelRequest { fid, channel_id: id.clone() }) of is_following_channel(IsFollowingChannelRequest) = IsFollowingChannelResponse { following: y, followed_at: at });
                check(same(&q.channel_id, &id) & (q.fid == fid), "this follow is asked for");
                check(r.is_ok_and(|r| (r.following == y) & (r.followed_at == at)), "the follow is reported as it is");
            }
        }
    }
    fn c25_channel_lists() {
        flag("fmt", 1);
        let fid = any_u64("fid");
        let id = b2("channel");
        let p = p();
        let (n, nt) = token();
        let x = [any_u64("a"), any_u64("b")];
        let w = [any_u32("at"), any_u32("at")];
        let h = [b2("hash"), b2("hash")];
        match choose("endpoint", 0, 4) {
            0 => {
                let st = choose("state", 0, 5);
                let fs = choose("filter", 0, 2);
                use j::ChannelMemberState::*;
                let flt = [None, Some(CHANNEL_MEMBER_STATE_BANNED), Some(CHANNEL_MEMBER_STATE_MEMBER)][fs];
                let a = ChannelMembersResponse { members: vec![ChannelMember { fid: x[0], state: st as i32 }, ChannelMember { fid: x[1], state: 1 }], next_page_token: n };
                let (q, r, _) = ask!(get_channel_members(paged!(ChannelMembersRequest { channel_id: id.clone(), state_filter: flt }, p)) of get_channel_members(ChannelMembersRequest) = a);
                page!(q, p);
                check(same(&q.channel_id, &id) & (q.state_filter == [None, Some(4), Some(1)][fs]), "members of this channel in this state are asked for");
                check(r.is_ok() == (st < 5), "an unknown state is an error");
                if let Ok(r) = r { check((r.members.len() == 2) && (r.members[0].fid == x[0]) & (r.members[1].fid == x[1]) & (r.members[0].state as usize == st) & (r.members[1].state as usize == 1), "the members are reported as they are"); is_token(&r.next_page_token, nt); cover("members"); }
            }
            1 => {
                let ac = choose("action", 0, 2);
                let a = ChannelModerationsResponse { moderations: vec![ChannelModeration { cast_hash: h[0].clone(), action: ac as i32, author_fid: x[0] }, ChannelModeration { cast_hash: h[1].clone(), action: 1, author_fid: x[1] }], next_page_token: n };
                let (q, r, _) = ask!(get_channel_moderations(paged!(ChannelModerationsRequest { channel_id: id.clone() }, p)) of get_channel_moderations(ChannelModerationsRequest) = a);
                page!(q, p);
                check(same(&q.channel_id, &id), "this channel's moderations are asked for");
                let Ok(r) = r else { check(false, "moderations are reported"); return };
                check((r.moderations.len() == 2) && same(&r.moderations[0].cast_hash, &h[0]) & (r.moderations[0].author_fid == x[0]) & (r.moderations[0].action.clone() as usize == ac) & same(&r.moderations[1].cast_hash, &h[1]), "the moderations are reported as they are");
                is_token(&r.next_page_token, nt);
            }
            2 => {
                let a = ChannelMembershipsResponse { memberships: vec![ChannelMembership { channel_id: h[0].clone(), state: 2 }, ChannelMembership { channel_id: h[1].clone(), state: 3 }], next_page_token: n };
                let (q, r, _) = ask!(get_channel_memberships_by_fid(paged!(ChannelMembershipsByFidRequest { fid: fid }, p)) of get_channel_memberships_by_fid(ChannelMembershipsByFidRequest) = a);
                page!(q, p);
                check(q.fid == fid, "this user's memberships are asked for");
                let Ok(r) = r else { check(false, "memberships are reported"); return };
                check((r.memberships.len() == 2) && same(&r.memberships[0].channel_id, &h[0]) & same(&r.memberships[1].channel_id, &h[1]) & (r.memberships[0].state as usize == 2) & (r.memberships[1].state as usize == 3), "the memberships are reported as they are");
                is_token(&r.next_page_token, nt);
            }
            3 => {
                let a = ChannelFollowersResponse { followers: vec![ChannelFollower { fid: x[0], followed_at: w[0] }, ChannelFollower { fid: x[1], followed_at: w[1] }], next_page_token: n };
                let (q, r, _) = ask!(get_channel_followers(paged!(ChannelFollowersRequest { channel_id: id.clone() }, p)) of get_channel_followers(ChannelFollowersRequest) = a);
                page!(q, p);
                check(same(&q.channel_id, &id), "this channel's followers are asked for");
                let Ok(r) = r else { check(false, "followers are reported"); return };
                check((r.followers.len() == 2) && (r.followers[0].fid == x[0]) & (r.followers[1].fid == x[1]) & (r.followers[0].followed_at == w[0]) & (r.followers[1].followed_at == w[1]), "the followers are reported as they are");
                is_token(&r.next_page_token, nt);
            }
            _ => {
                let a = ChannelFollowsResponse { follows: vec![ChannelFollow { channel_id: h[0].clone(), followed_at: w[0] }, ChannelFollow { channel_id: h[1].clone(), followed_at: w[1] }], next_page_token: n };
                let (q, r, _) = ask!(get_channel_follows(paged!(ChannelFollowsRequest { fid: fid }, p)) of get_channel_follows(ChannelFollowsRequest) = a);
                page!(q, p);
                check(q.fid == fid, "this user's follows are asked for");
                let Ok(r) = r else { check(false, "follows are reported"); return };
                check((r.follows.len() == 2) && same(&r.follows[0].channel_id, &h[0]) & same(&r.follows[1].channel_id, &h[1]) & (r.follows[0].followed_at == w[0]) & (r.follows[1].followed_at == w[1]), "the follows are reported as they are");
                is_token(&r.next_page_token, nt);
                cover("follows");
            }
        }
    }
    fn c25_node() {
        flag("fmt", 1);
        let p = p();
        match choose("endpoint", 0, 5) {
            0 => {
                let v = [any_u64("a"), any_u64("b")];
                let s = any_u32("shard");
                let (n, nt) = token();
                let (q, r, _) = ask!(get_fids(paged!(GetFidsRequest { shard_id: s }, p)) of get_fids(FidsRequest) = FidsResponse { fids: v.to_vec(), next_page_token: n });
                page!(q, p);
                let Ok(r) = r else { check(false, "users are reported"); return };
                check((q.shard_id == s) & (r.fids.len() == 2) && (r.fids[0] == v[0]) & (r.fids[1] == v[1]), "the users of this shard are reported");
                is_token(&r.next_page_token, nt);
            }
            1 => {
                let d = DbStats { num_messages: any_u64("messages"), num_fid_registrations: any_u64("registrations"), approx_size: any_u64("size") };
                let s = ShardInfo { shard_id: any_u32("shard"), max_height: any_u64("height"), num_messages: any_u64("shard messages"), num_fid_registrations: any_u64("shard registrations"), approx_size: any_u64("shard size"), block_delay: any_u64("delay"), mempool_size: any_u64("mempool"), ..Default::default() };
                let a = GetInfoResponse { version: "1.2".into(), db_stats: Some(d.clone()), peer_id: "p".into(), num_shards: any_u32("shards"), shard_infos: vec![s.clone()], next_engine_version_timestamp: any_u64("next version") };
                let (_, r, _) = ask!(get_info(j::InfoRequest {}) of get_info(GetInfoRequest) = a.clone());
                let Ok(r) = r else { check(false, "the node's state is reported"); return };
                let x = r.db_stats.unwrap();
                check((x.num_messages == d.num_messages) & (x.num_fid_registrations == d.num_fid_registrations) & (x.approx_size == d.approx_size), "the totals are reported");
                check((r.version == "1.2") & (r.peer_id == "p") & (r.num_shards == a.num_shards) & (r.next_engine_version_timestamp == a.next_engine_version_timestamp) & (r.shard_infos.len() == 1), "the node's state is reported");
                let x = &r.shard_infos[0];
                check((x.shard_id == s.shard_id) & (x.max_height == s.max_height) & (x.num_messages == s.num_messages) & (x.num_fid_registrations == s.num_fid_registrations) & (x.approx_size == s.approx_size) & (x.block_delay == s.block_delay) & (x.mempool_size == s.mempool_size), "a shard's state is reported");
                cover("info");
            }
            2 => {
                let (s, st) = (any_u64("from"), any_u64("until"));
                let sh = any_u32("shard");
                let some = choose("given", 0, 1) == 1;
                let e: Vec<HubEvent> = (0..2).map(|_| HubEvent { r#type: 11, id: any_u64("id"), block_number: any_u64("number"), shard_index: any_u32("index"), body: Some(hub_event::Body::BlockConfirmedBody(BlockConfirmedBody::default())), ..Default::default() }).collect();
                let (q, r, _) = ask!(get_events(paged!(EventsRequest { start_id: s, shard_index: some.then_some(sh), stop_id: some.then_some(st) }, p)) of get_events(EventsRequest) = EventsResponse { events: e.clone(), next_page_token: None });
                page!(q, p);
                check((q.start_id == s) & (q.shard_index == some.then_some(sh)) & (q.stop_id == some.then_some(st)), "these events are asked for");
                check(r.is_ok_and(|r| (r.events.len() == 2) && (r.events[0].id == e[0].id) & (r.events[1].id == e[1].id) & (r.events[1].block_number == e[1].block_number)), "the events are reported in order");
                let id = any_u64("event");
                let (q, r, _) = ask!(get_event_by_id(j::EventRequest { event_id: id, shard_index: sh }) of get_event(EventRequest) = e[0].clone());
                check((q.id == id) & (q.shard_index == sh), "this event is asked for");
                check(r.is_ok_and(|r| (r.id == e[0].id) & (r.shard_index == e[0].shard_index)), "the event is reported");
                cover("events");
            }
            3 => {
                let a = b2("address");
                let e = chain();
                let (q, r, _) = ask!(get_id_registry_on_chain_event_by_address(j::IdRegistryEventByAddressRequest { address: a.clone() }) of get_id_registry_on_chain_event_by_address(IdRegistryEventByAddressRequest) = e.clone());
                check(same(&q.address, &a) && r.is_ok_and(|r| is_chain(&r, &e)), "the registration of this address is reported");
            }
            4 => {
                let a = b2("address");
                let fid = any_u64("fid");
                let t = FidAddressTypeResponse { is_custody: any_bool("custody"), is_auth: any_bool("auth"), is_verified: any_bool("verified") };
                let (q, r, _) = ask!(get_fid_address_type(j::FidAddressTypeRequest { fid, address: a.clone() }) of get_fid_address_type(FidAddressTypeRequest) = t.clone());
                check(same(&q.address, &a) & (q.fid == fid), "this address and user are asked for");
                check(r.is_ok_and(|r| (r.is_custody == t.is_custody) & (r.is_auth == t.is_auth) & (r.is_verified == t.is_verified)), "the roles of an address are reported as they are");
            }
            _ => {
                let id = libp2p::PeerId::from_bytes(&[0, 2, 8, 1]).unwrap();
                let c = ContactInfoBody { gossip_address: "g".into(), peer_id: id.to_bytes(), snapchain_version: "v".into(), network: 3, timestamp: any_u64("time"), announce_rpc_address: "r".into() };
                let src = any_i32("source");
                let bad = choose("malformed", 0, 1) == 1;
                let c2 = ContactInfoBody { peer_id: if bad { vec![9] } else { id.to_bytes() }, ..c.clone() };
                let pr = ConnectedPeer { source: src, contact_info: Some(c2), peer_id: id.to_bytes(), observed_address: "o".into() };
                let d = ConnectedPeer { source: 2, contact_info: None, peer_id: vec![0xab], observed_address: "o2".into() };
                let (_, r, _) = ask!(get_connected_peers(GetConnectedPeersRequest {}) of get_connected_peers(GetConnectedPeersRequest) = GetConnectedPeersResponse { contacts: vec![c.clone()], peers: vec![pr, d] });
                check(r.is_ok() != bad, "a malformed peer id is refused");
                if let Ok(r) = r {
                    let ok = |x: &j::ContactInfoBody| (x.gossip_address == "g") & (x.announce_rpc_address == "r") & (x.peer_id == id.to_string()) & (x.snapchain_version == "v") & (x.network == FarcasterNetwork::Devnet) & (x.timestamp == c.timestamp);
                    check((r.contacts.len() == 1) & (r.peers.len() == 2) && ok(&r.contacts[0]) & ok(r.peers[0].contact_info.as_ref().unwrap()), "contacts are reported as they are");
                    let want = if src == 1 { "collected" } else if src == 2 { "derived" } else { "unknown" };
                    check((r.peers[0].source == want) & (r.peers[0].observed_address == "o") & (r.peers[0].peer_id == id.to_string()), "a peer is reported with its source");
                    check((r.peers[1].source == "derived") & (r.peers[1].peer_id == "ab") & r.peers[1].contact_info.is_none(), "a derived peer has no contact");
                    cover("peers");
                }
            }
        }
    }
    fn c25_failures() {
        let c = choose("code", 1, 16) as i32;
        let fid = any_u64("fid");
        let id = || vec![1u8];
        let fr = || j::FidRequest { fid, page_size: None, page_token: None, reverse: None, pageSize: None, pageToken: None };
        let e = match choose("endpoint", 0, 12) {
            0 => fails!(c, get_channel_member(j::ChannelMemberRequest { channel_id: id(), fid })),
            1 => fails!(c, get_channel_pin(j::ChannelIdRequest { channel_id: id() })),
            2 => fails!(c, get_channel_metadata(j::ChannelIdRequest { channel_id: id() })),
            3 => fails!(c, get_channel_follower_count(j::ChannelFollowerCountRequest { channel_id: id() })),
            4 => fails!(c, is_following_channel(j::IsFollowingChannelRequest { fid, channel_id: id() })),
            5 => fails!(c, get_channel_members(paged!(ChannelMembersRequest { channel_id: id(), state_filter: None }, P { size: None, token: None, reverse: None, old_size: None, old_token: None }))),
            6 => fails!(c, get_channel_followers(paged!(ChannelFollowersRequest { channel_id: id() }, P { size: None, token: None, reverse: None, old_size: None, old_token: None }))),
            7 => fails!(c, get_channel_follows(paged!(ChannelFollowsRequest { fid: fid }, P { size: None, token: None, reverse: None, old_size: None, old_token: None }))),
            8 => fails!(c, get_channel_moderations(paged!(ChannelModerationsRequest { channel_id: id() }, P { size: None, token: None, reverse: None, old_size: None, old_token: None }))),
            9 => fails!(c, get_channel_memberships_by_fid(paged!(ChannelMembershipsByFidRequest { fid: fid }, P { size: None, token: None, reverse: None, old_size: None, old_token: None }))),
            10 => { fails!(c, get_info(j::InfoRequest {})); fails!(c, get_casts_by_mention(fr())); fails!(c, get_user_data_by_fid(fr())); fails!(c, get_storage_limits_by_fid(fr())); return }
            11 => { fails!(c, submit_message(Message::default(), hyper::HeaderMap::new())); fails!(c, validate_message(Message::default())); fails!(c, get_verifications_by_fid(fr())); return }
            _ => { fails!(c, get_event_by_id(j::EventRequest { event_id: fid, shard_index: 1 })); fails!(c, get_signer(j::SignerHttpRequest { fid, signer: id() })); fails!(c, get_user_name_proofs_by_fid(fr())); fails!(c, get_on_chain_signers_by_fid(fr())); return }
        };
        let Some(e) = e else { return };
        // unknown (2), internal (13) and data loss (15) are the node's fault
        check(e.status == if c == 2 || c == 13 || c == 15 { Some(hyper::StatusCode::INTERNAL_SERVER_ERROR) } else { None }, "the node's own failures are told from the caller's");
        cover("failure");
    }
    fn c25_query() {
        flag("fmt", 1);
        // the documented parameter names, in both spellings; a token's plus sign may arrive as a space
        fn q<T: serde::de::DeserializeOwned>(s: &str) -> Option<T> { serde_qs::from_str(s).ok() }
        let r = q::<j::FidRequest>("fid=5&page_size=3&page_token=%2B%2F8%3D&reverse=true").unwrap();
        check((r.fid == 5) & (r.page_size == Some(3)) & (r.page_token == Some(vec![0xfb, 0xff])) & (r.reverse == Some(true)) & r.pageSize.is_none() & r.pageToken.is_none(), "paging parameters are read");
        let r = q::<j::FidRequest>("fid=5&pageSize=3&pageToken=+/8=").unwrap();
        check((r.pageSize == Some(3)) & (r.pageToken == Some(vec![0xfb, 0xff])) & r.page_size.is_none() & r.page_token.is_none() & r.reverse.is_none(), "old paging parameters are read, a plus sign too");
        check(q::<j::FidRequest>("fid=5&page_token=").is_some_and(|r| r.page_token.is_none()), "an empty token is no token");
        check(q::<j::FidRequest>("fid=5&page_token=*").is_none() & q::<j::FidRequest>("page_size=1").is_none() & q::<j::FidRequest>("fid=-1").is_none(), "a malformed request is refused");
        let r = q::<j::FidTimestampRequest>("fid=5&start_timestamp=1&stopTimestamp=2").unwrap();
        check((r.start_timestamp == Some(1)) & (r.stopTimestamp == Some(2)), "time parameters are read");
        let r = q::<j::CastsByParentRequest>("fid=5&hash=0xab&url=u").unwrap();
        check((r.fid == Some(5)) & (r.hash.as_deref() == Some("0xab")) & (r.url.as_deref() == Some("u")), "a parent is read");
        let r = q::<j::ReactionRequest>("fid=5&target_fid=6&target_hash=ab&target_url=u&reaction_type=Recast").unwrap();
        check((r.fid == 5) & (r.target_fid == Some(6)) & (r.target_hash.as_deref() == Some("ab")) & (r.target_url.as_deref() == Some("u")) & (r.reaction_type == ReactionType::Recast), "a reaction is read");
        let r = q::<j::SignerHttpRequest>("fid=5&signer=0x0aff").unwrap();
        check((r.fid == 5) & (r.signer == BYTES), "a key is read as hex");
        check(q::<j::SignerHttpRequest>("fid=5&signer=0AFF").is_some_and(|r| r.signer == BYTES) & q::<j::SignerHttpRequest>("fid=5&signer=0xaf0").is_none(), "hex is read with or without prefix, and refused when malformed");
        let r = q::<j::ChannelMembersRequest>("channelId=0x0aff&stateFilter=CHANNEL_MEMBER_STATE_BANNED&page_size=2").unwrap();
        check((r.channel_id == BYTES) & (r.state_filter.map(|x| x as i32) == Some(4)) & (r.page_size == Some(2)), "a channel and a state are read");
        check(q::<j::ChannelMembersRequest>("channelId=0x0aff&state_filter=CHANNEL_MEMBER_STATE_MEMBER").is_some_and(|r| r.state_filter.map(|x| x as i32) == Some(1)), "the other spelling is read");
        let r = q::<j::EventsRequest>("from_event_id=9&shard_index=1&stop_id=3").unwrap();
        check((r.start_id == 9) & (r.shard_index == Some(1)) & (r.stop_id == Some(3)), "an event range is read");
        let r = q::<j::OnChainEventRequest>("fid=5&event_type=EVENT_TYPE_STORAGE_RENT").unwrap();
        check((r.fid == 5) & (r.event_type as i32 == 4), "an event kind is read");
        check(q::<j::ChannelsByAddressRequest>("address=0x0aff").is_some_and(|r| r.owner_address == BYTES), "an address is read");
        check(q::<j::IsFollowingChannelRequest>("fid=5&channelId=0aff").is_some_and(|r| (r.channel_id == BYTES) & (r.fid == 5)), "a follow is read");
        cover("query");
    }
    fn c25_forms() {
        flag("fmt", 1);
        fn is<T: serde::Serialize>(v: T, want: serde_json::Value) { check(serde_json::to_value(&v).unwrap() == want, "a reply has the documented form"); }
        use serde_json::json;
        let h = vec![0xab];
        is(j::GetFidsResponse { fids: vec![1], next_page_token: Some("t".into()) }, json!({"fids": [1], "nextPageToken": "t"}));
        is(j::GetFidsResponse { fids: vec![], next_page_token: None }, json!({"fids": []}));
        is(j::PagedResponse { messages: vec![], next_page_token: Some("".into()) }, json!({"messages": [], "nextPageToken": ""}));
        is(j::OnChainEventResponse { events: vec![], next_page_token: Some("t".into()) }, json!({"events": [], "nextPageToken": "t"}));
        is(j::ChannelOwnerResponse { fid: 1, owner_address: h.clone(), expiry: 2 }, json!({"fid": 1, "ownerAddress": "0xab", "expiry": 2}));
        is(j::ChannelsResponse { channels: vec![j::ChannelInfo { channel_key: "k".into(), fid: 1, owner_address: h.clone(), expiry: 2 }], next_page_token: None }, json!({"channels": [{"channelKey": "k", "fid": 1, "ownerAddress": "0xab", "expiry": 2}]}));
        is(j::ChannelMemberResponse { state: j::ChannelMemberState::CHANNEL_MEMBER_STATE_MODERATOR, last_action_ts: Some(3) }, json!({"state": "CHANNEL_MEMBER_STATE_MODERATOR", "lastActionTs": 3}));
        is(j::ChannelMembersResponse { members: vec![j::ChannelMember { fid: 1, state: j::ChannelMemberState::CHANNEL_MEMBER_STATE_REMOVED }], next_page_token: Some("t".into()) }, json!({"members": [{"fid": 1, "state": "CHANNEL_MEMBER_STATE_REMOVED"}], "nextPageToken": "t"}));
        is(j::ChannelPinResponse { pin: None }, json!({"pin": null}));
        is(j::ChannelPinResponse { pin: Some(j::ChannelPin { cast_hash: h.clone(), author_fid: 1 }) }, json!({"pin": {"castHash": "0xab", "authorFid": 1}}));
        is(j::ChannelModerationsResponse { moderations: vec![j::ChannelModeration { cast_hash: h.clone(), action: j::ChannelModerateAction::CHANNEL_MODERATE_ACTION_HIDE, author_fid: 1 }], next_page_token: None }, json!({"moderations": [{"castHash": "0xab", "action": "CHANNEL_MODERATE_ACTION_HIDE", "authorFid": 1}]}));
        is(j::ChannelMetadataResponse { name: None, description: Some("d".into()), image_url: Some("i".into()), header: None, rules: None, casting_mode: j::CastingMode::CASTING_MODE_RECOMMENDED, membership_mode: j::MembershipMode::MEMBERSHIP_MODE_OPEN }, json!({"name": null, "description": "d", "imageUrl": "i", "header": null, "rules": null, "castingMode": "CASTING_MODE_RECOMMENDED", "membershipMode": "MEMBERSHIP_MODE_OPEN"}));
        is(j::ChannelMembershipsResponse { memberships: vec![j::ChannelMembership { channel_id: h.clone(), state: j::ChannelMemberState::CHANNEL_MEMBER_STATE_MEMBER }], next_page_token: None }, json!({"memberships": [{"channelId": "0xab", "state": "CHANNEL_MEMBER_STATE_MEMBER"}]}));
        is(j::ChannelFollowersResponse { followers: vec![j::ChannelFollower { fid: 1, followed_at: 2 }], next_page_token: None }, json!({"followers": [{"fid": 1, "followedAt": 2}]}));
        is(j::ChannelFollowerCountResponse { count: 5 }, json!({"count": 5}));
        is(j::ChannelFollowsResponse { follows: vec![j::ChannelFollow { channel_id: h.clone(), followed_at: 2 }], next_page_token: None }, json!({"follows": [{"channelId": "0xab", "followedAt": 2}]}));
        is(j::IsFollowingChannelResponse { following: true, followed_at: Some(1) }, json!({"following": true, "followedAt": 1}));
        is(j::IsFollowingChannelResponse { following: false, followed_at: None }, json!({"following": false}));
        is(j::MessageError { hash: h.clone(), err_code: "e".into(), message: "m".into() }, json!({"hash": "0xab", "errCode": "e", "message": "m"}));
        is(j::UserNameProof { timestamp: 1, name: "n".into(), owner: "0x01".into(), signature: vec![1], fid: 2, r#type: "T".into() }, json!({"timestamp": 1, "name": "n", "owner": "0x01", "signature": "AQ==", "fid": 2, "type": "T"}));
        is(ErrorResponse { error: "e".into(), error_detail: Some("d".into()), status: Some(hyper::StatusCode::OK) }, json!({"error": "e", "error_detail": "d"}));
        is(j::ShardInfo { shard_id: 1, max_height: 2, num_messages: 3, num_fid_registrations: 4, approx_size: 5, block_delay: 6, mempool_size: 7 }, json!({"shardId": 1, "maxHeight": 2, "numMessages": 3, "numFidRegistrations": 4, "approxSize": 5, "blockDelay": 6, "mempoolSize": 7}));
        is(j::Signer { source: j::SignerSource::SIGNER_SOURCE_OFFCHAIN, key: h.clone(), key_type: 1, fid: 2, added_at: Some(3), last_used_at: Some(4), ttl: Some(5), expires_at: Some(6), scopes: vec!["S".into()], request_fid: Some(7), nonce: Some(8), onchain_event: None }, json!({"source": "SIGNER_SOURCE_OFFCHAIN", "key": "0xab", "keyType": 1, "fid": 2, "addedAt": 3, "lastUsedAt": 4, "ttl": 5, "expiresAt": 6, "scopes": ["S"], "requestFid": 7, "nonce": 8}));
        is(j::SignersByFidResponse { signers: vec![], next_page_token: None, gasless_signer_count: 1, gasless_signer_limit: 2, current_user_nonce: 3, requester_fid_nonces: [(4u64, 5u32)].into_iter().collect() }, json!({"signers": [], "gaslessSignerCount": 1, "gaslessSignerLimit": 2, "currentUserNonce": 3, "requesterFidNonces": {"4": 5}}));
        is(j::FidAddressTypeResponse { is_custody: true, is_auth: false, is_verified: true }, json!({"is_custody": true, "is_auth": false, "is_verified": true}));
        cover("forms");
    }
}
