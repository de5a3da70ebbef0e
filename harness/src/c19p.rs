//! bounds: up to three scopes of every value, every message type, every ttl
use crate::{com::*, entries, vf::*};
use snapchain::proto::{self, message_data::Body, KeyAddBody, Message, MessageData, MessageType};
use snapchain::storage::store::account::active_key::*;

entries! {
    fn c19_scopes() {
        let n = choose("scopes", 0, 3);
        let s: Vec<i32> = (0..n).map(|_| any_i32("scope")).collect();
        let mask = compute_scopes_mask(&s);
        let bit = any_u8("bit") as i32;
        assume(bit < 64);
        let mut has = false;
        for x in &s { has |= *x == bit; }
        check((mask >> bit & 1 == 1) == has, "a key's scope is exactly the types listed");
        let ttl = any_u32("ttl");
        let body = KeyAddBody { scopes: s.clone(), ttl, key: vec![1], ..Default::default() };
        let m = Message { data: Some(MessageData { body: Some(Body::KeyAddBody(body)), ..Default::default() }), ..Default::default() };
        let Some((m2, t2)) = extract_scope_and_ttl(&Some(m)) else { check(false, "a key addition gives the key's scope"); return };
        check((m2 == mask) & (t2 == ttl), "a key's scope and ttl are those it was added with");
        let other = Message { data: Some(MessageData { body: Some(Body::KeyRemoveBody(Default::default())), ..Default::default() }), ..Default::default() };
        check(extract_scope_and_ttl(&Some(other)).is_none() && extract_scope_and_ttl(&None).is_none() && extract_scope_and_ttl(&Some(Message::default())).is_none(), "without a key addition there is no scope");
        // what the key then may sign
        let k = ActiveKey::Gasless { scopes_mask: mask, ttl_seconds: ttl };
        for t in 1..=21 { if let Ok(ty) = MessageType::try_from(t) { let mut listed = false; for x in &s { listed |= *x == t; } check(k.admits(ty) == listed, "a gasless key may sign exactly the types it was added for"); } }
        cover("scope");
    }
}
