//! bounds: up to three scopes of every value, every message type, every ttl
use crate::{com::*, entries, vf::*};
use snapchain::proto::{self, message_data::Body, MessageType};
use snapchain::storage::store::account::*;

entries! {
    fn c19_admits() {
        let t = any_u8("type") as i32;
        assume(MessageType::try_from(t).is_ok());
        let ty = MessageType::try_from(t).unwrap();
        let (mask, ttl) = (any_u64("mask"), any_u32("ttl"));
        check(ActiveKey::OnChain.admits(ty), "an on-chain key may sign every type");
        check(ActiveKey::Gasless { scopes_mask: mask, ttl_seconds: ttl }.admits(ty) == (mask >> t & 1 == 1), "a gasless key may sign exactly the types in its scope");
        check(!ActiveKey::Gasless { scopes_mask: 0, ttl_seconds: ttl }.admits(ty), "a key without scope may sign nothing");
        cover("admits");
    }
}
