//! bounds: every user, time, channel, reaction type, target kind and body kind; follows and unfollows in every order of two
use crate::{com::*, entries, vf::*};
use alloy_primitives::Address;
use snapchain::core::channel_uri::*;
use snapchain::proto::{self, message_data::Body, reaction_body::Target, Message, MessageData, ReactionBody};
use snapchain::storage::db::RocksDbTransactionBatch;
use snapchain::storage::store::account::*;

fn reg() -> ChannelRegistrar { ChannelRegistrar { chain_id: 1, address: Address::from([0xcd; 20]) } }
fn msg(b: Option<Body>) -> Message { Message { data: Some(MessageData { body: b, fid: 3, ..Default::default() }), ..Default::default() } }

entries! {
    fn c20_which() {
        flag("fmt", 1);
        let ty = any_i32("type");
        let (kind, there) = (choose("target", 0, 3), choose("registrar", 0, 1) == 1);
        let url = ChannelAssetId::for_channel(&reg(), [7; 32]).canonical_string();
        let target = match kind { 0 => None, 1 => Some(Target::TargetCastId(proto::CastId { fid: 1, hash: vec![7; 20] })), 2 => Some(Target::TargetUrl("https://example.com/".into())), _ => Some(Target::TargetUrl(url)) };
        let def = ReactionStoreDef { prune_size_limit: 10, registrar: if there { Some(reg()) } else { None } };
        let r = def.follow_channel_id(&msg(Some(Body::ReactionBody(ReactionBody { r#type: ty, target }))));
        check(r.is_some() == ((ty == 1) & (kind == 3) & there), "a follow is a like of a channel, nothing else");
        if let Some(r) = r { check(r == [7; 32], "the follow is of the channel liked"); cover("follow"); } else { cover("other"); }
        check(def.follow_channel_id(&msg(None)).is_none() && def.follow_channel_id(&Message::default()).is_none() && def.follow_channel_id(&msg(Some(Body::CastRemoveBody(Default::default())))).is_none(), "other messages follow nothing");
    }
    fn c20_keep() {
        let (f, g) = (any_u32("fid") as u64, any_u32("other fid") as u64);
        let (c, d) = (any_arr::<32>("channel"), any_arr::<32>("other channel"));
        let (s, t) = (any_u32("time"), any_u32("other time"));
        let (a, b) = (ReactionStoreDef::make_follow_by_fid_key(f, &c), ReactionStoreDef::make_follow_by_channel_key(&c, f));
        let mut x = RocksDbTransactionBatch::new();
        ReactionStoreDef::insert_follow(&mut x, f, &c, s);
        for k in [&a, &b] { check(matches!(x.batch.get(k), Some(Some(v)) if same(v, &s.to_be_bytes())), "a follow is in both lists with its time"); }
        check(x.len() == 2, "a follow is two rows");
        let eq = conc_bool((f == g) & same(&c, &d));
        if choose("then", 0, 1) == 0 {
            ReactionStoreDef::insert_follow(&mut x, g, &d, t);
            let want = if eq { t } else { s };
            for k in [&a, &b] { check(matches!(x.batch.get(k), Some(Some(v)) if same(v, &want.to_be_bytes())), "a renewed follow has the new time, another leaves it alone"); }
            check(x.len() == if eq { 2 } else { 4 }, "each follow has its own rows");
            cover("renew");
        } else {
            ReactionStoreDef::remove_follow(&mut x, g, &d);
            for k in [&a, &b] { check(if eq { matches!(x.batch.get(k), Some(None)) } else { matches!(x.batch.get(k), Some(Some(v)) if same(v, &s.to_be_bytes())) }, "an unfollow removes that follow from both lists, no other"); }
            check(x.len() == if eq { 2 } else { 4 }, "each unfollow is two rows");
            cover("unfollow");
        }
    }
}
