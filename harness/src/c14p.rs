//! bounds: every user id, time, type byte; 24-byte positions; link types of up to 10 ASCII characters; casts of up to 2 mentions; event fields of all values; channel ids of up to 40 bytes
use crate::{c14::*, com::*, entries, vf::*};
use snapchain::proto::{self, link_body, message_data::Body, MessageData};
use snapchain::storage::store::account::*;
use snapchain::storage::store::account::{link_store::LinkStore, onchain_event_store::*, block_event_store::*, storage_lend_store::*, username_proof_store::*, user_data_store::*, cast_store::*, reaction_store::*, channel_store::*};

fn msg(fid: u64, body: Body) -> proto::Message { proto::Message { data: Some(MessageData { fid, body: Some(body), ..Default::default() }), ..Default::default() } }
fn padded(t: &str) -> Vec<u8> { let mut v = t.as_bytes().to_vec(); v.resize(8, 0); v }

entries! {
    fn c14_link() {
        let n = choose("type length", 0, 10);
        let t = any_ascii("type", n);
        let (f, g, h) = (any_u32("fid"), any_u32("target"), any_arr::<24>("ts hash"));
        let has = choose("target", 0, 1) == 1;
        let b = proto::LinkBody { r#type: t.clone(), display_timestamp: None, target: if has { Some(link_body::Target::TargetFid(g as u64)) } else { None } };
        let (a, r) = (LinkStore::link_add_key(f as u64, &b), LinkStore::link_remove_key(f as u64, &b));
        if n > 8 || (n == 0 && has) { check(a.is_err() && r.is_err(), "a link of no or an overlong type has no row"); cover("refused"); }
        else {
            let (Ok(a), Ok(r)) = (a, r) else { check(false, "a link has a row"); return };
            let (mut x, mut y) = (K::user(f, 89).s(&padded(&t)), K::user(f, 90).s(&padded(&t)));
            if has { x = x.u(g); y = y.u(g); }
            check(x.is(&a) && y.is(&r), "a link's row names user, type and target");
            match LinkStore::link_compact_state_add_key(f as u64, &t) { Ok(c) => check(K::user(f, 100).s(&padded(&t)).is(&c), "a compacted state's row names user and type"), Err(_) => check(false, "a compacted state has a row") }
            let m = msg(f as u64, Body::LinkBody(b.clone()));
            let (Ok(ma), Ok(mr)) = (LinkStore::make_add_key(&m), LinkStore::make_remove_key(&m)) else { check(false, "a link message has a row"); return };
            check(same(&ma, &a) && same(&mr, &r), "a link message has its link's row");
            cover("row");
        }
        let tgt = link_body::Target::TargetFid(g as u64);
        let ok = LinkStore::links_by_target_key(&tgt, f as u64, Some(&h));
        if conc_bool(f == 0) { check(ok.is_err(), "a position without a user is no row"); }
        else { match ok { Ok(k) => check(K::n(6).u(g).s(&h).u(f).is(&k), "a link is found under its target, in time order"), Err(_) => check(false, "a link is found under its target") }
            check(LinkStore::links_by_target_key(&tgt, f as u64, None).is_err(), "a user without a position is no row"); }
        match LinkStore::links_by_target_key(&tgt, 0, None) { Ok(k) => check(K::n(6).u(g).is(&k), "a target's links share a prefix"), Err(_) => check(false, "a target's links share a prefix") }
    }
    fn c14_secondary() {
        let (f, g, h) = (any_u32("fid"), any_u32("target"), any_arr::<24>("ts hash"));
        assume(f != 0);
        let (ty, ch) = (any_u8("type"), any_arr::<20>("target hash"));
        let def = LinkStore { prune_size_limit: 0 };
        match def.secondary_index_key(&h, &msg(f as u64, Body::LinkBody(proto::LinkBody { r#type: "ab".into(), display_timestamp: None, target: Some(link_body::Target::TargetFid(g as u64)) }))) {
            Ok((k, v)) => check(K::n(6).u(g).s(&h).u(f).is(&k) && v == b"ab", "a link message is indexed under its target with its type"), Err(_) => check(false, "a link message is indexed") }
        let def = ReactionStoreDef { prune_size_limit: 0, registrar: None };
        match def.secondary_index_key(&h, &msg(f as u64, Body::ReactionBody(proto::ReactionBody { r#type: ty as i32, target: Some(proto::reaction_body::Target::TargetCastId(cast(g, &ch))) }))) {
            Ok((k, v)) => check(K::n(7).u(g).s(&ch).s(&h).u(f).is(&k) && v == ty, "a reaction message is indexed under its target with its kind"), Err(_) => check(false, "a reaction message is indexed") }
        let def = CastStoreDef { prune_size_limit: 0 };
        let n = choose("mentions", 0, 2);
        let ms: Vec<u32> = (0..n).map(|_| any_u32("mention")).collect();
        let c = msg(f as u64, Body::CastAddBody(proto::CastAddBody { mentions: ms.iter().map(|x| *x as u64).collect(), parent: Some(proto::cast_add_body::Parent::ParentCastId(cast(g, &ch))), ..Default::default() }));
        match def.by_parent_secondary_index_key(&h, &c) { Ok(Some(k)) => check(K::n(4).u(g).s(&ch).s(&h).u(f).is(&k), "a reply is indexed under its parent"), _ => check(false, "a reply is indexed under its parent") }
        match def.by_mention_secondary_index_key(&h, &c) {
            Ok(None) => check(n == 0, "mentions are indexed"),
            Ok(Some(v)) => { let mut e = v.len() == n; for (k, m) in v.iter().zip(&ms) { e &= K::n(5).u(*m).s(&h).u(f).is(k); } check(e, "each mention is indexed under the mentioned user"); }
            Err(_) => check(false, "mentions are indexed"),
        }
        let r = msg(f as u64, Body::CastRemoveBody(proto::CastRemoveBody { target_hash: vec![1; 20] }));
        check(matches!(def.by_parent_secondary_index_key(&h, &r), Ok(None)) && matches!(def.by_mention_secondary_index_key(&h, &r), Ok(None)), "a removal is not indexed as a cast");
        cover("indexed");
    }
    fn c14_user_rows() {
        let (f, g) = (any_u32("fid"), any_u32("other"));
        let t = any_u8("type");
        let k = UserDataStoreDef::make_user_data_adds_key(f as u64, t as i32);
        if conc_bool(t > 0) { check(K::user(f, 97).b(t).is(&k), "a profile field's row names user and field"); } else { check(K::user(f, 97).is(&k), "a profile's rows share a prefix"); }
        let n = choose("name length", 0, 4);
        let a = any_vec("name", n);
        check(K::n(16).s(&a).is(&UsernameProofStoreDef::make_username_proof_by_name_key(&a)), "a name proof is found under its name");
        check(K::user(f, 99).s(&a).is(&UsernameProofStoreDef::make_username_proof_by_fid_key(f as u64, &a)), "a name proof's row names user and name");
        check(K::user(f, 101).u(g).is(&StorageLendStoreDef::make_storage_lend_primary_key(f as u64, g as u64)), "a loan's row names lender and borrower");
        match StorageLendStoreDef::by_borrower_secondary_index_key(&msg(f as u64, Body::LendStorageBody(proto::LendStorageBody { to_fid: g as u64, num_units: 1, unit_type: 1 }))) {
            Ok(k) => {
                check(K::n(22).u(g).u(f).is(&k), "a loan is found under its borrower");
                check((StorageLendStoreDef::read_borrower_from_secondary_key(&k) == g as u64) & (StorageLendStoreDef::read_lender_from_secondary_key(&k) == f as u64), "both parties come back from the row");
            }
            Err(_) => check(false, "a loan is found under its borrower"),
        }
        cover("rows");
    }
    fn c14_onchain() {
        let t = any_u8("type") & 7;
        let (f, b, l) = (any_u32("fid"), any_u32("block"), any_u32("log"));
        let e = proto::OnChainEvent { r#type: t as i32, fid: f as u64, block_number: b, log_index: l, tx_index: any_u32("tx"), block_timestamp: any_u64("time"), ..Default::default() };
        let ty = proto::OnChainEventType::try_from(t as i32).map(|x| x as u8).unwrap_or(0);
        check(K::n(12).b(1).b(ty).u(f).u(b).u(l).is(&make_onchain_event_primary_key(&e)), "an on-chain event's row names kind, user and place in the chain");
        check(K::n(12).b(52).u(f).is(&make_id_register_by_fid_key(f as u64)), "a registration is found under its user");
        let k = any_arr::<32>("key");
        check(K::n(12).b(51).u(f).s(&k).is(&make_signer_onchain_event_by_signer_key(f as u64, k.to_vec())), "a signer is found under user and key");
        let n = choose("name length", 0, 4);
        let s = any_ascii("channel key", n);
        let (lab, own) = (any_arr::<32>("label"), any_arr::<20>("owner"));
        check(K::n(12).b(55).s(s.as_bytes()).is(&make_channel_register_by_channel_key(&s)), "a channel is found under its key");
        check(K::n(12).b(56).s(&lab).is(&make_channel_register_channel_key_by_label_key(&lab)), "a channel is found under its label");
        check(K::n(12).b(57).s(&own).s(s.as_bytes()).is(&make_channel_register_by_owner_address_key(&own, &s)), "a channel is found under its owner");
        check(K::n(12).b(57).s(&own).is(&make_channel_register_by_owner_address_prefix(&own)), "an owner's channels share a prefix");
        cover("event");
    }
    fn c14_blocks() {
        let (n, m) = (any_u64("n"), any_u64("m"));
        let s = any_u32("shard");
        use snapchain::storage::store::{block, shard};
        check(K::n(19).l(n).is(&make_block_event_key(n)), "a block event is kept by number");
        check(K::n(1).l(n).is(&block::make_block_key(n)) && K::n(2).l(n).is(&shard::make_shard_key(n)), "a block is kept by number");
        check((block::make_block_key(n) < block::make_block_key(m)) == (n < m), "blocks are kept in order");
        check((shard::make_shard_key(n) < shard::make_shard_key(m)) == (n < m), "shard chunks are kept in order");
        check((make_block_event_key(n) < make_block_event_key(m)) == (n < m), "block events are kept in order");
        check(K::n(18).u(s).l(n).is(&block::make_block_timestamp_index(s, n)) && K::n(18).u(s).l(n).is(&shard::make_block_timestamp_index(s, n)), "blocks are found by shard and time");
        cover("blocks");
    }
    fn c14_channel_rows() {
        let i = choose("index", 0, 40);
        let (f, id) = (any_u32("fid"), any_vec("channel", i));
        let by = ChannelMemberStoreDef::make_member_by_fid_key(f as u64, &id);
        if i == 32 {
            let Ok(k) = by else { check(false, "a membership is found under its member"); return };
            check(k.len() == 38 && same(&k[2..6], &f.to_be_bytes()) && same(&k[6..], &id), "a membership is found under its member");
            cover("row");
        }
        let wide = any_u64("wide fid");
        check(ChannelMemberStoreDef::make_member_by_fid_key(wide, &[1; 32]).is_ok() == (wide <= u32::MAX as u64), "a member fits the row");
    }
}
