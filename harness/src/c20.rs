//! bounds: every user, version, registrar chain and address; every pair of follows
use crate::{com::*, entries, vf::*};
use alloy_primitives::Address;
use snapchain::core::channel_uri::*;
use snapchain::storage::store::account::*;
use snapchain::version::version::*;

entries! {
    fn c20_gate() {
        let v = any_version();
        let g = FollowIndexGate::for_merge(&MergeContext { version: v });
        check((g == FollowIndexGate::Write) == v.is_enabled(ProtocolFeature::ChannelFollows), "follows are listed exactly from the version on that introduces them");
        check(g.writes_follow_index() == (g == FollowIndexGate::Write), "an open gate writes");
        check(!FollowIndexGate::no_follow_carrier().writes_follow_index(), "other messages list no follow");
        cover("gate");
    }
    fn c20_target() {
        flag("fmt", 1);
        // a follow is read the same whatever else the registrar or the token is
        let reg = ChannelRegistrar { chain_id: any_u64("registrar chain"), address: Address::from(any_arr::<20>("registrar")) };
        let id = [[0u8; 32], [0xff; 32], [0x80; 32]][choose("token", 0, 2)];
        let f = ChannelAssetId::for_channel(&ChannelRegistrar { chain_id: 1, address: Address::from([0xcd; 20]) }, id);
        let r = channel_id_for_follow_target(&f.canonical_string(), &reg);
        check(r.is_some() == ((reg.chain_id == 1) & same(reg.address.as_slice(), &[0xcd; 20])), "only the registrar's tokens can be followed");
        if let Some(r) = r { check(r == id, "the follow is of that channel"); cover("follow"); }
    }
    fn c20_rows() {
        let (f, g) = (any_u32("fid"), any_u32("other fid"));
        let (c, d) = (any_arr::<32>("channel"), any_arr::<32>("other channel"));
        let (a, b) = (ReactionStoreDef::make_follow_by_fid_key(f as u64, &c), ReactionStoreDef::make_follow_by_channel_key(&c, f as u64));
        let (x, y) = (ReactionStoreDef::make_follow_by_fid_key(g as u64, &d), ReactionStoreDef::make_follow_by_channel_key(&d, g as u64));
        let eq = (f == g) & same(&c, &d);
        check((same(&a, &x) == eq) & (same(&b, &y) == eq), "one follow per user and channel in both lists");
        check(!same(&a, &y) & !same(&b, &x), "the two lists do not share rows");
        cover("rows");
    }
}
