//! bounds: every enum value; channel ids of 0 to 2 and 32 arbitrary bytes, every user id; every pair of slots; labels up to 40 bytes
use crate::{com::*, entries, vf::*};
use snapchain::proto::{self, message_data::Body, CastingMode, ChannelMemberAction, MembershipMode, Message, MessageData, MessageType};
use snapchain::storage::constants::UserPostfix;
use snapchain::storage::store::account::channel_store::*;
use snapchain::storage::store::account::onchain_event_store::{validate_channel_key_label, validate_channel_label};
use snapchain::storage::store::block_engine::*;
use ChannelMemberState as S;

fn id(name: &str) -> Vec<u8> { let n = pick("id length", &[0, 1, 2, 32]); any_vec(name, n) }
fn of(t: MessageType, fid: u64, b: Option<Body>) -> Message { Message { data: Some(MessageData { r#type: t as i32, fid, timestamp: 1, network: 3, body: b }), signature_scheme: 1, ..Default::default() } }
fn update(id: &[u8], c: Option<i32>, m: Option<i32>) -> Body { Body::ChannelUpdateBody(proto::ChannelUpdateBody { channel_id: id.to_vec(), casting_mode: c, membership_mode: m, ..Default::default() }) }
fn member(id: &[u8], fid: u64, action: i32) -> Body { Body::ChannelMemberBody(proto::ChannelMemberBody { channel_id: id.to_vec(), fid, action, ..Default::default() }) }
fn pin(id: &[u8]) -> Body { Body::ChannelPinBody(proto::ChannelPinBody { channel_id: id.to_vec(), ..Default::default() }) }
fn moderate(id: &[u8], hash: &[u8], action: i32) -> Body { Body::ChannelModerateBody(proto::ChannelModerateBody { channel_id: id.to_vec(), cast_hash: hash.to_vec(), action, ..Default::default() }) }
fn cat(v: &[&[u8]]) -> Vec<u8> { v.concat() }

entries! {
    fn c18_modes() {
        let (c, m) = (any_i32("casting"), any_i32("membership"));
        let (hc, hm) = (any_bool("has casting"), any_bool("has membership"));
        let b = proto::ChannelUpdateBody { casting_mode: if conc_bool(hc) { Some(c) } else { None }, membership_mode: if conc_bool(hm) { Some(m) } else { None }, ..Default::default() };
        let r = fold_channel_modes(&b);
        let known = (!hc | CastingMode::try_from(c).is_ok()) & (!hm | MembershipMode::try_from(m).is_ok());
        check(r.is_ok() == known, "an unknown mode is refused");
        if let Ok((rc, rm)) = r {
            check(if hc & (c != 0) { rc as i32 == c } else { rc == CastingMode::MembersOnly }, "an unset casting mode is the strictest");
            check(if hm & (m != 0) { rm as i32 == m } else { rm == MembershipMode::Approval }, "an unset membership mode is the strictest");
            cover("modes");
        } else { cover("refused"); }
    }
    fn c18_states() {
        let a = any_i32("action");
        let m = of(MessageType::ChannelMember, 1, Some(member(&[1], 2, a)));
        let want = match ChannelMemberAction::try_from(a) {
            Ok(ChannelMemberAction::AddMember | ChannelMemberAction::RemoveModerator) => Some(S::Member), Ok(ChannelMemberAction::AddModerator) => Some(S::Moderator),
            Ok(ChannelMemberAction::RemoveMember | ChannelMemberAction::Unban) => Some(S::Removed), Ok(ChannelMemberAction::Ban) => Some(S::Banned), _ => None };
        check(member_state_for_message(&m).ok() == want, "a member action leads to its state");
        let m = of(MessageType::ChannelModerate, 1, Some(moderate(&[1], &[2], a)));
        let want = if a == 1 { Some(ChannelModerationState::Hidden) } else if a == 2 { Some(ChannelModerationState::Visible) } else { None };
        check(moderation_state_for_message(&m).ok() == want, "a moderation leads to its state");
        check(member_state_for_message(&m).is_err() && moderation_state_for_message(&of(MessageType::ChannelPin, 1, Some(pin(&[1])))).is_err(), "other messages lead to no state");
        cover("states");
    }
    fn c18_slots() {
        let (ch, fid, target, hash) = (id("channel"), any_u32("fid") as u64, any_u64("target"), any_vec_upto("hash", 0, 2));
        let m = of(MessageType::ChannelMember, fid, Some(member(&ch, target, 1)));
        let s = member_slot_suffix(&m);
        check(s.is_ok() == (target <= u32::MAX as u64), "a member slot is for a real user");
        if let Ok(s) = &s { check(same(s, &cat(&[&ch, &(target as u32).to_be_bytes()])), "one slot per channel and member"); }
        let h = of(MessageType::ChannelModerate, fid, Some(moderate(&ch, &hash, 1)));
        check(same(&moderate_slot_suffix(&h).unwrap(), &cat(&[&ch, &hash])), "one slot per channel and cast");
        let u = of(MessageType::ChannelUpdate, fid, Some(update(&ch, None, None)));
        let p = of(MessageType::ChannelPin, fid, Some(pin(&ch)));
        check(same(&update_slot_suffix(&u).unwrap(), &ch) && same(&pin_slot_suffix(&p).unwrap(), &ch), "one slot per channel");
        check(update_slot_suffix(&p).is_err() && pin_slot_suffix(&u).is_err() && member_slot_suffix(&h).is_err() && moderate_slot_suffix(&m).is_err(), "a slot is for its own kind of message");
        let suffix = any_vec_upto("suffix", 0, 2);
        for (x, n) in [(UserPostfix::ChannelUpdateAdds, 108u8), (UserPostfix::ChannelMemberAdds, 109), (UserPostfix::ChannelPinAdds, 110), (UserPostfix::ChannelModerateAdds, 111)] {
            
            check(same(&author_slot_key(&u, x, &suffix).unwrap(), &cat(&[&[3], &(fid as u32).to_be_bytes(), &[n], &suffix])), "a user's slot lies under the user");
           
        }
        check(author_slot_key(&Message::default(), UserPostfix::ChannelPinMessage, &suffix).is_err(), "a message without data has no slot");
        cover("slots");
    }
    fn c18_index_rows() {
        let (ch, suffix) = (id("channel"), any_vec_upto("suffix", 0, 2));
        for (x, n) in [(ChannelIndex::MemberSlot, 2u8), (ChannelIndex::PinSlot, 3), (ChannelIndex::ModerateSlot, 4), (ChannelIndex::MemberSlotCount, 5), (ChannelIndex::ModerateSlotCount, 6), (ChannelIndex::LiveModeratorCount, 7), (ChannelIndex::MemberByFid, 8)] {
            check(same(&channel_index_key(x, &ch, &suffix), &cat(&[&[24, n], &ch, &suffix])), "each channel list has rows of its own");
        }
        let (fid, ts) = (any_u64("fid"), any_arr::<24>("ts hash"));
        let r = encode_slot_pointer(&of(MessageType::ChannelPin, fid, None), &ts);
        check(r.is_ok() == (fid <= u32::MAX as u64), "a pointer is to a real user's message");
        if let Ok(r) = r { check(same(&r, &cat(&[&(fid as u32).to_be_bytes(), &ts])), "a pointer names author and message"); cover("pointer"); }
    }
    fn c18_kinds() {
        let (b, t, ty, sch) = (choose("body", 0, 4), choose("expected", 0, 3), any_i32("type"), any_i32("scheme"));
        let exp = [MessageType::ChannelUpdate, MessageType::ChannelMember, MessageType::ChannelPin, MessageType::ChannelModerate][t];
        let mut m = of(exp, 1, match b { 0 => Some(update(&[1], None, None)), 1 => Some(member(&[1], 2, 1)), 2 => Some(pin(&[1])), 3 => Some(moderate(&[1], &[2], 1)), _ => None });
        m.data.as_mut().unwrap().r#type = ty;
        m.signature_scheme = sch;
        check(is_channel_message(&m, exp) == ((b == t) & (ty == exp as i32) & (sch == 1)), "a channel message is of its type, with its body, signed by a key");
        check(!is_channel_message(&Message::default(), exp), "a message without data is no channel message");
        if b == t { cover("match"); } else { cover("mismatch"); }
    }
    fn c18_labels() {
        let l = blob("label", 40);
        check(validate_channel_label(&l) == (l.len() == 32), "a channel label has 32 bytes");
        let n = choose("key length", 0, 3);
        let key = any_ascii("key", n);
        let want = alloy_keccak(key.as_bytes());
        let l = any_arr::<32>("label of key");
        check(validate_channel_key_label(&key, &l) == same(&l, &want), "a label is the hash of its channel's key");
        check(validate_channel_key_label(&key, &want), "the hash of the key is its label");
        check(!validate_channel_key_label(&key, &want[..31]), "a shortened label is refused");
        cover("labels");
    }
}
fn alloy_keccak(b: &[u8]) -> [u8; 32] { alloy_primitives::keccak256(b).0 }
