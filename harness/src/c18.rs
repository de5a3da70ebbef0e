//! bounds: every action, role, target state, mode and flag; up to three system messages of every position and kind, every version
use crate::{com::*, entries, vf::*};
use snapchain::proto::{self, ChannelMemberAction as A, MembershipMode, MessageType, OnChainEvent, ValidatorMessage};
use snapchain::storage::store::account::*;
use snapchain::storage::store::block_engine::*;
use snapchain::version::version::*;
use ChannelAuthorRole as R;
use ChannelAuthorityDecision as D;
use ChannelMemberState as S;

entries! {
    fn c18_authority() {
        let ac = choose("action", 0, 6);
        let (r, t, m) = (choose("role", 0, 3), choose("target", 0, 4), choose("mode", 0, 2));
        let (me, own) = (any_bool("self"), any_bool("owner is target"));
        let action = A::try_from(ac as i32).unwrap();
        let role = [R::Owner, R::Moderator, R::Member, R::Other][r];
        let target = [None, Some(S::Member), Some(S::Moderator), Some(S::Removed), Some(S::Banned)][t];
        let mode = [MembershipMode::None, MembershipMode::Open, MembershipMode::Approval][m];
        let d = channel_member_authority(action, role, target, IsSelf(me), mode, TargetIsOwner(own));
        let (owner, staff) = (r == 0, r <= 1);
        let outside = t == 0 || t == 3;
        let banned = t == 4;
        // the state the target must be in, and who may act on it
        let (state_ok, may) = match action {
            A::None => (false, false),
            A::AddMember => (outside, staff | (me & (mode == MembershipMode::Open))),
            A::RemoveMember => if t == 1 { (true, staff | me) } else { (t == 2 && me, me) },
            A::AddModerator => (outside || t == 1, owner),
            A::RemoveModerator => (t == 2, owner),
            A::Ban => (!banned, if t == 2 { owner } else { staff }),
            A::Unban => (banned, staff),
        };
        let vain = (action == A::Ban) & own;
        check((d == D::Allowed) == (state_ok & may & !vain), "a member action is allowed exactly to those who may take it on a target in a fitting state");
        if action != A::None {
            check(vain == (d == D::OwnerUnbannable), "the owner cannot be banned");
            check((!vain & banned & (action != A::Unban)) == (d == D::Banned), "a banned user can only be unbanned");
            check((d == D::Unauthorized) <= !may, "only the unauthorised are told so");
        }
        if state_ok { cover(match action { A::AddMember => "add member", A::RemoveMember => "remove member", A::AddModerator => "add moderator", A::RemoveModerator => "remove moderator", A::Ban => "ban", A::Unban => "unban", A::None => "none" }); }
        else { cover("refused"); }
    }
    fn c18_replay_order() {
        let n = choose("messages", 0, 3);
        let mut v = vec![];
        for i in 0..n {
            let e = if choose("is event", 0, 1) == 1 { Some(OnChainEvent { block_number: any_u32("block"), log_index: any_u32("log"), tx_index: i as u32, ..Default::default() }) } else { None };
            v.push(ValidatorMessage { on_chain_event: e, block_event: Some(proto::BlockEvent { data: None, hash: vec![i as u8] }), ..Default::default() });
        }
        let version = any_version();
        let id = |m: &ValidatorMessage| m.block_event.as_ref().unwrap().hash[0] as usize;
        let r = block_engine_system_messages_for_replay(&v, version);
        check(r.len() == n, "replay neither drops nor adds messages");
        let mut seen = vec![0u8; n];
        for m in r.iter() { seen[id(m)] += 1; }
        let mut once = true;
        for s in &seen { once &= *s == 1; }
        check(once, "each message is replayed once");
        if conc_bool(version.is_enabled(ProtocolFeature::SortedBlockEngineEvents)) {
            for w in r.windows(2) {
                let (a, b) = (&w[0], &w[1]);
                match (&a.on_chain_event, &b.on_chain_event) {
                    (Some(x), Some(y)) => {
                        let (p, q) = ((x.block_number, x.log_index), (y.block_number, y.log_index));
                        check((p < q) | ((p == q) & (id(a) < id(b))), "chain events are replayed in chain order");
                        cover("events");
                    }
                    (None, Some(_)) => check(false, "chain events are replayed before the rest"),
                    (None, None) => { check(id(a) < id(b), "other messages keep their order"); cover("others"); }
                    _ => cover("mixed"),
                }
            }
        } else {
            for (i, m) in r.iter().enumerate() { check(id(m) == i, "before the change messages are replayed as they came"); }
            cover("before");
        }
    }
    fn c18_admission() {
        let id = any_vec_upto("channel", 0, 2);
        let (u, m, p, h) = (
            proto::ChannelUpdateBody { channel_id: id.clone(), ..Default::default() }, proto::ChannelMemberBody { channel_id: id.clone(), ..Default::default() },
            proto::ChannelPinBody { channel_id: id.clone(), ..Default::default() }, proto::ChannelModerateBody { channel_id: id.clone(), ..Default::default() });
        for b in [ChannelAdmissionBody::Update(&u), ChannelAdmissionBody::Member(&m), ChannelAdmissionBody::Pin(&p), ChannelAdmissionBody::Moderate(&h)] { check(same(b.channel_id(), &id), "a message acts on the channel it names"); }
        let on = any_bool("enabled");
        check((DerivedIndexGate::when_channel_messages_enabled(on) == DerivedIndexGate::Write) == on, "channel lists are kept exactly once channels are enabled");
        cover("channel");
    }
}
