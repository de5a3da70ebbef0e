//! bounds: every FID below 2^32 (all that is stored); every message type; message hashes of 20 bytes, transaction hashes of 32 bytes, every log index; names of up to 4 symbolic bytes without zero bytes (and up to 20 concrete)
//! assume: sha256 is a function (uninterpreted on symbolic input)
use crate::{com::*, entries, vf::*};
use snapchain::proto::{self, hub_event, message_data::Body, MessageData};
use snapchain::storage::trie::merkle_trie::TrieKey;

fn msg(ty: i32, fid: u64, hash: Vec<u8>) -> proto::Message { proto::Message { data: Some(MessageData { r#type: ty, fid, ..Default::default() }), hash, ..Default::default() } }
fn known_type(ty: i32) -> bool { ((ty >= 1) & (ty <= 8)) | ((ty >= 11) & (ty <= 21)) }
fn any_msg(i: &str) -> proto::Message { let ty = any_i32("type"); assume(known_type(ty)); msg(ty, any_u32("fid") as u64, any_arr::<20>(i).to_vec()) }
/// any entry: its key and what it stands for (kind, fid, rest)
fn any_item() -> (Vec<u8>, u8, u32, Vec<u8>) {
    match choose("item", 0, 2) {
        0 => { let m = any_msg("hash"); let d = m.data.as_ref().unwrap(); let mut k = TrieKey::for_message(&m); check(k.len() == 1, "one key"); (k.remove(0), 100 + d.r#type as u8, d.fid as u32, m.hash.clone()) }
        1 => {
            let ty = any_i32("event type"); assume((ty >= 1) & (ty <= 6));
            let e = proto::OnChainEvent { r#type: ty, fid: any_u32("fid") as u64, transaction_hash: any_arr::<32>("tx").to_vec(), log_index: any_u32("log"), block_number: any_u32("block"), ..Default::default() };
            let mut r = e.transaction_hash.clone(); r.extend(e.log_index.to_be_bytes());
            (TrieKey::for_onchain_event(&e), ty as u8, e.fid as u32, r)
        }
        _ => {
            let n = choose("name length", 0, 3);
            let s = any_ascii("name", n);
            assume(all(s.as_bytes(), |c| c != 0));
            let f = any_u32("fid");
            (TrieKey::for_fname(f as u64, &s), 50, f, s.into_bytes())
        }
    }
}

entries! {
    fn c10_layout() {
        let (k, kind, fid, rest) = any_item();
        let mut want = vec![TrieKey::fid_shard(fid as u64)];
        want.extend(fid.to_be_bytes());
        want.push(if kind >= 100 { (kind - 100) << 3 } else if kind == 50 { 7 } else { kind });
        want.extend(&rest);
        if kind == 50 { want.resize(26, 0); }
        check(same(&k, &want), "the published key layout: virtual shard, user, kind, identity");
        let d = TrieKey::decode(&k).unwrap_or_else(|_| { check(false, "every key decodes"); loop {} });
        check((d.virtual_shard == k[0]) & (d.fid == fid as u64) & same(&d.rest, &want[6..]), "a key decodes to its parts");
        check(d.message_type == if kind >= 100 { Some(kind - 100) } else { None }, "messages decode as messages");
        check(d.onchain_message_type == if kind >= 100 { None } else if kind == 50 { Some(7) } else { Some(kind) }, "events and names decode as such");
        cover("layout");
    }
    fn c10_distinct() {
        let (a, b) = (any_item(), any_item());
        let eq = (a.1 == b.1) & (a.2 == b.2) & same(&a.3, &b.3);
        check(same(&a.0, &b.0) == eq, "different entries have different keys, equal entries equal keys");
        let n = a.0.len().min(b.0.len());
        check(!same(&a.0[..n], &b.0[..n]) | (a.0.len() == b.0.len()), "no key is a prefix of another");
        if eq { cover("equal"); } else { cover("different"); }
    }
    fn c10_short() {
        let n = choose("length", 0, 13);
        check(TrieKey::decode(&any_vec("key", n)).is_ok() == (n >= 12), "short keys are refused");
        cover("short");
    }
    fn c10_lend() {
        let (f, to) = (any_u32("fid") as u64, any_u32("to") as u64);
        let mut m = msg(15, f, any_arr::<20>("hash").to_vec());
        m.data.as_mut().unwrap().body = Some(Body::LendStorageBody(proto::LendStorageBody { to_fid: to, num_units: any_u64("units"), unit_type: any_i32("unit") }));
        let k = TrieKey::for_message(&m);
        let other = TrieKey::for_message(&msg(15, to, m.hash.clone()));
        check(k.len() == 2 && same(&k[0], &TrieKey::for_message(&msg(15, f, m.hash.clone()))[0]) & same(&k[1], &other[0]), "a lend is recorded with the lender and the borrower");
        cover("lend");
    }
    fn c10_events() {
        // what each event adds to and removes from the state root
        let (m, d1, d2) = (any_msg("hash"), any_msg("deleted"), any_msg("deleted'"));
        let key = |m: &proto::Message| TrieKey::for_message(m).remove(0);
        let (km, k1, k2) = (key(&m), key(&d1), key(&d2));
        let oc = proto::OnChainEvent { r#type: 3, fid: any_u32("fid") as u64, transaction_hash: any_arr::<32>("tx").to_vec(), log_index: any_u32("log"), ..Default::default() };
        let ko = TrieKey::for_onchain_event(&oc);
        let (mut ins, mut del): (Vec<Vec<u8>>, Vec<Vec<u8>>) = (vec![], vec![]);
        let kind = choose("kind", 0, 7);
        let body = match kind {
            0 => { let n = choose("deleted", 0, 2); ins = vec![km]; del = vec![k1, k2]; del.truncate(n); let mut deleted_messages = vec![d1, d2]; deleted_messages.truncate(n);
                   hub_event::Body::MergeMessageBody(proto::MergeMessageBody { message: Some(m), deleted_messages }) }
            1 => { ins = vec![ko]; hub_event::Body::MergeOnChainEventBody(proto::MergeOnChainEventBody { on_chain_event: Some(oc) }) }
            2 => { del = vec![km]; hub_event::Body::PruneMessageBody(proto::PruneMessageBody { message: Some(m) }) }
            3 => { del = vec![km]; hub_event::Body::RevokeMessageBody(proto::RevokeMessageBody { message: Some(m) }) }
            4 => hub_event::Body::MergeFailure(proto::MergeFailureBody { message: Some(m), ..Default::default() }),
            5 => hub_event::Body::BlockConfirmedBody(proto::BlockConfirmedBody::default()),
            6 => hub_event::Body::ChannelOwnerChangeHintBody(Default::default()),
            _ => { ins = vec![km]; del = vec![k1]; hub_event::Body::MergeUsernameProofBody(proto::MergeUserNameProofBody { username_proof: None, deleted_username_proof: None, username_proof_message: Some(m), deleted_username_proof_message: Some(d1) }) }
        };
        let (i, d) = TrieKey::for_hub_event(&proto::HubEvent { r#type: any_i32("type"), id: any_u64("id"), block_number: any_u64("block"), shard_index: any_u32("shard"), timestamp: any_u64("timestamp"), body: Some(body) });
        check(i.len() == ins.len() && d.len() == del.len(), "what an event changes");
        if i.len() == ins.len() && d.len() == del.len() {
            let mut e = true;
            for (a, b) in i.iter().zip(&ins) { e &= same(a, b); }
            for (a, b) in d.iter().zip(&del) { e &= same(a, b); }
            check(e, "an event adds the merged entry and removes the displaced ones");
        }
        cover("event");
    }
    fn c10_fname_events() {
        let (ty, ty2) = (any_i32("type"), any_i32("type'"));
        let (f, f2) = (any_u32("fid") as u64, any_u32("fid'") as u64);
        let p = |ty, fid, name: &[u8]| proto::UserNameProof { r#type: ty, fid, name: name.to_vec(), ..Default::default() };
        let (has, gone) = (conc_bool(any_bool("has")), conc_bool(any_bool("gone")));
        let body = proto::MergeUserNameProofBody { username_proof: has.then(|| p(ty, f, b"alice")), deleted_username_proof: gone.then(|| p(ty2, f2, b"bob")), username_proof_message: None, deleted_username_proof_message: None };
        let (i, d) = TrieKey::for_hub_event(&proto::HubEvent { body: Some(hub_event::Body::MergeUsernameProofBody(body)), ..Default::default() });
        let (wi, wd) = (has & (ty == 1) & (f != 0), gone & (ty2 == 1));
        check((i.len() == wi as usize) & (d.len() == wd as usize), "an fname enters the trie when someone gets it and leaves when it is taken");
        if i.len() == 1 { check(same(&i[0], &TrieKey::for_fname(f, &"alice".to_string())), "under its own key"); cover("added"); }
        if d.len() == 1 { check(same(&d[0], &TrieKey::for_fname(f2, &"bob".to_string())), "under its own key"); cover("removed"); }
    }
}
