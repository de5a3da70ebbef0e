//! bounds: every store of messages but the channel stores; three messages of one kind and one user about different subjects, with any timestamps of four varint bytes and any hashes, plus one of another user; prune limits 0 to 4
use crate::{entries, st::*, store, vf::*};
use snapchain::proto::{self, hub_event::Body as Ev};
use snapchain::storage::db::RocksDbTransactionBatch as Txn;
use snapchain::storage::store::account::*;

type Msg = proto::Message;
fn revoke<T: StoreDef + Clone>(s: &Store<T>, m: &Msg) -> proto::HubEvent {
    let mut txn = Txn::new();
    let e = s.revoke(m, &mut txn).unwrap();
    s.db().commit(txn).unwrap();
    e
}
/// the event tells of exactly this message going
fn tells(e: &proto::HubEvent, m: &Msg, pruned: bool) -> bool {
    match e.body.as_ref().unwrap() {
        Ev::RevokeMessageBody(b) => !pruned && e.r#type == proto::HubEventType::RevokeMessage as i32 && b.message.as_ref() == Some(m),
        Ev::PruneMessageBody(b) => pruned && e.r#type == proto::HubEventType::PruneMessage as i32 && b.message.as_ref() == Some(m),
        Ev::MergeUsernameProofBody(b) => e.r#type == proto::HubEventType::MergeUsernameProof as i32 && b.deleted_username_proof_message.as_ref() == Some(m) && b.username_proof.is_none() && b.username_proof_message.is_none() && b.deleted_username_proof.is_some(),
        _ => false,
    }
}

/// a key, with any first and last byte
fn ends() -> [u8; 32] { let b: [u8; 2] = any_arr("key ends"); let mut k = [0x44; 32]; k[0] = b[0]; k[31] = b[1]; k }

entries! {
    fn c27_revoke() {
        let kind = choose("kind", 0, 9);
        split(kind as u64);
        let h = hashes();
        let ms: Vec<Msg> = (0..3).map(|i| sample(kind, i, if i == 2 { 8 } else { 7 }, ts("t"), &h[i])).collect();
        store!(kind, "b", s, { run(&s, &[&ms[1], &ms[2]]); });
        store!(kind, "a", s, {
            run(&s, &[&ms[0], &ms[1], &ms[2]]);
            check(!same_rows("a", "b"), "merging leaves something");
            let e = revoke(&s, &ms[0]);
            check(tells(&e, &ms[0], false), "the event tells of the message");
            check(same_rows("a", "b"), "a revoked message leaves nothing");
            check(put(&s, &ms[0]).is_ok(), "it may come again");
        });
        cover("done");
    }
    fn c27_signer() {
        let kind = choose("kind", 0, 9);
        split(kind as u64);
        let h = hashes();
        let key = ends();
        let by = choose("by", 0, 7);
        split(by as u64);
        let other = ends();
        assume(!same(&key, &other));
        let mut ms: Vec<Msg> = (0..3).map(|i| sample(kind, i, 7, ts("t"), &h[i])).collect();
        assume((ts_of(&ms[0]) < ts_of(&ms[1])) & (ts_of(&ms[1]) < ts_of(&ms[2]))); // every subset of them is covered
        for i in 0..3 { ms[i].signer = if by >> i & 1 == 1 { key } else { other }.to_vec(); }
        let mut z = sample(kind, 4, 8, 3 << 21, &[7; 20]);
        z.signer = key.to_vec();
        store!(kind, "b", s, { put(&s, &z).unwrap(); for i in 0..3 { if by >> i & 1 == 0 { put(&s, &ms[i]).unwrap(); } } });
        store!(kind, "a", s, {
            run(&s, &[&z, &ms[0], &ms[1], &ms[2]]);
            let mut txn = Txn::new();
            let ev = s.revoke_messages_by_signer(7, &key.to_vec(), &mut txn).unwrap();
            s.db().commit(txn).unwrap();
            check(ev.len() == by.count_ones() as usize, "one event per revoked message");
            for i in 0..3 { check(ev.iter().any(|e| tells(e, &ms[i], false)) == (by >> i & 1 == 1), "each of the key's messages has its event"); }
            check(same_rows("a", "b"), "this user's messages by this key are gone, all others stay");
        });
        cover("done");
    }
    fn c27_prune() {
        let kind = choose("kind", 0, 9);
        split(kind as u64);
        let h = hashes();
        let max = choose("max", 0, 4);
        let rank = choose("rank", 0, 5);
        split((max * 6 + rank) as u64);
        let o = ORDERS[rank];
        let ms: Vec<Msg> = (0..3).map(|i| sample(kind, i, 7, ts("t"), &h[i])).collect();
        for (i, j) in [(o[0], o[1]), (o[1], o[2])] { assume((ts_of(&ms[i]) < ts_of(&ms[j])) | ((ts_of(&ms[i]) == ts_of(&ms[j])) & later(&h[j], &h[i]))); }
        let z = sample(kind, 4, 8, 3 << 21, &[7; 20]);
        let gone = 3usize.saturating_sub(max);
        store!(kind, "b", s, { put(&s, &z).unwrap(); for i in gone..3 { put(&s, &ms[o[i]]).unwrap(); } });
        store!(kind, "a", s, {
            run(&s, &[&z, &ms[0], &ms[1], &ms[2]]);
            let mut txn = Txn::new();
            let ev = s.prune_messages(7, 3, max as u32, &mut txn).unwrap();
            s.db().commit(txn).unwrap();
            check(ev.len() == gone, "as many events as messages over the limit");
            for i in 0..gone { check(tells(&ev[i], &ms[o[i]], true), "oldest first"); }
            check(same_rows("a", "b"), "the newest stay, up to the limit");
        });
        cover("done");
    }
    fn c27_compact() {
        // a link compact state is revoked as a whole and never pruned
        let t = ts("t");
        let h: [u8; 20] = any_arr("h");
        let c = msg(7, proto::MessageType::LinkCompactState, t, &h, proto::message_data::Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: "follow".into(), target_fids: vec![9] }));
        let mk = |n: &str| LinkStore::new(db(n), StoreEventHandler::new(), 100);
        let a = mk("a");
        put(&a, &c).unwrap();
        let mut txn = Txn::new();
        check(a.prune_message(&c, &mut txn).unwrap().is_none() && txn.len() == 0, "never pruned");
        check(a.prune_messages(7, 5, 0, &mut txn).unwrap().is_empty() && txn.len() == 0, "not by count either");
        let e = revoke(&a, &c);
        check(tells(&e, &c, false), "the event tells of it");
        check(rows("a").is_empty(), "a revoked compact state leaves nothing");
        cover("done");
    }
}
