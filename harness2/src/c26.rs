//! bounds: one user; three messages about one subject (two kinds of them, any timestamps of four varint bytes and any three hashes), merged in each of the six orders; for link compact states, one of them with a link message about each of two targets, at different times
use crate::{entries, st::*, vf::*};
use snapchain::proto::{self, message_data::Body, MessageType};
use snapchain::storage::store::account::*;

type Msg = proto::Message;
/// the order in which a message beats another about the same subject: `remove` is the removing type; does it win whatever the time?
fn beats(a: &Msg, b: &Msg, remove: MessageType, always: bool) -> bool {
    let (ra, rb) = (type_of(a) == remove as i32, type_of(b) == remove as i32);
    if always && ra != rb { return ra; }
    let tie = if ra != rb { ra } else { later(&a.hash, &b.hash) };
    (ts_of(a) > ts_of(b)) | ((ts_of(a) == ts_of(b)) & tie)
}
/// merges the three, whichever way they rank; what is left must be what the greatest of them alone leaves
fn converge<T: StoreDef + Clone>(mk: impl Fn(&str) -> Store<T>, ms: [Msg; 3], remove: MessageType, always: bool) -> Msg {
    let rank = choose("rank", 0, 5);
    split(rank as u64);
    let [w, x, y] = ORDERS[rank];
    assume(beats(&ms[w], &ms[x], remove, always) & beats(&ms[x], &ms[y], remove, always));
    let a = mk("a");
    run(&a, &[&ms[0], &ms[1], &ms[2]]);
    let b = mk("b");
    check(put(&b, &ms[w]).is_ok(), "the winner merges");
    check(same_rows("a", "b"), "what is left of all three is what the winner alone leaves");
    for m in &ms { check(put(&a, m).is_err(), "none of them merges again"); }
    check(same_rows("a", "b"), "merging again changes nothing");
    ms[w].clone()
}
fn kinds(add: MessageType, rem: MessageType) -> [MessageType; 3] { let k = choose("kinds", 0, 7); [0, 1, 2].map(|i| if k >> i & 1 == 1 { rem } else { add }) }
fn kind(name: &str, add: MessageType, rem: MessageType) -> MessageType { if choose(name, 0, 1) == 1 { rem } else { add } }

entries! {
    fn c26_casts() {
        let h = hashes();
        let add = msg(7, MessageType::CastAdd, ts("t0"), &h[0], Body::CastAddBody(proto::CastAddBody { text: "x".into(), mentions: vec![9], mentions_positions: vec![0], parent: Some(proto::cast_add_body::Parent::ParentUrl("p".into())), ..Default::default() }));
        let rem = |i: usize, t: &str| msg(7, MessageType::CastRemove, ts(t), &h[i], Body::CastRemoveBody(proto::CastRemoveBody { target_hash: h[0].to_vec() }));
        let (r1, r2) = (rem(1, "t1"), rem(2, "t2"));
        let mk = |n: &str| CastStore::new(db(n), StoreEventHandler::new(), 100);
        let o = ORDERS[[0, 2, 3][choose("order", 0, 2)]]; // the add first, second or last
        let m3 = [add, r1, r2];
        let w = converge(mk, o.map(|i| m3[i].clone()), MessageType::CastRemove, true);
        let s = CastStore::new(db("a"), StoreEventHandler::new(), 100);
        check(CastStore::get_cast_add(&s, 7, h[0].to_vec()).unwrap().is_none(), "a removed cast is gone");
        let got = CastStore::get_cast_remove(&s, 7, h[0].to_vec()).unwrap();
        check(got.is_some_and(|g| same(&g.hash, &w.hash)), "the last remove stays");
        cover("done");
    }
    fn c26_cast_pair() {
        let [h0, h1, h2] = hashes();
        let cast = |h: &[u8; 20], t: &str| msg(7, MessageType::CastAdd, ts(t), h, Body::CastAddBody(proto::CastAddBody { text: "x".into(), parent: Some(proto::cast_add_body::Parent::ParentCastId(proto::CastId { fid: 3, hash: vec![1; 20] })), ..Default::default() }));
        // a remove of another cast leaves this one alone
        let (a, b) = (cast(&h0, "t0"), cast(&h1, "t1"));
        let r = msg(7, MessageType::CastRemove, ts("t2"), &h2, Body::CastRemoveBody(proto::CastRemoveBody { target_hash: h1.to_vec() }));
        let s = CastStore::new(db("a"), StoreEventHandler::new(), 100);
        let o = ORDERS[choose("order", 0, 5)];
        let ms = [&a, &b, &r];
        run(&s, &[ms[o[0]], ms[o[1]], ms[o[2]]]);
        let s2 = CastStore::new(db("b"), StoreEventHandler::new(), 100);
        run(&s2, &[&a, &r]);
        check(same_rows("a", "b"), "the other cast stays, this one goes");
        check(CastStore::get_cast_add(&s, 7, h0.to_vec()).unwrap().is_some_and(|m| same(&m.hash, &h0)), "the other cast is found");
        cover("done");
    }
    fn c26_reactions() {
        let h = hashes();
        let target = if choose("target", 0, 1) == 0 { proto::reaction_body::Target::TargetUrl("u".into()) } else { proto::reaction_body::Target::TargetCastId(proto::CastId { fid: 3, hash: vec![1; 20] }) };
        let m = |i: usize, k: MessageType, t: &str| msg(7, k, ts(t), &h[i], Body::ReactionBody(proto::ReactionBody { r#type: 1, target: Some(target.clone()) }));
        let mk = |n: &str| ReactionStore::new(db(n), StoreEventHandler::new(), 100, None);
        let k = kinds(MessageType::ReactionAdd, MessageType::ReactionRemove);
        let ms = [m(0, k[0], "t0"), m(1, k[1], "t1"), m(2, k[2], "t2")];
        let w = converge(mk, ms, MessageType::ReactionRemove, false);
        let s = mk("a");
        let (a, r) = (ReactionStore::get_reaction_add(&s, 7, 1, Some(target.clone())).unwrap(), ReactionStore::get_reaction_remove(&s, 7, 1, Some(target)).unwrap());
        let add = type_of(&w) == MessageType::ReactionAdd as i32;
        check(a.is_some() == add && r.is_some() != add, "found as added or as removed");
        check(same(&a.or(r).unwrap().hash, &w.hash), "the winner is found");
        cover(if add { "added" } else { "removed" });
    }
    fn c26_links() {
        let h = hashes();
        let m = |i: usize, k: MessageType, t: &str| msg(7, k, ts(t), &h[i], Body::LinkBody(proto::LinkBody { r#type: "follow".into(), display_timestamp: None, target: Some(proto::link_body::Target::TargetFid(9)) }));
        let mk = |n: &str| LinkStore::new(db(n), StoreEventHandler::new(), 100);
        let k = kinds(MessageType::LinkAdd, MessageType::LinkRemove);
        let ms = [m(0, k[0], "t0"), m(1, k[1], "t1"), m(2, k[2], "t2")];
        let w = converge(mk, ms, MessageType::LinkRemove, false);
        let s = mk("a");
        let t = Some(proto::link_body::Target::TargetFid(9));
        let (a, r) = (LinkStore::get_link_add(&s, 7, "follow".into(), t.clone()).unwrap(), LinkStore::get_link_remove(&s, 7, "follow".into(), t).unwrap());
        let add = type_of(&w) == MessageType::LinkAdd as i32;
        check(a.is_some() == add && r.is_some() != add, "found as added or as removed");
        check(same(&a.or(r).unwrap().hash, &w.hash), "the winner is found");
        cover(if add { "added" } else { "removed" });
    }
    fn c26_verifications() {
        let h = hashes();
        let add = |i: usize, t: &str| msg(7, MessageType::VerificationAddEthAddress, ts(t), &h[i], Body::VerificationAddAddressBody(proto::VerificationAddAddressBody { address: vec![3; 20], ..Default::default() }));
        let rem = |i: usize, t: &str| msg(7, MessageType::VerificationRemove, ts(t), &h[i], Body::VerificationRemoveBody(proto::VerificationRemoveBody { address: vec![3; 20], ..Default::default() }));
        let mk = |n: &str| VerificationStore::new(db(n), StoreEventHandler::new(), 100);
        let k = kinds(MessageType::VerificationAddEthAddress, MessageType::VerificationRemove);
        let one = |i: usize, t: &str| if k[i] == MessageType::VerificationRemove { rem(i, t) } else { add(i, t) };
        let ms = [one(0, "t0"), one(1, "t1"), one(2, "t2")];
        let w = converge(mk, ms, MessageType::VerificationRemove, false);
        let s = mk("a");
        let (a, r) = (VerificationStore::get_verification_add(&s, 7, &[3; 20], None).unwrap(), VerificationStore::get_verification_remove(&s, 7, &[3; 20]).unwrap());
        let add = type_of(&w) == MessageType::VerificationAddEthAddress as i32;
        check(a.is_some() == add && r.is_some() != add, "found as added or as removed");
        check(same(&a.or(r).unwrap().hash, &w.hash), "the winner is found");
        let by = VerificationStore::get_verifications_by_address(&s, &[3; 20], None).unwrap();
        check(by.len() == add as usize, "listed under its address while added");
        cover(if add { "added" } else { "removed" });
    }
    fn c26_user_data() {
        let h = hashes();
        let m = |i: usize, t: &str| msg(7, MessageType::UserDataAdd, ts(t), &h[i], Body::UserDataBody(proto::UserDataBody { r#type: 2, value: ["a", "b", "c"][i].into() }));
        let mk = |n: &str| UserDataStore::new(db(n), StoreEventHandler::new(), 100);
        let w = converge(mk, [m(0, "t0"), m(1, "t1"), m(2, "t2")], MessageType::None, false);
        let got = UserDataStore::get_user_data_by_fid_and_type(&mk("a"), 7, proto::UserDataType::try_from(2).unwrap()).unwrap();
        check(same(&got.hash, &w.hash), "the last is found");
        cover("done");
    }
    fn c26_username_proofs() {
        let h = hashes();
        // the name moves between two users
        let m = |i: usize, t: &str| { let fid = if i == 1 { 8 } else { 7 }; msg(fid, MessageType::UsernameProof, ts(t), &h[i], Body::UsernameProofBody(proto::UserNameProof { timestamp: 1, name: b"a.eth".to_vec(), owner: vec![1; 20], signature: vec![], fid, r#type: 2 })) };
        let mk = |n: &str| UsernameProofStore::new(db(n), StoreEventHandler::new(), 100);
        let w = converge(mk, [m(0, "t0"), m(1, "t1"), m(2, "t2")], MessageType::None, false);
        let got = UsernameProofStore::get_username_proof(&mk("a"), &b"a.eth".to_vec(), &snapchain::storage::db::RocksDbTransactionBatch::new()).unwrap().unwrap();
        check(same(&got.hash, &w.hash), "the last is found");
        cover("done");
    }
    fn c26_fname_proofs() {
        // server-signed names: the later proof wins, the greater signature at the same second
        let (t, s): ([u32; 3], [[u8; 4]; 3]) = ([ts("t0"), ts("t1"), ts("t2")], [any_arr("s0"), any_arr("s1"), any_arr("s2")]);
        let p: Vec<proto::UserNameProof> = (0..3).map(|i| proto::UserNameProof { timestamp: t[i] as u64, name: b"alice".to_vec(), owner: vec![1; 20], signature: s[i].to_vec(), fid: [7, 8, 7][i], r#type: 1 }).collect();
        let rank = choose("rank", 0, 5);
        split(rank as u64);
        let [w, x, y] = ORDERS[rank];
        let over = |i: usize, j: usize| (t[i] > t[j]) | ((t[i] == t[j]) & (u32::from_be_bytes(s[i]) > u32::from_be_bytes(s[j])));
        assume(over(w, x) & over(x, y));
        let merge = |n: &str, p: &proto::UserNameProof| {
            let s = UserDataStore::new(db(n), StoreEventHandler::new(), 100);
            let mut txn = snapchain::storage::db::RocksDbTransactionBatch::new();
            let r = UserDataStore::merge_username_proof(&s, p, &mut txn);
            if r.is_ok() { s.db().commit(txn).unwrap(); }
            r.is_ok()
        };
        for i in 0..3 { merge("a", &p[i]); }
        check(merge("b", &p[w]), "the winner merges");
        check(same_rows("a", "b"), "what is left is what the winner alone leaves");
        for i in 0..3 { check(!merge("a", &p[i]), "none merges again"); }
        let st = UserDataStore::new(db("a"), StoreEventHandler::new(), 100);
        let got = UserDataStore::get_username_proof_by_fid(&st, p[w].fid).unwrap();
        check(got.is_some_and(|g| same(&g.signature, &p[w].signature)), "the owner's name is found");
        check(UserDataStore::get_username_proof_by_fid(&st, 15 - p[w].fid).unwrap().is_none(), "and is nobody else's");
        cover("done");
    }
    fn c26_link_compact() {
        // a full list of follows against two single follow messages, one about a listed user
        let h = hashes();
        let t = [ts("t0"), ts("t1"), ts("t2")];
        let m = |i: usize, k: MessageType, to: u64| msg(7, k, t[i], &h[i], Body::LinkBody(proto::LinkBody { r#type: "follow".into(), display_timestamp: None, target: Some(proto::link_body::Target::TargetFid(to)) }));
        let k = [kind("k0", MessageType::LinkAdd, MessageType::LinkRemove), kind("k1", MessageType::LinkAdd, MessageType::LinkRemove)];
        let compact = msg(7, MessageType::LinkCompactState, t[2], &h[2], Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: "follow".into(), target_fids: vec![9] }));
        let ms = [m(0, k[0], 9), m(1, k[1], 10), compact];
        let mk = |n: &str| LinkStore::new(db(n), StoreEventHandler::new(), 100);
        let o = ORDERS[choose("order", 0, 5)];
        let a = mk("a");
        run(&a, &[&ms[o[0]], &ms[o[1]], &ms[o[2]]]);
        let b = mk("b");
        put(&b, &ms[2]).unwrap();
        // an older message survives only as an add of a listed user; of the same age, also one that comes later (KF2)
        let at = |i: usize| o.iter().position(|x| *x == i).unwrap();
        let mut kf2 = false;
        for i in 0..2 {
            let listed = i == 0 && k[0] == MessageType::LinkAdd;
            let tied = t[i] == t[2];
            kf2 |= tied && !listed && at(i) > at(2);
            if t[i] > t[2] || listed || (tied && at(i) > at(2)) { check(put(&b, &ms[i]).is_ok(), "merges"); }
        }
        check(same_rows("a", "b"), "any order leaves the same");
        let tie = (t[0] == t[2]) | (t[1] == t[2]);
        known(!kf2, "KF2: a link message with the timestamp of a link compact state that leaves it out stays if it comes after that state and goes if it came before");
        cover(if tie { "at one time" } else { "at different times" });
    }
    fn c26_compact_states() {
        let h = hashes();
        let t = [ts("t0"), ts("t1"), ts("t2")];
        assume((t[0] != t[1]) & (t[0] != t[2]) & (t[1] != t[2])); // at one time: c26_compact_tie
        let m = |i: usize| msg(7, MessageType::LinkCompactState, t[i], &h[i], Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: "follow".into(), target_fids: vec![9 + i as u64] }));
        let mk = |n: &str| LinkStore::new(db(n), StoreEventHandler::new(), 100);
        converge(mk, [m(0), m(1), m(2)], MessageType::None, false);
        cover("done");
    }
    fn c26_compact_tie() {
        let h = hashes();
        let t = ts("t");
        let m = |i: usize| msg(7, MessageType::LinkCompactState, t, &h[i], Body::LinkCompactStateBody(proto::LinkCompactStateBody { r#type: "follow".into(), target_fids: vec![9 + i as u64] }));
        let mk = |n: &str| LinkStore::new(db(n), StoreEventHandler::new(), 100);
        run(&mk("a"), &[&m(0), &m(1)]);
        run(&mk("b"), &[&m(1), &m(0)]);
        cover("done");
        let c = mk("c");
        put(&c, &m(0)).unwrap();
        check(same_rows("a", "c"), "one of them stays");
        known(same_rows("a", "b"), "KF3: of two link compact states with one timestamp the first to arrive stays");
    }
}
