//! bounds: three messages of a kind by one user, with any timestamps of four varint bytes and any hashes, plus others; pages of 1 to 4, both directions; lookups over three entries with targets that share prefixes
use crate::{entries, st::*, store, vf::*};
use snapchain::proto::{self, cast_add_body::Parent, message_data::Body, reaction_body::Target, MessageType};
use snapchain::storage::db::{PageOptions, RocksDbTransactionBatch as Txn};
use snapchain::storage::store::account::*;

type Msg = proto::Message;
/// follows page tokens to the end
fn pages(size: usize, reverse: bool, mut f: impl FnMut(&PageOptions) -> MessagesPage) -> Vec<Msg> {
    let (mut out, mut token, mut n) = (vec![], None, 0);
    loop {
        let p = f(&PageOptions { page_size: Some(size), page_token: token, reverse });
        check(p.messages.len() <= size, "no page is larger than asked for");
        check(p.next_page_token.is_none() || p.messages.len() == size, "only a full page has a successor");
        out.extend(p.messages);
        n += 1;
        check(n < 6, "the pages end");
        match p.next_page_token { Some(t) => token = Some(t), None => break }
    }
    out
}
fn are(got: &[Msg], want: &[&Msg]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a == *b) }
fn ordered(ms: &[Msg]) { for w in ms.windows(2) { assume((ts_of(&w[0]) < ts_of(&w[1])) | ((ts_of(&w[0]) == ts_of(&w[1])) & later(&w[1].hash, &w[0].hash))); } }

entries! {
    fn c28_pages() {
        let kind = choose("kind", 0, 9);
        let (size, reverse) = (choose("size", 1, 4), choose("reverse", 0, 1) == 1);
        split((kind * 10 + size * 2 + reverse as usize) as u64);
        let h = hashes();
        let ms: Vec<Msg> = (0..3).map(|i| sample(kind, i, 7, ts("t"), &h[i])).collect();
        ordered(&ms);
        let z = sample(kind, 4, 8, 3 << 21, &[7; 20]); // another user's
        let other = sample(if kind < 8 { kind ^ 1 } else { kind }, 5, 9, 3 << 21, &[8; 20]);
        store!(kind, "a", s, {
            run(&s, &[&z, &other, &ms[2], &ms[0], &ms[1]]);
            let got = pages(size, reverse, |o| s.get_all_messages_by_fid(7, None, None, o).unwrap());
            let want: Vec<&Msg> = if reverse { ms.iter().rev().collect() } else { ms.iter().collect() };
            check(are(&got, &want), "every message once, by time");
            let adds = pages(size, reverse, |o| s.get_adds_by_fid::<fn(&Msg) -> bool>(7, o, None).unwrap());
            let removing = kind < 8 && kind % 2 == 1;
            check(are(&adds, if removing { &[] } else { &want[..] }), "the added ones");
            if kind < 8 {
                let rem = pages(size, reverse, |o| s.get_removes_by_fid::<fn(&Msg) -> bool>(7, o, None).unwrap());
                check(are(&rem, if removing { &want[..] } else { &[] }), "the removed ones");
            }
        });
        cover("done");
    }
    fn c28_times() {
        let h = hashes();
        let ms: Vec<Msg> = (0..3).map(|i| sample(2, i, 7, ts("t"), &h[i])).collect();
        ordered(&ms);
        let (from, to) = (any_u32("from"), any_u32("to"));
        let k = choose("given", 0, 3);
        let a = ReactionStore::new(db("a"), StoreEventHandler::new(), 100, None);
        run(&a, &[&ms[0], &ms[1], &ms[2]]);
        let p = a.get_all_messages_by_fid(7, (k & 1 == 1).then_some(from), (k & 2 == 2).then_some(to), &PageOptions::default()).unwrap();
        for i in 0..3 {
            let t = ts_of(&ms[i]);
            check(p.messages.contains(&ms[i]) == ((k & 1 == 0 || t >= from) && (k & 2 == 0 || t <= to)), "exactly the messages in the time range");
        }
        cover("done");
    }
    fn c28_reactions() {
        let h = hashes();
        let targets = [Target::TargetUrl("u".into()), Target::TargetUrl("uv".into()), Target::TargetCastId(proto::CastId { fid: 0x75767576, hash: vec![0x75; 20] })];
        let pick: Vec<usize> = (0..3).map(|_| choose("target", 0, 2)).collect();
        let q = choose("query", 0, 2);
        let (size, reverse) = (choose("size", 1, 2), choose("reverse", 0, 1) == 1);
        let ms: Vec<Msg> = (0..3).map(|i| msg(7 + i as u64, MessageType::ReactionAdd, ts("t"), &h[i], Body::ReactionBody(proto::ReactionBody { r#type: 1 + (i as i32 & 1), target: Some(targets[pick[i]].clone()) }))).collect();
        ordered(&ms);
        let s = ReactionStore::new(db("a"), StoreEventHandler::new(), 100, None);
        run(&s, &[&ms[0], &ms[1], &ms[2]]);
        for ty in 0..3 {
            let mut want: Vec<&Msg> = (0..3).filter(|i| pick[*i] == q && (ty == 0 || ty == 1 + (*i as i32 & 1))).map(|i| &ms[i]).collect();
            if reverse { want.reverse(); }
            let got = pages(size, reverse, |o| ReactionStore::get_reactions_by_target(&s, &targets[q], ty, o).unwrap());
            check(are(&got, &want), "exactly the reactions to the target");
        }
        cover("done");
    }
    fn c28_parents() {
        let h = hashes();
        let parents = [Parent::ParentUrl("u".into()), Parent::ParentUrl("uv".into()), Parent::ParentCastId(proto::CastId { fid: 0x75767576, hash: vec![0x75; 20] })];
        let pick: Vec<usize> = (0..3).map(|_| choose("parent", 0, 2)).collect();
        let q = choose("query", 0, 2);
        let (size, reverse) = (choose("size", 1, 2), choose("reverse", 0, 1) == 1);
        let ms: Vec<Msg> = (0..3).map(|i| msg(7 + i as u64, MessageType::CastAdd, ts("t"), &h[i], Body::CastAddBody(proto::CastAddBody { text: "x".into(), parent: Some(parents[pick[i]].clone()), mentions: vec![30 + pick[i] as u64, 40], ..Default::default() }))).collect();
        ordered(&ms);
        let s = CastStore::new(db("a"), StoreEventHandler::new(), 100);
        run(&s, &[&ms[0], &ms[1], &ms[2]]);
        let mut want: Vec<&Msg> = (0..3).filter(|i| pick[*i] == q).map(|i| &ms[i]).collect();
        let mut all: Vec<&Msg> = ms.iter().collect();
        if reverse { want.reverse(); all.reverse(); }
        check(are(&pages(size, reverse, |o| CastStore::get_casts_by_parent(&s, &parents[q], o).unwrap()), &want), "exactly the casts under the parent");
        check(are(&pages(size, reverse, |o| CastStore::get_casts_by_mention(&s, 30 + q as u64, o).unwrap()), &want), "exactly the casts that mention the user");
        check(are(&pages(size, reverse, |o| CastStore::get_casts_by_mention(&s, 40, o).unwrap()), &all), "by each mention");
        cover("done");
    }
    fn c28_links() {
        let h = hashes();
        let types = ["f", "fo"];
        let pick: Vec<usize> = (0..3).map(|_| choose("link", 0, 3)).collect();
        let q = choose("query", 0, 3);
        let (size, reverse) = (choose("size", 1, 2), choose("reverse", 0, 1) == 1);
        let to = |k: usize| proto::link_body::Target::TargetFid(30 + (k as u64 & 1));
        let ms: Vec<Msg> = (0..3).map(|i| msg(7 + i as u64, MessageType::LinkAdd, ts("t"), &h[i], Body::LinkBody(proto::LinkBody { r#type: types[pick[i] / 2].into(), display_timestamp: None, target: Some(to(pick[i])) }))).collect();
        ordered(&ms);
        let s = LinkStore::new(db("a"), StoreEventHandler::new(), 100);
        run(&s, &[&ms[0], &ms[1], &ms[2]]);
        for any in [false, true] {
            let mut want: Vec<&Msg> = (0..3).filter(|i| pick[*i] & 1 == q & 1 && (any || pick[*i] == q)).map(|i| &ms[i]).collect();
            if reverse { want.reverse(); }
            let t: String = if any { "".into() } else { types[q / 2].into() };
            check(are(&pages(size, reverse, |o| LinkStore::get_links_by_target(&s, &to(q), t.clone(), o).unwrap()), &want), "exactly the links of the type to the user");
        }
        for i in 0..3 {
            let got = LinkStore::get_link_adds_by_fid(&s, 7 + i as u64, types[q / 2].into(), &PageOptions::default()).unwrap();
            check(if pick[i] / 2 == q / 2 { are(&got.messages, &[&ms[i]]) } else { got.messages.is_empty() }, "a user's links of the type");
            check(LinkStore::get_link_add(&s, 7 + i as u64, types[q / 2].into(), Some(to(q))).unwrap() == (pick[i] == q).then(|| ms[i].clone()), "one link");
        }
        cover("done");
    }
    fn c28_verifications() {
        // an address that is a prefix of another (an Ethereum and a Solana one) is another address; uncommitted changes count
        let h = hashes();
        let t = [ts("t0"), ts("t1"), ts("t2")];
        let addr = |k: usize| vec![3u8; [20, 24, 32][k]];
        let pick: Vec<usize> = (0..3).map(|_| choose("address", 0, 2)).collect();
        let q = choose("query", 0, 2);
        let ms: Vec<Msg> = (0..3).map(|i| msg(7 + i as u64, MessageType::VerificationAddEthAddress, t[i], &h[i], Body::VerificationAddAddressBody(proto::VerificationAddAddressBody { address: addr(pick[i]), ..Default::default() }))).collect();
        let s = VerificationStore::new(db("a"), StoreEventHandler::new(), 100);
        run(&s, &[&ms[0], &ms[1]]);
        let mut txn = Txn::new();
        s.revoke(&ms[0], &mut txn).unwrap();
        s.merge(&ms[2], &mut txn, &ctx()).unwrap();
        let list = |i: &[usize]| -> Vec<(u64, [u8; 24])> { i.iter().filter(|i| pick[**i] == q).map(|i| (7 + *i as u64, make_ts_hash(t[*i], &ms[*i].hash).unwrap())).collect() };
        check(VerificationStore::get_verifications_by_address(&s, &addr(q), None).unwrap() == list(&[0, 1]), "exactly the users with the address");
        check(VerificationStore::get_verifications_by_address(&s, &addr(q), Some(&txn)).unwrap() == list(&[1, 2]), "the pending changes included");
        let c = VerificationStore::get_verifications_by_address(&s, &addr(q), Some(&txn)).unwrap();
        let w = verification_store::select_verification_address_winner(c);
        let best = if list(&[1, 2]).len() == 2 { if t[1] > t[2] || (t[1] == t[2] && !later(&h[2], &h[1])) { Some(8) } else { Some(9) } } else { list(&[1, 2]).first().map(|x| x.0) };
        check(w == best, "the address belongs to its last verifier");
        cover("done");
    }
}
