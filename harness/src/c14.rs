//! bounds: every user id, time, type byte; 20-byte hashes, 24-byte positions, 32-byte keys and channel ids; addresses of 20 or 32 bytes; names and URLs of up to 4 arbitrary ASCII characters; key and channel lengths up to 40
use crate::{com::*, entries, vf::*};
use snapchain::proto::{self, cast_add_body::Parent, reaction_body::Target};
use snapchain::storage::store::account::*;

pub struct K(pub Vec<u8>);
impl K {
    pub fn n(b: u8) -> K { K(vec![b]) }
    pub fn user(f: u32, b: u8) -> K { K::n(3).u(f).b(b) }
    pub fn b(mut self, b: u8) -> K { self.0.push(b); self }
    pub fn u(mut self, f: u32) -> K { self.0.extend(f.to_be_bytes()); self }
    pub fn l(mut self, f: u64) -> K { self.0.extend(f.to_be_bytes()); self }
    pub fn s(mut self, x: &[u8]) -> K { self.0.extend_from_slice(x); self }
    pub fn is(&self, k: &[u8]) -> bool { same(&self.0, k) }
}
pub fn cast(f: u32, h: &[u8]) -> proto::CastId { proto::CastId { fid: f as u64, hash: h.to_vec() } }

entries! {
    fn c14_cast() {
        let (f, h) = (any_u32("fid"), any_arr::<20>("hash"));
        check(K::user(f, 87).s(&h).is(&CastStoreDef::make_cast_adds_key(f as u64, &h.to_vec())), "a cast's row is its author's");
        check(K::user(f, 88).s(&h).is(&CastStoreDef::make_cast_removes_key(f as u64, &h.to_vec())), "a removed cast's row is its author's");
        let n = choose("hash length", 0, 30);
        if n != 20 { check(K::user(f, 87).is(&CastStoreDef::make_cast_adds_key(f as u64, &vec![1; n])) && K::user(f, 88).is(&CastStoreDef::make_cast_removes_key(f as u64, &vec![1; n])), "without a hash the key is the prefix of all"); cover("prefix"); }
        cover("cast");
    }
    fn c14_cast_parent() {
        let (f, p, h, t) = (any_u32("fid"), any_u32("parent fid"), any_arr::<20>("hash"), any_arr::<24>("ts hash"));
        let c = Parent::ParentCastId(cast(p, &h));
        let k = CastStoreDef::make_cast_by_parent_key(&c, f as u64, Some(&t));
        if conc_bool(f != 0) { check(K::n(4).u(p).s(&h).s(&t).u(f).is(&k), "a reply is found under its parent, in time order, by author"); }
        else { check(K::n(4).u(p).s(&h).s(&t).is(&k), "without an author the key is a prefix"); }
        let prefix = CastStoreDef::make_cast_by_parent_key(&c, 0, None);
        check(K::n(4).u(p).s(&h).is(&prefix), "a parent's replies share a prefix");
        check(k.starts_with(&prefix), "a reply is under its parent's prefix");
        let (q, g) = (any_u32("other parent"), any_arr::<20>("other hash"));
        check(k.starts_with(&CastStoreDef::make_cast_by_parent_key(&Parent::ParentCastId(cast(q, &g)), 0, None)) == ((p == q) & same(&h, &g)), "another parent's prefix does not cover it");
        check(K(vec![]).u(p).s(&h).is(&CastStoreDef::make_parent_key(&c)), "a parent is named by user and hash");
        cover("parent");
    }
    fn c14_cast_parent_url() {
        let (f, t) = (any_u32("fid"), any_arr::<24>("ts hash"));
        assume(f != 0);
        let n = choose("url length", 0, 4);
        let u = any_ascii("url", n);
        let p = Parent::ParentUrl(u.clone());
        check(K::n(4).s(u.as_bytes()).s(&t).u(f).is(&CastStoreDef::make_cast_by_parent_key(&p, f as u64, Some(&t))), "a reply is found under its parent's URL");
        check(K::n(4).s(u.as_bytes()).is(&CastStoreDef::make_cast_by_parent_key(&p, 0, None)), "a URL's replies share a prefix");
        let r = Target::TargetUrl(u.clone());
        check(K::n(7).s(u.as_bytes()).s(&t).u(f).is(&ReactionStoreDef::make_reactions_by_target_key(&r, f as u64, Some(&t))), "a reaction is found under its target's URL");
        check(K::n(7).s(u.as_bytes()).is(&ReactionStoreDef::make_reactions_by_target_key(&r, 0, None)), "a URL's reactions share a prefix");
        cover("url");
    }
    fn c14_mention() {
        let (f, m, t) = (any_u32("fid"), any_u32("mentioned"), any_arr::<24>("ts hash"));
        assume(f != 0);
        let k = CastStoreDef::make_cast_by_mention_key(m as u64, f as u64, Some(&t));
        check(K::n(5).u(m).s(&t).u(f).is(&k), "a mention is found under the mentioned user, in time order");
        check(K::n(5).u(m).is(&CastStoreDef::make_cast_by_mention_key(m as u64, 0, None)), "a user's mentions share a prefix");
        let (g, o, s) = (any_u32("other fid"), any_u32("other mentioned"), any_arr::<24>("other ts hash"));
        assume(g != 0);
        check(same(&k, &CastStoreDef::make_cast_by_mention_key(o as u64, g as u64, Some(&s))) == ((f == g) & (m == o) & same(&t, &s)), "different mentions have different rows");
        cover("mention");
    }
    fn c14_reaction() {
        let (f, p, h, t) = (any_u32("fid"), any_u32("target fid"), any_arr::<20>("hash"), any_arr::<24>("ts hash"));
        let ty = any_u8("type");
        let c = Target::TargetCastId(cast(p, &h));
        let a = ReactionStoreDef::make_reaction_adds_key(f as u64, ty as i32, Some(&c));
        let r = ReactionStoreDef::make_reaction_removes_key(f as u64, ty as i32, Some(&c));
        if conc_bool(ty == 0) { check(a.is_err() && r.is_err(), "a target without a type has no row"); cover("no type"); }
        else {
            let (Ok(a), Ok(r)) = (a, r) else { check(false, "a reaction has a row"); return };
            check(K::user(f, 91).b(ty).u(p).s(&h).is(&a) && K::user(f, 92).b(ty).u(p).s(&h).is(&r), "a reaction's row names user, kind and target");
            cover("row");
        }
        match (ReactionStoreDef::make_reaction_adds_key(f as u64, ty as i32, None), ReactionStoreDef::make_reaction_removes_key(f as u64, ty as i32, None)) {
            (Ok(a), Ok(r)) => { if conc_bool(ty == 0) { check(K::user(f, 91).is(&a) && K::user(f, 92).is(&r), "a user's reactions share a prefix"); } else { check(K::user(f, 91).b(ty).is(&a) && K::user(f, 92).b(ty).is(&r), "a user's reactions of a kind share a prefix"); } }
            _ => check(false, "a prefix needs no target"),
        }
        if conc_bool(f != 0) { check(K::n(7).u(p).s(&h).s(&t).u(f).is(&ReactionStoreDef::make_reactions_by_target_key(&c, f as u64, Some(&t))), "a reaction is found under its target, in time order"); }
        check(K::n(7).u(p).s(&h).is(&ReactionStoreDef::make_reactions_by_target_key(&c, 0, None)), "a cast's reactions share a prefix");
    }
    fn c14_follow() {
        let (f, g) = (any_u32("fid"), any_u32("other fid"));
        let (c, d) = (any_arr::<32>("channel"), any_arr::<32>("other channel"));
        let a = ReactionStoreDef::make_follow_by_fid_key(f as u64, &c);
        let b = ReactionStoreDef::make_follow_by_channel_key(&c, f as u64);
        check(K::n(25).b(1).u(f).s(&c).is(&a) && a.len() == FOLLOW_KEY_LENGTH, "a follow is found under its user");
        check(K::n(25).b(2).s(&c).u(f).is(&b) && b.len() == FOLLOW_KEY_LENGTH, "a follow is found under its channel");
        check(K::n(25).b(1).u(f).is(&ReactionStoreDef::follow_by_fid_prefix(f as u64)) && K::n(25).b(2).s(&c).is(&ReactionStoreDef::follow_by_channel_prefix(&c)), "follows share their user's and channel's prefix");
        check(a.starts_with(&ReactionStoreDef::follow_by_fid_prefix(g as u64)) == (f == g), "a user's prefix covers that user's follows only");
        check(b.starts_with(&ReactionStoreDef::follow_by_channel_prefix(&d)) == same(&c, &d), "a channel's prefix covers that channel's followers only");
        check(same(&a, &ReactionStoreDef::make_follow_by_fid_key(g as u64, &d)) == ((f == g) & same(&c, &d)), "different follows have different rows");
        cover("follow");
    }
    fn c14_verification() {
        let n = pick("address length", &[20, 32]);
        let (f, g) = (any_u32("fid"), any_u32("other fid"));
        let (a, b) = (any_vec("address", n), any_vec("other address", n));
        let k = VerificationStoreDef::make_verification_by_address_key(&a, f as u64);
        check(K::n(14).s(&a).u(f).is(&k), "a verification is found under its address");
        check(K::n(14).s(&a).is(&VerificationStoreDef::make_verification_by_address_prefix(&a)), "an address's claims share a prefix");
        check(k.starts_with(&VerificationStoreDef::make_verification_by_address_prefix(&b)) == same(&a, &b), "an address's prefix covers that address only");
        let x = VerificationStoreDef::make_verification_adds_key(f as u64, &a);
        check(K::user(f, 93).s(&a).is(&x), "a verification's row names user and address");
        check(K::user(f, 94).s(&a).is(&VerificationStoreDef::make_verification_removes_key(f as u64, &a)), "a removal's row names user and address");
        check(same(&x, &VerificationStoreDef::make_verification_adds_key(g as u64, &b)) == ((f == g) & same(&a, &b)), "different verifications have different rows");
        cover("verification");
    }
    fn c14_gasless() {
        let (f, g) = (any_u32("fid"), any_u32("other fid"));
        let (a, b) = (any_arr::<32>("key"), any_arr::<32>("other key"));
        let (Ok(k), Ok(o), Ok(p), Ok(u)) = (make_gasless_key_by_fid_key(f as u64, &a), make_gasless_key_by_fid_key(g as u64, &b), make_gasless_key_by_public_key_key(&a), make_last_used_at_key(f as u64, &a)) else { check(false, "a key has its rows"); return };
        check(K::n(23).b(105).u(f).s(&a).is(&k), "a key is found under its user");
        check(K::n(23).b(106).s(&a).is(&p), "a key's owner is found under the key alone");
        check(K::n(23).b(104).u(f).s(&a).is(&u), "a key's last use is kept per user and key");
        check(same(&k, &o) == ((f == g) & same(&a, &b)), "different keys have different rows");
        check(K::n(23).b(107).u(f).is(&make_gasless_key_count_by_fid_key(f as u64)), "keys are counted per user");
        let (x, y) = (make_user_nonce_key(f as u64), make_app_nonce_key(g as u64));
        check(K::n(23).b(102).u(f).is(&x) && K::n(23).b(103).u(g).is(&y), "nonces are kept per user and per app");
        check(!same(&x, &y), "a user's nonce is no app's nonce");
        let n = choose("key length", 0, 40);
        let bad = vec![1; n];
        check(make_gasless_key_by_fid_key(f as u64, &bad).is_ok() == (n == 32) && make_gasless_key_by_public_key_key(&bad).is_ok() == (n == 32) && make_last_used_at_key(f as u64, &bad).is_ok() == (n == 32), "only 32-byte keys have rows");
        cover("gasless");
    }
    fn c14_name() {
        let n = choose("name length", 0, 4);
        let a = any_vec("name", n);
        check(K::n(11).s(&a).is(&make_fname_username_proof_key(&a)), "a username's row names it");
        let f = any_u32("fid");
        check(K::n(15).u(f).is(&make_fname_username_proof_by_fid_key(f as u64)), "a user's username is found under the user");
        cover("name");
    }
}
