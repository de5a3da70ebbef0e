//! bounds: up to three claims on an address, each of every user id and 24-byte position; every pair of on-chain positions; names of up to 3 arbitrary bytes, every pair of user ids
use crate::{com::*, entries, vf::*};
use prost::Message as _;
use snapchain::proto::{self, UserNameProof};
use snapchain::storage::db::RocksDbTransactionBatch;
use snapchain::storage::store::account::*;

fn better(a: &(u64, [u8; 24]), b: &(u64, [u8; 24])) -> bool { (a.1 > b.1) | ((a.1 == b.1) & (a.0 < b.0)) }
fn claim() -> (u64, [u8; 24]) { (any_u64("fid"), any_arr::<24>("ts hash")) }
fn by_name(n: &[u8]) -> Vec<u8> { let mut v = vec![11]; v.extend_from_slice(n); v }
fn by_fid(f: u64) -> Vec<u8> { let mut v = vec![15]; v.extend((f as u32).to_be_bytes()); v }

entries! {
    fn c15_address_winner() {
        let n = choose("claims", 0, 3);
        let c: Vec<_> = (0..n).map(|_| claim()).collect();
        let w = select_verification_address_winner(c.clone());
        if n == 0 { check(w.is_none(), "nobody claims an unclaimed address"); cover("none"); return }
        let Some(w) = w else { check(false, "a claimed address has an owner"); return };
        // the owner is a claimant no other claim is better than
        let mut ok = false;
        for (i, a) in c.iter().enumerate() {
            let mut best = a.0 == w;
            for (j, b) in c.iter().enumerate() { if i != j { best &= !better(b, a); } }
            ok |= best;
        }
        check(ok, "the newest claim owns the address, the lower user on a tie");
        let mut r = c.clone();
        r.reverse();
        check(select_verification_address_winner(r) == Some(w), "the owner does not depend on the order of the claims");
        if n == 3 { let r = vec![c[1], c[2], c[0]]; check(select_verification_address_winner(r) == Some(w), "the owner does not depend on the order of the claims"); }
        let mut r = c.clone();
        r.push(c[0]);
        check(select_verification_address_winner(r) == Some(w), "a repeated claim changes nothing");
        cover("owner");
    }
    fn c15_grant_rows() {
        // a granted name is found by name and by user, whoever had it before
        let n = choose("name length", 0, 3);
        let name = any_vec("name", n);
        let f = (any_u32("fid") | 0x1000_0000) as u64;
        let p = UserNameProof { name: name.clone(), fid: f, timestamp: 9, owner: vec![1, 2], signature: vec![3], r#type: 1 };
        let before = choose("before", 0, 1) == 1;
        let e = (any_u32("previous fid")) as u64;
        let mut x = RocksDbTransactionBatch::new();
        put_username_proof_transaction(&mut x, &p, if before { Some(e) } else { None });
        let Some(Some(v)) = x.batch.get(&by_name(&name)) else { check(false, "a granted name is found by name"); return };
        check(same(v, &p.encode_to_vec()), "a granted name keeps its proof");
        let Some(Some(v)) = x.batch.get(&by_fid(f)) else { check(false, "a granted name is found by its user"); return };
        check(same(v, &by_name(&name)), "the user's row leads to the name");
        if before && conc_bool(e != f) {
            check(matches!(x.batch.get(&by_fid(e)), Some(None)), "the previous user no longer has the name");
            check(x.len() == 3, "a transfer touches three rows");
            cover("transfer");
        } else { check(x.len() == 2, "a grant touches two rows"); if before { cover("renewal"); } else { cover("grant"); } }
    }
    fn c15_release_rows() {
        let n = choose("name length", 0, 3);
        let name = any_vec("name", n);
        let p = UserNameProof { name: name.clone(), fid: 0, timestamp: 9, owner: vec![], signature: vec![3], r#type: 1 };
        let e = any_u32("previous fid") as u64;
        let mut x = RocksDbTransactionBatch::new();
        delete_username_proof_transaction(&mut x, &p, Some(e));
        check(matches!(x.batch.get(&by_fid(e)), Some(None)), "a released name is no longer its user's");
        let Some(Some(v)) = x.batch.get(&by_name(&name)) else { check(false, "a release is remembered under the name"); return };
        check(same(v, &p.encode_to_vec()), "a release is remembered as it was proved");
        check(x.len() == 2, "a release touches two rows");
        let mut y = RocksDbTransactionBatch::new();
        delete_username_proof_transaction(&mut y, &p, None);
        check(y.len() == 1 && y.batch.contains_key(&by_name(&name)), "releasing an unheld name touches no user");
        cover("release");
    }
}
