//! bounds: every FID below 2^32, every key type, ttl, nonce, deadline, 32-byte key and scope value; up to 3 scopes on each side; every tampering of a signed key request; every byte-length of a key up to 40; scope lists of up to 3 arbitrary values and of 15 to 18 entries
//! assume: ECDSA is modelled: recovery yields the signer of exactly that hash, and no known key otherwise; keccak256 is injective; malleated signatures are outside
use crate::{com::*, entries, vf::*};
use alloy_primitives::{Address, Bytes, U256};
use alloy_sol_types::SolValue;
use snapchain::core::validations::key::*;
use snapchain::proto;

fn scopes(name: &str, hi: usize) -> Vec<i32> {
    let n = choose(name, 1, hi);
    split(n as u64);
    (0..n).map(|_| { let s = any_i32("scope"); assume(s >= 0); s }).collect()
}
fn scope_ok(s: i32) -> bool { ((s >= 1) & (s <= 8)) | ((s >= 11) & (s <= 15)) }
fn eq_scopes(a: &[i32], b: &[i32]) -> bool { let mut e = a.len() == b.len(); if e { for i in 0..a.len() { e &= a[i] == b[i]; } } e }

entries! {
    fn c07_key_add() {
        flag("fmt", 1);
        let addr = eth_addr(&S1);
        let (k1, k2) = (any_arr::<32>("key"), any_arr::<32>("key'"));
        let (sc1, sc2) = (scopes("scopes", 2), scopes("scopes'", 2));
        let p = KeyAddPayload { fid: any_u32("fid") as u64, key: &k1, key_type: any_u32("type"), scopes: &sc1, ttl: any_u32("ttl"), nonce: any_u32("nonce"), deadline: any_u32("deadline") };
        let q = KeyAddPayload { fid: any_u32("fid'") as u64, key: &k2, key_type: any_u32("type'"), scopes: &sc2, ttl: any_u32("ttl'"), nonce: any_u32("nonce'"), deadline: any_u32("deadline'") };
        let d = key_add_typed_data(&p, 1).unwrap().eip712_signing_hash().unwrap();
        let sig = eth_sign(&S1, &d.0);
        let r = recover_key_add_custody_address(&q, &sig, 1).unwrap();
        let eq = (p.fid == q.fid) & same(p.key, q.key) & (p.key_type == q.key_type) & (p.ttl == q.ttl) & (p.nonce == q.nonce) & (p.deadline == q.deadline) & eq_scopes(&sc1, &sc2);
        check(same(r.as_slice(), &addr) == eq, "a custody signature authorises one key registration, down to every field");
        if eq { cover("same"); } else { cover("other"); }
    }
    fn c07_key_remove() {
        flag("fmt", 1);
        let addr = eth_addr(&S1);
        let (k1, k2) = (any_arr::<32>("key"), any_arr::<32>("key'"));
        let p = KeyRemovePayload { fid: any_u32("fid") as u64, key: &k1, nonce: any_u32("nonce"), deadline: any_u32("deadline") };
        let q = KeyRemovePayload { fid: any_u32("fid'") as u64, key: &k2, nonce: any_u32("nonce'"), deadline: any_u32("deadline'") };
        let d = key_remove_typed_data(&p, 1).unwrap().eip712_signing_hash().unwrap();
        let sig = eth_sign(&S1, &d.0);
        let r = recover_key_remove_custody_address(&q, &sig, 1).unwrap();
        let eq = (p.fid == q.fid) & same(p.key, q.key) & (p.nonce == q.nonce) & (p.deadline == q.deadline);
        check(same(r.as_slice(), &addr) == eq, "a custody signature authorises one key removal, down to every field");
        if eq { cover("same"); } else { cover("other"); }
    }
    fn c07_key_length() {
        // a key of another length is another key
        flag("fmt", 1);
        let addr = eth_addr(&S1);
        let (a, b) = (pick("length", &[32, 31, 0, 33]), pick("length'", &[32, 31, 0, 33]));
        let (k1, k2) = (vec![7u8; a], vec![7u8; b]);
        let p = KeyRemovePayload { fid: 5, key: &k1, nonce: 1, deadline: 2 };
        let q = KeyRemovePayload { key: &k2, ..p };
        let sig = eth_sign(&S1, &key_remove_typed_data(&p, 1).unwrap().eip712_signing_hash().unwrap().0);
        check((recover_key_remove_custody_address(&q, &sig, 1).unwrap().as_slice() == &addr) == (a == b), "a custody signature is for one key");
        let (c, e) = (any_bool("chain"), any_bool("short"));
        check((recover_key_remove_custody_address(&p, &sig, if conc_bool(c) { 10 } else { 1 }).unwrap().as_slice() == &addr) == !c, "a custody signature is for one chain id");
        if conc_bool(e) { check(recover_key_remove_custody_address(&p, &sig[..64], 1).is_err(), "a signature has 65 bytes"); }
        cover("length");
    }
    fn c07_add_body() {
        let n = choose("key length", 30, 34);
        let ns = choose("scopes", 0, 3);
        let nm = choose("metadata", 0, 2);
        let mut b = proto::KeyAddBody { key: vec![1; n], key_type: any_u32("type"), deadline: any_u32("deadline"), nonce: any_u32("nonce"), ttl: any_u32("ttl"), metadata: vec![1; nm], metadata_type: any_u32("metadata type"), ..Default::default() };
        let mut want = n == 32 && ns >= 1 && nm >= 1 && (b.key_type == 1) & (b.deadline != 0) & (b.ttl >= 1) & (b.ttl <= 90 * 86400) & (b.metadata_type == 1);
        for _ in 0..ns { let s = any_i32("scope"); want &= scope_ok(s); b.scopes.push(s); }
        let ok = validate_key_add_body(&b).is_ok();
        check(ok == want, "a key registration has an Ed25519 key, a deadline, a life of at most 90 days, a request and scopes a signer may hold");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c07_scope_count() {
        let n = choose("scopes", 15, 18);
        let s = any_i32("scope");
        assume(scope_ok(s));
        let b = proto::KeyAddBody { key: vec![1; 32], key_type: 1, deadline: 1, ttl: 1, metadata: vec![1], metadata_type: 1, scopes: vec![s; n], ..Default::default() };
        check(validate_key_add_body(&b).is_ok() == (n <= 16), "at most sixteen scopes");
        cover("count");
    }
    fn c07_remove_body() {
        let n = choose("key length", 0, 40);
        let b = proto::KeyRemoveBody { key: vec![1; n], signature_type: any_u32("signature type"), deadline: any_u32("deadline"), nonce: any_u32("nonce"), ..Default::default() };
        let ok = validate_key_remove_body(&b).is_ok();
        check(ok == (n == 32 && (b.signature_type >= 1) & (b.signature_type <= 2) & (b.deadline != 0)), "a key removal has an Ed25519 key, a known authorisation and a deadline");
        if ok { cover("accepted"); }
    }
}
