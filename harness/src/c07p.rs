//! bounds: key requests with every user, key, deadline and time below 2^32 on both sides; truncations at ABI word boundaries
use crate::{com::*, entries, vf::*};
use alloy_primitives::{Address, Bytes, U256};
use alloy_sol_types::SolValue;
use snapchain::core::validations::key::*;
use snapchain::proto;

entries! {
    fn c07_domains() {
        // a signature of one kind is none of another
        flag("fmt", 1);
        let addr = eth_addr(&S1);
        let k = any_arr::<32>("key");
        let (fid, nonce, deadline) = (any_u32("fid") as u64, any_u32("nonce"), any_u32("deadline"));
        let add = KeyAddPayload { fid, key: &k, key_type: 1, scopes: &[1], ttl: 5, nonce, deadline };
        let rem = KeyRemovePayload { fid, key: &k, nonce, deadline };
        let (da, dr, ds) = (key_add_typed_data(&add, 1).unwrap(), key_remove_typed_data(&rem, 1).unwrap(), signed_key_request_typed_data(fid, &k, deadline as u64, 1).unwrap());
        let kind = choose("kind", 0, 2);
        split(kind as u64);
        let sig = eth_sign(&S1, &[&da, &dr, &ds][kind].eip712_signing_hash().unwrap().0);
        let a = same(recover_key_add_custody_address(&add, &sig, 1).unwrap().as_slice(), &addr);
        let r = same(recover_key_remove_custody_address(&rem, &sig, 1).unwrap().as_slice(), &addr);
        let m = SignedKeyRequestMetadata { requestFid: U256::from(fid), requestSigner: Address::from(addr), signature: Bytes::from(sig.to_vec()), deadline: U256::from(deadline as u64) }.abi_encode();
        let s = verify_signed_key_request_metadata(1, &m, &k, 0, 1).is_ok();
        check((a == (kind == 0)) & (r == (kind == 1)) & (s == (kind == 2)), "an addition, a removal and a request are signed apart");
        cover("domains");
    }
    fn c07_request() {
        flag("fmt", 1);
        let (a1, a2) = (eth_addr(&S1), eth_addr(&S2));
        let (k1, k2) = (any_arr::<32>("key"), any_arr::<32>("key'"));
        let (f1, f2) = (any_u32("fid") as u64, any_u32("fid'") as u64);
        let (d1, d2) = (any_u32("deadline") as u64, any_u32("deadline'") as u64);
        let now = any_u32("now") as u64;
        let h = signed_key_request_typed_data(f1, &k1, d1, 1).unwrap().eip712_signing_hash().unwrap();
        let sig = eth_sign(&S1, &h.0);
        let claim_other = conc_bool(any_bool("other signer"));
        split(claim_other as u64);
        let ty = any_u32("metadata type");
        let m = SignedKeyRequestMetadata { requestFid: U256::from(f2), requestSigner: Address::from(if claim_other { a2 } else { a1 }), signature: Bytes::from(sig.to_vec()), deadline: U256::from(d2) }.abi_encode();
        let r = verify_signed_key_request_metadata(ty, &m, &k2, now, 1);
        let want = (ty == 1) & !claim_other & (f1 == f2) & same(&k1, &k2) & (d1 == d2) & (d2 >= now);
        check(r.is_ok() == want, "a key request is accepted exactly when its claimed signer signed this user, key and unexpired deadline");
        if let Ok(v) = r {
            check((v.request_fid == f2) & (v.deadline == d2) & same(v.request_signer.as_slice(), &a1), "the request is reported as signed");
            cover("accepted");
        } else { cover("refused"); }
    }
    fn c07_request_range() {
        flag("fmt", 1);
        let addr = eth_addr(&S1);
        let k = [3u8; 32];
        let sig = eth_sign(&S1, &signed_key_request_typed_data(9, &k, 50, 1).unwrap().eip712_signing_hash().unwrap().0);
        let (hf, hd) = (any_arr::<24>("fid high"), any_arr::<24>("deadline high"));
        let big = |hi: &[u8; 24], lo: u64| { let mut w = [0u8; 32]; w[..24].copy_from_slice(hi); w[24..].copy_from_slice(&lo.to_be_bytes()); U256::from_be_bytes(w) };
        let m = SignedKeyRequestMetadata { requestFid: big(&hf, 9), requestSigner: Address::from(addr), signature: Bytes::from(sig.to_vec()), deadline: big(&hd, 50) }.abi_encode();
        let cut = pick("length", &[m.len(), 0, 31, 32, 64, 160]);
        let ok = verify_signed_key_request_metadata(1, &m[..cut], &k, 50, 1).is_ok();
        check(ok == (cut == m.len() && zero(&hf) & zero(&hd)), "truncated or oversized requests are refused");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
}
