//! bounds: every UTF-8 name of up to 4 bytes (and concrete longer ones), every owner, every timestamp below 2^32; every tampering of the signature; signature lengths around 65; both networks kinds
//! assume: ECDSA is modelled: recovery yields the signer of exactly that hash, and no known key otherwise; keccak256 is injective; malleated signatures are outside
use crate::{com::*, entries, vf::*};
use alloy_primitives::Address;
use snapchain::core::validations::verification::*;
use snapchain::proto::{self, FarcasterNetwork};

fn claim(name: &[u8], ts: u64, owner: &[u8]) -> [u8; 32] {
    let k = |b: &[u8]| alloy_primitives::keccak256(b).0;
    let word = |v: u64| { let mut w = [0u8; 32]; w[24..].copy_from_slice(&v.to_be_bytes()); w };
    let mut d = vec![];
    d.extend(k(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)"));
    d.extend(k(b"Farcaster name verification")); d.extend(k(b"1")); d.extend(word(1));
    d.extend([0; 12]); d.extend(hex::decode("e3be01d99baa8db9905b33a3ca391238234b79d1").unwrap());
    let domain = k(&d);
    let mut s = vec![];
    s.extend(k(b"UserNameProof(string name,uint256 timestamp,address owner)"));
    s.extend(k(name)); s.extend(word(ts)); s.extend([0; 12]); s.extend(owner);
    let st = k(&s);
    let mut m = vec![0x19, 1]; m.extend(domain); m.extend(st);
    k(&m)
}
fn transfer(name: Vec<u8>, ts: u64, owner: Vec<u8>, signature: Vec<u8>) -> proto::FnameTransfer {
    proto::FnameTransfer { id: 1, from_fid: any_u64("from"), proof: Some(proto::UserNameProof { timestamp: ts, name, owner, signature, fid: any_u64("to"), r#type: any_i32("type") }) }
}
fn public_net() -> FarcasterNetwork { let n = any_net(); assume(n != FarcasterNetwork::Devnet); n }

entries! {
    fn c08_binding() {
        flag("fmt", 1);
        let signer = eth_addr(&S1);
        let (n1, n2) = (choose("name length", 0, 3), choose("name length'", 0, 3));
        split((n1 * 4 + n2) as u64);
        let (a, b) = (any_utf8("name", n1), any_utf8("name'", n2));
        let (t1, t2) = (any_u32("timestamp") as u64, any_u32("timestamp'") as u64);
        let (o1, o2) = (any_arr::<20>("owner"), any_arr::<20>("owner'"));
        let sig = eth_sign(&S1, &claim(a.as_bytes(), t1, &o1));
        let t = transfer(b.as_bytes().to_vec(), t2, o2.to_vec(), sig.to_vec());
        let ok = validate_fname_transfer(&t, public_net(), Some(Address::from(signer))).is_ok();
        let want = same(a.as_bytes(), b.as_bytes()) && (t1 == t2) & same(&o1, &o2);
        check(ok == want, "a name is granted for exactly the name, time and owner the registry signed");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c08_signer() {
        flag("fmt", 1);
        let k = choose("signer", 0, 2);
        split(k as u64);
        let o = [7u8; 20];
        let sig = eth_sign(&S1, &claim(b"alice", 5, &o));
        let t = transfer(b"alice".to_vec(), 5, o.to_vec(), sig.to_vec());
        let who = [Some(Address::from(eth_addr(&S1))), Some(Address::from(eth_addr(&S2))), None][k];
        let ok = validate_fname_transfer(&t, public_net(), who).is_ok();
        check(ok == (k == 0), "only the registry's key grants names: the configured one, or the published one");
        cover("signer");
    }
    fn c08_signature() {
        flag("fmt", 1);
        let signer = eth_addr(&S1);
        let o = [7u8; 20];
        let mut sig = eth_sign(&S1, &claim(b"alice", 5, &o)).to_vec();
        let d = any_arr::<64>("signature delta");
        xor(&mut sig[..64], &d);
        let n = pick("signature length", &[65, 0, 64, 66, 130]);
        sig.resize(n, 1);
        let t = transfer(b"alice".to_vec(), 5, o.to_vec(), sig);
        let ok = validate_fname_transfer(&t, public_net(), Some(Address::from(signer))).is_ok();
        check(ok == (n == 65 && zero(&d)), "an altered or truncated signature grants nothing");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c08_name_bytes() {
        flag("fmt", 1);
        // names that are not text are refused everywhere, and on devnet that is the only rule
        let n = choose("name length", 0, 2);
        let name = any_vec("name", n);
        let t = transfer(name.clone(), 5, vec![7; 20], vec![1; 65]);
        let text = std::str::from_utf8(&name).is_ok();
        check(validate_fname_transfer(&t, FarcasterNetwork::Devnet, None).is_ok() == text, "names are text");
        if !text { check(validate_fname_transfer(&t, FarcasterNetwork::Mainnet, None).is_err(), "names are text"); cover("bytes"); } else { cover("text"); }
    }
    fn c08_proof_shape() {
        // the bytes of an fname proof carried around as a proof are what they were
        let n = choose("owner length", 0, 40);
        check(validate_eth_address(&vec![1; n]).is_ok() == (n == 20), "an Ethereum address is 20 bytes");
        check(validate_sol_address(&vec![1; n]).is_ok() == (n == 32), "a Solana address is 32 bytes");
        cover("addresses");
    }
}
