//! bounds: every FID, network, block hash and tampering of address and signature; field lengths around the right ones; every 32-bit chain id, verification type and protocol
//! assume: ECDSA and EdDSA are modelled (unforgeable; a signature recovers exactly the signer of that hash); keccak256 is injective; malleated signatures are outside
use crate::{com::*, entries, vf::*};
use snapchain::core::validations::verification::*;
use snapchain::proto::{self, FarcasterNetwork};

fn len_of(name: &str, v: &mut Vec<u8>, of: &[usize]) -> bool { let n = pick(name, of); v.resize(n, 1); n == of[0] }
fn claim_hash(addr: &[u8], block: &[u8; 32], fid: u64, net: i32) -> [u8; 32] {
    // EIP-712 of the claim, written out
    let k = |b: &[u8]| alloy_primitives::keccak256(b).0;
    let word = |v: u64| { let mut w = [0u8; 32]; w[24..].copy_from_slice(&v.to_be_bytes()); w };
    let salt = hex::decode("f2d857f4a3edcb9b78b4d503bfe733db1e3f6cdc2b7971ee739626c97e86a558").unwrap();
    let mut d = vec![];
    d.extend(k(b"EIP712Domain(string name,string version,bytes32 salt)"));
    d.extend(k(b"Farcaster Verify Ethereum Address")); d.extend(k(b"2.0.0")); d.extend(salt);
    let domain = k(&d);
    let mut s = vec![];
    s.extend(k(b"VerificationClaim(uint256 fid,address address,bytes32 blockHash,uint8 network)"));
    s.extend(word(fid)); s.extend([0; 12]); s.extend(addr); s.extend(block); s.extend(word(net as u64));
    let st = k(&s);
    let mut m = vec![0x19, 1]; m.extend(domain); m.extend(st);
    k(&m)
}

entries! {
    fn c06_eth() {
        flag("fmt", 1);
        let addr = eth_addr(&S1);
        let block = any_arr::<32>("block hash");
        let (fid, net) = (any_u32("fid") as u64, any_net());
        let h = claim_hash(&addr, &block, fid, net as i32);
        let sig = eth_sign(&S1, &h);
        // the same claim, or one with any field changed
        let (fid2, net2) = (any_u32("fid'") as u64, any_net());
        let block2 = any_arr::<32>("block hash'");
        let other = any_bool("other address");
        split(conc_bool(other) as u64);
        let a2 = if conc_bool(other) { eth_addr(&S2) } else { addr };
        let b = proto::VerificationAddAddressBody { address: a2.to_vec(), claim_signature: sig.to_vec(), block_hash: block2.to_vec(), verification_type: 0, chain_id: 0, protocol: 0 };
        let same_claim = (fid == fid2) & (net == net2) & same(&block, &block2) & !other;
        let ok = validate_add_address(&b, fid2, net2).is_ok();
        check(ok == same_claim, "an address is verified for one user, network and block hash by its own signature only");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c06_eth_signature() {
        flag("fmt", 1);
        let addr = eth_addr(&S1);
        let h = claim_hash(&addr, &[9; 32], 5, 1);
        let mut sig = eth_sign(if any_bool("other key") { &S2 } else { &S1 }, &h).to_vec();
        let own = sig == eth_sign(&S1, &h);
        let mut ok_len = true;
        ok_len &= len_of("signature length", &mut sig, &[65, 0, 64, 66, 2049]);
        let b = proto::VerificationAddAddressBody { address: addr.to_vec(), claim_signature: sig, block_hash: vec![9; 32], verification_type: 0, chain_id: 0, protocol: 0 };
        let ok = validate_add_address(&b, 5, FarcasterNetwork::Mainnet).is_ok();
        check(ok == (own && ok_len), "only the address's own signature");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c06_eth_kinds() {
        let mut want = true;
        let (mut address, mut block_hash) = (vec![1; 20], vec![2; 32]);
        want &= len_of("address length", &mut address, &[20, 0, 19, 21, 32]);
        if want { want &= len_of("block hash length", &mut block_hash, &[32, 0, 31, 33]); }
        let mut claim_signature = vec![1; 10];
        if want { let n = pick("signature length", &[10, 0, 65, 2048, 2049]); claim_signature.resize(n, 1); want &= n <= 2048; }
        let (ty, chain, protocol) = (any_u32("type"), any_u32("chain"), any_i32("protocol"));
        assume((ty != 0) & (protocol != 1));
        let chain_ok = |c: u32| (c == 0) | (c == 1) | (c == 5) | (c == 10) | (c == 420);
        let b = proto::VerificationAddAddressBody { address, claim_signature, block_hash, verification_type: ty, chain_id: chain, protocol };
        let ok = validate_add_address(&b, any_u64("fid"), any_net()).is_ok();
        let rest = want & (ty == 1) & (protocol == 0);
        // listed only after truncation to 16 bits
        let kf1 = rest & !chain_ok(chain) & chain_ok(chain & 0xffff);
        known(!(ok & kf1), "KF1: a chain id above 65535 is taken for the listed chain it equals in its low 16 bits");
        check((ok == (rest & chain_ok(chain))) | kf1, "a contract verification has well-formed fields and a listed chain");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c06_eoa_chain() {
        flag("fmt", 1);
        let addr = eth_addr(&S1);
        let sig = eth_sign(&S1, &claim_hash(&addr, &[9; 32], 5, 1));
        let chain = any_u16("chain") as u32;
        let b = proto::VerificationAddAddressBody { address: addr.to_vec(), claim_signature: sig.to_vec(), block_hash: vec![9; 32], verification_type: 0, chain_id: chain, protocol: 0 };
        let ok = validate_add_address(&b, 5, FarcasterNetwork::Mainnet).is_ok();
        check(ok == ((chain == 0) | (chain == 1) | (chain == 5) | (chain == 10) | (chain == 420)), "listed chains only");
        if ok { cover("accepted"); }
    }
    fn c06_sol() {
        flag("fmt", 1);
        let pk = ed_public(&S1);
        let (fid, net) = (choose("fid", 1, 12) as u64, any_net());
        let block = [4u8; 32];
        let msg = format!("fid: {} address: {} network: {} blockHash: {} protocol: 1", fid, bs58::encode(&pk).into_string(), net as i32, bs58::encode(&block).into_string());
        let mut sig = ed_sign(&S1, msg.as_bytes()).to_vec();
        let ds = any_arr::<64>("signature delta"); xor(&mut sig, &ds);
        let mut ok_len = len_of("signature length", &mut sig, &[64, 0, 63, 65]);
        let (fid2, net2, block2) = (choose("fid'", 1, 12) as u64, any_net(), choose("block'", 0, 1) == 1);
        split(block2 as u64);
        let mut address = pk.to_vec();
        if ok_len { ok_len &= len_of("address length", &mut address, &[32, 0, 31, 33, 20]); }
        let b = proto::VerificationAddAddressBody { address, claim_signature: sig, block_hash: if block2 { vec![5; 32] } else { vec![4; 32] }, verification_type: 0, chain_id: 0, protocol: 1 };
        let ok = validate_add_address(&b, fid2, net2).is_ok();
        check(ok == (ok_len & (fid == fid2) & (net == net2) & !block2 & zero(&ds)), "a Solana address is verified for one user, network and block hash by its own signature only");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c06_remove() {
        let p = any_i32("protocol");
        let n = choose("address length", 0, 40);
        let ok = validate_remove_address(&proto::VerificationRemoveBody { address: vec![1; n], protocol: p }).is_ok();
        check(ok == ((p == 0) & (n == 20) | (p == 1) & (n == 32)), "a verification removal names an address of its protocol");
        let a = any_i32("protocol'");
        assume((a != 0) & (a != 1));
        let b = proto::VerificationAddAddressBody { address: vec![1; n], claim_signature: vec![1; 64], block_hash: vec![1; 32], verification_type: 1, chain_id: 0, protocol: a };
        check(validate_add_address(&b, 5, FarcasterNetwork::Mainnet).is_err(), "no other protocols");
        cover("remove");
    }
}
