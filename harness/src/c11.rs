//! bounds: chain references and token ids padded with up to 22 and 80 zeros; chain references of up to 3 arbitrary ASCII characters and concrete ones around 2^64; token ids of up to 3 arbitrary ASCII characters and concrete ones around 2^256; addresses with any 6 ASCII characters at three places; chain ids and channel ids below 2^8 and concrete full-width ones for the round trip; every registrar chain id and address
//! assume: keccak256 of symbolic text is an uninterpreted injective function
use crate::{com::*, entries, vf::*};
use alloy_primitives::Address;
use snapchain::core::channel_uri::*;
use snapchain::proto::FarcasterNetwork;

const ADDR: &str = "0x06012c8cf97BEaD5deAe237070F9587f8E7A266d";
fn uri(parts: &[&str]) -> String { let mut s = String::with_capacity(300); for p in parts { s.push_str(p); } s }
fn decimal(s: &[u8]) -> bool { s.len() >= 1 && all(s, |c| (c >= b'0') & (c <= b'9')) & (s.len() == 1 || s[0] != b'0') }
fn value(s: &[u8]) -> u64 { let mut v = 0u64; for c in s { v = v * 10 + (*c as u64).wrapping_sub(48); } v }

entries! {
    fn c11_chain() {
        flag("fmt", 1);
        let n = choose("length", 0, 3);
        let c = any_ascii("chain", n);
        assume(all(c.as_bytes(), |b| b != b'/'));
        let r = ChannelAssetId::parse(&uri(&["eip155:", &c, "/erc721:", ADDR, "/77"]));
        check(r.is_ok() == decimal(c.as_bytes()), "one spelling per chain");
        if let Ok(a) = r { check(a.chain_id == value(c.as_bytes()), "the chain is the one named"); cover("accepted"); } else { cover("refused"); }
    }
    fn c11_token() {
        flag("fmt", 1);
        let n = choose("length", 0, 3);
        let t = any_ascii("token", n);
        let r = ChannelAssetId::parse(&uri(&["eip155:1/erc721:", ADDR, "/", &t]));
        check(r.is_ok() == decimal(t.as_bytes()), "one spelling per token");
        if let Ok(a) = r {
            let mut want = [0u8; 32]; want[24..].copy_from_slice(&value(t.as_bytes()).to_be_bytes());
            check(same(&a.channel_id, &want), "the channel is the one named");
            cover("accepted");
        } else { cover("refused"); }
    }
    fn c11_limits() {
        flag("fmt", 1);
        let chain = choose("chain", 0, 4);
        let token = choose("token", 0, 5);
        let c = ["18446744073709551615", "18446744073709551616", "184467440737095516150", "+1", "01"][chain];
        let t = ["115792089237316195423570985008687907853269984665640564039457584007913129639935", "115792089237316195423570985008687907853269984665640564039457584007913129639936",
            "1157920892373161954235709850086879078532699846656405640394575840079131296399350", "0115792089237316195423570985008687907853269984665640564039457584007913129639935", "0", "00"][token];
        let r = ChannelAssetId::parse(&uri(&["eip155:", c, "/erc721:", ADDR, "/", t]));
        check(r.is_ok() == (chain == 0 && (token == 0 || token == 4)), "numbers fit their types");
        if let Ok(a) = r { check(a.chain_id == u64::MAX && all(&a.channel_id, |b| b == if token == 0 { 255 } else { 0 }), "numbers are read in full"); cover("accepted"); }
        let long = choose("long", 250, 260);
        let mut s = String::from("eip155:1/erc721:"); s.push_str(ADDR); s.push('/');
        while s.len() < long { s.push('1'); }
        check(ChannelAssetId::parse(&s).is_err(), "overlong names are refused");
        cover("limits");
    }
    fn c11_padding() {
        flag("fmt", 1);
        // one free character behind zeros, nines or ones, up to and beyond every digit limit
        let which = choose("which", 0, 1);
        let n = if which == 0 { choose("zeros", 0, 22) } else { choose("zeros'", 60, 80) };
        let c = any_ascii("digit", 1);
        assume(c.as_bytes()[0] != b'/');
        let mut s = String::with_capacity(100);
        for _ in 0..n { s.push('0'); }
        s.push_str(&c);
        let r = if which == 0 { ChannelAssetId::parse(&uri(&["eip155:", &s, "/erc721:", ADDR, "/77"])) } else { ChannelAssetId::parse(&uri(&["eip155:1/erc721:", ADDR, "/", &s])) };
        check(r.is_ok() == (n == 0 && decimal(c.as_bytes())), "zeros in front make no second spelling");
        if r.is_ok() { cover("accepted"); } else { cover("refused"); }
    }
    fn c11_address() {
        flag("fmt", 1);
        let at = pick("at", &[0, 17, 34]);
        let d = any_ascii("digits", 6);
        assume(all(d.as_bytes(), |b| b != b'/'));
        let mut a = *b"0123456789012345678901234567890123456789";
        for i in 0..6 { a[at + i] = d.as_bytes()[i]; }
        let hex = |c: u8| ((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'f')) | ((c >= b'A') & (c <= b'F'));
        let r = ChannelAssetId::parse(&uri(&["eip155:1/erc721:0x", unsafe { std::str::from_utf8_unchecked(&a) }, "/77"]));
        let mut lower = a;
        for c in lower.iter_mut() { let up = (*c >= b'A') & (*c <= b'F'); *c |= (up as u8) << 5; }
        let h = alloy_primitives::keccak256(&lower);
        let mut sum = all(&a, hex);
        for i in 0..40 {
            let nib = if i % 2 == 0 { h[i / 2] >> 4 } else { h[i / 2] & 15 };
            let (is_low, is_up) = ((a[i] >= b'a') & (a[i] <= b'f'), (a[i] >= b'A') & (a[i] <= b'F'));
            sum &= !(is_low & (nib >= 8)) & !(is_up & (nib < 8));
        }
        check(r.is_ok() == sum, "one spelling per contract");
        if r.is_ok() { cover("accepted"); } else { cover("refused"); }
    }
    fn c11_structure() {
        flag("fmt", 1);
        let (a, b, c, d) = (choose("chain namespace", 0, 4), choose("asset namespace", 0, 4), choose("address", 0, 4), choose("tail", 0, 5));
        let s = uri(&[["eip155:1", "EIP155:1", "eip155", "eip155:1:", "solana:1"][a], ["/erc721:", "/ERC721:", "/erc20:", "/erc721", "/:"][b],
            [ADDR, "06012c8cf97BEaD5deAe237070F9587f8E7A266d", "0x06012c8cf97bead5deae237070f9587f8e7a266d", "0x06012C8CF97BEAD5DEAE237070F9587F8E7A266D", ""][c], ["/77", "", "/", "/77/", "/7/7", "77"][d]]);
        check(ChannelAssetId::parse(&s).is_ok() == (a == 0 && b == 0 && c == 0 && d == 0), "one spelling per channel");
        cover("structure");
    }
    fn c11_round_trip() {
        flag("fmt", 1);
        let mode = choose("mode", 0, 4);
        let chain_id = if mode == 0 { any_u8("chain") as u64 } else { 8453 };
        let mut channel_id = [[0u8; 32], [0; 32], [0xff; 32], [0x11; 32], [0x80; 32]][mode];
        if mode == 1 { channel_id[31] = any_u8("low"); }
        let contract = Address::from([[0u8; 20], [0xab; 20]][choose("contract", 0, 1)]);
        let a = ChannelAssetId { chain_id, contract, channel_id };
        let r = ChannelAssetId::parse(&a.canonical_string());
        match r {
            Ok(b) => { check((b.chain_id == chain_id) & (b.contract == contract) & same(&b.channel_id, &channel_id), "a channel's spelling names that channel"); cover("round trip"); }
            Err(_) => check(false, "a channel's spelling is accepted"),
        }
    }
    fn c11_follow() {
        flag("fmt", 1);
        let reg = ChannelRegistrar { chain_id: any_u64("registrar chain"), address: Address::from(any_arr::<20>("registrar")) };
        let contract = Address::from([0xab; 20]);
        let a = ChannelAssetId { chain_id: 8453, contract, channel_id: [0x11; 32] };
        let want = (reg.chain_id == 8453) & same(reg.address.as_slice(), contract.as_slice());
        let r = channel_id_for_follow_target(&a.canonical_string(), &reg);
        check(r.is_some() == want, "only tokens of the network's registrar are channels");
        if let Some(id) = r { check(id == [0x11; 32], "a follow is of the channel named"); cover("follow"); }
        check(a.is_in(&reg) == want, "membership in a registrar is by chain and contract");
        check(channel_id_for_follow_target("https://example.com/", &reg).is_none() && channel_id_for_follow_target("", &reg).is_none(), "other targets are no follows");
        let f = ChannelAssetId::for_channel(&reg, [9; 32]);
        check((f.chain_id == reg.chain_id) & (f.contract == reg.address) && f.channel_id == [9; 32] && f.is_in(&reg), "a channel's own name is in its registrar");
    }
    fn c11_network() {
        let n = any_net();
        let r = channel_registrar_for_network(n);
        match n {
            FarcasterNetwork::Mainnet | FarcasterNetwork::None => check(r.is_none(), "no registrar without a deployment"),
            _ => check(r.is_some_and(|r| r.chain_id == 11155111 && r.address.as_slice() == hex::decode("7dd80c661ded9bfc8d4440224a0b39b345a91be4").unwrap()), "the development registrar"),
        }
        cover("network");
    }
}
