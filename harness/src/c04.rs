//! bounds: every enum value; values of every length up to 300 bytes where only the length counts; every UTF-8 name of up to 18 bytes (fname, Twitter), every ASCII GitHub name up to 40 bytes; ENS/Base names with labels of up to 17 bytes and nine kinds of suffix; CAIP-19 ids built from pieces around every length limit; Ethereum address strings with any three ASCII characters at three places; base58 strings of 30 to 34 characters that decode to small numbers
//! assume: keccak256 of symbolic text is an uninterpreted injective function
use crate::{com::*, entries, vf::*};
use snapchain::core::validations::message::*;
use snapchain::proto::{self, UserDataBody};
use snapchain::version::version::*;

fn low(b: u8) -> bool { ((b >= b'a') & (b <= b'z')) | ((b >= b'0') & (b <= b'9')) }
fn alnum(b: u8) -> bool { low(b) | ((b >= b'A') & (b <= b'Z')) }
fn label_ok(b: &[u8]) -> bool { b.len() >= 1 && b.len() <= 16 && low(b[0]) & all(&b[1..], |c| low(c) | (c == b'-')) }
fn user_data(ty: i32, value: String, pro: bool, v: EngineVersion) -> bool { validate_user_data_add_body(&UserDataBody { r#type: ty, value }, pro, v).is_ok() }

entries! {
    fn c04_sizes() {
        let ty = any_i32("type");
        assume((ty != 6) & (ty != 7) & (ty != 8) & (ty != 9) & (ty != 11) & (ty != 12) & (ty != 13));
        let value = text("value", 300);
        let n = value.len();
        let (pro, v) = (any_bool("pro"), any_version());
        let want = match ty { 1 | 3 | 5 => n <= 256, 2 => n <= 32, 10 => pro & (n <= 256), 14 => v.is_enabled(ProtocolFeature::LiveAt) & (n <= 256), _ => false };
        check(user_data(ty, value, pro, v) == want, "user data has a known type, available in this version and plan, and fits its limit");
        if want { cover("accepted"); } else { cover("refused"); }
    }
    fn c04_gates() {
        let v = any_version();
        let pro = any_bool("pro");
        check(user_data(11, "".into(), pro, v) == v.is_enabled(ProtocolFeature::PrimaryAddresses), "primary addresses come with their version");
        check(user_data(12, "".into(), pro, v) == v.is_enabled(ProtocolFeature::PrimaryAddresses), "primary addresses come with their version");
        check(user_data(13, "".into(), pro, v) == v.is_enabled(ProtocolFeature::UserProfileToken), "profile tokens come with their version");
        check(user_data(6, "".into(), pro, v) && user_data(7, "".into(), pro, v) && user_data(8, "".into(), pro, v), "a user can clear name, location and accounts");
        check(!user_data(0, "".into(), pro, v) && !user_data(4, "".into(), pro, v), "no such type");
        cover("gates");
    }
    fn c04_fname() {
        let n = choose("length", 0, 18);
        let s = any_utf8("name", n);
        let want = label_ok(s.as_bytes());
        check(validate_fname(&s).is_ok() == want, "an fname is 1 to 16 of a-z 0-9 and -, not starting with -");
        if want { cover("accepted"); } else { cover("refused"); }
    }
    fn c04_twitter() {
        let n = choose("length", 0, 17);
        let s = any_utf8("name", n);
        let want = n <= 15 && all(s.as_bytes(), |c| low(c) | (c == b'_'));
        check(validate_twitter_username(&s).is_ok() == want, "a Twitter name has up to 15 of a-z 0-9 _");
        check(user_data(8, s, false, EngineVersion::latest()) == want, "user data of this type");
        if want { cover("accepted"); }
    }
    fn c04_github() {
        let n = pick("length", &[0, 1, 2, 3, 4, 5, 8, 12, 20, 37, 38, 39, 40]);
        let s = any_ascii("name", n);
        let b = s.as_bytes();
        let mut want = n >= 1 && n <= 38 && alnum(b[0]) & all(b, |c| alnum(c) | (c == b'-'));
        for i in 1..n { want &= !((b[i - 1] == b'-') & (b[i] == b'-')); }
        check(validate_github_username(&s).is_ok() == want, "a GitHub name is alphanumeric with single hyphens");
        check(user_data(9, s, false, EngineVersion::latest()) == want, "user data of this type");
        if want { cover("accepted"); }
    }
    fn c04_ens() {
        let n = choose("label length", 0, 17);
        let l = any_ascii("label", n);
        assume(all(l.as_bytes(), |c| c != b'.'));
        let k = choose("suffix", 0, 8);
        let suffix = [".eth", ".base.eth", ".ETH", "eth", ".x.eth", ".eth.", "..eth", ".base", ".base.eth.eth"][k];
        let s = format_free(&l, suffix);
        let good = label_ok(l.as_bytes());
        // a label that swallows the dot-less suffix still has no dot
        check(validate_ens_name(&s).is_ok() == (k == 0 && good), "an ENS name is one label and .eth");
        check(validate_base_name(&s).is_ok() == (k == 1 && good), "a Base name is one label and .base.eth");
        if good && k < 2 { cover("accepted"); }
    }
    fn c04_username() {
        let n = choose("label length", 0, 5);
        let l = any_ascii("label", n);
        assume(all(l.as_bytes(), |c| c != b'.'));
        let k = choose("suffix", 0, 3);
        let s = format_free(&l, ["", ".eth", ".base.eth", ".xyz"][k]);
        let want = if s.is_empty() { true } else { k < 3 && label_ok(l.as_bytes()) };
        check(user_data(6, s, any_bool("pro"), any_version()) == want, "a username is an fname, an ENS name, a Base name or empty");
        if want { cover("accepted"); }
    }
    fn c04_caip19() {
        let piece = |name: &str, of: &[usize]| { let n = pick(name, of); let s = any_ascii(name, n); assume(all(s.as_bytes(), |c| (c != b'/') & (c != b':'))); s };
        let (ns, re) = (piece("namespace", &[0, 1, 3]), piece("reference", &[0, 2]));
        let (an, ar) = (piece("asset namespace", &[2, 3, 8, 9]), piece("asset reference", &[0, 1, 4]));
        let tok = if any_bool("token") { Some(piece("token", &[0, 2])) } else { None };
        let mut s = String::new();
        s.push_str(&ns); s.push(':'); s.push_str(&re); s.push('/'); s.push_str(&an); s.push(':'); s.push_str(&ar);
        if let Some(t) = &tok { s.push('/'); s.push_str(t); }
        let want = ns.len() > 0 && re.len() > 0 && an.len() >= 3 && an.len() <= 8 && ar.len() > 0 && tok.as_ref().map_or(true, |t| t.len() > 0)
            && all(ns.as_bytes(), low) & all(re.as_bytes(), alnum) & all(an.as_bytes(), |c| low(c) | (c == b'-'))
             & all(ar.as_bytes(), |c| alnum(c) | (c == b'-') | (c == b'.') | (c == b'%')) & tok.as_ref().map_or(true, |t| all(t.as_bytes(), alnum));
        check(validate_caip19_format(&s).is_ok() == want, "a CAIP-19 id");
        if want { cover("accepted"); }
    }
    fn c04_caip19_long() {
        let (ar, tok) = (pick("asset reference", &[127, 128, 129]), pick("token", &[0, 50, 111, 112, 150]));
        let mut s = String::from("eip155:1/erc721:");
        for _ in 0..ar { s.push('a'); }
        if tok > 0 { s.push('/'); for _ in 0..tok { s.push('9'); } }
        check(validate_caip19_format(&s).is_ok() == (ar <= 128 && s.len() <= 256), "length limits of a CAIP-19 id");
        cover("long");
    }
    fn c04_eth_address() {
        let at = pick("at", &[0, 13, 30]);
        let digits = any_ascii("digits", 10);
        let mut all40 = *b"0123456789012345678901234567890123456789";
        for i in 0..10 { all40[at + i] = digits.as_bytes()[i]; }
        let hex = |c: u8| ((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'f')) | ((c >= b'A') & (c <= b'F'));
        let mut s = String::from("0x");
        s.push_str(unsafe { std::str::from_utf8_unchecked(&all40) });
        let ok = validate_user_data_primary_address_ethereum(&s).is_ok();
        let mut lower = all40;
        for c in lower.iter_mut() { let up = (*c >= b'A') & (*c <= b'F'); *c |= (up as u8) << 5; }
        let h = alloy_primitives::keccak256(&lower);
        let mut sum = all(&all40, hex);
        for i in 0..40 {
            let nib = if i % 2 == 0 { h[i / 2] >> 4 } else { h[i / 2] & 15 };
            let c = all40[i];
            let (is_low, is_up) = ((c >= b'a') & (c <= b'f'), (c >= b'A') & (c <= b'F'));
            sum &= !(is_low & (nib >= 8)) & !(is_up & (nib < 8));
        }
        check(ok == sum, "a primary address is in checksum form");
        if ok { cover("accepted"); } else { cover("refused"); }
    }
    fn c04_eth_address_form() {
        let k = choose("form", 0, 3);
        let n = choose("digits", 0, 42);
        let mut s = String::from(["0x", "0X", "", "0x "][k]);
        for i in 0..n { s.push((b'0' + (i % 10) as u8) as char); }
        check(validate_user_data_primary_address_ethereum(&s).is_ok() == (s.is_empty() || k == 0 && n == 40), "0x and 40 digits, or nothing");
        cover("form");
    }
    fn c04_sol_address() {
        let n = choose("length", 30, 34);
        let mut s = vec![b'1'; n];
        let tail = any_arr::<2>("tail");
        let k = choose("symbolic", 0, 2);
        for i in 0..k { s[n - 1 - i] = tail[i]; }
        let al = |c: u8| ((c >= b'1') & (c <= b'9')) | ((c >= b'A') & (c <= b'H')) | ((c >= b'J') & (c <= b'N')) | ((c >= b'P') & (c <= b'Z')) | ((c >= b'a') & (c <= b'k')) | ((c >= b'm') & (c <= b'z'));
        assume(all(&s, |c| c < 0x80));
        let in_alphabet = all(&s, al);
        let ok = validate_user_data_primary_address_solana(&unsafe { String::from_utf8_unchecked(s.clone()) }).is_ok();
        if !in_alphabet { check(!ok, "not base58"); cover("not base58"); }
        // leading ones are zero bytes; two digits after them make one or two bytes
        else if k < 2 { check(ok == (n == 32), "a Solana address is 32 bytes"); if ok { cover("accepted"); } }
        else { check(n >= 32 && n <= 33 || !ok, "a Solana address is 32 bytes"); }
    }
}
fn format_free(a: &str, b: &str) -> String { let mut s = String::with_capacity(a.len() + b.len()); s.push_str(a); s.push_str(b); s }
