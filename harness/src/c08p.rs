//! bounds: registry answers with every number, a symbolic user name of up to 3 bytes, owner and signature strings from every four ASCII characters at the front, odd and even lengths up to 8
use crate::{com::*, entries, vf::*};
use snapchain::connectors::fname::{transfer_to_fname_transfer, Transfer};

fn unhex(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() < 3 || s[0] != b'0' || s[1] != b'x' || s.len() % 2 != 0 { return None; }
    let d = |c: u8| -> u8 { if c.is_ascii_digit() { c - b'0' } else if (b'a'..=b'f').contains(&c) { c - b'a' + 10 } else if (b'A'..=b'F').contains(&c) { c - b'A' + 10 } else { 255 } };
    let mut v = vec![];
    for i in (2..s.len()).step_by(2) { let (a, b) = (d(s[i]), d(s[i + 1])); if a == 255 || b == 255 { return None; } v.push(a << 4 | b); }
    Some(v)
}

entries! {
    fn c08_conversion() {
        let n = choose("user name length", 0, 3);
        let username = any_utf8("user name", n);
        let (lo, ls) = (choose("owner length", 0, 6), choose("signature length", 0, 6));
        let which = choose("symbolic", 0, 1);
        let fixed = |l: usize| String::from(&"0xAb09"[..l]);
        let owner = if which == 0 { any_ascii("owner", lo) } else { fixed(lo) };
        let server_signature = if which == 1 { any_ascii("signature", ls) } else { fixed(ls) };
        let (o, s) = (unhex(owner.as_bytes()), unhex(server_signature.as_bytes()));
        let t = Transfer { id: any_u64("id"), timestamp: any_u64("timestamp"), username: username.clone(), owner, from: any_u64("from"), to: any_u64("to"), user_signature: String::new(), server_signature };
        match transfer_to_fname_transfer(&t) {
            Ok(f) => {
                check(o.is_some() && s.is_some(), "only well-formed hex is taken");
                let p = f.proof.unwrap();
                check((f.id == t.id) & (f.from_fid == t.from) & (p.fid == t.to) & (p.timestamp == t.timestamp), "every number of the registry's answer is kept");
                check(p.r#type == 1 && same(&p.name, username.as_bytes()) && same(&p.owner, &o.unwrap_or_default()) && same(&p.signature, &s.unwrap_or_default()), "name, owner and signature are kept");
                cover("accepted");
            }
            Err(_) => { check(o.is_none() || s.is_none(), "a well-formed answer is taken"); cover("refused"); }
        }
    }
}
