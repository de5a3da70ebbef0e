//! bounds: page tokens of up to 3 segments of up to 3 arbitrary bytes; token texts that encode 0, 1, 2 or 255 announced and up to 2 present segments with true and false lengths, cut by up to 3 bytes; every text of up to 5 ASCII characters; keys of up to 8 arbitrary bytes
use crate::{com::*, entries, vf::*};
use snapchain::storage::trie::util::*;
use base64::Engine;

/// the format, read independently
fn read(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    if b.len() < 4 { return None; }
    let be = |i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
    let n = be(0);
    let (mut at, mut v) = (4, vec![]);
    while v.len() < n {
        if at + 4 > b.len() { return None; }
        let l = be(at);
        at += 4;
        if l > b.len() - at { return None; }
        v.push(b[at..at + l].to_vec());
        at += l;
    }
    if at != b.len() { return None; }
    Some(v)
}

entries! {
    fn c12_round_trip() {
        let n = choose("segments", 0, 3);
        let t: Vec<Vec<u8>> = (0..n).map(|_| any_vec_upto("segment", 0, if n > 2 { 1 } else { 2 })).collect();
        let s = encode_trie_page_token(&Some(t.clone()));
        match decode_trie_page_token(&s) {
            Ok(None) => { check(n == 0 && s.is_empty(), "only the empty token says nothing"); cover("empty"); }
            Ok(Some(u)) => { let mut e = u.len() == n; for (a, b) in u.iter().zip(&t) { e &= same(a, b); } check(e, "a page token comes back as it was"); cover("token"); }
            Err(_) => check(false, "a page token is accepted by its own node"),
        }
        check(encode_trie_page_token(&None).is_empty(), "no token, no text");
    }
    fn c12_decode() {
        let mut b = vec![0, 0, 0, pick("count", &[0, 1, 2, 255]) as u8];
        for _ in 0..choose("segments", 0, 2) {
            let l = pick("announced", &[0, 1, 2, 0x7fff_ffff, 0xffff_ffff]) as u32;
            b.extend(l.to_be_bytes());
            for i in 0..choose("present", 0, 2) { b.push(0xA0 + i as u8); }
        }
        let n = b.len() - choose("cut", 0, 3);
        b.truncate(n);
        let s = base64::engine::general_purpose::STANDARD.encode(&b);
        let want = read(&b);
        match decode_trie_page_token(&s) {
            Ok(None) => { check(n == 0 || want.as_ref().is_some_and(|v| v.is_empty()), "nothing means nothing"); cover("nothing"); }
            Ok(Some(v)) => { let w = want.unwrap_or_default(); let mut e = v.len() == w.len(); for (a, b) in v.iter().zip(&w) { e &= same(a, b); } check(e, "a token is read as written"); cover("accepted"); }
            Err(_) => { check(n > 0 && want.is_none(), "a well-formed token is accepted"); cover("refused"); }
        }
    }
    fn c12_text() {
        // any text at all: an answer, never a crash
        let n = choose("length", 0, 5);
        let s = any_ascii("text", n);
        check(decode_trie_page_token(&s).is_ok() == (n == 0), "short texts are no tokens");
        cover("text");
    }
    fn c12_nibbles() {
        let n = choose("length", 0, 8);
        let k = any_vec("key", n);
        let x = expand_nibbles(&k);
        let mut ok = x.len() == 2 * n;
        if ok { for i in 0..n { ok &= (x[2 * i] == k[i] >> 4) & (x[2 * i + 1] == k[i] & 15); } }
        check(ok, "a key's path is its half bytes, high half first");
        check(same(&combine_nibbles(&x), &k), "the path leads back to the key");
        cover("nibbles");
    }
    fn c12_order() {
        // paths sort as keys do, and share prefixes as keys do
        let (a, b) = (any_vec("a", 4), any_vec("b", 4));
        let (x, y) = (expand_nibbles(&a), expand_nibbles(&b));
        check((x < y) == (a < b), "paths are in key order");
        check(same(&x, &y) == same(&a, &b), "different keys have different paths");
        cover("order");
    }
}
