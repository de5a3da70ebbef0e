//! bounds: names and passwords of up to 2 arbitrary ASCII characters, up to two users; credentials of one arbitrary base64 group; every page size, direction and token of up to 2 bytes, every 32-bit time
use crate::{com::*, entries, vf::*};
use base64::Engine;
use snapchain::network::rpc_extensions::*;
use snapchain::proto;
use snapchain::storage::db::PageOptions;
use std::collections::HashMap;
use tonic::Request;

fn b64(v: &[u8]) -> String { base64::engine::general_purpose::STANDARD.encode(v) }
fn with(h: &str) -> Request<u8> { let mut r = Request::new(1u8); if let Ok(v) = h.parse() { r.metadata_mut().insert("authorization", v); } r }
fn printable(name: &str, n: usize) -> String { let s = any_ascii(name, n); assume(all(s.as_bytes(), |b| (b > 32) & (b < 127))); s }
fn page() -> (Option<u32>, Option<Vec<u8>>, Option<bool>) {
    let size = if choose("has size", 0, 1) == 1 { Some(any_u32("size")) } else { None };
    let token = match choose("token", 0, 3) { 0 => None, n => Some(any_vec("token", n - 1)) };
    (size, token, match choose("reverse", 0, 2) { 0 => None, n => Some(n == 2) })
}
fn is(o: &PageOptions, p: &(Option<u32>, Option<Vec<u8>>, Option<bool>)) -> bool {
    (o.page_size == p.0.map(|s| s as usize)) & (o.reverse == p.2.unwrap_or(false)) & match (&o.page_token, &p.1) { (Some(a), Some(b)) => !b.is_empty() && same(a, b), (None, Some(b)) => b.is_empty(), (None, None) => true, _ => false }
}

entries! {
    fn c23_credentials() {
        let n = choose("users", 1, 2);
        let (u1, p1) = (printable("user", 1), printable("password", 1));
        let (u2, p2) = (printable("user 2", 1), printable("password 2", 1));
        assume(!u1.contains(':') & !u2.contains(':') & !p1.contains(':') & !p2.contains(':'));
        assume(!same(u1.as_bytes(), u2.as_bytes()));
        let mut allowed = HashMap::new();
        allowed.insert(u1.clone(), p1.clone());
        if n == 2 { allowed.insert(u2.clone(), p2.clone()); }
        let (u, p) = (printable("given user", 1), printable("given password", 1));
        let r = authenticate_request(&with(&(String::from("Basic ") + &b64((u.clone() + ":" + &p).as_bytes()))), &allowed);
        let eq = |a: &str, b: &str| same(a.as_bytes(), b.as_bytes());
        let want = (eq(&u, &u1) & eq(&p, &p1)) | ((n == 2) & eq(&u, &u2) & eq(&p, &p2));
        check(r.is_ok() == (want & (u != ":") & (p != ":")), "a request is let in exactly with a user's own password");
        if r.is_ok() { cover("let in"); } else { cover("refused"); }
    }
    fn c23_form() {
        let mut allowed = HashMap::new();
        allowed.insert("a".to_string(), "b".to_string());
        check(authenticate_request(&Request::new(1u8), &allowed).is_err(), "without credentials nobody is let in");
        check(authenticate_request(&Request::new(1u8), &HashMap::new()).is_ok(), "without users everybody is let in");
        for h in ["Basic", "Basic  ", "YTpi", "Bearer YTpi", "basic YTpi", "Basic YTpi YTpi", "Basic a:b", "Basic YWI=", "Basic YTpiOg==", "Basic YTpi!", "", "Basic Yjph", "Basic Og=="] { check(authenticate_request(&with(h), &allowed).is_err(), "credentials of another form are refused"); }
        check(authenticate_request(&with("Basic YTpi"), &allowed).is_ok(), "good credentials are accepted");
        // any one base64 group
        let g = any_ascii("group", 4);
        assume(all(g.as_bytes(), |b| (b > 32) & (b < 127)));
        let r = authenticate_request(&with(&(String::from("Basic ") + &g)), &allowed);
        check(r.is_ok() == same(g.as_bytes(), b"YTpi"), "credentials are accepted in their one spelling");
        cover("form");
    }
    fn c23_pages() {
        let p = page();
        let (s, t, r) = (p.0, p.1.clone(), p.2);
        check(is(&proto::FidRequest { fid: 1, page_size: s, page_token: t.clone(), reverse: r }.page_options(), &p), "a page is as requested");
        check(is(&proto::FidTimestampRequest { fid: 1, page_size: s, page_token: t.clone(), reverse: r, ..Default::default() }.page_options(), &p), "a page is as requested");
        check(is(&proto::CastsByParentRequest { page_size: s, page_token: t.clone(), reverse: r, ..Default::default() }.page_options(), &p), "a page is as requested");
        check(is(&proto::ReactionsByFidRequest { page_size: s, page_token: t.clone(), reverse: r, ..Default::default() }.page_options(), &p), "a page is as requested");
        check(is(&proto::LinksByFidRequest { page_size: s, page_token: t.clone(), reverse: r, ..Default::default() }.page_options(), &p), "a page is as requested");
        check(is(&proto::SignersByFidRequest { page_size: s, page_token: t.clone(), reverse: r, ..Default::default() }.page_options(), &p), "a page is as requested");
        check(is(&proto::ChannelsByAddressRequest { page_size: s, page_token: t.clone(), reverse: r, ..Default::default() }.page_options(), &p), "a page is as requested");
        let (a, b) = (any_u32("start"), any_u32("stop"));
        let f = proto::FidTimestampRequest { start_timestamp: Some(a as u64), stop_timestamp: Some(b as u64), ..Default::default() };
        check(f.timestamps() == (Some(a), Some(b)) && proto::FidTimestampRequest::default().timestamps() == (None, None), "a time range is as requested");
        cover("page");
    }
}
