//! bounds: byte strings of up to 4 arbitrary bytes for order and neighbours, prefixes of up to 5 with keys of up to 7; every timestamp, user id, message type and set byte; every 20-byte hash and hash lengths up to 40; page tokens of up to 8 bytes
use crate::{com::*, entries, vf::*};
use prost::Message as _;
use snapchain::proto::{self, MessageData, MessageType};
use snapchain::storage::db::RocksDbTransactionBatch;
use snapchain::storage::store::account::*;
use snapchain::storage::util::*;
use std::cmp::Ordering;

fn sign(o: Ordering) -> i8 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
/// the sets of stored messages: the number of the set of a message type
fn set_of(t: i32) -> u8 { match t { 1 | 2 => 1, 5 | 6 => 2, 3 | 4 => 3, 7 | 8 => 4, 11 => 6, 12 => 7, 15 => 8, 18 => 9, 19 => 10, 20 => 11, 21 => 12, _ => 0 } }
fn key(fid: u32, set: u8, ts: u32, h: &[u8]) -> Vec<u8> { let mut v = vec![3]; v.extend(fid.to_be_bytes()); v.push(set); v.extend(ts.to_be_bytes()); v.extend_from_slice(h); v }
fn msg(t: i32, fid: u64, ts: u32, hash: Vec<u8>) -> proto::Message {
    proto::Message { data: Some(MessageData { r#type: t, fid, timestamp: ts, network: 1, body: None }), hash, ..Default::default() }
}

fn put_and_delete(m: &proto::Message, k0: Vec<u8>) {
    let mut x = RocksDbTransactionBatch::new();
    if put_message_transaction(&mut x, m).is_err() { check(false, "a message of a storable kind is stored"); return }
    check(x.len() == 1, "one message, one row");
    for (k, v) in &x.batch {
        check(same(k, &k0), "a message is stored under its key");
        let Some(v) = v else { check(false, "a stored message is there"); return };
        check(same(v, &message_encode(m)), "a stored message is stored whole");
    }
    if delete_message_transaction(&mut x, m).is_err() { check(false, "a stored message can be deleted"); return }
    check(x.len() == 1, "a message is deleted where it was stored");
    for (k, v) in &x.batch { check(same(k, &k0) && v.is_none(), "a deleted message is gone"); }
    cover("stored");
}

entries! {
    fn c13_compare() {
        let a = any_vec_upto("a", 0, 4);
        let b = any_vec_upto("b", 0, 4);
        check(bytes_compare(&a, &b) == sign(a.cmp(&b)), "bytes compare as the database orders them");
        check(bytes_compare(&a, &b) == -bytes_compare(&b, &a), "the order is antisymmetric");
        cover("compared");
    }
    fn c13_neighbours() {
        let n = choose("length", 1, 5);
        let a = any_vec("a", n);
        let full = all(&a, |x| x == 255);
        let up = increment_vec_u8(&a);
        if conc_bool(full) {
            check(up.len() == n + 1 && up[0] == 1 && zero(&up[1..]), "the number after the largest has one more byte");
            cover("overflow");
        } else {
            check(up.len() == n, "an increment keeps the length");
            check(up > a, "an increment goes up");
            check(same(&decrement_vec_u8(&up), &a), "a decrement undoes an increment");
            // nothing of the same length lies in between
            let b = any_vec("b", n);
            check(!((a < b) & (b < up)), "an increment is the very next");
            cover("incremented");
        }
        if conc_bool(zero(&a)) { check(decrement_vec_u8(&a).len() == n - 1, "nothing is below nothing"); } else { check(decrement_vec_u8(&a) < a, "a decrement goes down"); }
    }
    fn c13_prefix_scan() {
        // a scan from a prefix up to its increment sees exactly the keys under the prefix
        let n = choose("prefix", 1, 3);
        let m = choose("key", 0, 3);
        let p = any_vec("prefix", n);
        assume(!all(&p, |x| x == 255));
        let k = any_vec("key", n + m);
        let end = increment_vec_u8(&p);
        check(same(&k[..n], &p) == ((k >= p) & (k < end)), "a prefix scan sees exactly the keys of the prefix");
        cover("scanned");
    }
    fn c13_ts_hash() {
        let (ta, tb) = (any_u32("ta"), any_u32("tb"));
        let (ha, hb) = (any_arr::<20>("ha"), any_arr::<20>("hb"));
        let a = make_ts_hash(ta, &ha.to_vec());
        let b = make_ts_hash(tb, &hb.to_vec());
        let (Ok(a), Ok(b)) = (a, b) else { check(false, "a message hash has a position in time"); return };
        check(same(&a[..4], &ta.to_be_bytes()) & same(&a[4..], &ha), "time first, hash second");
        let (t, h) = unpack_ts_hash(&a);
        check((t == ta) & same(&h, &ha), "time and hash come back");
        if conc_bool(ta != tb) { check((a < b) == (ta < tb), "the later message sorts later"); check(bytes_compare(&a, &b) == if ta < tb { -1 } else { 1 }, "the later message wins a comparison"); cover("time"); }
        else { check((a < b) == (ha < hb), "in the same second the hash decides"); cover("same second"); }
        check(same(&a, &b) == ((ta == tb) & same(&ha, &hb)), "different messages have different positions");
        match vec_to_u8_24(&Some(a.to_vec())) { Ok(x) => check(same(&x, &a), "a position stays itself"), Err(_) => check(false, "24 bytes are a position") }
    }
    fn c13_lengths() {
        let n = choose("length", 0, 40);
        check(make_ts_hash(any_u32("ts"), &vec![7; n]).is_ok() == (n == 20), "only a 20-byte hash is a message hash");
        check(vec_to_u8_24(&Some(vec![7; n])).is_ok() == (n == 24), "only 24 bytes are a position");
        check(vec_to_u8_24(&None).is_err(), "nothing is no position");
        let m = msg(1, 5, 6, vec![7; n]);
        let mut x = RocksDbTransactionBatch::new();
        check(put_message_transaction(&mut x, &m).is_ok() == (n == 20), "a message without a proper hash is not stored");
        check(delete_message_transaction(&mut x, &m).is_ok() == (n == 20), "a message without a proper hash is not deleted");
        check(x.len() == (n == 20) as usize, "a refused message writes nothing");
        cover("length");
    }
    fn c13_fid_key() {
        let (f, g) = (any_u32("f"), any_u32("g"));
        let (a, b) = (make_fid_key(f as u64), make_fid_key(g as u64));
        check(same(&a, &f.to_be_bytes()), "a user key is the user in network order");
        check((a < b) == (f < g), "users are stored in order");
        let n = choose("offset", 0, 3);
        let mut v = any_vec("before", n);
        v.extend_from_slice(&a);
        v.push(any_u8("after"));
        check(read_fid_key(&v, n) == f as u64, "a user comes back from a key");
        let u = make_user_key(f as u64);
        check(u.len() == 5 && (u[0] == 3) & same(&u[1..], &a), "a user's rows start with the user");
        let t = any_arr::<24>("ts hash");
        let mut v = any_vec("before", n);
        v.extend_from_slice(&t);
        v.push(any_u8("after"));
        check(same(&read_ts_hash(&v, n), &t), "a position comes back from a key");
        cover("user");
    }
    fn c13_primary_key() {
        let (f, g) = (any_u32("f"), any_u32("g"));
        let (s, t) = (any_u8("s"), any_u8("t"));
        let (x, y) = (any_arr::<24>("x"), any_arr::<24>("y"));
        let a = make_message_primary_key(f as u64, s, Some(&x));
        let b = make_message_primary_key(g as u64, t, Some(&y));
        check(same(&a, &key(f, s, u32::from_be_bytes([x[0], x[1], x[2], x[3]]), &x[4..])), "a message's key is user, set, time, hash");
        check(same(&a, &b) == ((f == g) & (s == t) & same(&x, &y)), "different messages have different keys");
        let p = make_message_primary_key(f as u64, s, None);
        check(p.len() == 6 && same(&p, &a[..6]), "a set's prefix is the start of its messages' keys");
        check(b.starts_with(&p) == ((f == g) & (s == t)), "a set's prefix covers that user's set only");
        if conc_bool((f == g) & (s == t)) { check((a < b) == (x < y), "a set is stored in order of time and hash"); }
        check((a < b) == ((f, s, x) < (g, t, y)), "users and sets are stored apart, in order");
        cover("keys");
    }
    fn c13_cast_id() {
        let (f, g) = (any_u32("f"), any_u32("g"));
        let (x, y) = (any_arr::<20>("x"), any_arr::<20>("y"));
        let a = make_cast_id_key(&proto::CastId { fid: f as u64, hash: x.to_vec() });
        let b = make_cast_id_key(&proto::CastId { fid: g as u64, hash: y.to_vec() });
        check(a.len() == 24 && same(&a[..4], &f.to_be_bytes()) && same(&a[4..], &x), "a cast is named by its user and hash");
        check(same(&a, &b) == ((f == g) & same(&x, &y)), "different casts have different names");
        cover("cast");
    }
    fn c13_sets() {
        let t = any_i32("type");
        if let Ok(m) = MessageType::try_from(t) {
            let s = set_of(t);
            match type_to_set_postfix(m) {
                Ok(p) => { check(p as u8 == s && s != 0, "each kind of message is kept in its set"); cover("set"); }
                Err(_) => { check(s == 0, "a storable kind of message has a set"); cover("none"); }
            }
        }
    }
    fn c13_put() {
        let t = pick("type", &[1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 15, 18, 19, 20, 21]) as i32;
        let (f, ts, h) = (any_u32("fid"), any_u32("ts"), any_arr::<20>("hash"));
        let mut m = msg(t, f as u64, ts, h.to_vec());
        m.signer = any_arr::<2>("signer").to_vec();
        m.data_bytes = Some(vec![any_u8("raw"), 9]);
        put_and_delete(&m, key(f, set_of(t), ts, &h));
    }
    fn c13_put_structured() {
        let (f, ts) = (any_u8("fid") | 0x80, any_u8("ts") | 0x80);
        put_and_delete(&msg(1, f as u64, ts as u32, vec![9; 20]), key(f as u32, 1, ts as u32, &[9; 20]));
    }
    fn c13_other_types() {
        // a kind that is not kept in a set is refused, not filed under another
        let t = pick("type", &[13, 14, 16, 17]) as i32;
        let m = msg(t, any_u32("fid") as u64, any_u32("ts"), any_arr::<20>("hash").to_vec());
        let mut x = RocksDbTransactionBatch::new();
        check(put_message_transaction(&mut x, &m).is_err() && delete_message_transaction(&mut x, &m).is_err() && x.len() == 0, "a kind without a set is not stored");
        cover("refused");
    }
    fn c13_encode() {
        // what is stored comes back as it was, in either form
        let d = MessageData { r#type: 5, fid: (any_u8("fid") | 0x80) as u64, timestamp: (any_u8("ts") & 0x7f) as u32, network: (any_u8("net") & 3) as i32, body: None };
        let (rf, rt, rn) = (any_u32("rfid"), any_u32("rts"), any_u8("rnet") & 3);
        let raw = data_bytes(6, rf, rt, rn);
        let form = choose("form", 0, 4);
        let mut m = proto::Message { hash: any_arr::<3>("hash").to_vec(), signer: any_arr::<2>("signer").to_vec(), signature: any_arr::<2>("sig").to_vec(), hash_scheme: 1, signature_scheme: 2, ..Default::default() };
        if form == 0 || form == 2 || form == 3 { m.data = Some(d.clone()); }
        if form == 1 || form == 2 { m.data_bytes = Some(raw.clone()); }
        if form == 3 { m.data_bytes = Some(vec![]); }
        if form == 4 { m.data_bytes = Some(vec![0xff, any_u8("junk") | 0x80]); }
        let e = message_encode(&m);
        let Ok(mut back) = proto::Message::decode(e.as_slice()) else { check(false, "a stored message can be read"); return };
        if form == 1 || form == 2 { check(back.data.is_none(), "with its bytes form a message is stored once"); }
        message_bytes_decode(&mut back);
        check(same(&back.hash, &m.hash) && same(&back.signer, &m.signer) && same(&back.signature, &m.signature) && (back.signature_scheme == m.signature_scheme) & (back.hash_scheme == m.hash_scheme), "the envelope comes back");
        match form {
            0 | 3 => { let Some(x) = &back.data else { check(false, "the data comes back"); return }; check((x.fid == d.fid) & (x.r#type == d.r#type) & (x.timestamp == d.timestamp) & (x.network == d.network), "the data comes back as it was"); cover("structured"); }
            1 | 2 => {
                check(back.data_bytes.as_ref().is_some_and(|x| same(x, &raw)), "the signed bytes come back as they were");
                let Some(x) = &back.data else { check(false, "the data comes back from its bytes"); return };
                check((x.fid == rf as u64) & (x.r#type == 6) & (x.timestamp == rt) & (x.network == rn as i32), "the data is what the signed bytes say");
                cover("bytes");
            }
            _ => { check(back.data.is_none(), "bytes that are no data give no data"); cover("junk"); }
        }
    }
    fn c13_time_range() {
        let t = any_u32("ts");
        let (a, b) = (any_u32("start"), any_u32("stop"));
        let (ha, hb) = (any_bool("has start"), any_bool("has stop"));
        let m = msg(1, 5, t, vec![]);
        let r = is_message_in_time_range(if ha { Some(a) } else { None }, if hb { Some(b) } else { None }, &m);
        check(r == ((!ha | (t >= a)) & (!hb | (t <= b))), "a message is in range exactly when not before the start and not after the end");
        check(!is_message_in_time_range(None, None, &proto::Message::default()), "a message without data is in no range");
        cover("range");
    }
}
