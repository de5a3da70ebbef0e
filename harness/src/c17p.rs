//! bounds: every message and store kind; every message limit
use crate::{com::*, entries, vf::*};
use snapchain::proto::{MessageType, StoreType};
use snapchain::storage::store::block_engine::*;
use snapchain::storage::store::stores::Limits;

/// the store a kind of message counts in
fn store_of(t: i32) -> i32 { match t { 1 | 2 => 1, 3 | 4 => 3, 5 | 6 | 14 => 2, 7 | 8 => 5, 11 => 4, 12 => 6, 15 => 7, _ => 0 } }

entries! {
    fn c17_store_of() {
        let t = any_i32("type");
        if let Ok(m) = MessageType::try_from(t) {
            check(Limits::message_type_to_store_type(m) as i32 == store_of(t), "each kind of message counts in its store");
            cover("kind");
        }
    }
    fn c17_kinds() {
        let k = choose("store", 0, 7) as i32;
        let v = Limits::store_type_to_message_types(StoreType::try_from(k).unwrap());
        // exactly the kinds that count in it
        let mut n = 0;
        for t in 0..=21 {
            if MessageType::try_from(t).is_err() { continue; }
            let has = v.iter().any(|m| *m as i32 == t);
            if k != 0 { check(has == (store_of(t) == k), "a store counts exactly its kinds of message"); }
            n += has as usize;
        }
        check(n == v.len(), "no kind is counted twice");
        cover("kinds");
    }
    fn c17_verification_rows() {
        let m = any_u32("max");
        let t = verification_tombstone_cap(m);
        check(t == if m == 0 { 0 } else if m > 256 { m } else { 256 }, "removals are bounded by the storage, never below the floor, none without storage");
        let r = verification_row_cap(m);
        check(r as u64 == (m as u64 + t as u64).min(u32::MAX as u64), "all rows are bounded by adds and removals together");
        let k = any_u32("more");
        assume(k >= m);
        check((verification_tombstone_cap(k) >= t) & (verification_row_cap(k) >= r), "more storage never allows fewer rows");
        cover("caps");
    }
    fn c17_counters() {
        let t = any_i32("type");
        if let Ok(m) = MessageType::try_from(t) {
            let (a, b) = (any_u32("adds"), any_u32("removals"));
            assume((a < 1000) & (b < 1000));
            let mut c = VerificationMessageCounts { live_adds: a, tombstones: b };
            let hit = match c.counter_mut(m) { Some(x) => { *x += 1; true } None => false };
            check(hit == ((t == 7) | (t == 8)), "only verifications are counted as such");
            check((c.live_adds == a + (t == 7) as u32) & (c.tombstones == b + (t == 8) as u32), "adds and removals are counted apart");
            cover("counted");
        }
    }
}
