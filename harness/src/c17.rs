//! bounds: every number of units up to 100000 per kind, every expiry and clock time below 2^32 s; every pair of slots; every store and unit kind; the announced limits exactly, other limits up to 10000 with up to 3 units
use crate::{com::*, entries, vf::*};
use snapchain::proto::{self, FarcasterNetwork, StorageUnitType, StoreType};
use snapchain::storage::store::account::*;
use snapchain::storage::store::stores::{Limits, StoreLimits};
use StorageUnitType::*;

fn units() -> u32 { let u = any_u32("units"); assume(u <= 100_000); u }
fn slot() -> StorageSlot { StorageSlot::new(units(), units(), units(), any_u32("expiry")) }
fn all3(s: &StorageSlot) -> (u32, u32, u32) { (s.units_for(UnitTypeLegacy), s.units_for(UnitType2024), s.units_for(UnitType2025)) }
fn now() -> u32 { let n = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs(); assume(n < 1 << 32); n as u32 }
fn any_store() -> (u8, StoreType) { let k = choose("store", 0, 7); (k as u8, StoreType::try_from(k as i32).unwrap()) }
/// the announced limits per unit: casts, links, reactions, user data, verifications, username proofs, loans
const ANNOUNCED: [[u32; 7]; 3] = [[5000, 2500, 2500, 50, 25, 5, 1], [2000, 1000, 1000, 50, 25, 5, 1], [100, 200, 200, 25, 5, 2, 1]];
fn announced(l: &Limits, k: usize) -> bool {
    let a = ANNOUNCED[k];
    (l.casts == a[0]) & (l.links == a[1]) & (l.reactions == a[2]) & (l.user_data == a[3]) & (l.verifications == a[4]) & (l.user_name_proofs == a[5]) & (l.storage_lends == a[6])
}

entries! {
    fn c17_active() {
        let n = now();
        let s = slot();
        check(s.is_active() == (n < s.invalidate_at), "storage counts exactly until it expires");
        cover("active");
    }
    fn c17_merge() {
        let n = now();
        let (a, b) = (slot(), slot());
        let mut s = a.clone();
        let r = s.merge(&b);
        let ((x1, x2, x3), (y1, y2, y3), (z1, z2, z3)) = (all3(&a), all3(&b), all3(&s));
        let (aa, ba) = (n < a.invalidate_at, n < b.invalidate_at);
        check(r == ba, "expired storage adds nothing");
        if conc_bool(!ba) { check((z1 == x1) & (z2 == x2) & (z3 == x3) & (s.invalidate_at == a.invalidate_at), "expired storage changes nothing"); cover("expired"); }
        else if conc_bool(!aa) { check((z1 == y1) & (z2 == y2) & (z3 == y3) & (s.invalidate_at == b.invalidate_at), "expired storage is replaced"); cover("replaced"); }
        else {
            check((z1 == x1 + y1) & (z2 == x2 + y2) & (z3 == x3 + y3), "storage adds up kind by kind");
            check(s.invalidate_at == a.invalidate_at.min(b.invalidate_at), "joined storage expires with its first part");
            cover("added");
        }
        // the other way round, the same sum
        let mut t = b.clone();
        t.merge(&a);
        let (w1, w2, w3) = all3(&t);
        if conc_bool(aa & ba) { check((w1 == z1) & (w2 == z2) & (w3 == z3) & (t.invalidate_at == s.invalidate_at), "storage adds up in any order"); }
    }
    fn c17_sub() {
        let n = now();
        let (a, b) = (slot(), slot());
        let ((x1, x2, x3), (y1, y2, y3)) = (all3(&a), all3(&b));
        let live = n < b.invalidate_at;
        let mut s = a.clone();
        s.sub(&b);
        let (z1, z2, z3) = all3(&s);
        if conc_bool(live) { check((z1 == x1.saturating_sub(y1)) & (z2 == x2.saturating_sub(y2)) & (z3 == x3.saturating_sub(y3)), "lent storage is the lender's no more, and a lender whose storage expired has none left"); cover("lent"); }
        else { check((z1 == x1) & (z2 == x2) & (z3 == x3), "an expired loan takes nothing"); cover("expired"); }
        check(s.invalidate_at == a.invalidate_at, "lending does not change the expiry");
    }
    fn c17_lend() {
        let (u, t) = (any_u64("units"), any_i32("type"));
        let s = StorageSlot::from_storage_lend(&proto::LendStorageBody { to_fid: any_u64("to"), num_units: u, unit_type: t });
        let (a, b, c) = all3(&s);
        let w = u as u32;
        // an unknown kind counts as the default kind
        match StorageUnitType::try_from(t).unwrap_or_default() {
            UnitTypeLegacy => { check((a == w) & (b == 0) & (c == 0), "lent units keep their kind"); cover("legacy"); }
            UnitType2024 => { check((a == 0) & (b == w) & (c == 0), "lent units keep their kind"); cover("2024"); }
            UnitType2025 => { check((a == 0) & (b == 0) & (c == w), "lent units keep their kind"); cover("2025"); }
        }
        check(s.invalidate_at == u32::MAX, "a loan itself does not expire");
    }
    fn c17_cutoffs() {
        let m = any_net();
        let main = m == FarcasterNetwork::Mainnet;
        check(StorageSlot::unit_type_2024_cutoff(m) == if main { 1752685200 } else { 1752426000 }, "the 2025 kind of storage began when announced");
        check(StorageSlot::unit_type_2025_cutoff(m) == if main { 1782147600 } else { 1781283600 }, "the 2026 extension applies to storage rented before the announced time");
        cover("cutoff");
    }
    fn c17_limits() {
        check(announced(&Limits::of_type(UnitTypeLegacy), 0) && announced(&Limits::of_type(UnitType2024), 1) && announced(&Limits::of_type(UnitType2025), 2), "a unit of storage holds what was announced");
        check(announced(&Limits::default(), 2) && announced(&Limits::legacy(), 0), "new storage is of the newest kind");
        let d = StoreLimits::default();
        check(announced(&d.limits_legacy, 0) && announced(&d.limits_2024, 1) && announced(&d.limits_2025, 2), "each kind of storage keeps its own limits");
        cover("limits");
    }
    fn c17_max() {
        let (k, st) = any_store();
        let s = slot();
        let (a, b, c) = all3(&s);
        // the announced limits
        let d = StoreLimits::default();
        let col = match k { 1 => 0, 2 => 1, 3 => 2, 4 => 3, 5 => 4, 6 => 5, 7 => 6, _ => 9 };
        let want = if col == 9 { 0 } else { ANNOUNCED[0][col] as u64 * a as u64 + ANNOUNCED[1][col] as u64 * b as u64 + ANNOUNCED[2][col] as u64 * c as u64 };
        check(d.max_messages(&s, st) as u64 == want, "a user may keep the sum of what each unit holds");
        if k == 0 { cover("no store"); } else { cover("store"); }
    }
    fn c17_any_limits() {
        // each limit counts for its own store and its own kind of unit only
        let (k, st) = any_store();
        let l: Vec<u32> = (0..7).map(|_| { let x = any_u16("limit") as u32; assume(x <= 10000); x }).collect();
        let mk = |d: u32| Limits { casts: l[0] + d, links: l[1] + d, reactions: l[2] + d, user_data: l[3] + d, verifications: l[4] + d, user_name_proofs: l[5] + d, storage_lends: l[6] + d };
        let d = StoreLimits::new(mk(2), mk(1), mk(0));
        let which = choose("kind", 0, 2);
        let n = choose("units", 0, 3) as u32;
        let s = StorageSlot::new(if which == 0 { n } else { 0 }, if which == 1 { n } else { 0 }, if which == 2 { n } else { 0 }, 5);
        let want = if k == 0 { 0 } else { (l[k as usize - 1] + which as u32) * n };
        check(d.max_messages(&s, st) == want, "a store is limited by its own limit and units");
        cover("limit");
    }
}
