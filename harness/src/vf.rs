//! The harness side of the executor's interface. Under `cfg(symex)` these are calls the executor
//! models; otherwise (replay) inputs are read back, in order, from a recorded counterexample.
#![allow(dead_code)]

#[cfg(symex)]
mod ffi {
    extern "C" {
        pub fn vf_any(d: *mut u8, n: usize, name: *const u8, nl: usize);
        pub fn vf_assume(c: bool);
        pub fn vf_assert(c: bool, m: *const u8, ml: usize);
        pub fn vf_cover(m: *const u8, ml: usize);
        pub fn vf_known(c: bool, m: *const u8, ml: usize);
        pub fn vf_conc(v: u64) -> u64;
        pub fn vf_engine() -> bool;
        pub fn vf_flag(m: *const u8, ml: usize, v: u64);
        pub fn vf_debug(m: *const u8, ml: usize, v: u64);
        pub fn vf_blake3(d: *const u8, n: usize, out: *mut u8);
        pub fn vf_utf8(d: *const u8, n: usize) -> bool;
        pub fn vf_ed_public(seed: *const u8, out: *mut u8);
        pub fn vf_eth_addr(seed: *const u8, out: *mut u8);
        pub fn vf_eth_sign(seed: *const u8, h: *const u8, out: *mut u8);
        pub fn vf_ed_sign(seed: *const u8, m: *const u8, n: usize, out: *mut u8);
    }
}
#[cfg(not(symex))]
mod ffi {
    use std::cell::RefCell;
    thread_local! { pub static IN: RefCell<std::collections::VecDeque<(String, Vec<u8>)>> = Default::default(); pub static CLOCK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; pub static CLOCKS: RefCell<Vec<(String, u64)>> = Default::default(); }
    fn st(m: *const u8, n: usize) -> String { String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(m, n) }).into_owned() }
    #[no_mangle] pub unsafe extern "C" fn vf_any(d: *mut u8, n: usize, name: *const u8, nl: usize) {
        let nm = st(name, nl);
        let b = IN.with(|i| i.borrow_mut().pop_front());
        let out = std::slice::from_raw_parts_mut(d, n);
        match b {
            Some((k, b)) => {
                if k != nm || b.len() != n { println!("REPLAY-MISMATCH: harness asks for {nm} ({n} bytes), trace has {k} ({} bytes)", b.len()); std::process::exit(4); }
                out.copy_from_slice(&b);
            }
            None => out.fill(0), // after the point where the executor stopped
        }
        if std::env::var("VF_SHOW").is_ok() { println!("input {nm} = {:02x?}", out); }
    }
    #[no_mangle] pub unsafe extern "C" fn vf_assume(c: bool) { if !c { println!("REPLAY: an assumption does not hold on this input"); std::process::exit(3); } }
    #[no_mangle] pub unsafe extern "C" fn vf_assert(c: bool, m: *const u8, ml: usize) { if !c { println!("REPLAY: assertion failed: {}", st(m, ml)); std::process::exit(1); } }
    #[no_mangle] pub unsafe extern "C" fn vf_cover(_m: *const u8, _n: usize) {}
    #[no_mangle] pub unsafe extern "C" fn vf_known(c: bool, m: *const u8, ml: usize) { if !c { println!("REPLAY: known finding: {}", st(m, ml)); std::process::exit(5); } }
    #[no_mangle] pub unsafe extern "C" fn vf_conc(v: u64) -> u64 { v }
    #[no_mangle] pub unsafe extern "C" fn vf_engine() -> bool { false }
    #[no_mangle] pub unsafe extern "C" fn vf_flag(m: *const u8, n: usize, v: u64) {
        if st(m, n) == "tick" { let k = if v == 0 { "clock".to_string() } else { format!("clock{v}") }; CLOCKS.with(|c| if let Some(x) = c.borrow().iter().find(|x| x.0 == k) { CLOCK.with(|c| c.set(x.1)) }); }
    }
    #[no_mangle] pub unsafe extern "C" fn vf_debug(m: *const u8, ml: usize, v: u64) { println!("debug {} {v}", st(m, ml)); }
    #[no_mangle] pub unsafe extern "C" fn vf_ed_pk(_p: *const u8) -> bool { unreachable!() }
    #[no_mangle] pub unsafe extern "C" fn vf_ed_verify(_p: *const u8, _m: *const u8, _n: usize, _s: *const u8, _t: bool) -> bool { unreachable!() }
    #[no_mangle] pub unsafe extern "C" fn vf_utf8(d: *const u8, n: usize) -> bool { std::str::from_utf8(std::slice::from_raw_parts(d, n)).is_ok() }
    #[no_mangle] pub unsafe extern "C" fn vf_ed_public(seed: *const u8, out: *mut u8) {
        let k = ed25519_dalek::SigningKey::from_bytes(&*(seed as *const [u8; 32])).verifying_key().to_bytes();
        std::ptr::copy_nonoverlapping(k.as_ptr(), out, 32);
    }
    fn eth(seed: *const u8) -> k256::ecdsa::SigningKey { k256::ecdsa::SigningKey::from_slice(unsafe { &*(seed as *const [u8; 32]) }).unwrap() }
    #[no_mangle] pub unsafe extern "C" fn vf_eth_addr(seed: *const u8, out: *mut u8) {
        let a = alloy_primitives::Address::from_public_key(eth(seed).verifying_key());
        std::ptr::copy_nonoverlapping(a.as_ptr(), out, 20);
    }
    #[no_mangle] pub unsafe extern "C" fn vf_eth_sign(seed: *const u8, h: *const u8, out: *mut u8) {
        let (g, r) = eth(seed).sign_prehash_recoverable(&*(h as *const [u8; 32])).unwrap();
        let mut o = g.to_bytes().to_vec(); o.push(27 + r.is_y_odd() as u8);
        std::ptr::copy_nonoverlapping(o.as_ptr(), out, 65);
    }
    #[no_mangle] pub unsafe extern "C" fn vf_ed_sign(seed: *const u8, m: *const u8, n: usize, out: *mut u8) {
        use ed25519_dalek::Signer;
        let k = ed25519_dalek::SigningKey::from_bytes(&*(seed as *const [u8; 32]));
        let s = k.sign(std::slice::from_raw_parts(m, n)).to_bytes();
        std::ptr::copy_nonoverlapping(s.as_ptr(), out, 64);
    }
    #[no_mangle] pub unsafe extern "C" fn vf_regex(_p: *const u8, _n: usize, _t: *const u8, _m: usize) -> bool { unreachable!() }
    #[no_mangle] pub unsafe extern "C" fn vf_blake3(d: *const u8, n: usize, out: *mut u8) {
        let h = blake3::hash(std::slice::from_raw_parts(d, n));
        std::ptr::copy_nonoverlapping(h.as_bytes().as_ptr(), out, 32);
    }
    /// the process clock is the recorded one
    #[repr(C)] pub struct Ts { s: i64, n: i64 }
    #[no_mangle] pub unsafe extern "C" fn clock_gettime(_id: i32, t: *mut Ts) -> i32 {
        let c = CLOCK.try_with(|c| c.get()).unwrap_or(0);
        (*t).s = c as i64; (*t).n = 0; 0
    }
}
#[cfg(not(symex))]
pub fn load(inputs: Vec<(String, Vec<u8>)>) {
    let mut v = std::collections::VecDeque::new();
    for (n, b) in inputs { if n.starts_with("clock") { let t = u64::from_le_bytes(b[..8].try_into().unwrap()); if n == "clock" { ffi::CLOCK.with(|c| c.set(t)); } ffi::CLOCKS.with(|c| c.borrow_mut().push((n, t))); } else { v.push_back((n, b)); } }
    ffi::IN.with(|i| *i.borrow_mut() = v);
}

#[inline(never)] pub fn any_bytes(name: &str, b: &mut [u8]) { unsafe { ffi::vf_any(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) } }
pub fn any_u8(name: &str) -> u8 { let mut b = [0u8; 1]; any_bytes(name, &mut b); b[0] }
pub fn any_bool(name: &str) -> bool { any_u8(name) & 1 == 1 }
pub fn any_u16(name: &str) -> u16 { let mut b = [0u8; 2]; any_bytes(name, &mut b); u16::from_le_bytes(b) }
pub fn any_u32(name: &str) -> u32 { let mut b = [0u8; 4]; any_bytes(name, &mut b); u32::from_le_bytes(b) }
pub fn any_i32(name: &str) -> i32 { any_u32(name) as i32 }
pub fn any_u64(name: &str) -> u64 { let mut b = [0u8; 8]; any_bytes(name, &mut b); u64::from_le_bytes(b) }
pub fn any_i64(name: &str) -> i64 { any_u64(name) as i64 }
pub fn any_arr<const N: usize>(name: &str) -> [u8; N] { let mut b = [0u8; N]; any_bytes(name, &mut b); b }
/// a vector of exactly n unconstrained bytes
pub fn any_vec(name: &str, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; if n > 0 { any_bytes(name, &mut v); } v }
/// a length in lo..=hi, one path per value
pub fn choose(name: &str, lo: usize, hi: usize) -> usize {
    let k = any_u16(name) as usize;
    assume(k >= lo && k <= hi);
    unsafe { ffi::vf_conc(k as u64) as usize }
}
/// one of the given lengths, one path per value
pub fn pick(name: &str, of: &[usize]) -> usize { of[choose(name, 0, of.len() - 1)] }
/// bytes with a length from lo..=hi
pub fn any_vec_upto(name: &str, lo: usize, hi: usize) -> Vec<u8> { let n = choose("len", lo, hi); any_vec(name, n) }
/// n symbolic bytes restricted to 7-bit ASCII, as a String
pub fn any_ascii(name: &str, n: usize) -> String {
    let v = any_vec(name, n);
    let mut ok = true;
    for b in &v { ok &= *b < 0x80; }
    assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
/// n symbolic bytes of well-formed UTF-8
pub fn any_utf8(name: &str, n: usize) -> String {
    let v = any_vec(name, n);
    assume(unsafe { ffi::vf_utf8(v.as_ptr(), v.len()) });
    unsafe { String::from_utf8_unchecked(v) }
}
/// no byte of v satisfies (or: every byte satisfies) a predicate, without a branch per byte
pub fn all(v: &[u8], f: impl Fn(u8) -> bool) -> bool { let mut ok = true; for b in v { ok &= f(*b); } ok }
pub fn conc(v: u64) -> u64 { unsafe { ffi::vf_conc(v) } }
pub fn conc_bool(v: bool) -> bool { unsafe { ffi::vf_conc(v as u64) == 1 } }
#[inline(always)] pub fn assume(c: bool) { unsafe { ffi::vf_assume(c) } }
#[inline(always)] pub fn check(c: bool, m: &str) { unsafe { ffi::vf_assert(c, m.as_ptr(), m.len()) } }
#[inline(always)] pub fn known(c: bool, m: &str) { unsafe { ffi::vf_known(c, m.as_ptr(), m.len()) } }
pub fn cover(m: &str) { unsafe { ffi::vf_cover(m.as_ptr(), m.len()) } }
pub fn flag(m: &str, v: u64) { unsafe { ffi::vf_flag(m.as_ptr(), m.len(), v) } }
/// the clock from here on is the k-th one, not earlier than those before
pub fn tick(k: u64) { flag("tick", k) }
/// from here on new hash maps meet their entries in another order (k = 1) or the usual one (0); maps are not carried over
pub fn map_order(k: u64) { flag("hash", k) }
/// paths with different k are kept apart from here on
pub fn split(k: u64) { flag("split", k) }
pub fn debug(m: &str, v: u64) { unsafe { ffi::vf_debug(m.as_ptr(), m.len(), v) } }
pub fn engine() -> bool { unsafe { ffi::vf_engine() } }
pub fn blake3(d: &[u8]) -> [u8; 32] { let mut o = [0u8; 32]; unsafe { ffi::vf_blake3(d.as_ptr(), d.len(), o.as_mut_ptr()) }; o }
/// the ed25519 signature of m under the key with this seed
pub fn ed_sign(seed: &[u8; 32], m: &[u8]) -> [u8; 64] { let mut o = [0u8; 64]; unsafe { ffi::vf_ed_sign(seed.as_ptr(), m.as_ptr(), m.len(), o.as_mut_ptr()) }; o }
/// the public key with this seed
pub fn ed_public(seed: &[u8; 32]) -> [u8; 32] { let mut o = [0u8; 32]; unsafe { ffi::vf_ed_public(seed.as_ptr(), o.as_mut_ptr()) }; o }
/// an Ethereum key's address, and its signature (r, s, v) of a hash
pub fn eth_addr(seed: &[u8; 32]) -> [u8; 20] { let mut o = [0u8; 20]; unsafe { ffi::vf_eth_addr(seed.as_ptr(), o.as_mut_ptr()) }; o }
pub fn eth_sign(seed: &[u8; 32], h: &[u8; 32]) -> [u8; 65] { let mut o = [0u8; 65]; unsafe { ffi::vf_eth_sign(seed.as_ptr(), h.as_ptr(), o.as_mut_ptr()) }; o }
/// equality without a branch per byte
pub fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut x = 0u8; for i in 0..a.len() { x |= a[i] ^ b[i]; } x == 0 }

#[macro_export]
macro_rules! entries {
    ($(fn $n:ident() $b:block)*) => {
        $(#[no_mangle] pub extern "C" fn $n() $b)*
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
