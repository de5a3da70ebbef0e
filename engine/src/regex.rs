//! Regular expressions as automata formulas over symbolic bytes, and UTF-8 validity.
use crate::exec::Ex;
use crate::expr::*;
use regex_automata::{dfa::{dense, Automaton}, util::{start, syntax}, Anchored, MatchKind};
use rustc_hash::FxHashMap;

pub fn is_match(x: &mut Ex, pat: &str, bytes: &[E]) -> Result<E, String> {
    // a hyphen not followed by a hyphen: the same language without "--" (the rest of the pattern is matched as it stands)
    if pat.contains("-(?!-)") && pat.starts_with('^') && pat.ends_with('$') {
        let a = is_match(x, &pat.replace("-(?!-)", "-"), bytes)?;
        let b = is_match(x, "--", bytes)?;
        let nb = x.p.ar.not(b);
        return Ok(x.p.ar.and1(a, nb));
    }
    if !x.dfas.contains_key(pat) {
        let d = dense::Builder::new().configure(dense::Config::new().match_kind(MatchKind::All)).syntax(syntax::Config::new().unicode(true).utf8(true)).build(pat).map_err(|e| e.to_string())?;
        x.dfas.insert(pat.to_string(), std::rc::Rc::new(d));
    }
    let d = x.dfas[pat].clone();
    let st = d.start_state(&start::Config::new().anchored(Anchored::No)).map_err(|e| e.to_string())?;
    let mut cur: FxHashMap<regex_automata::util::primitives::StateID, E> = Default::default();
    cur.insert(st, Arena::TRUE);
    let mut acc = Arena::FALSE;
    for &b in bytes {
        let mut next: FxHashMap<_, E> = Default::default();
        let mut states: Vec<_> = cur.into_iter().collect();
        states.sort();
        // byte ranges leading to each successor
        for (s, c) in states {
            if let Some(k) = x.p.ar.as_const(b) {
                let t = d.next_state(s, k as u8);
                let o = next.get(&t).copied().unwrap_or(Arena::FALSE);
                next.insert(t, x.p.ar.or1(o, c));
                continue;
            }
            let mut k = 0usize;
            let mut per: FxHashMap<_, E> = Default::default();
            while k < 256 {
                let t = d.next_state(s, k as u8);
                let mut j = k;
                while j + 1 < 256 && d.next_state(s, (j + 1) as u8) == t { j += 1; }
                let e = in_range(x, b, k as u128, j as u128);
                let o = per.get(&t).copied().unwrap_or(Arena::FALSE);
                per.insert(t, x.p.ar.or1(o, e));
                k = j + 1;
            }
            let mut per: Vec<_> = per.into_iter().collect(); per.sort();
            for (t, e) in per {
                let e = x.p.ar.and1(c, e);
                let o = next.get(&t).copied().unwrap_or(Arena::FALSE);
                next.insert(t, x.p.ar.or1(o, e));
            }
        }
        cur = next;
        for (s, c) in cur.iter() { if d.is_match_state(*s) { acc = x.p.ar.or1(acc, *c); } }
        cur.retain(|s, _| !d.is_dead_state(*s));
    }
    let mut states: Vec<_> = cur.into_iter().collect(); states.sort();
    for (s, c) in states { let t = d.next_eoi_state(s); if d.is_match_state(t) { acc = x.p.ar.or1(acc, c); } }
    Ok(acc)
}
pub fn in_range(x: &mut Ex, b: E, lo: u128, hi: u128) -> E {
    if lo == 0 && hi == 255 { return Arena::TRUE; }
    if lo == hi { let k = x.p.ar.konst(8, lo); return x.p.ar.bin(Op::Eq, b, k); }
    let l = x.p.ar.konst(8, lo); let h = x.p.ar.konst(8, hi);
    let a = x.p.ar.bin(Op::Ule, l, b); let c = x.p.ar.bin(Op::Ule, b, h);
    x.p.ar.and1(a, c)
}
/// well-formed UTF-8 as a formula (automaton with 8 states)
pub fn utf8_ok(x: &mut Ex, bytes: &[E]) -> E {
    let mut st = [Arena::FALSE; 8];
    st[0] = Arena::TRUE;
    // states: 0 accept, 1 need1, 2 need2, 3 need3, 4 E0, 5 ED, 6 F0, 7 F4
    let tr: [&[(u128, u128, usize)]; 8] = [
        &[(0, 0x7f, 0), (0xc2, 0xdf, 1), (0xe0, 0xe0, 4), (0xe1, 0xec, 2), (0xed, 0xed, 5), (0xee, 0xef, 2), (0xf0, 0xf0, 6), (0xf1, 0xf3, 3), (0xf4, 0xf4, 7)],
        &[(0x80, 0xbf, 0)], &[(0x80, 0xbf, 1)], &[(0x80, 0xbf, 2)],
        &[(0xa0, 0xbf, 1)], &[(0x80, 0x9f, 1)], &[(0x90, 0xbf, 2)], &[(0x80, 0x8f, 2)],
    ];
    for &b in bytes {
        let mut nx = [Arena::FALSE; 8];
        for (i, t) in tr.iter().enumerate() {
            if st[i] == Arena::FALSE { continue; }
            for &(l, h, to) in t.iter() {
                let e = in_range(x, b, l, h);
                let e = x.p.ar.and1(st[i], e);
                nx[to] = x.p.ar.or1(nx[to], e);
            }
        }
        st = nx;
    }
    st[0]
}
