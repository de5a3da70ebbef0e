//! Models of compiler intrinsics, the allocator, panics, the harness interface and a few
//! functions (hashing, signatures, clock, regular expressions) replaced at their API boundary.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

type R = Result<Val, Ctl>;

fn unit() -> Val { Val::C(0) }
fn agg(v: Vec<Val>) -> Val { Val::A(Rc::new(v)) }

/// apply a scalar handler to every lane of vector arguments
fn lanes(x: &mut Ex, c: &Call, f: &mut dyn FnMut(&mut Ex, u16, &[Val]) -> R) -> R {
    if let K::Vec(n, et) = &c.ret.k {
        let w = et.w();
        let mut out = vec![];
        for i in 0..*n as usize {
            let args: Vec<Val> = c.args.iter().map(|a| match a { Val::A(v) => v[i].clone(), v => v.clone() }).collect();
            out.push(f(x, w, &args)?);
        }
        return Ok(agg(out));
    }
    let w = match &c.aty.get(0) { Some(t) if t.is_scalar() => t.w(), _ => c.ret.w() };
    f(x, w, &c.args)
}
fn cmp(x: &mut Ex, op: Op, w: u16, a: &Val, b: &Val) -> Val { let (p, q) = (x.ex(a, w), x.ex(b, w)); let e = x.p.ar.bin(op, p, q); x.norm(e) }
fn ite(x: &mut Ex, w: u16, c: &Val, a: &Val, b: &Val) -> Val {
    match c { Val::C(k) => if *k & 1 != 0 { a.clone() } else { b.clone() }, Val::S(e) => { let (p, q) = (x.ex(a, w), x.ex(b, w)); let r = x.p.ar.ite(*e, p, q); x.norm(r) } _ => panic!() }
}
fn kk(x: &mut Ex, w: u16, v: u128) -> Val { let e = x.p.ar.konst(w, v); x.norm(e) }

fn overflow(x: &mut Ex, c: &Call, signed: bool, op: Op) -> R {
    let w = c.aty[0].w();
    let (a, b) = (&c.args[0], &c.args[1]);
    let r = x.bin(op, w, a, b);
    let o = if signed {
        match op {
            Op::Add | Op::Sub => {
                // sign based: add: (a^r)&(b^r) < 0 ; sub: (a^b)&(a^r) < 0
                let (p, q) = if op == Op::Add { (x.bin(Op::Xor, w, a, &r), x.bin(Op::Xor, w, b, &r)) } else { (x.bin(Op::Xor, w, a, b), x.bin(Op::Xor, w, a, &r)) };
                let z = x.bin(Op::And, w, &p, &q);
                let e = x.ex(&z, w); let e = x.p.ar.extract(e, w - 1, w - 1); x.norm(e)
            }
            _ => {
                if w > 64 { return Err(unsup("wide signed mul overflow")); }
                let (p, q) = (x.ex(a, w), x.ex(b, w));
                let (p, q) = (x.p.ar.sext(p, 2 * w), x.p.ar.sext(q, 2 * w));
                let m = x.p.ar.bin(Op::Mul, p, q);
                let lo = x.p.ar.trunc(m, w); let s = x.p.ar.sext(lo, 2 * w);
                let e = x.p.ar.bin(Op::Eq, s, m); let e = x.p.ar.not(e); x.norm(e)
            }
        }
    } else {
        match op {
            Op::Add => cmp(x, Op::Ult, w, &r, a),
            Op::Sub => cmp(x, Op::Ult, w, a, b),
            _ => {
                let (p, q) = (x.ex(a, w), x.ex(b, w));
                let (rp, rq) = (x.p.ar.range(p).1, x.p.ar.range(q).1);
                if rp.checked_mul(rq).map_or(false, |h| h <= mask(w)) { Val::C(0) }
                else if w <= 64 {
                    let (p, q) = (x.p.ar.zext(p, 2 * w), x.p.ar.zext(q, 2 * w));
                    let m = x.p.ar.bin(Op::Mul, p, q);
                    let hi = x.p.ar.extract(m, 2 * w - 1, w);
                    let z = x.p.ar.konst(w, 0); let e = x.p.ar.bin(Op::Eq, hi, z); let e = x.p.ar.not(e); x.norm(e)
                } else { return Err(unsup("wide mul overflow")); }
            }
        }
    };
    Ok(agg(vec![r, o]))
}
fn uadd_o(x: &mut Ex, _s: &mut State, c: &Call) -> R { overflow(x, c, false, Op::Add) }
fn usub_o(x: &mut Ex, _s: &mut State, c: &Call) -> R { overflow(x, c, false, Op::Sub) }
fn umul_o(x: &mut Ex, _s: &mut State, c: &Call) -> R { overflow(x, c, false, Op::Mul) }
fn sadd_o(x: &mut Ex, _s: &mut State, c: &Call) -> R { overflow(x, c, true, Op::Add) }
fn ssub_o(x: &mut Ex, _s: &mut State, c: &Call) -> R { overflow(x, c, true, Op::Sub) }
fn smul_o(x: &mut Ex, _s: &mut State, c: &Call) -> R { overflow(x, c, true, Op::Mul) }

fn uadd_sat(x: &mut Ex, _s: &mut State, c: &Call) -> R { lanes(x, c, &mut |x, w, a| { let r = x.bin(Op::Add, w, &a[0], &a[1]); let o = cmp(x, Op::Ult, w, &r, &a[0]); let m = kk(x, w, mask(w)); Ok(ite(x, w, &o, &m, &r)) }) }
fn usub_sat(x: &mut Ex, _s: &mut State, c: &Call) -> R { lanes(x, c, &mut |x, w, a| { let r = x.bin(Op::Sub, w, &a[0], &a[1]); let o = cmp(x, Op::Ult, w, &a[0], &a[1]); let m = kk(x, w, 0); Ok(ite(x, w, &o, &m, &r)) }) }
fn s_sat(x: &mut Ex, c: &Call, op: Op) -> R {
    lanes(x, c, &mut |x, w, a| {
        let (p, q) = (x.ex(&a[0], w), x.ex(&a[1], w));
        if w >= 128 { return Err(unsup("wide saturating op")); }
        let (p, q) = (x.p.ar.sext(p, w + 1), x.p.ar.sext(q, w + 1));
        let r = x.p.ar.bin(op, p, q);
        let hi = x.p.ar.konst(w + 1, mask(w) >> 1); let lo = x.p.ar.konst(w + 1, !(mask(w) >> 1));
        let over = x.p.ar.bin(Op::Slt, hi, r); let under = x.p.ar.bin(Op::Slt, r, lo);
        let r = x.p.ar.ite(over, hi, r); let r = x.p.ar.ite(under, lo, r);
        let r = x.p.ar.trunc(r, w); Ok(x.norm(r))
    })
}
fn sadd_sat(x: &mut Ex, _s: &mut State, c: &Call) -> R { s_sat(x, c, Op::Add) }
fn ssub_sat(x: &mut Ex, _s: &mut State, c: &Call) -> R { s_sat(x, c, Op::Sub) }
fn umin(x: &mut Ex, _s: &mut State, c: &Call) -> R { lanes(x, c, &mut |x, w, a| { let k = cmp(x, Op::Ult, w, &a[0], &a[1]); Ok(ite(x, w, &k, &a[0], &a[1])) }) }
fn umax(x: &mut Ex, _s: &mut State, c: &Call) -> R { lanes(x, c, &mut |x, w, a| { let k = cmp(x, Op::Ult, w, &a[0], &a[1]); Ok(ite(x, w, &k, &a[1], &a[0])) }) }
fn smin(x: &mut Ex, _s: &mut State, c: &Call) -> R { lanes(x, c, &mut |x, w, a| { let k = cmp(x, Op::Slt, w, &a[0], &a[1]); Ok(ite(x, w, &k, &a[0], &a[1])) }) }
fn smax(x: &mut Ex, _s: &mut State, c: &Call) -> R { lanes(x, c, &mut |x, w, a| { let k = cmp(x, Op::Slt, w, &a[0], &a[1]); Ok(ite(x, w, &k, &a[1], &a[0])) }) }
fn abs(x: &mut Ex, _s: &mut State, c: &Call) -> R { lanes(x, c, &mut |x, w, a| { let z = kk(x, w, 0); let k = cmp(x, Op::Slt, w, &a[0], &z); let n = x.bin(Op::Sub, w, &z, &a[0]); Ok(ite(x, w, &k, &n, &a[0])) }) }
fn cmp3(x: &mut Ex, c: &Call, op: Op) -> R {
    let w = c.aty[0].w(); let rw = c.ret.w();
    let lt = cmp(x, op, w, &c.args[0], &c.args[1]); let gt = cmp(x, op, w, &c.args[1], &c.args[0]);
    let (m, o, z) = (kk(x, rw, mask(rw)), kk(x, rw, 1), kk(x, rw, 0));
    let r = ite(x, rw, &gt, &o, &z); Ok(ite(x, rw, &lt, &m, &r))
}
fn ucmp(x: &mut Ex, _s: &mut State, c: &Call) -> R { cmp3(x, c, Op::Ult) }
fn scmp(x: &mut Ex, _s: &mut State, c: &Call) -> R { cmp3(x, c, Op::Slt) }
fn clz(x: &mut Ex, _s: &mut State, c: &Call) -> R {
    lanes(x, c, &mut |x, w, a| {
        if let Val::C(v) = a[0] { return Ok(Val::C(if w <= 64 { (v.leading_zeros() as u64) - (64 - w as u64) } else { 64 + v.leading_zeros() as u64 })); }
        let e = x.ex(&a[0], w);
        let mut r = x.p.ar.konst(w, w as u128);
        for i in 0..w { let b = x.p.ar.extract(e, i, i); let k = x.p.ar.konst(w, (w - 1 - i) as u128); r = x.p.ar.ite(b, k, r); }
        Ok(x.norm(r))
    })
}
fn ctz(x: &mut Ex, _s: &mut State, c: &Call) -> R {
    lanes(x, c, &mut |x, w, a| {
        if let Val::C(v) = a[0] { return Ok(Val::C(if v == 0 { w as u64 } else { v.trailing_zeros() as u64 })); }
        let e = x.ex(&a[0], w);
        let mut r = x.p.ar.konst(w, w as u128);
        for i in (0..w).rev() { let b = x.p.ar.extract(e, i, i); let k = x.p.ar.konst(w, i as u128); r = x.p.ar.ite(b, k, r); }
        Ok(x.norm(r))
    })
}
fn ctpop(x: &mut Ex, _s: &mut State, c: &Call) -> R {
    lanes(x, c, &mut |x, w, a| {
        if let Val::C(v) = a[0] { return Ok(Val::C(v.count_ones() as u64)); }
        let e = x.ex(&a[0], w);
        let mut r = x.p.ar.konst(w, 0);
        for i in 0..w { let b = x.p.ar.extract(e, i, i); let b = x.p.ar.zext(b, w); r = x.p.ar.bin(Op::Add, r, b); }
        Ok(x.norm(r))
    })
}
fn bswap(x: &mut Ex, _s: &mut State, c: &Call) -> R {
    lanes(x, c, &mut |x, w, a| {
        if let (Val::C(v), true) = (&a[0], w <= 64) { return Ok(Val::C(v.swap_bytes() >> (64 - w))); }
        let e = x.ex(&a[0], w);
        if x.p.ar.is_taint(e) { return Ok(Val::S(e)); }
        let mut r = x.p.ar.extract(e, 7, 0);
        for i in 1..w / 8 { let b = x.p.ar.extract(e, i * 8 + 7, i * 8); r = x.p.ar.concat(r, b); }
        Ok(x.norm(r))
    })
}
fn bitrev(x: &mut Ex, _s: &mut State, c: &Call) -> R {
    lanes(x, c, &mut |x, w, a| {
        let e = x.ex(&a[0], w);
        let mut r = x.p.ar.extract(e, 0, 0);
        for i in 1..w { let b = x.p.ar.extract(e, i, i); r = x.p.ar.concat(r, b); }
        Ok(x.norm(r))
    })
}
fn funnel(x: &mut Ex, c: &Call, left: bool) -> R {
    lanes(x, c, &mut |x, w, a| {
        let e0 = x.ex(&a[0], w); let e1 = x.ex(&a[1], w);
        if x.p.ar.is_taint(e0) || x.p.ar.is_taint(e1) { return Ok(Val::S(x.p.ar.taint(w))); }
        let Val::C(k) = a[2] else { return Err(unsup("symbolic rotate")) };
        let k = (k % w as u64) as u16;
        if k == 0 { return Ok(if left { a[0].clone() } else { a[1].clone() }); }
        let k = if left { k } else { w - k };
        // left by k: low w-k bits of a, high k bits of b
        let hi = x.p.ar.extract(e0, w - 1 - k, 0); let lo = x.p.ar.extract(e1, w - 1, w - k);
        let r = x.p.ar.concat(hi, lo); Ok(x.norm(r))
    })
}
fn fshl(x: &mut Ex, _s: &mut State, c: &Call) -> R { funnel(x, c, true) }
fn fshr(x: &mut Ex, _s: &mut State, c: &Call) -> R { funnel(x, c, false) }
fn first(_x: &mut Ex, _s: &mut State, c: &Call) -> R { Ok(c.args[0].clone()) }
fn nop(_x: &mut Ex, _s: &mut State, _c: &Call) -> R { Ok(unit()) }
fn zero(x: &mut Ex, _s: &mut State, c: &Call) -> R { Ok(x.p.zero(c.ret)) }
fn one(_x: &mut Ex, _s: &mut State, _c: &Call) -> R { Ok(Val::C(1)) }
fn minus1(_x: &mut Ex, _s: &mut State, c: &Call) -> R { Ok(Val::C(mask(c.ret.w()) as u64)) }
fn trap(_x: &mut Ex, _s: &mut State, _c: &Call) -> R { Err(Ctl::Done(End::Panic("abort".into()))) }
fn reduce(x: &mut Ex, c: &Call, op: Op) -> R {
    let Val::A(v) = c.args.last().unwrap() else { return Err(unsup("reduce")) };
    let K::Vec(_, et) = &c.aty.last().unwrap().k else { return Err(unsup("reduce")) };
    let w = et.w();
    let mut r = v[0].clone();
    for y in v.iter().skip(1) {
        r = match op {
            Op::Ult => { let k = cmp(x, Op::Ult, w, &r, y); ite(x, w, &k, &r, y) }
            Op::Ule => { let k = cmp(x, Op::Ult, w, &r, y); ite(x, w, &k, y, &r) }
            Op::Slt => { let k = cmp(x, Op::Slt, w, &r, y); ite(x, w, &k, &r, y) }
            Op::Sle => { let k = cmp(x, Op::Slt, w, &r, y); ite(x, w, &k, y, &r) }
            o => x.bin(o, w, &r, y),
        };
    }
    Ok(r)
}
fn red_add(x: &mut Ex, _s: &mut State, c: &Call) -> R { reduce(x, c, Op::Add) }
fn red_mul(x: &mut Ex, _s: &mut State, c: &Call) -> R { reduce(x, c, Op::Mul) }
fn red_and(x: &mut Ex, _s: &mut State, c: &Call) -> R { reduce(x, c, Op::And) }
fn red_or(x: &mut Ex, _s: &mut State, c: &Call) -> R { reduce(x, c, Op::Or) }
fn red_xor(x: &mut Ex, _s: &mut State, c: &Call) -> R { reduce(x, c, Op::Xor) }
fn red_umin(x: &mut Ex, _s: &mut State, c: &Call) -> R { reduce(x, c, Op::Ult) }
fn red_umax(x: &mut Ex, _s: &mut State, c: &Call) -> R { reduce(x, c, Op::Ule) }
fn red_smin(x: &mut Ex, _s: &mut State, c: &Call) -> R { reduce(x, c, Op::Slt) }
fn red_smax(x: &mut Ex, _s: &mut State, c: &Call) -> R { reduce(x, c, Op::Sle) }
fn pmovmskb(x: &mut Ex, _s: &mut State, c: &Call) -> R {
    let Val::A(v) = &c.args[0] else { return Err(unsup("pmovmskb")) };
    let mut e = { let b = x.ex(&v[0], 8); x.p.ar.extract(b, 7, 7) };
    for y in v.iter().skip(1) { let b = x.ex(y, 8); let b = x.p.ar.extract(b, 7, 7); e = x.p.ar.concat(b, e); }
    let e = x.p.ar.zext(e, 32); Ok(x.norm(e))
}
fn lifetime(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let p = c.args.last().unwrap();
    if let Val::C(p) = p {
        let id = p >> 32;
        if id >= HEAP_BASE && p & 0xffff_ffff == 0 {
            if let Some(o) = s.mem.get((id - HEAP_BASE) as u32) {
                if o.kind == Kind::Stack {
                    let n = o.len();
                    if let Some(o) = s.mem.get_mut((id - HEAP_BASE) as u32) { *o = Obj::new(n, Kind::Stack); }
                }
            }
        }
    }
    let _ = x;
    Ok(unit())
}
fn len_of(x: &mut Ex, s: &mut State, v: &Val) -> Result<usize, Ctl> { Ok(x.conc(s, v)? as usize) }
fn memcpy(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let n = len_of(x, s, &c.args[2])?;
    if n == 0 { return Ok(c.args[0].clone()); }
    let d = x.conc_ptr(s, &c.args[0])?; let p = x.conc_ptr(s, &c.args[1])?;
    x.copy(s, d, p, n)?;
    Ok(Val::C(d))
}
fn memset(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let n = len_of(x, s, &c.args[2])?;
    if n == 0 { return Ok(c.args[0].clone()); }
    let d = x.conc_ptr(s, &c.args[0])?;
    let w = c.aty[1].w();
    let e = x.ex(&c.args[1], w); let e = x.p.ar.trunc(e, 8);
    x.write_bytes(s, d, &vec![e; n])?;
    Ok(Val::C(d))
}
fn cmp_bytes(x: &mut Ex, s: &mut State, c: &Call, order: bool) -> R {
    let n = len_of(x, s, &c.args[2])?;
    let w = c.ret.w();
    if n == 0 { return Ok(Val::C(0)); }
    let a = x.conc_ptr(s, &c.args[0])?; let b = x.conc_ptr(s, &c.args[1])?;
    if let (Some(p), Some(q)) = (x.read_conc(s, a, n)?, x.read_conc(s, b, n)?) {
        let r: i64 = match p.cmp(&q) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 };
        return Ok(Val::C(r as u64 & mask(w) as u64));
    }
    let p = x.read_bytes(s, a, n)?; let q = x.read_bytes(s, b, n)?;
    if !order {
        let mut eq = Arena::TRUE;
        for i in 0..n { let e = x.p.ar.bin(Op::Eq, p[i], q[i]); eq = x.p.ar.and1(eq, e); }
        let ne = x.p.ar.not(eq); let e = x.p.ar.zext(ne, w);
        return Ok(x.norm(e));
    }
    let mut r = x.p.ar.konst(w, 0);
    let (m1, p1) = (x.p.ar.konst(w, !0), x.p.ar.konst(w, 1));
    for i in (0..n).rev() {
        let eq = x.p.ar.bin(Op::Eq, p[i], q[i]); let lt = x.p.ar.bin(Op::Ult, p[i], q[i]);
        let d = x.p.ar.ite(lt, m1, p1);
        r = x.p.ar.ite(eq, r, d);
    }
    Ok(x.norm(r))
}
fn memcmp(x: &mut Ex, s: &mut State, c: &Call) -> R { cmp_bytes(x, s, c, true) }
fn bcmp(x: &mut Ex, s: &mut State, c: &Call) -> R { cmp_bytes(x, s, c, false) }
fn strlen(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let p = x.conc(s, &c.args[0])?;
    for i in 0..65536u64 { let b = x.read_bytes(s, p + i, 1)?[0]; let b = x.norm(b); if x.conc(s, &b)? == 0 { return Ok(Val::C(i)); } }
    Err(unsup("strlen"))
}
// ---- allocator
fn size_arg(x: &mut Ex, s: &mut State, v: &Val) -> Result<u64, Ctl> {
    if let Val::S(e) = v {
        if let Some(k) = s.known.get(e) { return Ok(*k); }
        let hi = x.p.ar.range(*e).1;
        if hi > MAX_ALLOC as u128 {
            let k = x.p.ar.konst(64, MAX_ALLOC as u128);
            let c = x.p.ar.bin(Op::Ult, k, *e);
            if s.pc.contains(&c) { return Err(Ctl::Done(End::Panic(format!("allocation size controlled by input exceeds {MAX_ALLOC} bytes")))); }
            let nc = x.p.ar.not(c);
            if !s.pc.contains(&nc) { return Err(Ctl::Fork(c)); }
        }
    }
    x.conc(s, v)
}
fn alloc(x: &mut Ex, s: &mut State, c: &Call) -> R { let n = size_arg(x, s, &c.args[0])?; Ok(Val::C(x.alloc(s, n, Kind::Heap)?)) }
fn dealloc(x: &mut Ex, s: &mut State, c: &Call) -> R { let p = x.conc(s, &c.args[0])?; x.free(s, p)?; Ok(unit()) }
fn realloc(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let p = x.conc(s, &c.args[0])?; let n = size_arg(x, s, &c.args[3])?; let old = x.conc(s, &c.args[1])?;
    let q = x.alloc(s, n, Kind::Heap)?;
    x.copy(s, q, p, old.min(n) as usize)?;
    x.free(s, p)?;
    Ok(Val::C(q))
}
// jemalloc, where the global allocator was inlined
fn je_calloc(x: &mut Ex, s: &mut State, c: &Call) -> R { let k = x.conc(s, &c.args[0])?; let n = size_arg(x, s, &c.args[1])?; Ok(Val::C(x.alloc(s, n.saturating_mul(k), Kind::Heap)?)) }
fn je_realloc(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let p = x.conc(s, &c.args[0])?; let n = size_arg(x, s, &c.args[1])?;
    let q = x.alloc(s, n, Kind::Heap)?;
    if p == 0 { return Ok(Val::C(q)); }
    let old = x.obj(s, (p >> 32) as u32)?.len() as u64;
    x.copy(s, q, p, old.min(n) as usize)?;
    x.free(s, p)?;
    Ok(Val::C(q))
}
// ---- panics
fn cstr(x: &mut Ex, s: &State, p: &Val, n: &Val) -> Option<String> {
    if let (Val::C(p), Val::C(n)) = (p, n) { if *n < 4096 { if let Ok(Some(b)) = x.read_conc(s, *p, *n as usize) { return Some(String::from_utf8_lossy(&b).into_owned()); } } }
    None
}
fn panic(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let name = x.p.funcs[c.f as usize].dem.clone();
    let mut loc = String::new();
    if let Some(Val::C(l)) = c.args.last() {
        if let (Ok(Some(pl)), Ok(Some(ln))) = (x.read_conc(s, *l, 16), x.read_conc(s, l + 16, 4)) {
            let p = u64::from_le_bytes(pl[..8].try_into().unwrap()); let n = u64::from_le_bytes(pl[8..].try_into().unwrap());
            if n < 1024 { if let Some(f) = cstr(x, s, &Val::C(p), &Val::C(n)) { loc = format!(" at {}:{}", f, u32::from_le_bytes(ln.try_into().unwrap())); } }
        }
    }
    let msg = if c.args.len() == 3 { cstr(x, s, &c.args[0], &c.args[1]).unwrap_or_default() } else { String::new() };
    let msg: String = msg.chars().filter(|c| !c.is_control()).take(200).collect();
    Err(Ctl::Done(End::Panic(format!("{name} {msg}{loc}"))))
}
// ---- formatting: skipped (empty string) unless the harness asks for the real thing
pub fn fmt_format(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let d = x.conc(s, &c.args[0])?;
    // String { cap, ptr, len } in the compiler's field order cap, ptr, len
    let u = Ty { k: K::Int(64), size: 8, store: 8, align: 8 };
    x.store(s, &u, &Val::C(d), &Val::C(0))?;
    x.store(s, &u, &Val::C(d + 8), &Val::C(1))?;
    x.store(s, &u, &Val::C(d + 16), &Val::C(0))?;
    x.notes.insert("formatted text is replaced by the empty string".into());
    Ok(unit())
}
// ---- harness interface
fn text(x: &mut Ex, s: &State, p: &Val, n: &Val) -> Result<String, Ctl> { cstr(x, s, p, n).ok_or_else(|| unsup("harness string")) }
fn vf_any(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let d = x.conc(s, &c.args[0])?; let n = len_of(x, s, &c.args[1])?;
    let nm = text(x, s, &c.args[2], &c.args[3])?;
    let es = x.new_input(s, &nm, n);
    x.write_bytes(s, d, &es)?;
    Ok(unit())
}
fn b1(x: &mut Ex, v: &Val, w: u16) -> E { let e = x.ex(v, w); if w == 1 { e } else { let z = x.p.ar.konst(w, 0); let q = x.p.ar.bin(Op::Eq, e, z); x.p.ar.not(q) } }
fn vf_assume(x: &mut Ex, s: &mut State, c: &Call) -> R { let e = b1(x, &c.args[0], c.aty[0].w()); x.assume(s, e)?; Ok(unit()) }
fn vf_assert(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let e = b1(x, &c.args[0], c.aty[0].w());
    let m = text(x, s, &c.args[1], &c.args[2])?;
    x.assert(s, e, &m)?; Ok(unit())
}
fn vf_cover(x: &mut Ex, s: &mut State, c: &Call) -> R { let m = text(x, s, &c.args[0], &c.args[1])?; *x.covers.entry(m).or_insert(0) += 1; Ok(unit()) }
fn vf_known(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let e = b1(x, &c.args[0], c.aty[0].w());
    let m = text(x, s, &c.args[1], &c.args[2])?;
    x.known(s, e, &m)?; Ok(unit())
}
fn vf_conc(x: &mut Ex, s: &mut State, c: &Call) -> R { Ok(Val::C(x.conc(s, &c.args[0])?)) }
fn vf_engine(_x: &mut Ex, _s: &mut State, _c: &Call) -> R { Ok(Val::C(1)) }
fn vf_flag(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let m = text(x, s, &c.args[0], &c.args[1])?; let v = x.conc(s, &c.args[2])?;
    match m.as_str() {
        "merge64" => x.merge64 = v != 0,
        "merge" => x.merge = v != 0,
        "trace" => x.trace = v != 0,
        _ => { if m == "hash" { x.p.ar.hashed = if v == 0 { 0 } else { !0 }; } Rc::make_mut(&mut s.flags).insert(m, v); }
    }
    Ok(unit())
}
fn vf_debug(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let m = text(x, s, &c.args[0], &c.args[1])?;
    let w = c.aty[2].w();
    let e = x.ex(&c.args[2], w);
    eprintln!("DEBUG {m} = {} (model {:#x}) pc={}", x.p.ar.show(e, 6), s.model.eval(&x.p.ar, e), s.pc.len());
    Ok(unit())
}
/// vf_uf(name, nlen, in, inlen, out, outlen): an uninterpreted function, equal inputs give equal outputs
fn vf_uf(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let nm = text(x, s, &c.args[0], &c.args[1])?;
    let p = x.conc(s, &c.args[2])?; let n = len_of(x, s, &c.args[3])?;
    let d = x.conc(s, &c.args[4])?; let m = len_of(x, s, &c.args[5])?;
    let inp = x.read_bytes(s, p, n)?;
    let out = uf_apply(x, s, &nm, inp, m)?;
    x.write_bytes(s, d, &out)?;
    Ok(unit())
}
/// equal inputs give equal outputs, and (unless switched off) the other way round; blake3 already on its first 20 bytes
fn uf_link(x: &mut Ex, s: &mut State, nm: &str, inp: &[E], out: &[E]) -> Result<(), Ctl> {
    if s.flags.get(&format!("free:{nm}")).copied().unwrap_or(0) != 0 { x.notes.insert(format!("{nm} is any function on symbolic input (equal arguments not related)")); return Ok(()); }
    let inj = s.flags.get(&format!("inj:{nm}")).copied().unwrap_or(1) != 0;
    let m = out.len();
    let cut = if nm == "blake3" { 20.min(m) } else { m };
    let conc = conc_bytes(x, inp).is_some();
    for u in s.ufs.clone().iter().filter(|u| u.name == nm) {
        if conc && conc_bytes(x, &u.inp).is_some() { continue; }
        let mut oeq = Arena::TRUE; let mut rest = Arena::TRUE;
        for i in 0..m { let e = x.p.ar.bin(Op::Eq, u.out[i], out[i]); if i < cut { oeq = x.p.ar.and1(oeq, e); } else { rest = x.p.ar.and1(rest, e); } }
        let mut ieq = if u.inp.len() == inp.len() { Arena::TRUE } else { Arena::FALSE };
        if ieq == Arena::TRUE { for i in 0..inp.len() { let e = x.p.ar.bin(Op::Eq, u.inp[i], inp[i]); ieq = x.p.ar.and1(ieq, e); } }
        let ni = x.p.ar.not(ieq);
        if inj { let d = x.p.ar.bin(Op::Xor, ieq, oeq); let c = x.p.ar.not(d); x.assume(s, c)?; let c = x.p.ar.or1(ni, rest); x.assume(s, c)?; }
        else { let o = x.p.ar.and1(oeq, rest); let c = x.p.ar.or1(ni, o); x.assume(s, c)?; }
    }
    Ok(())
}
pub fn uf_apply(x: &mut Ex, s: &mut State, nm: &str, inp: Vec<E>, m: usize) -> Result<Vec<E>, Ctl> {
    for u in s.ufs.iter() { if u.name == nm && u.inp == inp { return Ok(u.out.clone()); } }
    // one output vector per argument vector, whatever path it is reached on
    let key = { use std::hash::{Hash, Hasher}; let mut h = rustc_hash::FxHasher::default(); inp.hash(&mut h); h.finish() };
    let out: Vec<E> = (0..m).map(|i| x.named_var(&format!("{nm}${key:x}[{i}]"), 8)).collect();
    uf_link(x, s, nm, &inp, &out)?;
    Rc::make_mut(&mut s.ufs).push(Uf { name: nm.into(), inp, out: out.clone() });
    x.notes.insert(format!("{nm} is an uninterpreted injective function on symbolic input"));
    Ok(out)
}
fn blake3_of(x: &mut Ex, s: &mut State, p: u64, n: usize) -> Result<Vec<E>, Ctl> {
    let inp = if n > 0 { x.read_bytes(s, p, n)? } else { vec![] };
    blake3_exprs(x, s, inp)
}
fn blake3_hash(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let d = x.conc(s, &c.args[0])?; let p = x.conc(s, &c.args[1])?; let n = len_of(x, s, &c.args[2])?;
    let out = blake3_of(x, s, p, n)?;
    x.write_bytes(s, d, &out)?;
    Ok(unit())
}
fn vf_blake3(x: &mut Ex, s: &mut State, c: &Call) -> R {
    // (in, inlen, out)
    let p = x.conc(s, &c.args[0])?; let n = len_of(x, s, &c.args[1])?; let d = x.conc(s, &c.args[2])?;
    let out = blake3_of(x, s, p, n)?;
    x.write_bytes(s, d, &out)?;
    Ok(unit())
}
// ---- blake3 in pieces: contents kept per hasher address
fn b3_new(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let d = x.conc(s, &c.args[0])?;
    hasher_set(s, d, vec![]);
    Ok(unit())
}
fn hasher_set(s: &mut State, d: u64, v: Vec<E>) {
    let n = format!("hasher:{d:x}");
    let u = Rc::make_mut(&mut s.ufs);
    u.retain(|u| u.name != n);
    u.push(Uf { name: n, inp: v, out: vec![] });
}
fn hasher_get(s: &State, d: u64) -> Result<Vec<E>, Ctl> { let n = format!("hasher:{d:x}"); s.ufs.iter().find(|u| u.name == n).map(|u| u.inp.clone()).ok_or_else(|| unsup("hasher was moved")) }
fn b3_update(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let d = x.conc(s, &c.args[0])?; let n = len_of(x, s, &c.args[2])?;
    let mut v = hasher_get(s, d)?;
    if n > 0 { let p = x.conc(s, &c.args[1])?; v.extend(x.read_bytes(s, p, n)?); }
    hasher_set(s, d, v);
    Ok(Val::C(d))
}
fn b3_finalize(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let d = x.conc(s, &c.args[0])?; let h = x.conc(s, &c.args[1])?;
    let v = hasher_get(s, h)?;
    let out = blake3_exprs(x, s, v)?;
    x.write_bytes(s, d, &out)?;
    Ok(unit())
}
fn conc_bytes(x: &Ex, v: &[E]) -> Option<Vec<u8>> { v.iter().map(|e| match x.norm(*e) { Val::C(b) => Some(b as u8), _ => None }).collect() }
fn konst_bytes(x: &mut Ex, b: &[u8]) -> Vec<E> { b.iter().map(|b| x.p.ar.konst(8, *b as u128)).collect() }
/// a hash: concrete on concrete input, otherwise an injective uninterpreted function
fn hash_exprs(x: &mut Ex, s: &mut State, name: &str, inp: Vec<E>, m: usize, real: &dyn Fn(&[u8]) -> Vec<u8>) -> Result<Vec<E>, Ctl> {
    if let Some(b) = conc_bytes(x, &inp) {
        let h = real(&b);
        let out = konst_bytes(x, &h);
        if !s.ufs.iter().any(|u| u.name == name && u.inp == inp) {
            uf_link(x, s, name, &inp, &out)?;
            Rc::make_mut(&mut s.ufs).push(Uf { name: name.into(), inp, out: out.clone() });
        }
        return Ok(out);
    }
    uf_apply(x, s, name, inp, m)
}
fn blake3_exprs(x: &mut Ex, s: &mut State, inp: Vec<E>) -> Result<Vec<E>, Ctl> { hash_exprs(x, s, "blake3", inp, 32, &|b| blake3::hash(b).as_bytes().to_vec()) }
/// sha2's block function (state, blocks, count): concrete, or uninterpreted per block
fn sha256_compress(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let st = x.conc(s, &c.args[0])?; let p = x.conc(s, &c.args[1])?; let n = len_of(x, s, &c.args[2])?;
    for i in 0..n {
        let mut inp = x.read_bytes(s, st, 32)?;
        inp.extend(x.read_bytes(s, p + 64 * i as u64, 64)?);
        let out = hash_exprs(x, s, "sha256", inp, 32, &|b| {
            let mut h = [0u32; 8];
            for j in 0..8 { h[j] = u32::from_le_bytes(b[4 * j..4 * j + 4].try_into().unwrap()); }
            sha2::compress256(&mut h, &[*sha2::digest::generic_array::GenericArray::from_slice(&b[32..96])]);
            h.iter().flat_map(|w| w.to_le_bytes()).collect()
        })?;
        x.write_bytes(s, st, &out)?;
    }
    Ok(unit())
}
fn keccak256(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let d = x.conc(s, &c.args[0])?; let n = len_of(x, s, &c.args[2])?;
    let inp = if n > 0 { let p = x.conc(s, &c.args[1])?; x.read_bytes(s, p, n)? } else { vec![] };
    let out = hash_exprs(x, s, "keccak256", inp, 32, &|b| { use sha3::Digest; sha3::Keccak256::digest(b).to_vec() })?;
    x.write_bytes(s, d, &out)?;
    Ok(unit())
}
// ---- ed25519: a signature verifies iff the harness produced it for that key and message
fn ed_pk(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let p = x.conc(s, &c.args[0])?;
    let b = x.read_bytes(s, p, 32)?;
    if let Some(k) = conc_bytes(x, &b) { return Ok(Val::C(ed25519_dalek::VerifyingKey::from_bytes(&k.try_into().unwrap()).is_ok() as u64)); }
    let o = uf_apply_plain(x, s, "ed25519 key decodes", b, 1)?;
    let e = x.p.ar.extract(o[0], 0, 0);
    Ok(x.norm(e))
}
fn ed_sign(x: &mut Ex, s: &mut State, c: &Call) -> R {
    // (seed, msg, n, out)
    let sp = x.conc(s, &c.args[0])?; let n = len_of(x, s, &c.args[2])?; let d = x.conc(s, &c.args[3])?;
    let Some(seed) = x.read_conc(s, sp, 32)? else { return Err(unsup("symbolic signing seed")) };
    let msg = if n > 0 { let p = x.conc(s, &c.args[1])?; x.read_bytes(s, p, n)? } else { vec![] };
    let k = ed25519_dalek::SigningKey::from_bytes(&seed.clone().try_into().unwrap());
    let mut inp = konst_bytes(x, &k.verifying_key().to_bytes());
    ed_known(x, s, &inp.clone())?;
    inp.extend(msg.iter());
    let out = hash_exprs(x, s, "ed25519 sign", inp, 64, &|b| { use ed25519_dalek::Signer; k.sign(&b[32..]).to_bytes().to_vec() })?;
    x.write_bytes(s, d, &out)?;
    Ok(unit())
}
fn ed_verify(x: &mut Ex, s: &mut State, c: &Call) -> R {
    // (pk, msg, n, sig, strict)
    let pp = x.conc(s, &c.args[0])?; let n = len_of(x, s, &c.args[2])?; let gp = x.conc(s, &c.args[3])?;
    let strict = x.conc(s, &c.args[4])? & 1 == 1;
    let pk = x.read_bytes(s, pp, 32)?; let sig = x.read_bytes(s, gp, 64)?;
    let msg = if n > 0 { let p = x.conc(s, &c.args[1])?; x.read_bytes(s, p, n)? } else { vec![] };
    if let (Some(k), Some(m), Some(g)) = (conc_bytes(x, &pk), conc_bytes(x, &msg), conc_bytes(x, &sig)) {
        let ok = ed25519_dalek::VerifyingKey::from_bytes(&k.try_into().unwrap()).map_or(false, |k| {
            let g = ed25519_dalek::Signature::from_bytes(&g.try_into().unwrap());
            if strict { k.verify_strict(&m, &g).is_ok() } else { use ed25519_dalek::Verifier; k.verify(&m, &g).is_ok() }
        });
        return Ok(Val::C(ok as u64));
    }
    let mut r = Arena::FALSE;
    for u in s.ufs.clone().iter().filter(|u| u.name == "ed25519 sign" && u.inp.len() == 32 + msg.len()) {
        let mut eq = Arena::TRUE;
        for i in 0..32 { let e = x.p.ar.bin(Op::Eq, u.inp[i], pk[i]); eq = x.p.ar.and1(eq, e); }
        for i in 0..msg.len() { let e = x.p.ar.bin(Op::Eq, u.inp[32 + i], msg[i]); eq = x.p.ar.and1(eq, e); }
        for i in 0..64 { let e = x.p.ar.bin(Op::Eq, u.out[i], sig[i]); eq = x.p.ar.and1(eq, e); }
        r = x.p.ar.or1(r, eq);
    }
    if !strict {
        // the identity point as key accepts (R = identity, S = 0) for every message
        let mut id = vec![0u8; 32]; id[0] = 1;
        let mut eq = Arena::TRUE;
        for i in 0..32 { let k = x.p.ar.konst(8, id[i] as u128); let e = x.p.ar.bin(Op::Eq, pk[i], k); eq = x.p.ar.and1(eq, e); let e = x.p.ar.bin(Op::Eq, sig[i], k); eq = x.p.ar.and1(eq, e); let z = x.p.ar.konst(8, 0); let e = x.p.ar.bin(Op::Eq, sig[32 + i], z); eq = x.p.ar.and1(eq, e); }
        r = x.p.ar.or1(r, eq);
    }
    x.notes.insert("a signature verifies iff it is one the harness produced for the same key and message".into());
    Ok(x.norm(r))
}
fn ed_public(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let sp = x.conc(s, &c.args[0])?; let d = x.conc(s, &c.args[1])?;
    let Some(seed) = x.read_conc(s, sp, 32)? else { return Err(unsup("symbolic signing seed")) };
    let k = ed25519_dalek::SigningKey::from_bytes(&seed.try_into().unwrap()).verifying_key().to_bytes();
    let out = konst_bytes(x, &k);
    x.write_bytes(s, d, &out)?;
    ed_known(x, s, &out)
}
fn ed_known(x: &mut Ex, s: &mut State, pk: &[E]) -> R {
    let nm = "ed25519 key decodes";
    if !s.ufs.iter().any(|u| u.name == nm && u.inp == pk) {
        Rc::make_mut(&mut s.flags).insert(format!("inj:{nm}"), 0);
        let one = vec![x.p.ar.konst(8, 1)];
        uf_link(x, s, nm, pk, &one)?;
        Rc::make_mut(&mut s.ufs).push(Uf { name: nm.into(), inp: pk.to_vec(), out: one });
    }
    Ok(unit())
}
// ---- secp256k1: recovery gives a harness key's address iff the harness signed that hash with it
fn eth_key(seed: &[u8]) -> (k256::ecdsa::SigningKey, Vec<u8>) {
    use sha3::Digest;
    let k = k256::ecdsa::SigningKey::from_slice(seed).unwrap();
    let p = k.verifying_key().to_encoded_point(false);
    let a = sha3::Keccak256::digest(&p.as_bytes()[1..])[12..].to_vec();
    (k, a)
}
fn eth_addr(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let sp = x.conc(s, &c.args[0])?; let d = x.conc(s, &c.args[1])?;
    let Some(seed) = x.read_conc(s, sp, 32)? else { return Err(unsup("symbolic signing seed")) };
    let out = konst_bytes(x, &eth_key(&seed).1);
    x.write_bytes(s, d, &out)?;
    eth_note(s, &out);
    Ok(unit())
}
fn eth_note(s: &mut State, a: &[E]) { if !s.ufs.iter().any(|u| u.name == "eth address" && u.inp == a) { Rc::make_mut(&mut s.ufs).push(Uf { name: "eth address".into(), inp: a.to_vec(), out: vec![] }); } }
fn eth_sign(x: &mut Ex, s: &mut State, c: &Call) -> R {
    // (seed, hash32, out65)
    let sp = x.conc(s, &c.args[0])?; let h = x.conc(s, &c.args[1])?; let d = x.conc(s, &c.args[2])?;
    let Some(seed) = x.read_conc(s, sp, 32)? else { return Err(unsup("symbolic signing seed")) };
    let (k, a) = eth_key(&seed);
    let mut inp = konst_bytes(x, &a);
    eth_note(s, &inp.clone());
    let hash = x.read_bytes(s, h, 32)?;
    inp.extend(hash.iter());
    let out = hash_exprs(x, s, "ecdsa sign", inp, 65, &|b| {
        let (g, r) = k.sign_prehash_recoverable(&b[20..]).unwrap();
        let mut o = g.to_bytes().to_vec(); o.push(27 + r.is_y_odd() as u8); o
    })?;
    let (p, q) = (x.p.ar.konst(8, 27), x.p.ar.konst(8, 28));
    let (e, f) = (x.p.ar.bin(Op::Eq, out[64], p), x.p.ar.bin(Op::Eq, out[64], q));
    let o = x.p.ar.or1(e, f);
    x.assume(s, o)?;
    x.write_bytes(s, d, &out)?;
    Ok(unit())
}
/// Signature::recover_address_from_prehash(sret, &Signature { r: [u64; 4], s: [u64; 4], odd: bool }, &B256); the result is tag 0 and the address at offset 1
fn eth_recover(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let d = x.conc(s, &c.args[0])?; let g = x.conc(s, &c.args[1])?; let h = x.conc(s, &c.args[2])?;
    let (mut r, mut ss) = (x.read_bytes(s, g, 32)?, x.read_bytes(s, g + 32, 32)?);
    r.reverse(); ss.reverse();
    let odd = x.read_bytes(s, g + 64, 1)?[0];
    let hash = x.read_bytes(s, h, 32)?;
    let mut inp = hash.clone(); inp.extend(r.iter()); inp.extend(ss.iter()); inp.push(odd);
    let mut res = None;
    if let Some(b) = conc_bytes(x, &inp) {
        res = Some((|| {
            let g = k256::ecdsa::Signature::from_slice(&b[32..96]).ok()?;
            let (g, odd) = match g.normalize_s() { Some(n) => (n, b[96] & 1 == 0), None => (g, b[96] & 1 == 1) };
            let k = k256::ecdsa::VerifyingKey::recover_from_prehash(&b[..32], &g, k256::ecdsa::RecoveryId::new(odd, false)).ok()?;
            use sha3::Digest;
            Some(sha3::Keccak256::digest(&k.to_encoded_point(false).as_bytes()[1..])[12..].to_vec())
        })());
    }
    match res {
        Some(Some(a)) => { let mut o = vec![x.p.ar.konst(8, 0)]; o.extend(konst_bytes(x, &a)); x.write_bytes(s, d, &o)?; }
        Some(None) => { let mut o = vec![x.p.ar.konst(8, 1)]; let z = x.p.ar.konst(8, 0); o.extend([z; 31]); o[8] = x.p.ar.konst(8, 3); x.write_bytes(s, d, &o)?; }
        None => {
            let known: Vec<Vec<E>> = s.ufs.iter().filter(|u| u.name == "eth address").map(|u| u.inp.clone()).collect();
            let mut out = uf_apply_plain(x, s, "ecrecover", inp, 20)?;
            for k in &known {
                let mut eq = Arena::TRUE;
                for i in 0..20 { let e = x.p.ar.bin(Op::Eq, k[i], out[i]); eq = x.p.ar.and1(eq, e); }
                let ne = x.p.ar.not(eq); x.assume(s, ne)?;
            }
            let one = x.p.ar.konst(8, 1);
            let oddb = { let o = x.p.ar.bin(Op::And, odd, one); x.p.ar.bin(Op::Eq, o, one) };
            for u in s.ufs.clone().iter().filter(|u| u.name == "ecdsa sign") {
                let mut eq = Arena::TRUE;
                for i in 0..32 { let e = x.p.ar.bin(Op::Eq, u.inp[20 + i], hash[i]); eq = x.p.ar.and1(eq, e); }
                for i in 0..32 { let e = x.p.ar.bin(Op::Eq, u.out[i], r[i]); eq = x.p.ar.and1(eq, e); let e = x.p.ar.bin(Op::Eq, u.out[32 + i], ss[i]); eq = x.p.ar.and1(eq, e); }
                let k = x.p.ar.konst(8, 28);
                let v = x.p.ar.bin(Op::Eq, u.out[64], k);
                let ne = x.p.ar.bin(Op::Xor, v, oddb); let same = x.p.ar.not(ne);
                eq = x.p.ar.and1(eq, same);
                for i in 0..20 { out[i] = x.p.ar.ite(eq, u.inp[i], out[i]); }
            }
            let mut o = vec![x.p.ar.konst(8, 0)]; o.extend(out);
            x.write_bytes(s, d, &o)?;
            x.notes.insert("ECDSA recovery yields a harness key's address iff the harness signed that hash with that key (signature malleability is not modelled)".into());
        }
    }
    Ok(unit())
}
fn uf_apply_plain(x: &mut Ex, s: &mut State, nm: &str, inp: Vec<E>, m: usize) -> Result<Vec<E>, Ctl> {
    Rc::make_mut(&mut s.flags).insert(format!("inj:{nm}"), 0);
    uf_apply(x, s, nm, inp, m)
}
// ---- clock: one frozen symbolic value per run, or one for each flag("tick", k), rising with k
fn clock_gettime(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let d = x.conc(s, &c.args[1])?;
    let k = s.flags.get("tick").copied().unwrap_or(0);
    let name = |k: u64| if k == 0 { "clock".to_string() } else { format!("clock{k}") };
    let es = match s.inputs.iter().find(|i| i.0 == name(k)) { Some(i) => i.1.clone(), None => {
        let es: Vec<E> = (0..8).map(|i| x.named_var(&format!("{}[{i}]", name(k)), 8)).collect();
        Rc::make_mut(&mut s.inputs).push((name(k), es.clone()));
        es
    } };
    let mut e = es[7]; for i in (0..7).rev() { e = x.p.ar.concat(e, es[i]); }
    let mut lo = x.p.ar.konst(64, 1_609_459_200);
    if let Some(j) = (0..k).rev().find(|j| s.inputs.iter().any(|i| i.0 == name(*j))) {
        let b = s.inputs.iter().find(|i| i.0 == name(j)).unwrap().1.clone();
        lo = b[7]; for i in (0..7).rev() { lo = x.p.ar.concat(lo, b[i]); }
    }
    let hi = x.p.ar.konst(64, 4_102_444_800);
    let a = x.p.ar.bin(Op::Ule, lo, e); let b = x.p.ar.bin(Op::Ule, e, hi);
    x.assume(s, a)?; x.assume(s, b)?;
    x.write_bytes(s, d, &es)?;
    let z = x.p.ar.konst(8, 0);
    x.write_bytes(s, d + 8, &[z; 8])?;
    Ok(Val::C(0))
}
fn taint_pair(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let t = x.p.ar.taint(64);
    if matches!(c.ret.k, K::Struct(_)) { return Ok(agg(vec![Val::S(t), Val::S(t)])); }
    let d = x.conc(s, &c.args[0])?;
    let t8 = x.p.ar.taint(8);
    x.write_bytes(s, d, &[t8; 16])?;
    Ok(unit())
}
/// vf_regex(pattern, plen, text, tlen) -> bool
fn vf_regex(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let pat = text(x, s, &c.args[0], &c.args[1])?;
    let p = x.conc(s, &c.args[2])?; let n = len_of(x, s, &c.args[3])?;
    let bytes = x.read_bytes(s, p, n)?;
    let e = crate::regex::is_match(x, &pat, &bytes).map_err(|e| unsup(&format!("regex {pat}: {e}")))?;
    Ok(x.norm(e))
}
/// run of UTF-8 validation as one formula instead of a branch per byte
fn vf_utf8(x: &mut Ex, s: &mut State, c: &Call) -> R {
    let p = x.conc(s, &c.args[0])?; let n = len_of(x, s, &c.args[1])?;
    let b = x.read_bytes(s, p, n)?;
    let e = crate::regex::utf8_ok(x, &b);
    Ok(x.norm(e))
}
/// vf_path(id): record which replay-relevant choice was taken
fn exit0(_x: &mut Ex, _s: &mut State, _c: &Call) -> R { Err(Ctl::Done(End::Panic("process exit".into()))) }

pub fn resolve(name: &str, dem: &str) -> Option<Icpt> {
    if let Some(n) = name.strip_prefix("llvm.") {
        let p = |s: &str| n.starts_with(s);
        let f: Icpt = if p("memcpy.") || p("memmove.") { memcpy } else if p("memset.") { memset }
            else if p("lifetime.") { lifetime }
            else if p("uadd.with") { uadd_o } else if p("usub.with") { usub_o } else if p("umul.with") { umul_o }
            else if p("sadd.with") { sadd_o } else if p("ssub.with") { ssub_o } else if p("smul.with") { smul_o }
            else if p("uadd.sat") { uadd_sat } else if p("usub.sat") { usub_sat } else if p("sadd.sat") { sadd_sat } else if p("ssub.sat") { ssub_sat }
            else if p("umin.") { umin } else if p("umax.") { umax } else if p("smin.") { smin } else if p("smax.") { smax } else if p("abs.") { abs }
            else if p("ucmp.") { ucmp } else if p("scmp.") { scmp }
            else if p("ctlz.") { clz } else if p("cttz.") { ctz } else if p("ctpop.") { ctpop } else if p("bswap.") { bswap } else if p("bitreverse.") { bitrev }
            else if p("fshl.") { fshl } else if p("fshr.") { fshr }
            else if p("expect.") || p("threadlocal.address") || p("launder.") || p("strip.invariant") || p("ssa.copy") { first }
            else if p("trap") || p("debugtrap") { trap }
            else if p("is.constant") { zero } else if p("objectsize") { minus1 } else if p("allow.") { one }
            else if p("sideeffect") || p("donothing") || p("var.annotation") || p("x86.sse2.pause") { nop }
            else if p("vector.reduce.add") { red_add } else if p("vector.reduce.mul") { red_mul } else if p("vector.reduce.and") { red_and } else if p("vector.reduce.or") { red_or } else if p("vector.reduce.xor") { red_xor }
            else if p("vector.reduce.umin") { red_umin } else if p("vector.reduce.umax") { red_umax } else if p("vector.reduce.smin") { red_smin } else if p("vector.reduce.smax") { red_smax }
            else if p("x86.sse2.pmovmskb.128") { pmovmskb }
            else { return None };
        return Some(f);
    }
    let f: Icpt = match name {
        "memcpy" | "memmove" => memcpy, "memset" => memset, "memcmp" => memcmp, "bcmp" => bcmp, "strlen" => strlen,
        "vf_any" => vf_any, "vf_assume" => vf_assume, "vf_assert" => vf_assert, "vf_cover" => vf_cover, "vf_known" => vf_known,
        "vf_conc" => vf_conc, "vf_engine" => vf_engine, "vf_flag" => vf_flag, "vf_uf" => vf_uf, "vf_blake3" => vf_blake3, "vf_debug" => vf_debug,
        "_rjem_malloc" | "_rjem_mallocx" => alloc, "_rjem_calloc" => je_calloc, "_rjem_realloc" | "_rjem_rallocx" => je_realloc, "_rjem_sdallocx" | "_rjem_free" | "_rjem_dallocx" => dealloc,
        "vf_ed_pk" => ed_pk, "vf_ed_sign" => ed_sign, "vf_ed_public" => ed_public, "vf_eth_addr" => eth_addr, "vf_eth_sign" => eth_sign, "vf_ed_verify" => ed_verify,
        "vf_regex" => vf_regex, "vf_utf8" => vf_utf8,
        "clock_gettime" => clock_gettime,
        "abort" | "exit" | "_exit" => exit0,
        "pthread_mutex_lock" | "pthread_mutex_unlock" | "sched_yield" => zero,
        "__cxa_thread_atexit_impl" => zero,
        "cpuid" => return None,
        _ => {
            // `<path::Type>::method` is written `path::Type::method` below
            let plain = dem.strip_prefix('<').filter(|r| !r.contains(" as ")).and_then(|r| r.split_once(">::")).filter(|(a, _)| !a.contains('<')).map(|(a, b)| format!("{a}::{b}"));
            let d = plain.as_deref().unwrap_or(dem);
            let st = |s: &str| d.starts_with(s);
            if d.contains("__rustc") || st("__rustc::") {
                if d.ends_with("__rust_alloc") { return Some(alloc); }
                if d.ends_with("__rust_alloc_zeroed") { return Some(alloc); }
                if d.ends_with("__rust_dealloc") { return Some(dealloc); }
                if d.ends_with("__rust_realloc") { return Some(realloc); }
                if d.contains("no_alloc_shim_is_unstable") || d.contains("__rust_no_alloc_shim") { return Some(nop); }
                if d.ends_with("rust_begin_unwind") || d.contains("alloc_error_handler") || d.contains("__rust_abort") || d.contains("rust_panic") { return Some(panic); }
            }
            if st("core::panicking::") || st("core::option::unwrap_failed") || st("core::option::expect_failed") || st("core::result::unwrap_failed")
                || (st("core::slice::") && d.contains("fail")) || st("core::str::slice_error_fail") || st("alloc::raw_vec::capacity_overflow") || st("alloc::raw_vec::handle_error")
                || st("alloc::alloc::handle_alloc_error") || (st("core::cell::") && d.contains("panic_already")) || st("std::panicking::") || st("std::rt::begin_panic") || st("std::process::abort")
                || (st("alloc::") && d.ends_with("::assert_failed")) || (st("alloc::") && d.contains("::panic")) || st("core::num::error::") && d.contains("fail") || st("core::time::") && d.contains("panic") { return Some(panic); }
            if d == "alloc::fmt::format::format_inner" || d == "alloc::fmt::format" { return Some(fmt_format_or_real); }
            if d.ends_with("hashmap_random_keys") { return Some(taint_pair); }
            if d.contains("alloy_primitives::signature::") && d.ends_with("recover_address_from_prehash") { return Some(eth_recover); }
            if d == "blake3::hash" { return Some(blake3_hash); }
            if d == "blake3::Hasher::new" || d == "<blake3::Hasher as core::default::Default>::default" { return Some(b3_new); }
            if d == "blake3::Hasher::update" { return Some(b3_update); }
            if d == "blake3::Hasher::finalize" { return Some(b3_finalize); }
            if d == "sha2::sha256::compress256" { return Some(sha256_compress); }
            if d == "alloy_primitives::utils::keccak256_impl" { return Some(keccak256); }
            // metrics only leave the process
            if st("snapchain::utils::statsd_wrapper::StatsdClientWrapper::") && !d.ends_with("::new") { return Some(nop); }
            // waiting takes no time (and needs no runtime)
            if d == "tokio::time::sleep::sleep" || d.ends_with("::<tokio::time::sleep::Sleep>") && d.contains("drop_") { return Some(nop); }
            if d == "<tokio::time::sleep::Sleep as core::future::future::Future>::poll" { return Some(zero_agg); }
            if d == "std_detect::detect::cache::detect_and_initialize" { return Some(zero_agg); }
            if d == "std::thread::yield_now" || d == "std::thread::functions::yield_now" { return Some(nop); }
            return None;
        }
    };
    Some(f)
}
fn zero_agg(x: &mut Ex, _s: &mut State, c: &Call) -> R { Ok(x.p.zero(c.ret)) }
fn fmt_format_or_real(x: &mut Ex, s: &mut State, c: &Call) -> R {
    if s.flags.get("fmt").copied().unwrap_or(0) != 0 { return Err(Ctl::Real); }
    fmt_format(x, s, c)
}
