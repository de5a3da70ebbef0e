//! Hash-consed bit-vector expressions with eager simplification.
use rustc_hash::FxHashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Taint,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    ZExt, SExt, Extract, Concat, Ite, Eq, Ult, Ule, Slt, Sle,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32, pub d: u32 }

pub struct Arena {
    pub n: Vec<Node>,
    rng: Vec<(u128, u128)>,
    map: FxHashMap<Node, E>,
    exc: FxHashMap<(E, u16, u16), E>,
    pub vars: Vec<(String, u16)>,
    /// what a keyed hash is observed as: all hashes agree, so a map is met in the order of insertion, rotated by this
    pub hashed: u128,
    pub var_expr: Vec<E>,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext128(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn eval_bin(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        SRem => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; ((sext128(a, w) >> s) as u128) & m }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Ule => (a <= b) as u128,
        Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { n: vec![], rng: vec![], map: FxHashMap::default(), exc: FxHashMap::default(), hashed: 0, vars: vec![], var_expr: vec![] };
        a.konst(1, 0); // id 0 = false
        a.konst(1, 1); // id 1 = true
        a
    }
    pub const FALSE: E = 0;
    pub const TRUE: E = 1;

    fn intern(&mut self, n: Node, r: (u128, u128)) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.n.len() as E;
        self.n.push(n);
        self.rng.push(r);
        self.map.insert(n, e);
        e
    }
    fn mk(&mut self, op: Op, w: u16, a: u32, b: u32, c: u32) -> E {
        let n = Node { op, w, a, b, c, d: 0 };
        if let Some(&e) = self.map.get(&n) { return e; }
        let r = self.range_of(op, w, a, b, c);
        if r.0 == r.1 { return self.konst(w, r.0); }
        self.intern(n, r)
    }
    fn range_of(&self, op: Op, w: u16, a: E, b: E, c: E) -> (u128, u128) {
        let m = mask(w);
        let ra = || self.rng[a as usize];
        let rb = || self.rng[b as usize];
        match op {
            ZExt => ra(),
            And => (0, ra().1.min(rb().1)),
            Or | Xor => {
                let h = ra().1 | rb().1;
                let bits = 128 - h.leading_zeros() as u16;
                let lo = if op == Or { ra().0.max(rb().0) } else { 0 };
                (lo, mask(bits.max(0)).min(m))
            }
            Add => match ra().1.checked_add(rb().1) { Some(h) if h <= m => (ra().0 + rb().0, h), _ => (0, m) },
            Sub => if ra().0 >= rb().1 { (ra().0 - rb().1, ra().1 - rb().0) } else { (0, m) },
            Mul => match ra().1.checked_mul(rb().1) { Some(h) if h <= m => (ra().0 * rb().0, h), _ => (0, m) },
            UDiv => if rb().0 > 0 { (ra().0 / rb().1, ra().1 / rb().0) } else { (0, m) },
            URem => if rb().0 > 0 { (0, ra().1.min(rb().1 - 1)) } else { (0, m) },
            LShr => { let (l, h) = rb(); let f = |x: u128, s: u128| if s >= 128 { 0 } else { x >> s }; (f(ra().0, h), f(ra().1, l)) }
            Shl => { let (l, h) = rb(); if l == h && l < w as u128 && ra().1 <= (m >> l) { (ra().0 << l, ra().1 << l) } else { (0, m) } }
            Extract => { // c = lo
                let lo = c as u32; let (l, h) = ra();
                if (h >> lo) <= m { (l >> lo, h >> lo) } else { (0, m) }
            }
            Concat => { let wb = self.n[b as usize].w; ((ra().0 << wb) | rb().0, (ra().1 << wb) | rb().1) }
            Ite => { let x = self.rng[b as usize]; let y = self.rng[c as usize]; (x.0.min(y.0), x.1.max(y.1)) }
            _ => (0, m),
        }
    }
    pub fn range(&self, e: E) -> (u128, u128) { self.rng[e as usize] }
    pub fn w(&self, e: E) -> u16 { self.n[e as usize].w }
    pub fn konst(&mut self, w: u16, v: u128) -> E {
        let v = v & mask(w);
        let n = Node { op: Const, w, a: v as u32, b: (v >> 32) as u32, c: (v >> 64) as u32, d: (v >> 96) as u32 };
        self.intern(n, (v, v))
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Const { Some(n.a as u128 | (n.b as u128) << 32 | (n.c as u128) << 64 | (n.d as u128) << 96) } else { None }
    }
    pub fn var(&mut self, name: &str, w: u16) -> E {
        let id = self.vars.len() as u32;
        self.vars.push((name.to_string(), w));
        let e = self.intern(Node { op: Var, w, a: id, b: 0, c: 0, d: 0 }, (0, mask(w)));
        self.var_expr.push(e);
        e
    }
    pub fn taint(&mut self, w: u16) -> E { self.intern(Node { op: Taint, w, a: 0, b: 0, c: 0, d: 0 }, (0, mask(w))) }
    pub fn is_taint(&self, e: E) -> bool { self.n[e as usize].op == Taint }
    /// a tainted value (keyed hash state) becomes a constant as soon as it is observed
    fn mat(&mut self, e: E) -> E { if self.is_taint(e) { let w = self.w(e); let k = if w < 8 { 0 } else { self.hashed }; self.konst(w, k & mask(w)) } else { e } }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if w == 1 {
            // push negation into comparisons
            let n = self.n[a as usize];
            match n.op {
                Const => return 1 - a,
                Ult => return self.mk_cmp_raw(Ule, n.b, n.a),
                Ule => return self.mk_cmp_raw(Ult, n.b, n.a),
                Slt => return self.mk_cmp_raw(Sle, n.b, n.a),
                Sle => return self.mk_cmp_raw(Slt, n.b, n.a),
                _ => {}
            }
        }
        let k = self.konst(w, !0);
        self.bin(Xor, a, k)
    }
    fn mk_cmp_raw(&mut self, op: Op, a: E, b: E) -> E { self.mk(op, 1, a, b, 0) }
    pub fn and1(&mut self, a: E, b: E) -> E { self.bin(And, a, b) }
    pub fn or1(&mut self, a: E, b: E) -> E { self.bin(Or, a, b) }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if self.is_taint(a) || self.is_taint(b) {
            match op {
                Add | Sub | Xor | Or | Mul | Shl => return self.taint(w),
                _ => { let a = self.mat(a); let b = self.mat(b); return self.bin(op, a, b); }
            }
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = eval_bin(op, w, x, y);
            let rw = if matches!(op, Eq | Ult | Ule | Slt | Sle) { 1 } else { w };
            return self.konst(rw, r);
        }
        let m = mask(w);
        let (mut a, mut b) = (a, b);
        // canonical: constant on the right for commutative operators
        if matches!(op, Add | Mul | And | Or | Xor | Eq) {
            let ca = self.as_const(a).is_some();
            let cb = self.as_const(b).is_some();
            if ca || (!cb && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let ka = self.as_const(a);
        let kb = self.as_const(b);
        let na = self.n[a as usize];
        match op {
            Add => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if na.op == Add { if let Some(k2) = self.as_const(na.b) { let s = self.konst(w, k.wrapping_add(k2)); return self.bin(Add, na.a, s); } }
                    if na.op == Ite { if let (Some(x), Some(y)) = (self.as_const(na.b), self.as_const(na.c)) { let x = self.konst(w, x.wrapping_add(k)); let y = self.konst(w, y.wrapping_add(k)); return self.ite(na.a, x, y); } }
                }
            }
            Sub => {
                if a == b { return self.konst(w, 0); }
                if let Some(k) = kb { let nk = self.konst(w, k.wrapping_neg()); return self.bin(Add, a, nk); }
                // (x + k) - x
                if na.op == Add && na.a == b { return na.b; }
                if na.op == Add && na.b == b { return na.a; }
            }
            Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
                if let Some(k) = kb { if k.is_power_of_two() { let s = self.konst(w, k.trailing_zeros() as u128); return self.bin(Shl, a, s); } }
            }
            UDiv => {
                if kb == Some(1) { return a; }
                if let Some(k) = kb { if k.is_power_of_two() { let s = self.konst(w, k.trailing_zeros() as u128); return self.bin(LShr, a, s); } }
            }
            URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() { let s = self.konst(w, k - 1); return self.bin(And, a, s); }
                    if k > 0 && self.rng[a as usize].1 < k { return a; }
                }
            }
            Shl | LShr | AShr => {
                if kb == Some(0) { return a; }
                if ka == Some(0) { return a; }
                if let Some(k) = kb {
                    if k >= w as u128 { if op != AShr { return self.konst(w, 0); } }
                    else {
                        let k = k as u16;
                        if op == LShr { let hi = self.extract(a, w - 1, k); return self.zext(hi, w); }
                        if op == Shl { let lo = self.extract(a, w - 1 - k, 0); let z = self.konst(k, 0); return self.concat(lo, z); }
                        if op == AShr { let hi = self.extract(a, w - 1, k); return self.sext(hi, w); }
                    }
                }
            }
            And => {
                if a == b { return a; }
                if kb == Some(0) { return b; }
                if kb == Some(m) { return a; }
                if let Some(k) = kb {
                    // low mask: zext(extract)
                    if (k & (k + 1)) == 0 && k != 0 {
                        let bits = 128 - k.leading_zeros() as u16;
                        let x = self.extract(a, bits - 1, 0);
                        return self.zext(x, w);
                    }
                    if na.op == And { if let Some(k2) = self.as_const(na.b) { let kk = self.konst(w, k & k2); return self.bin(And, na.a, kk); } }
                    // contiguous mask: keep as concat of pieces
                    let tz = k.trailing_zeros() as u16;
                    let sh = k >> tz;
                    if (sh & (sh + 1)) == 0 {
                        let bits = 128 - sh.leading_zeros() as u16;
                        let x = self.extract(a, tz + bits - 1, tz);
                        let z = self.konst(tz, 0);
                        let y = self.concat(x, z);
                        return self.zext(y, w);
                    }
                }
                if w == 1 { if let Some(r) = self.and_contra(a, b) { return r; } }
            }
            Or => {
                if a == b { return a; }
                if kb == Some(0) { return a; }
                if kb == Some(m) { return b; }
                if w == 1 { let nb = self.not_if_known(b); if nb == Some(a) { return Self::TRUE; } let nx = self.not_if_known(a); if nx == Some(b) { return Self::TRUE; } }
                // or of disjoint concat/zext pieces -> concat
                if w > 1 { if let Some(r) = self.or_concat(a, b) { return r; } }
            }
            Xor => {
                if a == b { return self.konst(w, 0); }
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if na.op == Xor { if let Some(k2) = self.as_const(na.b) { let kk = self.konst(w, k ^ k2); return self.bin(Xor, na.a, kk); } }
                    if w == 1 {
                        match na.op {
                            Ult => return self.mk(Ule, 1, na.b, na.a, 0),
                            Ule => return self.mk(Ult, 1, na.b, na.a, 0),
                            Slt => return self.mk(Sle, 1, na.b, na.a, 0),
                            Sle => return self.mk(Slt, 1, na.b, na.a, 0),
                            _ => {}
                        }
                    }
                    if na.op == Ite { if let (Some(x), Some(y)) = (self.as_const(na.b), self.as_const(na.c)) { let x = self.konst(w, x ^ k); let y = self.konst(w, y ^ k); return self.ite(na.a, x, y); } }
                }
            }
            Eq => return self.mk_eq(a, b),
            Ult => {
                if a == b { return Self::FALSE; }
                let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
                if ra.1 < rb.0 { return Self::TRUE; }
                if ra.0 >= rb.1 { return Self::FALSE; }
                if kb == Some(1) { let z = self.konst(w, 0); return self.bin(Eq, a, z); }
                if ka == Some(m - 1) { let z = self.konst(w, m); return self.bin(Eq, b, z); }
                if ka == Some(0) { let z = self.konst(w, 0); let e = self.bin(Eq, b, z); return self.not(e); }
                if let Some(r) = self.cmp_narrow(Ult, a, b) { return r; }
            }
            Ule => {
                if a == b { return Self::TRUE; }
                let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
                if ra.1 <= rb.0 { return Self::TRUE; }
                if ra.0 > rb.1 { return Self::FALSE; }
                if kb == Some(0) { return self.bin(Eq, a, b); }
                if let Some(k) = kb { let k1 = self.konst(w, k + 1); return self.bin(Ult, a, k1); }
                if let Some(k) = ka { let k1 = self.konst(w, k - 1); return self.bin(Ult, k1, b); }
                if let Some(r) = self.cmp_narrow(Ule, a, b) { return r; }
            }
            Slt | Sle => {
                if a == b { return if op == Sle { Self::TRUE } else { Self::FALSE }; }
                let sm = m >> 1;
                let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
                // both non-negative: unsigned compare
                if ra.1 <= sm && rb.1 <= sm { return self.bin(if op == Slt { Ult } else { Ule }, a, b); }
                // sign test
                if op == Slt && kb == Some(0) { return self.extract(a, w - 1, w - 1); }
                if op == Slt && ka == Some(m) { let s = self.extract(b, w - 1, w - 1); return self.not(s); }
                // ranges in different sign halves
                if ra.0 > sm && rb.1 <= sm { return Self::TRUE; }
                if ra.1 <= sm && rb.0 > sm { return Self::FALSE; }
            }
            _ => {}
        }
        // distribute over ite with constant branches
        let rw = if matches!(op, Eq | Ult | Ule | Slt | Sle) { 1 } else { w };
        if kb.is_some() && na.op == Ite && (self.as_const(na.b).is_some() && self.as_const(na.c).is_some()) {
            let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b);
            return self.ite(na.a, x, y);
        }
        let nb = self.n[b as usize];
        if ka.is_some() && nb.op == Ite && (self.as_const(nb.b).is_some() && self.as_const(nb.c).is_some()) {
            let x = self.bin(op, a, nb.b); let y = self.bin(op, a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.mk(op, rw, a, b, 0)
    }
    fn not_if_known(&self, a: E) -> Option<E> {
        let n = self.n[a as usize];
        if n.w == 1 && n.op == Xor && self.as_const(n.b) == Some(1) { Some(n.a) } else {
            let t = match n.op { Ult => Ule, Ule => Ult, Slt => Sle, Sle => Slt, _ => return None };
            self.map.get(&Node { op: t, w: 1, a: n.b, b: n.a, c: 0, d: 0 }).copied()
        }
    }
    fn and_contra(&mut self, a: E, b: E) -> Option<E> {
        if self.not_if_known(a) == Some(b) || self.not_if_known(b) == Some(a) { return Some(Self::FALSE); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        // Eq(x,k1) & Eq(x,k2)
        if na.op == Eq && nb.op == Eq && na.a == nb.a {
            if let (Some(x), Some(y)) = (self.as_const(na.b), self.as_const(nb.b)) { if x != y { return Some(Self::FALSE); } }
        }
        None
    }
    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        // one is zext(x) with x of width k; the other has low k bits zero
        for (p, q) in [(a, b), (b, a)] {
            let np = self.n[p as usize];
            let w = np.w;
            let k = if np.op == ZExt { self.w(np.a) } else if let Some(v) = self.as_const(p) { 128 - v.leading_zeros() as u16 } else { continue };
            if k == 0 || k >= w { continue; }
            if self.low_zero(q) >= k {
                let lo = self.extract(p, k - 1, 0);
                let hi = self.extract(q, w - 1, k);
                return Some(self.concat(hi, lo));
            }
        }
        None
    }
    fn low_zero(&self, e: E) -> u16 {
        let n = self.n[e as usize];
        match n.op {
            Const => { let v = self.as_const(e).unwrap(); if v == 0 { n.w } else { v.trailing_zeros() as u16 } }
            Concat => { let l = self.low_zero(n.b); if l == self.w(n.b) { l + self.low_zero(n.a) } else { l } }
            ZExt => { let l = self.low_zero(n.a); if l == self.w(n.a) { n.w } else { l } }
            _ => 0,
        }
    }
    fn cmp_narrow(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == ZExt && nb.op == ZExt {
            let wa = self.w(na.a); let wb = self.w(nb.a); let w = wa.max(wb);
            let x = self.zext(na.a, w); let y = self.zext(nb.a, w);
            if w < na.w { return Some(self.bin(op, x, y)); }
        }
        if na.op == ZExt { if let Some(k) = self.as_const(b) { let wa = self.w(na.a); if k <= mask(wa) { let kk = self.konst(wa, k); return Some(self.bin(op, na.a, kk)); } } }
        if nb.op == ZExt { if let Some(k) = self.as_const(a) { let wb = self.w(nb.a); if k <= mask(wb) { let kk = self.konst(wb, k); return Some(self.bin(op, kk, nb.a)); } } }
        None
    }
    fn mk_eq(&mut self, a: E, b: E) -> E {
        if a == b { return Self::TRUE; }
        let w = self.w(a);
        let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
        if ra.1 < rb.0 || rb.1 < ra.0 { return Self::FALSE; }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if w == 1 {
            if let Some(k) = self.as_const(b) { return if k == 1 { a } else { self.not(a) }; }
        }
        if let Some(k) = self.as_const(b) {
            match na.op {
                ZExt => { let wa = self.w(na.a); if k > mask(wa) { return Self::FALSE; } let kk = self.konst(wa, k); return self.bin(Eq, na.a, kk); }
                SExt => { let wa = self.w(na.a); if (sext128(k & mask(wa), wa) as u128) & mask(w) != k { return Self::FALSE; } let kk = self.konst(wa, k); return self.bin(Eq, na.a, kk); }
                Concat => {
                    let wb = self.w(na.b);
                    let kh = self.konst(w - wb, k >> wb); let kl = self.konst(wb, k);
                    let x = self.bin(Eq, na.a, kh); if x == Self::FALSE { return x; }
                    let y = self.bin(Eq, na.b, kl);
                    return self.and1(x, y);
                }
                Add => if let Some(k2) = self.as_const(na.b) { let kk = self.konst(w, k.wrapping_sub(k2)); return self.bin(Eq, na.a, kk); },
                Xor => if let Some(k2) = self.as_const(na.b) { let kk = self.konst(w, k ^ k2); return self.bin(Eq, na.a, kk); },
                Sub => if k == 0 { return self.bin(Eq, na.a, na.b); },
                Ite => {
                    let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                    if x.is_some() || y.is_some() {
                        let p = self.bin(Eq, na.b, b); let q = self.bin(Eq, na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                Or => if k == 0 {
                    let z = b; let x = self.bin(Eq, na.a, z); let y = self.bin(Eq, na.b, z); return self.and1(x, y);
                },
                _ => {}
            }
        } else {
            if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Eq, na.a, nb.a); }
            if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.bin(Eq, na.a, nb.a); if x == Self::FALSE { return x; }
                let y = self.bin(Eq, na.b, nb.b);
                return self.and1(x, y);
            }
            if na.op == Add && na.a == b { let z = self.konst(w, 0); return self.bin(Eq, na.b, z); }
            if nb.op == Add && nb.a == a { let z = self.konst(w, 0); return self.bin(Eq, nb.b, z); }
        }
        self.mk(Eq, 1, a, b, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Eq, a, b) }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        debug_assert!(wa < w);
        if self.is_taint(a) { return self.taint(w); }
        if let Some(k) = self.as_const(a) { return self.konst(w, k); }
        let n = self.n[a as usize];
        if n.op == ZExt { return self.zext(n.a, w); }
        if n.op == Ite && (self.as_const(n.b).is_some() && self.as_const(n.c).is_some()) {
            let x = self.zext(n.b, w); let y = self.zext(n.c, w); return self.ite(n.a, x, y);
        }
        self.mk(ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        if self.is_taint(a) { return self.taint(w); }
        if let Some(k) = self.as_const(a) { return self.konst(w, sext128(k, wa) as u128); }
        if self.rng[a as usize].1 <= mask(wa) >> 1 { return self.zext(a, w); }
        let n = self.n[a as usize];
        if n.op == SExt { return self.sext(n.a, w); }
        if n.op == Ite && (self.as_const(n.b).is_some() && self.as_const(n.c).is_some()) {
            let x = self.sext(n.b, w); let y = self.sext(n.c, w); return self.ite(n.a, x, y);
        }
        self.mk(SExt, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, hi: u16, lo: u16) -> E {
        let wa = self.w(a);
        let w = hi - lo + 1;
        if w == wa { return a; }
        debug_assert!(hi < wa);
        if self.is_taint(a) { let t = self.taint(w); return self.mat(t); }
        if let Some(k) = self.as_const(a) { return self.konst(w, k >> lo); }
        let n = self.n[a as usize];
        if matches!(n.op, And | Or | Xor | Add | Sub | Mul | Ite) {
            if let Some(&e) = self.exc.get(&(a, hi, lo)) { return e; }
            let e = self.extract1(a, hi, lo, n, w);
            self.exc.insert((a, hi, lo), e);
            return e;
        }
        self.extract1(a, hi, lo, n, w)
    }
    fn extract1(&mut self, a: E, hi: u16, lo: u16, n: Node, w: u16) -> E {
        match n.op {
            Extract => return self.extract(n.a, hi + n.c as u16, lo + n.c as u16),
            Concat => {
                let wb = self.w(n.b);
                if lo >= wb { return self.extract(n.a, hi - wb, lo - wb); }
                if hi < wb { return self.extract(n.b, hi, lo); }
                let x = self.extract(n.a, hi - wb, 0);
                let y = self.extract(n.b, wb - 1, lo);
                return self.concat(x, y);
            }
            ZExt => {
                let wi = self.w(n.a);
                if lo >= wi { return self.konst(w, 0); }
                if hi < wi { return self.extract(n.a, hi, lo); }
                let x = self.extract(n.a, wi - 1, lo);
                return self.zext(x, w);
            }
            SExt => {
                let wi = self.w(n.a);
                if hi < wi { return self.extract(n.a, hi, lo); }
                if lo == 0 { return self.sext(n.a, w); }
                if lo < wi { let x = self.extract(n.a, wi - 1, lo); return self.sext(x, w); }
                let s = self.extract(n.a, wi - 1, wi - 1); return self.sext(s, w);
            }
            And | Or | Xor => {
                let x = self.extract(n.a, hi, lo); let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Add | Sub | Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0); let y = self.extract(n.b, hi, 0);
                return self.bin(n.op, x, y);
            }
            Ite => {
                let simple = |s: &Self, e: E| s.as_const(e).is_some() || matches!(s.n[e as usize].op, Concat | ZExt | Extract | Ite | Var);
                if simple(self, n.b) && simple(self, n.c) {
                    let x = self.extract(n.b, hi, lo); let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        // high bits known zero
        let r = self.rng[a as usize];
        if lo < 128 && (r.1 >> lo) == 0 { return self.konst(w, 0); }
        self.mk(Extract, w, a, hi as u32, lo as u32)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        assert!(w <= 128, "concat wider than 128");
        if wa == 0 { return b; }
        if wb == 0 { return a; }
        if self.is_taint(a) || self.is_taint(b) { return self.taint(w); }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.konst(w, x << wb | y); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Extract && nb.op == Extract && na.a == nb.a && na.c == nb.b + 1 { return self.extract(na.a, na.b as u16, nb.c as u16); }
        if na.op == Extract && na.a == b && na.c as u16 == wb { return self.extract(b, na.b as u16, 0); }
        if self.as_const(a) == Some(0) { return self.zext(b, w); }
        // right-assoc merging: (x . e1) . e2 where e1,e2 adjacent
        if na.op == Concat {
            let nab = self.n[na.b as usize];
            if nab.op == Extract && nb.op == Extract && nab.a == nb.a && nab.c == nb.b + 1 {
                let y = self.extract(nab.a, nab.b as u16, nb.c as u16); return self.concat(na.a, y);
            }
            if let (Some(_), Some(_)) = (self.as_const(na.b), self.as_const(b)) { let y = self.concat(na.b, b); return self.concat(na.a, y); }
        }
        if na.op == ZExt { // zext(x) . b = zext(x . b)
            let y = self.concat(na.a, b); return self.zext(y, w);
        }
        if na.op == Ite && nb.op == Ite && na.a == nb.a {
            let x = self.concat(na.b, nb.b); let y = self.concat(na.c, nb.c); return self.ite(na.a, x, y);
        }
        self.mk(Concat, w, a, b, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        let c = self.mat(c);
        if c == Self::TRUE { return a; }
        if c == Self::FALSE { return b; }
        if a == b { return a; }
        let a = self.mat(a); let b = self.mat(b);
        if a == b { return a; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.n[c as usize];
        // normalise negated condition
        if nc.op == Xor && self.as_const(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and1(n, b); }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or1(n, a); }
                _ => {}
            }
        }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if na.op == Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if nb.op == Ite && nb.b == a { let cc = self.or1(c, nb.a); return self.ite(cc, a, nb.c); }
        if na.op == Ite && na.c == b { let cc = self.and1(c, na.a); return self.ite(cc, na.b, b); }
        if na.op == Ite && na.b == b { let n = self.not(na.a); let cc = self.and1(c, n); return self.ite(cc, na.c, b); }
        if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { let x = self.ite(c, na.a, nb.a); return self.zext(x, w); }
        self.mk(Ite, w, c, a, b)
    }
    pub fn trunc(&mut self, a: E, w: u16) -> E { self.extract(a, w - 1, 0) }

    pub fn size(&self, e: E, cap: usize) -> usize {
        let mut seen = rustc_hash::FxHashSet::default();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            if seen.len() >= cap { return cap; }
            let (k, n) = self.kids(x);
            st.extend_from_slice(&k[..n]);
        }
        seen.len()
    }
    pub fn kids(&self, e: E) -> ([E; 3], usize) {
        let n = &self.n[e as usize];
        match n.op {
            Const | Var | Taint => ([0; 3], 0),
            ZExt | SExt | Extract => ([n.a, 0, 0], 1),
            Ite => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        let n = &self.n[e as usize];
        if let Some(k) = self.as_const(e) { return format!("{:#x}:{}", k, n.w); }
        if n.op == Var { return self.vars[n.a as usize].0.clone(); }
        if depth == 0 { return "..".into(); }
        let (k, c) = self.kids(e);
        let mut s = format!("({:?}", n.op);
        if n.op == Extract { s += &format!("[{}:{}]", n.b, n.c); }
        for x in &k[..c] { s += " "; s += &self.show(*x, depth - 1); }
        s + ")"
    }
}

/// An assignment of the symbolic variables (unset = 0) with a memo table for evaluation.
pub struct Model { pub vals: Vec<u128>, memo: std::cell::RefCell<FxHashMap<E, u128>> }
impl Model {
    pub fn new(vals: Vec<u128>) -> Self { Model { vals, memo: Default::default() } }
    pub fn eval(&self, ar: &Arena, e: E) -> u128 {
        let n0 = &ar.n[e as usize];
        if n0.op == Const { return ar.as_const(e).unwrap(); }
        let mut memo = self.memo.borrow_mut();
        if let Some(&v) = memo.get(&e) { return v; }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) { st.pop(); continue; }
            let n = ar.n[x as usize];
            let v = match n.op {
                Const => ar.as_const(x).unwrap(),
                Var => self.vals.get(n.a as usize).copied().unwrap_or(0) & mask(n.w),
                Taint => 0,
                _ => {
                    let (k, c) = ar.kids(x);
                    let mut ok = true;
                    for y in &k[..c] { if !memo.contains_key(y) { st.push(*y); ok = false; } }
                    if !ok { continue; }
                    let g = |y: E| memo[&y];
                    match n.op {
                        ZExt => g(n.a),
                        SExt => (sext128(g(n.a), ar.w(n.a)) as u128) & mask(n.w),
                        Extract => (g(n.a) >> n.c) & mask(n.w),
                        Concat => g(n.a) << ar.w(n.b) | g(n.b),
                        Ite => if g(n.a) != 0 { g(n.b) } else { g(n.c) },
                        op => eval_bin(op, ar.w(n.a), g(n.a), g(n.b)),
                    }
                }
            };
            memo.insert(x, v);
            st.pop();
        }
        memo[&e]
    }
}
