//! The symbolic executor: explores every feasible path of the loaded code within the harness's
//! bounds, forking at branches the solver says can go both ways and re-merging at post-dominators.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use rustc_hash::{FxHashMap, FxHashSet};
use std::rc::Rc;
use std::time::Instant;

pub struct Call<'a> { pub args: Vec<Val>, pub aty: &'a [RTy], pub ret: &'a Ty, pub f: u32 }
pub type Icpt = fn(&mut Ex, &mut State, &Call) -> Result<Val, Ctl>;

#[derive(Debug, Clone)]
pub enum End { Return, Assume, Panic(String), MemErr(String), Unsupported(String), Known }
pub enum Ctl { Fork(E), Branch(Vec<(E, u32)>), Done(End), Stop, Real }

#[derive(Clone)]
pub struct Frame { pub func: Rc<Func>, pub blk: u32, pub ip: u32, pub regs: Vec<Val>, pub allocas: Vec<u32>, pub dst: u32, pub next: Option<u32> }
#[derive(Clone)]
pub struct Uf { pub name: String, pub inp: Vec<E>, pub out: Vec<E> }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub inputs: Rc<Vec<(String, Vec<E>)>>,
    pub known: Rc<FxHashMap<E, u64>>,
    pub ufs: Rc<Vec<Uf>>,
    pub flags: Rc<FxHashMap<String, u64>>,
}
#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub stack: Vec<String>, pub inputs: Vec<(String, Vec<u8>)> }
#[derive(Default)]
pub struct Stats { pub instrs: u64, pub paths: u64, pub forks: u64, pub merges: u64, pub merge_fail: u64, pub assumes: u64, pub returns: u64, pub panics: u64, pub asserts: u64, pub assert_queries: u64, pub max_depth: usize, pub conc: u64 }

#[derive(Clone, Copy, PartialEq)]
pub struct Stop { depth: usize, blk: Option<u32> }

pub struct Ex {
    pub p: Prog,
    pub sol: Solver,
    pub st: Stats,
    pub violations: Vec<Violation>,
    pub covers: FxHashMap<String, u64>,
    pub known_hit: FxHashMap<String, u64>,
    pub incomplete: Vec<String>,
    pub deadline: Instant,
    pub stops: Vec<Stop>,
    pub merge: bool,
    pub merge64: bool,
    pub trace: bool,
    pub max_viol: usize,
    pub aborting: bool,
    pub branch_sites: FxHashMap<(u32, u32), u64>,
    pub notes: FxHashSet<String>,
    pub samples: Vec<Vec<(String, Vec<u8>)>>,
    pub dfas: FxHashMap<String, Rc<regex_automata::dfa::dense::DFA<Vec<u32>>>>,
    pub known_inputs: FxHashMap<String, Vec<(String, Vec<u8>)>>,
    varmap: FxHashMap<String, E>,
}

pub enum Place { Conc { id: u32, off: usize }, Sym { id: u32, off: E, lo: usize, hi: usize } }

pub const MAX_ALLOC: u64 = 1 << 28;

impl Ex {
    pub fn new(p: Prog, deadline: Instant) -> Self {
        Ex { p, sol: Solver::new(), st: Default::default(), violations: vec![], covers: Default::default(), known_hit: Default::default(), incomplete: vec![], deadline, stops: vec![], merge: true, merge64: false, trace: false, max_viol: 1, aborting: false, branch_sites: Default::default(), notes: Default::default(), samples: vec![], dfas: Default::default(), known_inputs: Default::default(), varmap: Default::default() }
    }
    // ---------- values
    #[inline] pub fn ex(&mut self, v: &Val, w: u16) -> E {
        match v { Val::C(c) => self.p.ar.konst(w, *c as u128), Val::S(e) => { debug_assert_eq!(self.p.ar.w(*e), w); *e } Val::A(_) => panic!("aggregate as scalar") }
    }
    #[inline] pub fn norm(&self, e: E) -> Val {
        let n = &self.p.ar.n[e as usize];
        if n.op == Op::Const && n.w <= 64 { Val::C(n.a as u64 | (n.b as u64) << 32) } else { Val::S(e) }
    }
    pub fn boolv(&self, e: E) -> Val { self.norm(e) }
    #[inline] pub fn bin(&mut self, op: Op, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
                let r = match op {
                    Op::Add => x.wrapping_add(*y) & m,
                    Op::Sub => x.wrapping_sub(*y) & m,
                    Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                    Op::Mul => x.wrapping_mul(*y) & m,
                    Op::Shl => if *y >= w as u64 { 0 } else { (x << y) & m },
                    Op::LShr => if *y >= w as u64 { 0 } else { x >> y },
                    _ => eval_bin(op, w, *x as u128, *y as u128) as u64,
                };
                return Val::C(r);
            }
        }
        let x = self.ex(a, w); let y = self.ex(b, w);
        let e = self.p.ar.bin(op, x, y);
        self.norm(e)
    }
    fn icmp(&mut self, pred: u32, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (sx, sy) = (sext128(*x as u128, w), sext128(*y as u128, w));
            let r = match pred { 32 => x == y, 33 => x != y, 34 => x > y, 35 => x >= y, 36 => x < y, 37 => x <= y, 38 => sx > sy, 39 => sx >= sy, 40 => sx < sy, _ => sx <= sy };
            return Val::C(r as u64);
        }
        let x = self.ex(a, w); let y = self.ex(b, w);
        let ar = &mut self.p.ar;
        let e = match pred {
            32 => ar.bin(Op::Eq, x, y), 33 => { let e = ar.bin(Op::Eq, x, y); ar.not(e) }
            34 => ar.bin(Op::Ult, y, x), 35 => ar.bin(Op::Ule, y, x), 36 => ar.bin(Op::Ult, x, y), 37 => ar.bin(Op::Ule, x, y),
            38 => ar.bin(Op::Slt, y, x), 39 => ar.bin(Op::Sle, y, x), 40 => ar.bin(Op::Slt, x, y), _ => ar.bin(Op::Sle, x, y),
        };
        self.norm(e)
    }
    pub fn select(&mut self, ty: &Ty, c: &Val, a: &Val, b: &Val) -> Result<Val, Ctl> {
        match c {
            Val::C(k) => Ok(if *k & 1 != 0 { a.clone() } else { b.clone() }),
            Val::S(e) => {
                if self.p.ar.is_taint(*e) { return Ok(b.clone()); }
                if ty.is_scalar() {
                    if let (Val::C(x), Val::C(y)) = (a, b) { if x == y { return Ok(a.clone()); } }
                    let w = ty.w();
                    if ty.k == K::Ptr {
                        // never build an address that may lie in two different objects
                        if let (Val::C(x), Val::C(y)) = (a, b) { if x >> 32 != y >> 32 { return Err(Ctl::Fork(*e)); } }
                        else { return Err(Ctl::Fork(*e)); }
                    }
                    let x = self.ex(a, w); let y = self.ex(b, w);
                    let r = self.p.ar.ite(*e, x, y);
                    Ok(self.norm(r))
                } else if let (K::Vec(_, et), Val::A(x), Val::A(y)) = (&ty.k, a, b) {
                    let mut o = vec![];
                    for i in 0..x.len() { o.push(self.select(et, c, &x[i], &y[i])?); }
                    Ok(Val::A(Rc::new(o)))
                } else { Err(Ctl::Fork(*e)) }
            }
            _ => Err(unsup("select on aggregate")),
        }
    }
    // ---------- solver-facing
    /// feasibility of pc ∧ c and pc ∧ ¬c, with witnesses
    fn decide(&mut self, s: &State, c: E) -> Result<(Option<Rc<Model>>, Option<Rc<Model>>), Ctl> {
        if c == Arena::TRUE { return Ok((Some(s.model.clone()), None)); }
        if c == Arena::FALSE { return Ok((None, Some(s.model.clone()))); }
        let nc = self.p.ar.not(c);
        if s.pc.contains(&c) { return Ok((Some(s.model.clone()), None)); }
        if s.pc.contains(&nc) { return Ok((None, Some(s.model.clone()))); }
        let here = s.model.eval(&self.p.ar, c) != 0;
        let other = if here { nc } else { c };
        let (r, m) = self.sol.check(&self.p.ar, &s.pc, other, Some(&s.model));
        let o = match r { Res::Sat => Some(Rc::new(m.unwrap())), Res::Unsat => None, Res::Unknown => return Err(unsup("solver gave no answer")) };
        Ok(if here { (Some(s.model.clone()), o) } else { (o, Some(s.model.clone())) })
    }
    fn learn(&mut self, s: &mut State, c: E) {
        // remember x == const facts for concretisation
        let n = self.p.ar.n[c as usize];
        if n.op == Op::Eq { if let Some(k) = self.p.ar.as_const(n.b) { Rc::make_mut(&mut s.known).insert(n.a, k as u64); } }
        if n.op == Op::And && n.w == 1 { self.learn(s, n.a); self.learn(s, n.b); }
    }
    fn assume_raw(&mut self, s: &mut State, c: E, m: Rc<Model>, implied: bool) {
        self.learn(s, c);
        if !implied { s.pc.push(c); s.model = m; }
    }
    /// a condition this path has already decided
    fn settled(&mut self, s: &State, e: E) -> Val {
        if let Some(k) = s.known.get(&e) { return Val::C(*k); }
        if s.pc.contains(&e) { return Val::C(1); }
        Val::S(e)
    }
    pub fn assume(&mut self, s: &mut State, c: E) -> Result<(), Ctl> {
        if c == Arena::TRUE { return Ok(()); }
        if c == Arena::FALSE { return Err(Ctl::Done(End::Assume)); }
        if s.pc.contains(&c) { return Ok(()); }
        if s.model.eval(&self.p.ar, c) != 0 { self.learn(s, c); s.pc.push(c); return Ok(()); }
        let (r, m) = self.sol.check(&self.p.ar, &s.pc, c, Some(&s.model));
        match r {
            Res::Sat => { self.learn(s, c); s.pc.push(c); s.model = Rc::new(m.unwrap()); Ok(()) }
            Res::Unsat => Err(Ctl::Done(End::Assume)),
            Res::Unknown => Err(unsup("solver gave no answer (assume)")),
        }
    }
    pub fn assert(&mut self, s: &mut State, c: E, msg: &str) -> Result<(), Ctl> {
        self.st.asserts += 1;
        if c == Arena::TRUE { return Ok(()); }
        let nc = self.p.ar.not(c);
        self.st.assert_queries += 1;
        let bad = if s.model.eval(&self.p.ar, c) == 0 { Some(s.model.clone()) } else {
            let (r, m) = self.sol.check(&self.p.ar, &s.pc, nc, Some(&s.model));
            match r { Res::Sat => Some(Rc::new(m.unwrap())), Res::Unsat => None, Res::Unknown => return Err(unsup("solver gave no answer (assert)")) }
        };
        if let Some(m) = bad {
            let mut t = s.clone(); t.model = m;
            self.report(&t, "assert", msg.to_string());
            return self.assume(s, c);
        }
        // implied by the path condition: keep as a fact
        Ok(())
    }
    pub fn concretize_inputs(&self, s: &State) -> Vec<(String, Vec<u8>)> {
        s.inputs.iter().map(|(n, es)| (n.clone(), es.iter().map(|e| s.model.eval(&self.p.ar, *e) as u8).collect())).collect()
    }
    pub fn stack(&self, s: &State) -> Vec<String> { s.frames.iter().rev().map(|f| self.p.funcs[f.func.id as usize].dem.clone()).collect() }
    pub fn report(&mut self, s: &State, kind: &str, msg: String) {
        let v = Violation { kind: kind.into(), msg, stack: self.stack(s), inputs: self.concretize_inputs(s) };
        self.violations.push(v);
        if self.violations.len() >= self.max_viol { self.aborting = true; }
    }
    pub fn conc(&mut self, s: &State, v: &Val) -> Result<u64, Ctl> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                if self.p.ar.is_taint(*e) { let w = self.p.ar.w(*e).min(64); return Ok(if w < 8 { 0 } else { self.p.ar.hashed as u64 & (!0 >> (64 - w)) }); }
                if let Some(k) = s.known.get(e) { return Ok(*k); }
                if let Some(k) = self.p.ar.as_const(*e) { return Ok(k as u64); }
                let k = s.model.eval(&self.p.ar, *e);
                let w = self.p.ar.w(*e);
                let kc = self.p.ar.konst(w, k);
                let c = self.p.ar.bin(Op::Eq, *e, kc);
                self.st.conc += 1;
                if c == Arena::TRUE { return Ok(k as u64); }
                // the equality may have been rewritten; make sure re-execution sees the value
                if s.pc.contains(&c) { return Ok(k as u64); }
                Err(Ctl::Fork(c))
            }
            _ => Err(unsup("aggregate concretised")),
        }
    }
    pub fn conc_ptr(&mut self, s: &State, v: &Val) -> Result<u64, Ctl> { self.conc(s, v) }
    /// a documented defect: record that it still happens, then carry on where it does not
    pub fn known(&mut self, s: &mut State, ok: E, id: &str) -> Result<(), Ctl> {
        if ok == Arena::TRUE { return Ok(()); }
        let bad = if s.model.eval(&self.p.ar, ok) == 0 { Some(s.model.clone()) } else {
            let no = self.p.ar.not(ok);
            let (r, m) = self.sol.check(&self.p.ar, &s.pc, no, Some(&s.model));
            match r { Res::Sat => Some(Rc::new(m.unwrap())), Res::Unsat => None, Res::Unknown => return Err(unsup("solver gave no answer (known)")) }
        };
        if let Some(m) = bad {
            let mut t = s.clone(); t.model = m;
            *self.known_hit.entry(id.to_string()).or_insert(0) += 1;
            if !self.known_inputs.contains_key(id) { let i = self.concretize_inputs(&t); self.known_inputs.insert(id.to_string(), i); }
            return self.assume(s, ok);
        }
        Ok(())
    }
    // ---------- memory
    pub fn obj(&mut self, s: &State, id: u32) -> Result<Rc<Obj>, Ctl> {
        let id64 = id as u64;
        if id64 >= HEAP_BASE { s.mem.get((id64 - HEAP_BASE) as u32).cloned().ok_or_else(|| memerr("access to freed or unknown object")) }
        else if id64 >= FN_BASE || id == 0 { Err(memerr("access through a null, dangling or function pointer")) }
        else if let Some(o) = s.mem.globs.get(&id) { Ok(o.clone()) }
        else { if id as usize >= self.p.globs.len() { return Err(memerr("wild pointer")); } self.p.glob_init(id).map_err(|e| unsup(&e)) }
    }
    fn obj_mut<'a>(&mut self, s: &'a mut State, id: u32) -> Result<&'a mut Obj, Ctl> {
        let id64 = id as u64;
        if id64 >= HEAP_BASE { s.mem.get_mut((id64 - HEAP_BASE) as u32).ok_or_else(|| memerr("write to freed or unknown object")) }
        else if id64 >= FN_BASE || id == 0 { Err(memerr("write through a null, dangling or function pointer")) }
        else {
            if !s.mem.globs.contains_key(&id) {
                if id as usize >= self.p.globs.len() { return Err(memerr("wild pointer")); }
                let o = self.p.glob_init(id).map_err(|e| unsup(&e))?;
                Rc::make_mut(&mut s.mem.globs).insert(id, o);
            }
            Ok(Rc::make_mut(Rc::make_mut(&mut s.mem.globs).get_mut(&id).unwrap()))
        }
    }
    pub fn place(&mut self, s: &State, p: &Val, n: usize) -> Result<Place, Ctl> {
        match p {
            Val::C(a) => {
                let (id, off) = ((a >> 32) as u32, (*a & 0xffff_ffff) as usize);
                Ok(Place::Conc { id, off })
            }
            Val::S(e) => {
                let e = *e;
                if self.p.ar.is_taint(e) { return Err(unsup("address from keyed hash")); }
                if let Some(k) = s.known.get(&e) { return Ok(Place::Conc { id: (k >> 32) as u32, off: (*k & 0xffff_ffff) as usize }); }
                let a0 = s.model.eval(&self.p.ar, e) as u64;
                let id = (a0 >> 32) as u32;
                let o = self.obj(s, id)?;
                let size = o.len();
                if n > size { return Err(memerr("symbolic access larger than the object")); }
                let base = (id as u64) << 32;
                let (lo, hi) = self.p.ar.range(e);
                let (mut l, mut h) = (0usize, size - n);
                if lo >= base as u128 && hi <= (base as u128) + (size - n) as u128 { l = (lo - base as u128) as usize; h = (hi - base as u128) as usize; }
                else {
                    let b = self.p.ar.konst(64, base as u128);
                    let off = self.p.ar.bin(Op::Sub, e, b);
                    let k = self.p.ar.konst(64, (size - n) as u128);
                    let c = self.p.ar.bin(Op::Ule, off, k);
                    if c != Arena::TRUE && !s.pc.contains(&c) { return Err(Ctl::Fork(c)); }
                }
                if h - l > 4096 { let k = self.conc(s, p)?; return Ok(Place::Conc { id: (k >> 32) as u32, off: (k & 0xffff_ffff) as usize }); }
                let off = self.p.ar.extract(e, 31, 0);
                Ok(Place::Sym { id, off, lo: l, hi: h })
            }
            _ => Err(unsup("aggregate pointer")),
        }
    }
    fn bytes_val(&mut self, o: &Obj, off: usize, n: usize, w: u16) -> Val {
        if o.all_conc(off, n) {
            let mut x = 0u128;
            for i in (0..n).rev() { x = x << 8 | o.data[off + i] as u128; }
            x &= mask(w);
            if w <= 64 { return Val::C(x as u64); }
            return Val::S(self.p.ar.konst(w, x));
        }
        let mut e = o.byte(&mut self.p.ar, off + n - 1);
        for i in (0..n - 1).rev() { let b = o.byte(&mut self.p.ar, off + i); e = self.p.ar.concat(e, b); }
        if self.p.ar.w(e) != w { e = self.p.ar.trunc(e, w); }
        self.norm(e)
    }
    fn mux(&mut self, o: &Obj, off: E, lo: usize, hi: usize, n: usize, w: u16) -> E {
        // balanced selection over the bits of the offset
        let mut vals: FxHashMap<usize, E> = Default::default();
        let step = { let z = low_zeros(&self.p.ar, off); 1usize << z.min(12) };
        let start = (lo + step - 1) / step * step;
        let mut i = start;
        while i <= hi { let v = self.bytes_val(o, i, n, w); let e = self.ex(&v, w); vals.insert(i, e); i += step; }
        let top = usize::BITS - hi.leading_zeros();
        fn go(ar: &mut Arena, vals: &FxHashMap<usize, E>, off: E, pre: usize, bit: u32, lo: usize, hi: usize, step: usize) -> Option<E> {
            let span = 1usize << bit;
            if pre > hi || pre + span - 1 < lo { return None; }
            if span <= step || bit == 0 { return vals.get(&pre).copied(); }
            let b = bit - 1;
            let z = go(ar, vals, off, pre, b, lo, hi, step);
            let o = go(ar, vals, off, pre + (1 << b), b, lo, hi, step);
            match (z, o) {
                (Some(z), Some(o)) => { if z == o { return Some(z); } let c = ar.extract(off, b as u16, b as u16); Some(ar.ite(c, o, z)) }
                (a, b) => a.or(b),
            }
        }
        let r = go(&mut self.p.ar, &vals, off, 0, top, lo, hi, step);
        r.unwrap_or_else(|| self.p.ar.konst(w, 0))
    }
    pub fn load(&mut self, s: &State, ty: &Ty, p: &Val) -> Result<Val, Ctl> {
        match &ty.k {
            K::Int(_) | K::Ptr | K::F32 | K::F64 => {
                let n = ty.store as usize;
                match self.place(s, p, n)? {
                    Place::Conc { id, off } => {
                        // fast path
                        if (id as u64) >= HEAP_BASE {
                            if let Some(o) = s.mem.get((id as u64 - HEAP_BASE) as u32) {
                                if off + n > o.len() { return Err(memerr("out-of-bounds read")); }
                                if o.sym.is_empty() && n <= 8 {
                                    let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.data[off..off + n]);
                                    let w = ty.w(); let x = u64::from_le_bytes(b);
                                    return Ok(Val::C(if w < 64 { x & ((1 << w) - 1) } else { x }));
                                }
                            }
                        }
                        let o = self.obj(s, id)?;
                        if off + n > o.len() { return Err(memerr("out-of-bounds read")); }
                        Ok(self.bytes_val(&o, off, n, ty.w()))
                    }
                    Place::Sym { id, off, lo, hi } => { let o = self.obj(s, id)?; let e = self.mux(&o, off, lo, hi, n, ty.w()); Ok(self.norm(e)) }
                }
            }
            K::Struct(f) => { let mut v = vec![]; for (o, t) in f { let q = self.padd(p, *o); v.push(self.load(s, t, &q)?); } Ok(Val::A(Rc::new(v))) }
            K::Arr(n, t) | K::Arr(n, t) => { let mut v = vec![]; for i in 0..*n { let q = self.padd(p, i * t.size); v.push(self.load(s, t, &q)?); } Ok(Val::A(Rc::new(v))) }
            K::Vec(n, t) => {
                if t.w() % 8 != 0 {
                    if t.w() != 1 || n % 8 != 0 { return Err(unsup("load of bit vector")); }
                    let mut v = vec![];
                    for k in 0..(*n as u64 / 8) {
                        let q = self.padd(p, k);
                        let b = self.load(s, &Ty { k: K::Int(8), size: 1, store: 1, align: 1 }, &q)?;
                        let e = self.ex(&b, 8);
                        for i in 0..8 { let x = self.p.ar.extract(e, i, i); let x = self.norm(x); v.push(x); }
                    }
                    return Ok(Val::A(Rc::new(v)));
                }
                let mut v = vec![]; for i in 0..*n as u64 { let q = self.padd(p, i * t.size); v.push(self.load(s, t, &q)?); } Ok(Val::A(Rc::new(v)))
            }
            _ => Err(unsup("load type")),
        }
    }
    pub fn padd(&mut self, p: &Val, o: u64) -> Val { if o == 0 { return p.clone(); } self.bin(Op::Add, 64, p, &Val::C(o)) }
    pub fn store(&mut self, s: &mut State, ty: &Ty, p: &Val, v: &Val) -> Result<(), Ctl> {
        match (&ty.k, v) {
            (K::Int(_) | K::Ptr | K::F32 | K::F64, _) => {
                let n = ty.store as usize;
                match self.place(s, p, n)? {
                    Place::Conc { id, off } => {
                        let w8 = (n * 8) as u16;
                        let e = match v { Val::C(_) => 0, Val::S(e) => { let mut e = *e; if self.p.ar.w(e) < w8 { e = self.p.ar.zext(e, w8); } e } _ => unreachable!() };
                        if let Val::C(c) = v {
                            let o = self.obj_mut(s, id)?;
                            if off + n > o.len() { return Err(memerr("out-of-bounds write")); }
                            o.clear_sym(off, n);
                            let b = c.to_le_bytes();
                            if n <= 8 { o.data[off..off + n].copy_from_slice(&b[..n]); } else { o.data[off..off + 8].copy_from_slice(&b); for x in &mut o.data[off + 8..off + n] { *x = 0; } }
                            o.mark(off, n);
                        } else {
                            let taint = self.p.ar.is_taint(e);
                            let mut bs = Vec::with_capacity(n);
                            for i in 0..n { bs.push(if taint { self.p.ar.taint(8) } else { self.p.ar.extract(e, (i * 8 + 7) as u16, (i * 8) as u16) }); }
                            let ex: *const Arena = &self.p.ar;
                            let o = self.obj_mut(s, id)?;
                            if off + n > o.len() { return Err(memerr("out-of-bounds write")); }
                            for (i, b) in bs.iter().enumerate() { o.put_byte(unsafe { &*ex }, off + i, *b); }
                            o.mark(off, n);
                        }
                        Ok(())
                    }
                    Place::Sym { id, off, lo, hi } => {
                        if hi - lo > 512 { let k = self.conc(s, p)?; return self.store(s, ty, &Val::C(k), v); }
                        let w8 = (n * 8) as u16;
                        let mut e = self.ex(v, ty.w()); if self.p.ar.w(e) < w8 { e = self.p.ar.zext(e, w8); }
                        let o = self.obj(s, id)?;
                        let mut ch: Vec<(usize, E)> = vec![];
                        for j in lo..hi + n {
                            let mut cur = o.byte(&mut self.p.ar, j);
                            for i in 0..n {
                                if j < i || j - i < lo || j - i > hi { continue; }
                                let k = self.p.ar.konst(32, (j - i) as u128);
                                let c = self.p.ar.bin(Op::Eq, off, k);
                                let b = self.p.ar.extract(e, (i * 8 + 7) as u16, (i * 8) as u16);
                                cur = self.p.ar.ite(c, b, cur);
                            }
                            ch.push((j, cur));
                        }
                        let ar: *const Arena = &self.p.ar;
                        let o = self.obj_mut(s, id)?;
                        for (j, e) in ch { o.put_byte(unsafe { &*ar }, j, e); }
                        Ok(())
                    }
                }
            }
            (K::Struct(f), Val::A(x)) => { for (i, (o, t)) in f.iter().enumerate() { let q = self.padd(p, *o); self.store(s, t, &q, &x[i])?; } Ok(()) }
            (K::Arr(_, t), Val::A(x)) => { for (i, y) in x.iter().enumerate() { let q = self.padd(p, i as u64 * t.size); self.store(s, t, &q, y)?; } Ok(()) }
            (K::Vec(n, t), Val::A(x)) => {
                if t.w() % 8 != 0 {
                    // bits are packed, element 0 lowest
                    if t.w() != 1 || n % 8 != 0 { return Err(unsup("store of bit vector")); }
                    for k in 0..(*n as usize / 8) {
                        let mut e = self.ex(&x[8 * k], 1);
                        for i in 1..8 { let b = self.ex(&x[8 * k + i], 1); e = self.p.ar.concat(b, e); }
                        let e = self.norm(e);
                        let q = self.padd(p, k as u64);
                        self.store(s, &Ty { k: K::Int(8), size: 1, store: 1, align: 1 }, &q, &e)?;
                    }
                    return Ok(());
                }
                for (i, y) in x.iter().enumerate() { let q = self.padd(p, i as u64 * t.size); self.store(s, t, &q, y)?; } Ok(())
            }
            _ => Err(unsup("store type")),
        }
    }
    pub fn read_bytes(&mut self, s: &State, p: u64, n: usize) -> Result<Vec<E>, Ctl> {
        if n == 0 { return Ok(vec![]); }
        let (id, off) = ((p >> 32) as u32, (p & 0xffff_ffff) as usize);
        let o = self.obj(s, id)?;
        if off + n > o.len() { return Err(memerr("out-of-bounds read")); }
        Ok((0..n).map(|i| o.byte(&mut self.p.ar, off + i)).collect())
    }
    pub fn read_conc(&mut self, s: &State, p: u64, n: usize) -> Result<Option<Vec<u8>>, Ctl> {
        if n == 0 { return Ok(Some(vec![])); }
        let (id, off) = ((p >> 32) as u32, (p & 0xffff_ffff) as usize);
        let o = self.obj(s, id)?;
        if off + n > o.len() { return Err(memerr("out-of-bounds read")); }
        Ok(if o.all_conc(off, n) { Some(o.data[off..off + n].to_vec()) } else { None })
    }
    pub fn write_bytes(&mut self, s: &mut State, p: u64, es: &[E]) -> Result<(), Ctl> {
        if es.is_empty() { return Ok(()); }
        let (id, off) = ((p >> 32) as u32, (p & 0xffff_ffff) as usize);
        let ar: *const Arena = &self.p.ar;
        let o = self.obj_mut(s, id)?;
        if off + es.len() > o.len() { return Err(memerr("out-of-bounds write")); }
        for (i, e) in es.iter().enumerate() { o.put_byte(unsafe { &*ar }, off + i, *e); }
        o.mark(off, es.len().min(1)); // byte-wise data
        if !o.wd.is_empty() { for x in &mut o.wd[off..off + es.len()] { *x = 1; } }
        Ok(())
    }
    pub fn copy(&mut self, s: &mut State, d: u64, src: u64, n: usize) -> Result<(), Ctl> {
        if n == 0 { return Ok(()); }
        let (sid, so) = ((src >> 32) as u32, (src & 0xffff_ffff) as usize);
        let (did, dof) = ((d >> 32) as u32, (d & 0xffff_ffff) as usize);
        let o = self.obj(s, sid)?;
        if so + n > o.len() { return Err(memerr("out-of-bounds copy source")); }
        let t = self.obj_mut(s, did)?;
        if dof + n > t.len() { return Err(memerr("out-of-bounds copy destination")); }
        t.data[dof..dof + n].copy_from_slice(&o.data[so..so + n]);
        if !o.sym.is_empty() && !o.all_conc(so, n) {
            if t.sym.is_empty() { t.sym = vec![0; t.data.len()]; }
            t.sym[dof..dof + n].copy_from_slice(&o.sym[so..so + n]);
        } else { t.clear_sym(dof, n); }
        if !o.wd.is_empty() {
            if t.wd.is_empty() { t.wd = vec![0; t.data.len()]; }
            t.wd[dof..dof + n].copy_from_slice(&o.wd[so..so + n]);
        } else if !t.wd.is_empty() { for x in &mut t.wd[dof..dof + n] { *x = 0; } }
        Ok(())
    }
    pub fn alloc(&mut self, s: &mut State, n: u64, kind: Kind) -> Result<u64, Ctl> {
        if n > MAX_ALLOC { return Err(Ctl::Done(End::Panic(format!("allocation of {n} bytes (limit {MAX_ALLOC})")))); }
        Ok(s.mem.alloc(Obj::new(n as usize, kind)))
    }
    pub fn free(&mut self, s: &mut State, p: u64) -> Result<(), Ctl> {
        let id = p >> 32;
        if id < HEAP_BASE || (p & 0xffff_ffff) != 0 || !s.mem.free((id - HEAP_BASE) as u32) { return Err(memerr("invalid free")); }
        Ok(())
    }
    pub fn new_input(&mut self, s: &mut State, name: &str, n: usize) -> Vec<E> {
        let k = s.inputs.len();
        // one variable per byte, shared across paths by position+name so that merged states agree
        let mut es = vec![];
        for i in 0..n {
            let nm = format!("{name}#{k}[{i}]");
            es.push(self.named_var(&nm, 8));
        }
        Rc::make_mut(&mut s.inputs).push((name.to_string(), es.clone()));
        es
    }
    pub fn named_var(&mut self, nm: &str, w: u16) -> E {
        if let Some(e) = self.varmap.get(nm) { return *e; }
        let e = self.p.ar.var(nm, w);
        self.varmap.insert(nm.to_string(), e);
        e
    }
    // ---------- exploration
    pub fn start(&mut self, f: u32, args: Vec<Val>) -> Result<State, String> {
        let func = self.p.body(f)?;
        let mut regs = vec![Val::C(0); func.nregs as usize];
        for (i, a) in args.into_iter().enumerate() { regs[i] = a; }
        self.p.funcs[f as usize].execs += 1;
        let fr = Frame { func, blk: 0, ip: 0, regs, allocas: vec![], dst: NODST, next: None };
        Ok(State { frames: vec![Rc::new(fr)], mem: Mem::new(), pc: vec![], model: Rc::new(Model::new(vec![])), inputs: Default::default(), known: Default::default(), ufs: Default::default(), flags: Default::default() })
    }
    fn at_stop(&self, s: &State) -> bool {
        let d = s.frames.len();
        let top = match s.frames.last() { Some(f) => f, None => return true };
        for st in self.stops.iter().rev() {
            if d < st.depth { return true; }
            if d == st.depth { if let Some(b) = st.blk { if top.ip == 0 && top.blk == b { return true; } } }
            if d > st.depth { break; }
        }
        false
    }
    /// explore `init` until each path ends or reaches the innermost stop point
    pub fn explore(&mut self, init: Vec<State>) -> Vec<State> {
        let mut work = init;
        let mut out = vec![];
        while let Some(mut s) = work.pop() {
            if self.aborting { return out; }
            if Instant::now() > self.deadline { self.incomplete.push("time budget exhausted".into()); self.aborting = true; return out; }
            if self.at_stop(&s) { out.push(s); continue; }
            match self.run(&mut s) {
                Ctl::Stop => out.push(s),
                Ctl::Real => unreachable!(),
                Ctl::Done(e) => self.finish(s, e),
                Ctl::Fork(c) => {
                    let blk_stop = self.stop_for(&s);
                    match self.split(s, c) {
                        Err((s, e)) => self.finish(s, e),
                        Ok(v) => { let mut v = v; if v.len() > 1 { self.fork_merge(v, blk_stop, &mut work); } else { work.append(&mut v); } }
                    }
                }
                Ctl::Branch(alts) => {
                    let blk_stop = self.stop_for(&s);
                    let mut v = vec![];
                    let mut cur = Some(s);
                    // alternatives are mutually exclusive and cover everything (last one is the rest)
                    let n = alts.len();
                    for (i, (c, b)) in alts.into_iter().enumerate() {
                        let Some(mut s0) = cur.take() else { break };
                        if i + 1 == n { let r = self.jump(&mut s0, b); match r { Ok(()) => v.push(s0), Err(Ctl::Done(e)) => self.finish(s0, e), Err(_) => {} } break; }
                        match self.decide(&s0, c) {
                            Err(Ctl::Done(e)) => { self.finish(s0, e); break; }
                            Err(_) => unreachable!(),
                            Ok((t, f)) => {
                                let implied_t = f.is_none();
                                let implied_f = t.is_none();
                                if let Some(m) = t {
                                    let mut st = if f.is_some() { s0.clone() } else { std::mem::replace(&mut s0, State { frames: vec![], ..s_dummy() }) };
                                    self.assume_raw(&mut st, c, m, implied_t);
                                    match self.jump(&mut st, b) { Ok(()) => v.push(st), Err(Ctl::Done(e)) => self.finish(st, e), Err(_) => {} }
                                }
                                if let Some(m) = f {
                                    let nc = self.p.ar.not(c);
                                    self.assume_raw(&mut s0, nc, m, implied_f);
                                    cur = Some(s0);
                                }
                            }
                        }
                    }
                    if v.len() > 1 { self.st.forks += 1; self.fork_merge(v, blk_stop, &mut work); } else { work.append(&mut v); }
                }
            }
        }
        out
    }
    fn stop_for(&mut self, s: &State) -> Stop {
        let fr = s.frames.last().unwrap();
        *self.branch_sites.entry((fr.func.id, fr.blk)).or_insert(0) += 1;
        Stop { depth: s.frames.len(), blk: fr.func.flow().ipdom[fr.blk as usize] }
    }
    fn fork_merge(&mut self, v: Vec<State>, stop: Stop, work: &mut Vec<State>) {
        if !self.merge || (stop.blk.is_none() && stop.depth <= 1) { work.extend(v); return; }
        self.stops.push(stop);
        if self.stops.len() > self.st.max_depth { self.st.max_depth = self.stops.len(); }
        let r = self.explore(v);
        self.stops.pop();
        let r = self.merge_all(r);
        work.extend(r);
    }
    fn split(&mut self, s: State, c: E) -> Result<Vec<State>, (State, End)> {
        match self.decide(&s, c) {
            Err(Ctl::Done(e)) => Err((s, e)),
            Err(_) => unreachable!(),
            Ok((t, f)) => {
                let mut v = vec![];
                let both = t.is_some() && f.is_some();
                if both { self.st.forks += 1; }
                let mut s = s;
                if let Some(m) = f { let mut x = if both { s.clone() } else { std::mem::replace(&mut s, State { frames: vec![], ..s_dummy() }) }; let nc = self.p.ar.not(c); self.assume_raw(&mut x, nc, m, false); Rc::make_mut(&mut x.known).insert(c, 0); v.push(x); }
                if let Some(m) = t { self.assume_raw(&mut s, c, m, false); Rc::make_mut(&mut s.known).insert(c, 1); v.push(s); }
                Ok(v)
            }
        }
    }
    fn finish(&mut self, s: State, e: End) {
        self.st.paths += 1;
        match e {
            End::Return => {
                self.st.returns += 1;
                if self.samples.len() < 3 { let x = self.concretize_inputs(&s); self.samples.push(x); }
            }
            End::Assume => self.st.assumes += 1,
            End::Known => {}
            End::Panic(m) => { self.st.panics += 1; self.report(&s, "panic", m); }
            End::MemErr(m) => self.report(&s, "memory", m),
            End::Unsupported(m) => {
                let st = self.stack(&s);
                let w = format!("{m} @ {}", st.iter().take(6).cloned().collect::<Vec<_>>().join(" < "));
                if self.incomplete.len() < 20 { self.incomplete.push(w); }
            }
        }
    }
    fn jump(&mut self, s: &mut State, to: u32) -> Result<(), Ctl> {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        let func = fr.func.clone();
        let from = fr.blk;
        let b = &func.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|(p, _)| *p == from).unwrap().1;
                let v = match o { Opn::R(r) => fr.regs[*r as usize].clone(), Opn::K(k) => k.clone() };
                fr.regs[*d as usize] = v;
            } else {
                let mut tmp = Vec::with_capacity(b.phis.len());
                for (d, inc) in &b.phis {
                    let o = &inc.iter().find(|(p, _)| *p == from).unwrap().1;
                    let v = match o { Opn::R(r) => fr.regs[*r as usize].clone(), Opn::K(k) => k.clone() };
                    tmp.push((*d, v));
                }
                for (d, v) in tmp { fr.regs[d as usize] = v; }
            }
        }
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }
    /// run until something needs a decision
    pub fn run(&mut self, s: &mut State) -> Ctl {
        self.p.ar.hashed = s.flags.get("hash").map_or(0, |k| if *k == 0 { 0 } else { !0 });
        let mut tick = 0u32;
        loop {
            let func = s.frames.last().unwrap().func.clone();
            let depth = s.frames.len();
            loop {
                let (blk, ip) = { let f = s.frames.last().unwrap(); (f.blk, f.ip) };
                if ip as usize >= func.blocks[blk as usize].ins.len() { panic!("{} bb{} {:?}", self.p.funcs[func.id as usize].dem, blk, func.blocks[blk as usize].ins); }
                let ins = &func.blocks[blk as usize].ins[ip as usize];
                self.st.instrs += 1;
                tick += 1;
                if tick & 0xfffff == 0 && Instant::now() > self.deadline { self.incomplete.push(format!("time budget exhausted in {}", self.p.funcs[func.id as usize].dem)); self.aborting = true; return Ctl::Done(End::Assume); }
                match self.step(s, ins) {
                    Ok(Flow2::Next) => {}
                    Ok(Flow2::Jump(b)) => {
                        if let Err(c) = self.jump(s, b) { return c; }
                        if !self.stops.is_empty() && self.at_stop(s) { return Ctl::Stop; }
                    }
                    Ok(Flow2::Frame) => {
                        if s.frames.is_empty() { return Ctl::Done(End::Return); }
                        if s.frames.len() < depth && !self.stops.is_empty() && self.at_stop(s) { return Ctl::Stop; }
                        break;
                    }
                    Err(c) => return c,
                }
            }
        }
    }
    #[inline] fn get(fr: &Frame, o: &Opn) -> Val { match o { Opn::R(r) => fr.regs[*r as usize].clone(), Opn::K(k) => k.clone() } }
    fn step(&mut self, s: &mut State, ins: &Inst) -> Result<Flow2, Ctl> {
        macro_rules! g { ($o:expr) => { Self::get(s.frames.last().unwrap(), $o) } }
        macro_rules! ret { ($v:expr) => {{ let v = $v; let fr = Rc::make_mut(s.frames.last_mut().unwrap()); fr.regs[ins.dst as usize] = v; fr.ip += 1; return Ok(Flow2::Next); }} }
        match &ins.i {
            I::Bin { op, w, n, a, b } => {
                let (x, y) = (g!(a), g!(b));
                if *n == 0 { let r = self.bin(*op, *w, &x, &y); ret!(r) }
                let (Val::A(x), Val::A(y)) = (x, y) else { return Err(unsup("vector op")) };
                let r = (0..*n as usize).map(|i| self.bin(*op, *w, &x[i], &y[i])).collect();
                ret!(Val::A(Rc::new(r)))
            }
            I::ICmp { pred, w, n, a, b } => {
                let (x, y) = (g!(a), g!(b));
                if *n == 0 { let r = self.icmp(*pred, *w, &x, &y); ret!(r) }
                let (Val::A(x), Val::A(y)) = (x, y) else { return Err(unsup("vector icmp")) };
                let r = (0..*n as usize).map(|i| self.icmp(*pred, *w, &x[i], &y[i])).collect();
                ret!(Val::A(Rc::new(r)))
            }
            I::Load { ty, p } => { let p = g!(p); let v = self.load(s, ty, &p)?; ret!(v) }
            I::Store { ty, v, p } => { let (v, p) = (g!(v), g!(p)); self.store(s, ty, &p, &v)?; let fr = Rc::make_mut(s.frames.last_mut().unwrap()); fr.ip += 1; Ok(Flow2::Next) }
            I::Gep { base, off, idx } => {
                let mut r = g!(base);
                if *off != 0 { r = self.bin(Op::Add, 64, &r, &Val::C(*off as u64)); }
                for (o, w, sz) in idx {
                    let v = g!(o);
                    let v = match v { Val::C(c) => Val::C(sext128(c as u128, *w) as u64), Val::S(e) => { let e = self.p.ar.sext(e, 64); self.norm(e) } _ => return Err(unsup("vector gep")) };
                    let v = self.bin(Op::Mul, 64, &v, &Val::C(*sz));
                    r = self.bin(Op::Add, 64, &r, &v);
                }
                ret!(r)
            }
            I::Br(b) => Ok(Flow2::Jump(*b)),
            I::CBr { c, t, f } => {
                match g!(c) {
                    Val::C(x) => Ok(Flow2::Jump(if x & 1 != 0 { *t } else { *f })),
                    Val::S(e) => { if self.p.ar.is_taint(e) { return Ok(Flow2::Jump(*f)); } if t == f { return Ok(Flow2::Jump(*t)); } Err(Ctl::Branch(vec![(e, *t), (Arena::TRUE, *f)])) }
                    _ => Err(unsup("branch on vector")),
                }
            }
            I::Switch { w, v, cases, def } => {
                match g!(v) {
                    Val::C(x) => { for (k, b) in cases { if *k == x { return Ok(Flow2::Jump(*b)); } } Ok(Flow2::Jump(*def)) }
                    Val::S(e) => {
                        if let Some(k) = s.known.get(&e) { for (c, b) in cases { if c == k { return Ok(Flow2::Jump(*b)); } } return Ok(Flow2::Jump(*def)); }
                        let mut alts: Vec<(E, u32)> = vec![];
                        for (k, b) in cases {
                            let kc = self.p.ar.konst(*w, *k as u128);
                            let c = self.p.ar.bin(Op::Eq, e, kc);
                            if let Some(x) = alts.iter_mut().find(|x| x.1 == *b) { x.0 = self.p.ar.or1(x.0, c); } else { alts.push((c, *b)); }
                        }
                        alts.retain(|a| a.1 != *def);
                        alts.push((Arena::TRUE, *def));
                        Err(Ctl::Branch(alts))
                    }
                    _ => Err(unsup("switch on vector")),
                }
            }
            I::Call { callee, args, aty, ret, next } => {
                let id = match callee {
                    Callee::F(f) => *f,
                    Callee::Ind(o) => {
                        let v = g!(o);
                        let a = self.conc(s, &v)?;
                        let id = a >> 32;
                        if id < FN_BASE || id >= HEAP_BASE || a & 0xffff_ffff != 0 { return Err(memerr("call through a bad function pointer")); }
                        (id - FN_BASE) as u32
                    }
                    Callee::Asm(t) => {
                        if t.contains("asm sideeffect \"\"") || t.contains("asm sideeffect inteldialect \"\"") { let fr = Rc::make_mut(s.frames.last_mut().unwrap()); fr.ip += 1; return Ok(Flow2::Next); }
                        return Err(unsup(&format!("inline asm {}", t.chars().take(80).collect::<String>())));
                    }
                };
                let mut av: Vec<Val> = Vec::with_capacity(args.len());
                for a in args { av.push(g!(a)); }
                if let Some(h) = self.p.funcs[id as usize].icpt {
                    let c = Call { args: av, aty, ret, f: id };
                    match h(self, s, &c) {
                        Ok(v) => {
                            let fr = Rc::make_mut(s.frames.last_mut().unwrap());
                            fr.regs[ins.dst as usize] = v;
                            match next { Some(b) => return Ok(Flow2::Jump(*b)), None => { fr.ip += 1; return Ok(Flow2::Next); } }
                        }
                        Err(Ctl::Real) => av = c.args,
                        Err(e) => return Err(e),
                    }
                }
                let func = match self.p.body(id) { Ok(f) => f, Err(e) => return Err(unsup(&e)) };
                self.p.funcs[id as usize].execs += 1;
                if s.frames.len() > 600 { return Err(unsup("call depth over 600")); }
                let mut regs = vec![Val::C(0); func.nregs as usize];
                for (i, a) in av.into_iter().enumerate() { if i < func.nargs as usize { regs[i] = a; } }
                { let fr = Rc::make_mut(s.frames.last_mut().unwrap()); fr.ip += 1; }
                if self.trace { eprintln!("{} {:>width$}{}", self.p.ar.n.len(), "", self.p.funcs[id as usize].dem, width = s.frames.len()); }
                s.frames.push(Rc::new(Frame { func, blk: 0, ip: 0, regs, allocas: vec![], dst: ins.dst, next: *next }));
                Ok(Flow2::Frame)
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| g!(o));
                let fr = s.frames.pop().unwrap();
                for a in &fr.allocas { s.mem.free(*a); }
                if s.frames.is_empty() { return Ok(Flow2::Frame); }
                let (dst, next) = (fr.dst, fr.next);
                drop(fr);
                if let Some(v) = v { let c = Rc::make_mut(s.frames.last_mut().unwrap()); c.regs[dst as usize] = v; }
                if let Some(b) = next { self.jump(s, b)?; }
                Ok(Flow2::Frame)
            }
            I::Cast { op, from, to, a } => { let v = g!(a); let r = self.cast(*op, from, to, &v)?; ret!(r) }
            I::Select { ty, vecc, c, a, b } => {
                let (c, a, b) = (g!(c), g!(a), g!(b));
                if *vecc {
                    let (Val::A(c), Val::A(a), Val::A(b), K::Vec(_, et)) = (c, a, b, &ty.k) else { return Err(unsup("vector select")) };
                    let mut o = vec![];
                    for i in 0..c.len() { let k = match &c[i] { Val::S(e) => self.settled(s, *e), c => c.clone() }; o.push(self.select(et, &k, &a[i], &b[i])?); }
                    ret!(Val::A(Rc::new(o)))
                }
                let c = match c { Val::S(e) => self.settled(s, e), c => c };
                let r = self.select(ty, &c, &a, &b)?;
                ret!(r)
            }
            I::Alloca { size, n, .. } => {
                let n = g!(n); let n = self.conc(s, &n)?;
                let p = self.alloc(s, size * n, Kind::Stack)?;
                let hid = ((p >> 32) - HEAP_BASE) as u32;
                let fr = Rc::make_mut(s.frames.last_mut().unwrap());
                fr.allocas.push(hid);
                fr.regs[ins.dst as usize] = Val::C(p);
                fr.ip += 1;
                Ok(Flow2::Next)
            }
            I::ExtractValue { a, idx } => {
                let mut v = g!(a);
                for i in idx { v = match v { Val::A(x) => x[*i as usize].clone(), _ => return Err(unsup("extractvalue")) }; }
                ret!(v)
            }
            I::InsertValue { a, v, idx } => {
                fn ins_rec(a: Val, v: Val, idx: &[u32]) -> Val {
                    if idx.is_empty() { return v; }
                    match a { Val::A(x) => { let mut y = (*x).clone(); let old = y[idx[0] as usize].clone(); y[idx[0] as usize] = ins_rec(old, v, &idx[1..]); Val::A(Rc::new(y)) } _ => panic!("insertvalue") }
                }
                let r = ins_rec(g!(a), g!(v), idx);
                ret!(r)
            }
            I::ExtractElem { a, i } => { let (a, i) = (g!(a), g!(i)); let k = self.conc(s, &i)? as usize; let Val::A(x) = a else { return Err(unsup("extractelement")) }; if k >= x.len() { return Err(unsup("extractelement index")); } ret!(x[k].clone()) }
            I::InsertElem { a, v, i } => { let (a, v, i) = (g!(a), g!(v), g!(i)); let k = self.conc(s, &i)? as usize; let Val::A(x) = a else { return Err(unsup("insertelement")) }; let mut y = (*x).clone(); y[k] = v; ret!(Val::A(Rc::new(y))) }
            I::Shuffle { a, b, mask, n, .. } => {
                let (Val::A(x), Val::A(y)) = (g!(a), g!(b)) else { return Err(unsup("shuffle")) };
                let o = mask.iter().map(|&m| if m < 0 { zero_like(&x[0]) } else if (m as u32) < *n { x[m as usize].clone() } else { y[(m as u32 - n) as usize].clone() }).collect();
                ret!(Val::A(Rc::new(o)))
            }
            I::CmpXchg { ty, p, c, n } => {
                let (p, c, n) = (g!(p), g!(c), g!(n));
                let old = self.load(s, ty, &p)?;
                let eq = self.icmp(32, ty.w(), &old, &c);
                let k = match &eq { Val::C(k) => *k, Val::S(e) => return Err(Ctl::Fork(*e)), _ => unreachable!() };
                if k != 0 { self.store(s, ty, &p, &n)?; }
                ret!(Val::A(Rc::new(vec![old, eq])))
            }
            I::Rmw { op, ty, p, v } => {
                let (p, v) = (g!(p), g!(v));
                let w = ty.w();
                let old = self.load(s, ty, &p)?;
                let new = match op {
                    0 => v.clone(), 1 => self.bin(Op::Add, w, &old, &v), 2 => self.bin(Op::Sub, w, &old, &v), 3 => self.bin(Op::And, w, &old, &v),
                    4 => { let x = self.bin(Op::And, w, &old, &v); self.bin(Op::Xor, w, &x, &Val::C(mask(w) as u64)) }
                    5 => self.bin(Op::Or, w, &old, &v), 6 => self.bin(Op::Xor, w, &old, &v),
                    7 | 8 | 9 | 10 => { let pr = match op { 7 => 38, 8 => 40, 9 => 34, _ => 36 }; let c = self.icmp(pr, w, &old, &v); self.select(ty, &c, &old, &v)? }
                    _ => return Err(unsup("atomicrmw op")),
                };
                self.store(s, ty, &p, &new)?;
                ret!(old)
            }
            I::Move(a) => { let v = g!(a); ret!(v) }
            I::FBin { op, ty, a, b } => {
                let (Val::C(x), Val::C(y)) = (g!(a), g!(b)) else { return Err(unsup("symbolic float")) };
                let r = if ty.k == K::F64 { let (x, y) = (f64::from_bits(x), f64::from_bits(y)); (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits() }
                    else { let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits() as u64 };
                ret!(Val::C(r))
            }
            I::FNeg { ty, a } => { let Val::C(x) = g!(a) else { return Err(unsup("symbolic float")) }; ret!(Val::C(if ty.k == K::F64 { x ^ (1 << 63) } else { x ^ (1 << 31) })) }
            I::FCmp { pred, ty, a, b } => {
                let (Val::C(x), Val::C(y)) = (g!(a), g!(b)) else { return Err(unsup("symbolic float")) };
                let (x, y) = if ty.k == K::F64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match pred { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !un && x != y, 7 => !un, 8 => un, 9 => un || x == y, 10 => un || x > y, 11 => un || x >= y, 12 => un || x < y, 13 => un || x <= y, 14 => x != y, _ => true };
                ret!(Val::C(r as u64))
            }
            I::Unreachable => Err(memerr("reached unreachable code")),
            I::Nop => { let fr = Rc::make_mut(s.frames.last_mut().unwrap()); fr.ip += 1; Ok(Flow2::Next) }
            I::Bad(m) => Err(unsup(m)),
        }
    }
    fn flat(&mut self, t: &Ty, v: &Val) -> Result<E, Ctl> {
        match (&t.k, v) {
            (K::Vec(_, et), Val::A(x)) => {
                let w = et.w();
                let mut e = self.ex(&x[x.len() - 1], w);
                for y in x.iter().rev().skip(1) { let b = self.ex(y, w); if self.p.ar.w(e) + w > 128 { return Err(unsup("vector wider than 128 bits")); } e = self.p.ar.concat(e, b); }
                Ok(e)
            }
            _ => Ok(self.ex(v, t.w())),
        }
    }
    pub fn cast(&mut self, op: Cast, from: &Ty, to: &Ty, v: &Val) -> Result<Val, Ctl> {
        if let (K::Vec(_, fe), K::Vec(n, te)) = (&from.k, &to.k) {
            if op != Cast::Bit || fe.w() == te.w() {
                let Val::A(x) = v else { return Err(unsup("vector cast")) };
                let (fe, te) = (fe.clone(), te.clone());
                let mut o = vec![]; for y in x.iter() { o.push(self.cast(op, &fe, &te, y)?); }
                return Ok(Val::A(Rc::new(o)));
            }
            let (n, te) = (*n, te.clone());
            let e = self.flat(from, v)?;
            let mut o = vec![];
            for i in 0..n as u16 { let x = self.p.ar.extract(e, (i + 1) * te.w() - 1, i * te.w()); o.push(self.norm(x)); }
            return Ok(Val::A(Rc::new(o)));
        }
        if let K::Vec(..) = &from.k { let e = self.flat(from, v)?; return Ok(self.norm(e)); }
        if let K::Vec(n, te) = &to.k {
            let e = self.ex(v, from.w());
            let mut o = vec![];
            for i in 0..*n as u16 { let x = self.p.ar.extract(e, (i + 1) * te.w() - 1, i * te.w()); o.push(self.norm(x)); }
            return Ok(Val::A(Rc::new(o)));
        }
        let (fw, tw) = (from.w(), to.w());
        match op {
            Cast::Bit => Ok(v.clone()),
            Cast::Trunc => match v { Val::C(c) => Ok(Val::C(c & mask(tw) as u64)), Val::S(e) => { let e = self.p.ar.trunc(*e, tw); Ok(self.norm(e)) } _ => Err(unsup("cast")) },
            Cast::ZExt => match v { Val::C(c) if tw <= 64 => Ok(Val::C(*c)), _ => { let e = self.ex(v, fw); let e = self.p.ar.zext(e, tw); Ok(self.norm(e)) } },
            Cast::SExt => { let e = self.ex(v, fw); let e = self.p.ar.sext(e, tw); Ok(self.norm(e)) }
            _ => {
                let Val::C(c) = v else { return Err(unsup("symbolic float conversion")) };
                let f = |b: u64, t: &Ty| if t.k == K::F64 { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 };
                let pack = |d: f64, t: &Ty| if t.k == K::F64 { d.to_bits() } else { (d as f32).to_bits() as u64 };
                Ok(Val::C(match op {
                    Cast::FpToUi => (f(*c, from) as u64) & mask(tw) as u64,
                    Cast::FpToSi => (f(*c, from) as i64 as u64) & mask(tw) as u64,
                    Cast::UiToFp => if to.k == K::F64 { (*c as f64).to_bits() } else { (*c as f32).to_bits() as u64 },
                    Cast::SiToFp => { let x = sext128(*c as u128, fw) as i64; if to.k == K::F64 { (x as f64).to_bits() } else { (x as f32).to_bits() as u64 } }
                    _ => pack(f(*c, from), to),
                }))
            }
        }
    }
    // ---------- merging
    fn merge_all(&mut self, v: Vec<State>) -> Vec<State> {
        if v.len() < 2 { return v; }
        let mut out: Vec<State> = vec![];
        'next: for s in v {
            for o in out.iter_mut() {
                if let Some(m) = self.try_merge(o, &s) { *o = m; self.st.merges += 1; continue 'next; }
            }
            if !out.is_empty() { self.st.merge_fail += 1; }
            out.push(s);
        }
        out
    }
    fn merge_val(&mut self, ty: &Ty, c: E, a: &Val, b: &Val) -> Option<Val> {
        match (a, b) {
            (Val::C(x), Val::C(y)) if x == y => Some(a.clone()),
            (Val::S(x), Val::S(y)) if x == y => Some(a.clone()),
            (Val::A(x), Val::A(y)) => {
                if Rc::ptr_eq(x, y) { return Some(a.clone()); }
                if x.len() != y.len() { return None; }
                let mut o = vec![];
                for i in 0..x.len() {
                    let t: RTy = match &ty.k { K::Struct(f) => f[i].1.clone(), K::Arr(_, t) | K::Vec(_, t) => t.clone(), _ => return None };
                    o.push(self.merge_val(&t, c, &x[i], &y[i])?);
                }
                Some(Val::A(Rc::new(o)))
            }
            (Val::A(_), _) | (_, Val::A(_)) => None,
            _ => {
                if !ty.is_scalar() { return None; }
                if ty.k == K::Ptr { return None; }
                if matches!(ty.k, K::F32 | K::F64) { return None; }
                let w = ty.w();
                if w == 64 && !self.merge64 { if let (Val::C(_), Val::C(_)) = (a, b) { return None; } }
                for v in [a, b] { if let Val::S(e) = v { if self.p.ar.is_taint(*e) { return None; } } }
                if w == 64 { for v in [a, b] { if let Val::C(x) = v { if *x >= (1 << 32) && *x < (1 << 62) { return None; } } } }
                let x = self.ex(a, w); let y = self.ex(b, w);
                let r = self.p.ar.ite(c, x, y);
                Some(self.norm(r))
            }
        }
    }
    fn merge_obj(&mut self, c: E, a: &Obj, b: &Obj) -> Option<Obj> {
        if a.len() != b.len() || a.kind != b.kind { return None; }
        let mut r = a.clone();
        if r.wd.is_empty() && !b.wd.is_empty() { r.wd = b.wd.clone(); }
        for i in 0..a.len() {
            let (ea, eb) = (a.sym_at(i), b.sym_at(i));
            if ea == eb && a.data[i] == b.data[i] { continue; }
            if (ea != 0 && self.p.ar.is_taint(ea)) || (eb != 0 && self.p.ar.is_taint(eb)) { return None; }
            let wa = if a.wd.is_empty() { 0 } else { a.wd[i] };
            let wb = if b.wd.is_empty() { 0 } else { b.wd[i] };
            if ea == 0 && eb == 0 {
                if (wa >= 8 || wb >= 8) && !self.merge64 { return None; }
                if wa == 0 && wb == 0 { // unknown provenance: treat an 8-byte aligned differing word with address-like content as a pointer
                    return None;
                }
                // never mix address bytes
                if wa >= 8 || wb >= 8 {
                    let k = i & !7;
                    if k + 8 <= a.len() {
                        for o in [a, b] { if o.all_conc(k, 8) { let x = u64::from_le_bytes(o.data[k..k + 8].try_into().unwrap()); if x >= (1 << 32) && x < (1 << 62) { return None; } } }
                    }
                }
            } else if wa >= 8 || wb >= 8 {
                let k = i & !7;
                if k + 8 <= a.len() { for o in [a, b] { if o.all_conc(k, 8) { let x = u64::from_le_bytes(o.data[k..k + 8].try_into().unwrap()); if x >= (1 << 32) && x < (1 << 62) { return None; } } } }
            }
            let x = a.byte(&mut self.p.ar, i); let y = b.byte(&mut self.p.ar, i);
            let e = self.p.ar.ite(c, x, y);
            r.put_byte(&self.p.ar, i, e);
        }
        Some(r)
    }
    fn try_merge(&mut self, a: &State, b: &State) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.inputs.len() != b.inputs.len() { return None; }
        let n = a.frames.len();
        for i in 0..n - 1 { if !Rc::ptr_eq(&a.frames[i], &b.frames[i]) { 
            let (x, y) = (&a.frames[i], &b.frames[i]);
            if x.func.id != y.func.id || x.blk != y.blk || x.ip != y.ip || x.allocas != y.allocas { return None; }
            // cheap structural equality
            for (p, q) in x.regs.iter().zip(y.regs.iter()) { if !val_eq(p, q) { return None; } }
        } }
        let (fa, fb) = (&a.frames[n - 1], &b.frames[n - 1]);
        if fa.func.id != fb.func.id || fa.blk != fb.blk || fa.ip != fb.ip || fa.allocas != fb.allocas { return None; }
        if !Rc::ptr_eq(&a.ufs, &b.ufs) {
            if a.ufs.len() != b.ufs.len() { return None; }
            for (x, y) in a.ufs.iter().zip(b.ufs.iter()) { if x.inp != y.inp || x.out != y.out { return None; } }
        }
        if !Rc::ptr_eq(&a.flags, &b.flags) && *a.flags != *b.flags { return None; }
        // path condition: common prefix + disjunction of the rests
        let mut k = 0;
        while k < a.pc.len() && k < b.pc.len() && a.pc[k] == b.pc[k] { k += 1; }
        let conj = |ar: &mut Arena, v: &[E]| { let mut r = Arena::TRUE; for &e in v { r = ar.and1(r, e); } r };
        let ca = conj(&mut self.p.ar, &a.pc[k..]);
        let cb = conj(&mut self.p.ar, &b.pc[k..]);
        // choose the smaller selector
        let (c, flip) = if a.pc.len() <= b.pc.len() { (ca, false) } else { (cb, true) };
        let mut regs = fa.regs.clone();
        // liveness: at block entry use the block's live set; mid-block (after a call) everything later used
        let func = fa.func.clone();
        let live = if fa.ip == 0 { Some(func.flow().live[fa.blk as usize].clone()) } else { None };
        for i in 0..regs.len() {
            if let Some(l) = &live { if l[i / 64] >> (i % 64) & 1 == 0 { regs[i] = Val::C(0); continue; } }
            let (x, y) = (&fa.regs[i], &fb.regs[i]);
            if val_eq(x, y) { continue; }
            let ty = func.rty[i].clone();
            let r = if flip { self.merge_val(&ty, c, y, x) } else { self.merge_val(&ty, c, x, y) };
            regs[i] = r?;
        }
        // memory
        let mut mem = a.mem.clone();
        if !Rc::ptr_eq(&a.mem.globs, &b.mem.globs) {
            let keys: FxHashSet<u32> = a.mem.globs.keys().chain(b.mem.globs.keys()).copied().collect();
            for g in keys {
                let oa = match a.mem.globs.get(&g) { Some(o) => o.clone(), None => self.p.glob_init(g).ok()? };
                let ob = match b.mem.globs.get(&g) { Some(o) => o.clone(), None => self.p.glob_init(g).ok()? };
                if Rc::ptr_eq(&oa, &ob) { continue; }
                let m = if flip { self.merge_obj(c, &ob, &oa)? } else { self.merge_obj(c, &oa, &ob)? };
                Rc::make_mut(&mut mem.globs).insert(g, Rc::new(m));
            }
        }
        let nc = a.mem.heap.len().max(b.mem.heap.len());
        for ch in 0..nc {
            let (xa, xb) = (a.mem.heap.get(ch), b.mem.heap.get(ch));
            match (xa, xb) {
                (Some(x), Some(y)) if Rc::ptr_eq(x, y) => {}
                (Some(x), Some(y)) => {
                    let mut nx = (**x).clone();
                    for i in 0..nx.len() {
                        match (&x[i], &y[i]) {
                            (Some(p), Some(q)) => { if Rc::ptr_eq(p, q) { continue; } if p.data == q.data && p.sym == q.sym { continue; } let m = if flip { self.merge_obj(c, q, p)? } else { self.merge_obj(c, p, q)? }; nx[i] = Some(Rc::new(m)); }
                            (None, Some(q)) => { nx[i] = Some(q.clone()); }
                            _ => {}
                        }
                    }
                    mem.heap[ch] = Rc::new(nx);
                }
                (None, Some(y)) => { mem.heap.push(y.clone()); }
                _ => {}
            }
        }
        mem.next = a.mem.next.max(b.mem.next);
        let mut pc = a.pc[..k].to_vec();
        let d = self.p.ar.or1(ca, cb);
        if d != Arena::TRUE { pc.push(d); }
        let mut known = (*a.known).clone();
        if !Rc::ptr_eq(&a.known, &b.known) { known.retain(|k, v| b.known.get(k) == Some(v)); }
        let mut frames = a.frames.clone();
        let mut fr = (*frames[n - 1]).clone();
        fr.regs = regs;
        frames[n - 1] = Rc::new(fr);
        Some(State { frames, mem, pc, model: a.model.clone(), inputs: a.inputs.clone(), known: Rc::new(known), ufs: a.ufs.clone(), flags: a.flags.clone() })
    }
}
enum Flow2 { Next, Jump(u32), Frame }

fn val_eq(a: &Val, b: &Val) -> bool {
    match (a, b) { (Val::C(x), Val::C(y)) => x == y, (Val::S(x), Val::S(y)) => x == y, (Val::A(x), Val::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| val_eq(p, q))), _ => false }
}
fn zero_like(v: &Val) -> Val { match v { Val::A(x) => Val::A(Rc::new(x.iter().map(zero_like).collect())), _ => Val::C(0) } }
fn low_zeros(ar: &Arena, e: E) -> u32 {
    let n = &ar.n[e as usize];
    match n.op {
        Op::Const => { let v = ar.as_const(e).unwrap(); if v == 0 { n.w as u32 } else { v.trailing_zeros() } }
        Op::Concat => { let l = low_zeros(ar, n.b); if l == ar.w(n.b) as u32 { l + low_zeros(ar, n.a) } else { l } }
        Op::ZExt => { let l = low_zeros(ar, n.a); if l == ar.w(n.a) as u32 { n.w as u32 } else { l } }
        Op::Add | Op::Sub | Op::Or => low_zeros(ar, n.a).min(low_zeros(ar, n.b)),
        Op::Mul => low_zeros(ar, n.a) + low_zeros(ar, n.b),
        Op::Ite => low_zeros(ar, n.b).min(low_zeros(ar, n.c)),
        _ => 0,
    }
}
pub fn unsup(m: &str) -> Ctl { Ctl::Done(End::Unsupported(m.to_string())) }
pub fn memerr(m: &str) -> Ctl { Ctl::Done(End::MemErr(m.to_string())) }
fn s_dummy() -> State { State { frames: vec![], mem: Mem::new(), pc: vec![], model: Rc::new(Model::new(vec![])), inputs: Default::default(), known: Default::default(), ufs: Default::default(), flags: Default::default() } }
