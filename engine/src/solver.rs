//! z3 back end (C API). One incremental solver whose assertion stack mirrors the current path
//! condition, plus a fresh-solver fallback when an incremental query runs out of its soft budget.
use crate::expr::*;
use rustc_hash::FxHashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    let s = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", s);
    std::process::exit(70);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Solver {
    c: P,
    s: P,
    stack: Vec<E>,
    bv: FxHashMap<E, P>,
    bl: FxHashMap<E, P>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64,
    pub time: f64, pub max_time: f64, pub fallback: u64,
    pub soft_ms: u32, pub hard_ms: u32,
    cache: FxHashMap<Vec<E>, bool>,
    pub cache_hits: u64,
    varsets: FxHashMap<E, std::rc::Rc<Vec<u32>>>,
}

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let mut r = Solver { c, s, stack: vec![], bv: Default::default(), bl: Default::default(), queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0., max_time: 0., fallback: 0, soft_ms: 2000, hard_ms: 60000, cache: Default::default(), cache_hits: 0, varsets: Default::default() };
            r.set_timeout(s, r.soft_ms);
            r
        }
    }
    fn set_timeout(&mut self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn is_bool_op(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }
    fn num(&self, w: u16, v: u128) -> P {
        unsafe {
            // a result without a reference lives only until the next API call
            let s = CString::new(v.to_string()).unwrap();
            let r = Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w as c_uint));
            self.keep(r)
        }
    }
    fn keep(&self, p: P) -> P { unsafe { Z3_inc_ref(self.c, p) }; p }
    fn build(&mut self, ar: &Arena, root: E, want_bool: bool) -> P {
        let mut st: Vec<(E, bool)> = vec![(root, want_bool)];
        while let Some(&(e, b)) = st.last() {
            if (if b { &self.bl } else { &self.bv }).contains_key(&e) { st.pop(); continue; }
            let n = ar.n[e as usize];
            // representation conversions for 1-bit values
            if n.w == 1 {
                let native_bool = Self::is_bool_op(n.op) || matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Ite | Op::Const);
                if b && !native_bool {
                    if let Some(&x) = self.bv.get(&e) {
                        let r = unsafe { Z3_mk_eq(self.c, x, self.num(1, 1)) };
                        let r = self.keep(r); self.bl.insert(e, r); st.pop();
                    } else { st.push((e, false)); }
                    continue;
                }
                if !b && native_bool {
                    if let Some(&x) = self.bl.get(&e) {
                        let r = unsafe { Z3_mk_ite(self.c, x, self.num(1, 1), self.num(1, 0)) };
                        let r = self.keep(r); self.bv.insert(e, r); st.pop();
                    } else { st.push((e, true)); }
                    continue;
                }
            }
            let (k, c) = ar.kids(e);
            // which representation do children need?
            let kid_bool = |i: usize| -> bool {
                if b && matches!(n.op, Op::And | Op::Or | Op::Xor) { return true; }
                if n.op == Op::Ite { return i == 0 || b; }
                if b && n.op == Op::Eq && ar.w(k[0]) == 1 { return true; }
                false
            };
            let mut ok = true;
            for i in 0..c {
                let kb = kid_bool(i);
                if !(if kb { &self.bl } else { &self.bv }).contains_key(&k[i]) { st.push((k[i], kb)); ok = false; }
            }
            if !ok { continue; }
            let g = |i: usize| -> P { let kb = kid_bool(i); (if kb { &self.bl } else { &self.bv })[&k[i]] };
            let cx = self.c;
            let r = unsafe {
                match n.op {
                    Op::Const => { let v = ar.as_const(e).unwrap(); if b { if v == 1 { Z3_mk_true(cx) } else { Z3_mk_false(cx) } } else { self.num(n.w, v) } }
                    Op::Var => { let s = CString::new(format!("v{}", n.a)).unwrap(); Z3_mk_const(cx, Z3_mk_string_symbol(cx, s.as_ptr()), Z3_mk_bv_sort(cx, n.w as c_uint)) }
                    Op::Taint => self.num(n.w, 0),
                    Op::Add => Z3_mk_bvadd(cx, g(0), g(1)),
                    Op::Sub => Z3_mk_bvsub(cx, g(0), g(1)),
                    Op::Mul => Z3_mk_bvmul(cx, g(0), g(1)),
                    Op::UDiv => Z3_mk_bvudiv(cx, g(0), g(1)),
                    Op::SDiv => Z3_mk_bvsdiv(cx, g(0), g(1)),
                    Op::URem => Z3_mk_bvurem(cx, g(0), g(1)),
                    Op::SRem => Z3_mk_bvsrem(cx, g(0), g(1)),
                    Op::Shl => Z3_mk_bvshl(cx, g(0), g(1)),
                    Op::LShr => Z3_mk_bvlshr(cx, g(0), g(1)),
                    Op::AShr => Z3_mk_bvashr(cx, g(0), g(1)),
                    Op::And => if b { let a = [g(0), g(1)]; Z3_mk_and(cx, 2, a.as_ptr()) } else { Z3_mk_bvand(cx, g(0), g(1)) },
                    Op::Or => if b { let a = [g(0), g(1)]; Z3_mk_or(cx, 2, a.as_ptr()) } else { Z3_mk_bvor(cx, g(0), g(1)) },
                    Op::Xor => if b { if ar.as_const(k[1]) == Some(1) { Z3_mk_not(cx, g(0)) } else { Z3_mk_xor(cx, g(0), g(1)) } } else { Z3_mk_bvxor(cx, g(0), g(1)) },
                    Op::ZExt => Z3_mk_zero_ext(cx, (n.w - ar.w(n.a)) as c_uint, g(0)),
                    Op::SExt => Z3_mk_sign_ext(cx, (n.w - ar.w(n.a)) as c_uint, g(0)),
                    Op::Extract => Z3_mk_extract(cx, n.b, n.c, g(0)),
                    Op::Concat => Z3_mk_concat(cx, g(0), g(1)),
                    Op::Ite => Z3_mk_ite(cx, g(0), g(1), g(2)),
                    Op::Eq => Z3_mk_eq(cx, g(0), g(1)),
                    Op::Ult => Z3_mk_bvult(cx, g(0), g(1)),
                    Op::Ule => Z3_mk_bvule(cx, g(0), g(1)),
                    Op::Slt => Z3_mk_bvslt(cx, g(0), g(1)),
                    Op::Sle => Z3_mk_bvsle(cx, g(0), g(1)),
                }
            };
            let r = self.keep(r);
            if b { self.bl.insert(e, r); } else { self.bv.insert(e, r); }
            st.pop();
        }
        if want_bool { self.bl[&root] } else { self.bv[&root] }
    }
    /// variables an expression depends on (sorted ids)
    pub fn vars_of(&mut self, ar: &Arena, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&e) { return v.clone(); }
        let mut out = vec![];
        let mut seen = rustc_hash::FxHashSet::default();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            if x != e { if let Some(v) = self.varsets.get(&x) { out.extend(v.iter().copied()); continue; } }
            let n = &ar.n[x as usize];
            if n.op == Op::Var { out.push(n.a); }
            let (k, c) = ar.kids(x);
            st.extend_from_slice(&k[..c]);
        }
        out.sort_unstable(); out.dedup();
        let r = std::rc::Rc::new(out);
        self.varsets.insert(e, r.clone());
        r
    }
    fn sync(&mut self, ar: &Arena, pc: &[E]) {
        let mut i = 0;
        while i < pc.len() && i < self.stack.len() && pc[i] == self.stack[i] { i += 1; }
        unsafe {
            let n = self.stack.len() - i;
            if n > 0 { Z3_solver_pop(self.c, self.s, n as c_uint); self.stack.truncate(i); }
            for &e in &pc[i..] {
                let z = self.build(ar, e, true);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, z);
                self.stack.push(e);
            }
        }
    }
    fn model(&mut self, ar: &Arena, s: P, want: Option<&[u32]>) -> Vec<u128> {
        let mut out = vec![0u128; ar.vars.len()];
        unsafe {
            let m = Z3_solver_get_model(self.c, s);
            Z3_model_inc_ref(self.c, m);
            let all: Vec<u32>;
            let ids: &[u32] = match want { Some(w) => w, None => { all = (0..ar.vars.len() as u32).collect(); &all } };
            for &i in ids {
                if let Some(&z) = self.bv.get(&ar.var_expr[i as usize]) {
                    let mut r: P = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, z, true, &mut r) {
                        Z3_inc_ref(self.c, r);
                        let mut v = 0u64;
                        out[i as usize] = if Z3_get_numeral_uint64(self.c, r, &mut v) { v as u128 } else {
                            CStr::from_ptr(Z3_get_numeral_string(self.c, r)).to_str().unwrap().parse().unwrap_or(0)
                        };
                        Z3_dec_ref(self.c, r);
                    }
                }
            }
            Z3_model_dec_ref(self.c, m);
        }
        out
    }
    /// Is pc ∧ extra satisfiable? `base` is an assignment known to satisfy pc: only the constraints
    /// that share variables (transitively) with `extra` are sent; the rest keeps base's values.
    pub fn check(&mut self, ar: &Arena, pc: &[E], extra: E, base: Option<&Model>) -> (Res, Option<Model>) {
        if extra == Arena::FALSE { return (Res::Unsat, None); }
        // constraint independence
        let mut vs: rustc_hash::FxHashSet<u32> = self.vars_of(ar, extra).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &e) in pc.iter().enumerate() {
                if used[i] { continue; }
                let v = self.vars_of(ar, e);
                if v.iter().any(|x| vs.contains(x)) { used[i] = true; ch = true; vs.extend(v.iter().copied()); }
            }
            if !ch { break; }
        }
        let slice: Vec<E> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, e)| *e).collect();
        let mut key = slice.clone(); key.sort_unstable(); key.push(u32::MAX); key.push(extra);
        if let Some(&sat) = self.cache.get(&key) { if !sat { self.cache_hits += 1; return (Res::Unsat, None); } }
        self.queries += 1;
        let t0 = Instant::now();
        let use_slice = base.is_some() && slice.len() < pc.len();
        let (assertions, want): (&[E], Option<Vec<u32>>) = if use_slice { (&slice, Some(vs.iter().copied().collect())) } else { (pc, None) };
        self.sync(ar, assertions);
        let z = self.build(ar, extra, true);
        let mut res;
        let mut model = None;
        unsafe {
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, z);
            res = Z3_solver_check(self.c, self.s);
            if res == 1 { model = Some(self.model(ar, self.s, want.as_deref())); }
            Z3_solver_pop(self.c, self.s, 1);
        }
        if res == 0 {
            self.fallback += 1;
            let (r, m) = self.portfolio(ar, assertions, extra);
            res = match r { Res::Sat => 1, Res::Unsat => -1, Res::Unknown => 0 };
            model = m;
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        match res {
            1 => {
                self.sat += 1;
                let mut v = model.unwrap();
                if use_slice { if let Some(b) = base { for i in 0..v.len() { if !vs.contains(&(i as u32)) { v[i] = b.vals.get(i).copied().unwrap_or(0); } } } }
                (Res::Sat, Some(Model::new(v)))
            }
            -1 => { self.unsat += 1; self.cache.insert(key, false); (Res::Unsat, None) }
            _ => { self.unknown += 1; (Res::Unknown, None) }
        }
    }

    /// the query as SMT-LIB 2, one definition per shared node
    pub fn smt2(&mut self, ar: &Arena, roots: &[E]) -> (String, Vec<u32>) {
        use std::fmt::Write;
        let mut o = String::from("(set-logic QF_BV)\n(set-option :produce-models true)\n");
        let mut vars = vec![];
        let mut done = rustc_hash::FxHashSet::default();
        for &root in roots {
            let mut st = vec![(root, false)];
            while let Some((e, open)) = st.pop() {
                if done.contains(&e) { continue; }
                let (k, c) = ar.kids(e);
                if !open { st.push((e, true)); for &x in &k[..c] { if !done.contains(&x) { st.push((x, false)); } } continue; }
                done.insert(e);
                let n = &ar.n[e as usize];
                if n.op == Op::Var { vars.push(n.a); let _ = writeln!(o, "(declare-const n{e} (_ BitVec {}))", n.w); continue; }
                let b2 = |f: &str| format!("({f} n{} n{})", k[0], k[1]);
                let t = match n.op {
                    Op::Const => format!("(_ bv{} {})", ar.as_const(e).unwrap(), n.w),
                    Op::Taint => format!("(_ bv0 {})", n.w),
                    Op::Var => unreachable!(),
                    Op::Add => b2("bvadd"), Op::Sub => b2("bvsub"), Op::Mul => b2("bvmul"), Op::UDiv => b2("bvudiv"), Op::SDiv => b2("bvsdiv"), Op::URem => b2("bvurem"), Op::SRem => b2("bvsrem"),
                    Op::Shl => b2("bvshl"), Op::LShr => b2("bvlshr"), Op::AShr => b2("bvashr"), Op::And => b2("bvand"), Op::Or => b2("bvor"), Op::Xor => b2("bvxor"), Op::Concat => b2("concat"),
                    Op::ZExt => format!("((_ zero_extend {}) n{})", n.w - ar.w(n.a), k[0]), Op::SExt => format!("((_ sign_extend {}) n{})", n.w - ar.w(n.a), k[0]),
                    Op::Extract => format!("((_ extract {} {}) n{})", n.b, n.c, k[0]),
                    Op::Ite => format!("(ite (= n{} #b1) n{} n{})", k[0], k[1], k[2]),
                    Op::Eq => format!("(ite {} #b1 #b0)", b2("=")), Op::Ult => format!("(ite {} #b1 #b0)", b2("bvult")), Op::Ule => format!("(ite {} #b1 #b0)", b2("bvule")),
                    Op::Slt => format!("(ite {} #b1 #b0)", b2("bvslt")), Op::Sle => format!("(ite {} #b1 #b0)", b2("bvsle")),
                };
                let _ = writeln!(o, "(define-fun n{e} () (_ BitVec {}) {t})", n.w);
            }
        }
        for &r in roots { let _ = writeln!(o, "(assert (= n{r} #b1))"); }
        o.push_str("(check-sat)\n");
        (o, vars)
    }
    /// several solvers on one hard query; the first answer counts
    fn portfolio(&mut self, ar: &Arena, assertions: &[E], extra: E) -> (Res, Option<Vec<u128>>) {
        use std::process::{Command, Stdio};
        let mut roots = assertions.to_vec(); roots.push(extra);
        let (mut txt, vars) = self.smt2(ar, &roots);
        if !vars.is_empty() {
            txt.push_str("(get-value (");
            for v in &vars { txt.push_str(&format!("n{} ", ar.var_expr[*v as usize])); }
            txt.push_str("))\n");
        }
        let base = format!("{}/symex.{}.{}", std::env::temp_dir().display(), std::process::id(), self.queries);
        let f = format!("{base}.smt2");
        if std::fs::write(&f, &txt).is_err() { return (Res::Unknown, None); }
        let secs = (self.hard_ms / 1000).to_string(); let ms = self.hard_ms.to_string();
        let cmds: Vec<Vec<String>> = vec![
            vec!["cvc5".into(), "--solve-bv-as-int=sum".into(), format!("--tlimit={ms}"), f.clone()],
            vec!["cvc5".into(), "--bv-solver=bitblast".into(), format!("--tlimit={ms}"), f.clone()],
            vec!["z3-new".into(), format!("-T:{secs}"), f.clone()],
            vec!["z3".into(), format!("-T:{secs}"), f.clone()],
        ];
        let mut kids = vec![];
        for (i, c) in cmds.iter().enumerate() {
            let of = format!("{base}.{i}");
            let Ok(out) = std::fs::File::create(&of) else { continue };
            if let Ok(k) = Command::new(&c[0]).args(&c[1..]).stdin(Stdio::null()).stdout(out).stderr(Stdio::null()).spawn() { kids.push((k, of)); }
        }
        let t0 = Instant::now();
        let mut ans = (Res::Unknown, None);
        'l: while !kids.is_empty() && t0.elapsed().as_millis() < self.hard_ms as u128 + 2000 {
            let mut i = 0;
            while i < kids.len() {
                if let Ok(Some(_)) = kids[i].0.try_wait() {
                    let t = std::fs::read_to_string(&kids[i].1).unwrap_or_default();
                    let first = t.lines().next().unwrap_or("").trim();
                    if first == "unsat" { ans = (Res::Unsat, None); break 'l; }
                    if first == "sat" { if let Some(m) = Self::parse_values(ar, &t, &vars) { ans = (Res::Sat, Some(m)); break 'l; } }
                    let (_, of) = kids.remove(i); let _ = std::fs::remove_file(of);
                } else { i += 1; }
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        for (mut k, of) in kids { let _ = k.kill(); let _ = k.wait(); let _ = std::fs::remove_file(of); }
        let _ = std::fs::remove_file(&f);
        // a model is only believed if it satisfies the query
        if let (Res::Sat, Some(m)) = &ans { let mm = Model::new(m.clone()); if roots.iter().any(|&r| mm.eval(ar, r) == 0) { return (Res::Unknown, None); } }
        ans
    }
    fn parse_values(ar: &Arena, t: &str, vars: &[u32]) -> Option<Vec<u128>> {
        let mut by: FxHashMap<String, u128> = Default::default();
        let tok: Vec<String> = t.replace('(', " ").replace(')', " ").split_whitespace().map(|s| s.to_string()).collect();
        let mut i = 1;
        while i + 1 < tok.len() {
            if let Some(n) = tok[i].strip_prefix('n').filter(|n| n.bytes().all(|b| b.is_ascii_digit())) {
                let v = &tok[i + 1];
                let x = if let Some(h) = v.strip_prefix("#x") { u128::from_str_radix(h, 16).ok()? } else if let Some(b) = v.strip_prefix("#b") { u128::from_str_radix(b, 2).ok()? }
                    else if v == "_" { tok.get(i + 2)?.strip_prefix("bv")?.parse().ok()? } else { return None };
                by.insert(n.to_string(), x);
            }
            i += 1;
        }
        let mut out = vec![0u128; ar.vars.len()];
        for v in vars { out[*v as usize] = *by.get(&ar.var_expr[*v as usize].to_string())?; }
        Some(out)
    }
}
