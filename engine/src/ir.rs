//! Translation of LLVM IR functions/constants into the executor's own compact form.
use crate::expr::*;
use crate::llvm::*;
use crate::loader::Loader;
use rustc_hash::FxHashMap;
use std::ffi::{CStr, CString};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u64), S(E), A(Rc<Vec<Val>>) }

#[derive(Debug, PartialEq)]
pub enum K { Void, Int(u16), Ptr, F32, F64, Struct(Vec<(u64, Rc<Ty>)>), Arr(u64, Rc<Ty>), Vec(u32, Rc<Ty>), Other(String) }
#[derive(Debug, PartialEq)]
pub struct Ty { pub k: K, pub size: u64, pub store: u64, pub align: u64 }
impl Ty {
    /// bit width for scalars
    pub fn w(&self) -> u16 { match &self.k { K::Int(w) => *w, K::Ptr | K::F64 => 64, K::F32 => 32, _ => 0 } }
    pub fn is_scalar(&self) -> bool { matches!(self.k, K::Int(_) | K::Ptr | K::F32 | K::F64) }
}
pub type RTy = Rc<Ty>;

#[derive(Clone, Debug)]
pub enum Opn { R(u32), K(Val) }

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }

#[derive(Debug)]
pub enum I {
    Bin { op: Op, w: u16, n: u32, a: Opn, b: Opn },
    FBin { op: FOp, ty: RTy, a: Opn, b: Opn },
    FNeg { ty: RTy, a: Opn },
    Cast { op: Cast, from: RTy, to: RTy, a: Opn },
    ICmp { pred: u32, w: u16, n: u32, a: Opn, b: Opn },
    FCmp { pred: u32, ty: RTy, a: Opn, b: Opn },
    Select { ty: RTy, vecc: bool, c: Opn, a: Opn, b: Opn },
    Load { ty: RTy, p: Opn },
    Store { ty: RTy, v: Opn, p: Opn },
    Gep { base: Opn, off: i64, idx: Vec<(Opn, u16, u64)> },
    Alloca { size: u64, align: u64, n: Opn },
    Call { callee: Callee, args: Vec<Opn>, aty: Vec<RTy>, ret: RTy, next: Option<u32> },
    Br(u32),
    CBr { c: Opn, t: u32, f: u32 },
    Switch { w: u16, v: Opn, cases: Vec<(u64, u32)>, def: u32 },
    Ret(Option<Opn>),
    Unreachable,
    ExtractValue { a: Opn, idx: Vec<u32> },
    InsertValue { a: Opn, v: Opn, idx: Vec<u32> },
    ExtractElem { a: Opn, i: Opn },
    InsertElem { a: Opn, v: Opn, i: Opn },
    Shuffle { a: Opn, b: Opn, mask: Vec<i32>, ty: RTy, n: u32 },
    CmpXchg { ty: RTy, p: Opn, c: Opn, n: Opn },
    Rmw { op: u32, ty: RTy, p: Opn, v: Opn },
    Move(Opn),
    Nop,
    Bad(String),
}
#[derive(Debug)]
pub enum Callee { F(u32), Ind(Opn), Asm(String) }
#[derive(Debug)]
pub struct Inst { pub dst: u32, pub i: I }
pub const NODST: u32 = u32::MAX;
#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opn)>)>, pub ins: Vec<Inst>, pub succ: Vec<u32> }
#[derive(Debug)]
pub struct Func {
    pub id: u32, pub nregs: u32, pub nargs: u32, pub blocks: Vec<Block>, pub rty: Vec<RTy>,
    pub flow: std::cell::OnceCell<Flow>,
}
/// post-dominators and liveness, computed on demand
#[derive(Debug)]
pub struct Flow { pub ipdom: Vec<Option<u32>>, pub live: Vec<Vec<u64>> }

pub struct FnInfo { pub v: V, pub name: String, pub dem: String, pub body: Option<Rc<Func>>, pub missing: bool, pub module: M, pub icpt: Option<crate::exec::Icpt>, pub execs: u64 }
pub struct Glob { pub v: V, pub name: String, pub size: u64, pub module: M, pub init: Option<Rc<crate::mem::Obj>>, pub konst: bool }

pub const GLOB_BASE: u64 = 1;
pub const FN_BASE: u64 = 0x1000_0000;
pub const HEAP_BASE: u64 = 0x2000_0000;

pub struct Prog {
    pub ld: Loader,
    pub ar: Arena,
    pub funcs: Vec<FnInfo>,
    fn_by_name: FxHashMap<String, u32>,
    fn_by_val: FxHashMap<usize, u32>,
    pub globs: Vec<Glob>,
    glob_by_name: FxHashMap<String, u32>,
    glob_by_val: FxHashMap<usize, u32>,
    tys: FxHashMap<(usize, usize), RTy>,
    pub resolve_icpt: fn(&str, &str) -> Option<crate::exec::Icpt>,
}

fn local_linkage(v: V) -> bool { matches!(unsafe { LLVMGetLinkage(v) }, 8 | 9) } // internal, private

impl Prog {
    pub fn new(ld: Loader, resolve_icpt: fn(&str, &str) -> Option<crate::exec::Icpt>) -> Self {
        let g0 = Glob { v: std::ptr::null_mut(), name: "<null>".into(), size: 0, module: std::ptr::null_mut(), init: None, konst: true };
        Prog { ld, ar: Arena::new(), funcs: vec![], fn_by_name: Default::default(), fn_by_val: Default::default(), globs: vec![g0], glob_by_name: Default::default(), glob_by_val: Default::default(), tys: Default::default(), resolve_icpt }
    }
    pub fn ty(&mut self, m: M, t: T) -> RTy {
        let td = unsafe { LLVMGetModuleDataLayout(m) };
        if let Some(r) = self.tys.get(&(t as usize, 0)) { return r.clone(); }
        let kind = unsafe { LLVMGetTypeKind(t) };
        let sized = |_: ()| unsafe { (LLVMABISizeOfType(td, t), LLVMStoreSizeOfType(td, t), LLVMABIAlignmentOfType(td, t) as u64) };
        let (k, (size, store, align)) = unsafe {
            match kind {
                0 => (K::Void, (0, 0, 1)),
                2 => (K::F32, sized(())),
                3 => (K::F64, sized(())),
                8 => (K::Int(LLVMGetIntTypeWidth(t) as u16), sized(())),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut f = vec![];
                    for i in 0..n { let et = self.ty(m, LLVMStructGetTypeAtIndex(t, i)); f.push((LLVMOffsetOfElement(td, t, i), et)); }
                    (K::Struct(f), sized(()))
                }
                11 => { let e = self.ty(m, LLVMGetElementType(t)); (K::Arr(LLVMGetArrayLength2(t), e), sized(())) }
                12 => (K::Ptr, sized(())),
                13 => { let e = self.ty(m, LLVMGetElementType(t)); (K::Vec(LLVMGetVectorSize(t), e), sized(())) }
                _ => {
                    let s = show_ty(t);
                    if s.starts_with('b') && s[1..].parse::<u16>().is_ok() { (K::Int(s[1..].parse().unwrap()), sized(())) }
                    else { (K::Other(s), (0, 0, 1)) }
                }
            }
        };
        let r = Rc::new(Ty { k, size, store, align });
        self.tys.insert((t as usize, 0), r.clone());
        r
    }
    // ---- symbols
    fn strip_alias(v: V) -> V {
        let mut v = v;
        unsafe { while !LLVMIsAGlobalAlias(v).is_null() { v = LLVMAliasGetAliasee(v); } }
        v
    }
    pub fn fn_by_symbol(&mut self, name: &str) -> Option<u32> {
        if let Some(&f) = self.fn_by_name.get(name) { return Some(f); }
        if !self.ld.has(name) { return None; }
        Some(self.new_fn(std::ptr::null_mut(), std::ptr::null_mut(), name.to_string(), false))
    }
    fn new_fn(&mut self, v: V, m: M, name: String, local: bool) -> u32 {
        let id = self.funcs.len() as u32;
        let dem = format!("{:#}", rustc_demangle::demangle(&name));
        let icpt = (self.resolve_icpt)(&name, &dem);
        self.funcs.push(FnInfo { v, name: name.clone(), dem, body: None, missing: false, module: m, icpt, execs: 0 });
        if !local { self.fn_by_name.insert(name, id); }
        id
    }
    pub fn fn_ref(&mut self, v: V, m: M) -> u32 {
        if let Some(&f) = self.fn_by_val.get(&(v as usize)) { return f; }
        let n = name(v);
        let id = if local_linkage(v) { self.new_fn(v, m, n, true) }
            else if let Some(&f) = self.fn_by_name.get(&n) { f }
            else { self.new_fn(if unsafe { LLVMIsDeclaration(v) } == 0 { v } else { std::ptr::null_mut() }, m, n, false) };
        self.fn_by_val.insert(v as usize, id);
        id
    }
    pub fn glob_ref(&mut self, v: V, m: M) -> u32 {
        if let Some(&g) = self.glob_by_val.get(&(v as usize)) { return g; }
        let n = name(v);
        let local = local_linkage(v);
        if !local { if let Some(&g) = self.glob_by_name.get(&n) { self.glob_by_val.insert(v as usize, g); return g; } }
        let (mut dv, mut dm) = (v, m);
        if unsafe { LLVMGetInitializer(v) }.is_null() && !local {
            if let Some(m2) = self.ld.module_for(&n) {
                let c = CString::new(n.clone()).unwrap();
                let v2 = unsafe { LLVMGetNamedGlobal(m2, c.as_ptr()) };
                if !v2.is_null() { dv = v2; dm = m2; }
            }
        }
        let t = self.ty(dm, unsafe { LLVMGlobalGetValueType(dv) });
        let id = self.globs.len() as u32;
        let konst = unsafe { LLVMIsGlobalConstant(dv) } != 0;
        self.globs.push(Glob { v: dv, name: n.clone(), size: t.size, module: dm, init: None, konst });
        if !local { self.glob_by_name.insert(n, id); }
        self.glob_by_val.insert(v as usize, id);
        id
    }
    pub fn fn_addr(id: u32) -> u64 { (FN_BASE + id as u64) << 32 }
    pub fn glob_init(&mut self, id: u32) -> Result<Rc<crate::mem::Obj>, String> {
        if let Some(o) = &self.globs[id as usize].init { return Ok(o.clone()); }
        let (v, m, size) = { let g = &self.globs[id as usize]; (g.v, g.module, g.size) };
        if v.is_null() { return Err("null global".into()); }
        let init = unsafe { LLVMGetInitializer(v) };
        if init.is_null() { return Err(format!("external global {}", self.globs[id as usize].name)); }
        let mut buf = vec![0u8; size as usize];
        self.write_const(m, init, &mut buf, 0)?;
        let o = Rc::new(crate::mem::Obj::new_bytes(buf, crate::mem::Kind::Global));
        self.globs[id as usize].init = Some(o.clone());
        Ok(o)
    }
    fn write_const(&mut self, m: M, v: V, buf: &mut [u8], off: usize) -> Result<(), String> {
        unsafe {
            if LLVMIsUndef(v) != 0 || !LLVMIsAConstantAggregateZero(v).is_null() || LLVMIsNull(v) != 0 { return Ok(()); }
            let t = self.ty(m, LLVMTypeOf(v));
            match &t.k {
                K::Arr(n, e) | K::Arr(n, e) if !LLVMIsAConstantDataSequential(v).is_null() && e.size == 1 && LLVMIsConstantString(v) != 0 => {
                    let mut l = 0usize; let p = LLVMGetAsString(v, &mut l);
                    let l = l.min(*n as usize);
                    buf[off..off + l].copy_from_slice(std::slice::from_raw_parts(p as *const u8, l));
                    Ok(())
                }
                K::Arr(n, e) => { for i in 0..*n { let x = LLVMGetAggregateElement(v, i as u32); self.write_const(m, x, buf, off + (i * e.size) as usize)?; } Ok(()) }
                K::Vec(n, e) => { for i in 0..*n { let x = LLVMGetAggregateElement(v, i); self.write_const(m, x, buf, off + (i as u64 * e.size) as usize)?; } Ok(()) }
                K::Struct(f) => { for (i, (o, _)) in f.iter().enumerate() { let x = LLVMGetAggregateElement(v, i as u32); self.write_const(m, x, buf, off + *o as usize)?; } Ok(()) }
                _ => {
                    let c = self.konst(m, v)?;
                    let n = t.store as usize;
                    let x: u128 = match c { Val::C(x) => x as u128, Val::S(e) => self.ar.as_const(e).ok_or("symbolic const")?, _ => return Err("agg const".into()) };
                    for i in 0..n { buf[off + i] = (x >> (8 * i)) as u8; }
                    Ok(())
                }
            }
        }
    }
    pub fn zero(&mut self, t: &Ty) -> Val {
        match &t.k {
            K::Struct(f) => { let v = f.iter().map(|(_, e)| self.zero(e)).collect(); Val::A(Rc::new(v)) }
            K::Arr(n, e) => { let z = self.zero(e); Val::A(Rc::new(vec![z; *n as usize])) }
            K::Vec(n, e) => { let z = self.zero(e); Val::A(Rc::new(vec![z; *n as usize])) }
            K::Int(w) if *w > 64 => Val::S(self.ar.konst(*w, 0)),
            _ => Val::C(0),
        }
    }
    pub fn konst(&mut self, m: M, v: V) -> Result<Val, String> {
        unsafe {
            let v = Self::strip_alias(v);
            if !LLVMIsAFunction(v).is_null() { return Ok(Val::C(Self::fn_addr(self.fn_ref(v, m)))); }
            if !LLVMIsAGlobalVariable(v).is_null() { return Ok(Val::C((GLOB_BASE - 1 + self.glob_ref(v, m) as u64) << 32)); }
            let t = self.ty(m, LLVMTypeOf(v));
            if LLVMIsUndef(v) != 0 || LLVMIsNull(v) != 0 { return Ok(self.zero(&t)); }
            if !LLVMIsAConstantInt(v).is_null() {
                let w = t.w();
                if w <= 64 { return Ok(Val::C(LLVMConstIntGetZExtValue(v))); }
                let s = show(v); // "i128 1234"
                let n = s.split_whitespace().nth(1).ok_or("const")?;
                let x = if let Ok(x) = n.parse::<i128>() { x as u128 } else { n.parse::<u128>().map_err(|e| e.to_string())? };
                return Ok(Val::S(self.ar.konst(w, x)));
            }
            if !LLVMIsAConstantFP(v).is_null() {
                let mut l = 0; let d = LLVMConstRealGetDouble(v, &mut l);
                return Ok(Val::C(if t.k == K::F32 { (d as f32).to_bits() as u64 } else { d.to_bits() }));
            }
            match &t.k {
                K::Struct(f) => { let mut o = vec![]; for i in 0..f.len() { o.push(self.konst(m, LLVMGetAggregateElement(v, i as u32))?); } return Ok(Val::A(Rc::new(o))); }
                K::Arr(n, _) => { let mut o = vec![]; for i in 0..*n { o.push(self.konst(m, LLVMGetAggregateElement(v, i as u32))?); } return Ok(Val::A(Rc::new(o))); }
                K::Vec(n, _) if LLVMIsAConstantExpr(v).is_null() => { let mut o = vec![]; for i in 0..*n { o.push(self.konst(m, LLVMGetAggregateElement(v, i))?); } return Ok(Val::A(Rc::new(o))); }
                _ => {}
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                let a = self.konst(m, LLVMGetOperand(v, 0))?;
                let g = |x: &Val| match x { Val::C(c) => Ok(*c), _ => Err("const expr operand".to_string()) };
                return match op {
                    39 | 40 | 41 | 60 => Ok(a),
                    30 => Ok(Val::C(g(&a)? & mask(t.w()) as u64)),
                    29 => {
                        let (off, idx) = self.gep(m, v, &mut |p, x| { let c = p.konst(m, x)?; Ok(Opn::K(c)) })?;
                        if !idx.is_empty() { return Err("gep const idx".into()); }
                        Ok(Val::C(g(&a)?.wrapping_add(off as u64)))
                    }
                    8 | 10 | 25 | 23 | 24 => {
                        let b = self.konst(m, LLVMGetOperand(v, 1))?;
                        let (x, y) = (g(&a)?, g(&b)?);
                        let r = match op { 8 => x.wrapping_add(y), 10 => x.wrapping_sub(y), 25 => x ^ y, 23 => x & y, _ => x | y };
                        Ok(Val::C(r & mask(t.w()) as u64))
                    }
                    _ => Err(format!("const expr {}", show(v))),
                };
            }
            Err(format!("constant {}", show(v)))
        }
    }
    fn gep(&mut self, m: M, v: V, f: &mut dyn FnMut(&mut Self, V) -> Result<Opn, String>) -> Result<(i64, Vec<(Opn, u16, u64)>), String> {
        unsafe {
            let mut t = self.ty(m, LLVMGetGEPSourceElementType(v));
            let n = LLVMGetNumOperands(v);
            let mut off = 0i64;
            let mut idx = vec![];
            for i in 1..n {
                let x = LLVMGetOperand(v, i as u32);
                let xt = self.ty(m, LLVMTypeOf(x));
                if i > 1 {
                    let nt = match &t.k {
                        K::Struct(fs) => { let k = LLVMConstIntGetZExtValue(x) as usize; off += fs[k].0 as i64; Some(fs[k].1.clone()) }
                        K::Arr(_, e) | K::Vec(_, e) => { let e = e.clone(); t = e; None }
                        _ => return Err("gep type".into()),
                    };
                    if let Some(nt) = nt { t = nt; continue; }
                }
                let sz = t.size;
                match f(self, x)? {
                    Opn::K(Val::C(c)) => off = off.wrapping_add((sext128(c as u128, xt.w()) as i64).wrapping_mul(sz as i64)),
                    o => idx.push((o, xt.w(), sz)),
                }
            }
            Ok((off, idx))
        }
    }
    // ---- functions
    pub fn body(&mut self, id: u32) -> Result<Rc<Func>, String> {
        if let Some(b) = &self.funcs[id as usize].body { return Ok(b.clone()); }
        if self.funcs[id as usize].v.is_null() || unsafe { LLVMIsDeclaration(self.funcs[id as usize].v) } != 0 {
            let n = self.funcs[id as usize].name.clone();
            let m = self.ld.module_for(&n).ok_or_else(|| format!("no body for {} [{}]", self.funcs[id as usize].dem, n))?;
            let c = CString::new(n.clone()).unwrap();
            let mut v = unsafe { LLVMGetNamedFunction(m, c.as_ptr()) };
            let mut al = 0;
            if v.is_null() {
                let a = unsafe { LLVMGetNamedGlobalAlias(m, c.as_ptr(), n.len()) };
                if !a.is_null() { v = Self::strip_alias(a); al = 1; }
            }
            if v.is_null() || unsafe { LLVMIsAFunction(v).is_null() } { return Err(format!("symbol {n} is not a function ({al})")); }
            self.funcs[id as usize].v = v;
            self.funcs[id as usize].module = m;
        }
        let (v, m) = { let f = &self.funcs[id as usize]; (f.v, f.module) };
        materialize(v);
        let f = Rc::new(self.translate(id, v, m).map_err(|e| format!("{}: {}", self.funcs[id as usize].dem, e))?);
        self.funcs[id as usize].body = Some(f.clone());
        Ok(f)
    }
    fn translate(&mut self, id: u32, fv: V, m: M) -> Result<Func, String> {
        unsafe {
            let nargs = LLVMCountParams(fv);
            let mut regs: FxHashMap<usize, u32> = Default::default();
            let mut blk: FxHashMap<usize, u32> = Default::default();
            let mut rty: Vec<RTy> = vec![];
            for i in 0..nargs { let p = LLVMGetParam(fv, i); regs.insert(p as usize, i); let t = self.ty(m, LLVMTypeOf(p)); rty.push(t); }
            let mut nregs = nargs;
            let mut b = LLVMGetFirstBasicBlock(fv);
            let mut bl = vec![];
            if b.is_null() { return Err("empty body".into()); }
            while !b.is_null() {
                blk.insert(b as usize, bl.len() as u32);
                bl.push(b);
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() { regs.insert(i as usize, nregs); nregs += 1; let t = self.ty(m, LLVMTypeOf(i)); rty.push(t); i = LLVMGetNextInstruction(i); }
                b = LLVMGetNextBasicBlock(b);
            }
            let mut blocks = vec![];
            for &b in &bl {
                let mut out = Block { phis: vec![], ins: vec![], succ: vec![] };
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    let dst = regs[&(i as usize)];
                    if LLVMGetInstructionOpcode(i) == 44 {
                        let n = LLVMCountIncoming(i);
                        let mut inc = vec![];
                        for k in 0..n {
                            let o = self.opn(m, &regs, LLVMGetIncomingValue(i, k))?;
                            inc.push((blk[&(LLVMGetIncomingBlock(i, k) as usize)], o));
                        }
                        out.phis.push((dst, inc));
                    } else {
                        let x = match self.inst(m, &regs, &blk, i) { Ok(x) => x, Err(e) => I::Bad(format!("{e} in {}", show(i).chars().take(200).collect::<String>())) };
                        match &x {
                            I::Br(t) => out.succ.push(*t),
                            I::CBr { t, f, .. } => { out.succ.push(*t); out.succ.push(*f); }
                            I::Switch { cases, def, .. } => { for c in cases { out.succ.push(c.1); } out.succ.push(*def); }
                            I::Call { next: Some(n), .. } => out.succ.push(*n),
                            _ => {}
                        }
                        if !matches!(x, I::Nop) { out.ins.push(Inst { dst, i: x }); }
                    }
                    i = LLVMGetNextInstruction(i);
                }
                blocks.push(out);
            }
            Ok(Func { id, nregs, nargs, blocks, rty, flow: Default::default() })
        }
    }
    fn opn(&mut self, m: M, regs: &FxHashMap<usize, u32>, v: V) -> Result<Opn, String> {
        if let Some(&r) = regs.get(&(v as usize)) { return Ok(Opn::R(r)); }
        unsafe {
            if LLVMIsAConstant(v).is_null() { return Ok(Opn::K(Val::C(0))); } // metadata operands etc.
        }
        Ok(Opn::K(self.konst(m, v)?))
    }
    fn inst(&mut self, m: M, regs: &FxHashMap<usize, u32>, blk: &FxHashMap<usize, u32>, i: V) -> Result<I, String> {
        unsafe {
            let op = LLVMGetInstructionOpcode(i);
            let ty = self.ty(m, LLVMTypeOf(i));
            let nops = LLVMGetNumOperands(i);
            macro_rules! o { ($k:expr) => { self.opn(m, regs, LLVMGetOperand(i, $k))? } }
            let vecn = |t: &Ty| -> (u16, u32) { match &t.k { K::Vec(n, e) => (e.w(), *n), _ => (t.w(), 0) } };
            let bin = |op: u32| Some(match op { 8 => Op::Add, 10 => Op::Sub, 12 => Op::Mul, 14 => Op::UDiv, 15 => Op::SDiv, 17 => Op::URem, 18 => Op::SRem, 20 => Op::Shl, 21 => Op::LShr, 22 => Op::AShr, 23 => Op::And, 24 => Op::Or, 25 => Op::Xor, _ => return None });
            if let Some(bop) = bin(op) {
                let (w, n) = vecn(&ty);
                return Ok(I::Bin { op: bop, w, n, a: o!(0), b: o!(1) });
            }
            let t_of = |s: &mut Self, k: u32| s.ty(m, LLVMTypeOf(LLVMGetOperand(i, k)));
            Ok(match op {
                9 | 11 | 13 | 16 | 19 => I::FBin { op: match op { 9 => FOp::Add, 11 => FOp::Sub, 13 => FOp::Mul, 16 => FOp::Div, _ => FOp::Rem }, ty, a: o!(0), b: o!(1) },
                66 => I::FNeg { ty, a: o!(0) },
                1 => I::Ret(if nops > 0 { Some(o!(0)) } else { None }),
                3 => {
                    let v = LLVMGetOperand(i, 0);
                    let w = self.ty(m, LLVMTypeOf(v)).w();
                    let n = LLVMGetNumSuccessors(i);
                    let mut cases = vec![];
                    for k in 1..n { let c = LLVMGetSwitchCaseValue(i, k); cases.push((LLVMConstIntGetZExtValue(c), blk[&(LLVMGetSuccessor(i, k) as usize)])); }
                    I::Switch { w, v: self.opn(m, regs, v)?, cases, def: blk[&(LLVMGetSwitchDefaultDest(i) as usize)] }
                }
                7 => I::Unreachable,
                26 => { let t = self.ty(m, LLVMGetAllocatedType(i)); I::Alloca { size: t.size, align: t.align, n: if nops > 0 { o!(0) } else { Opn::K(Val::C(1)) } } }
                27 => I::Load { ty, p: o!(0) },
                28 => I::Store { ty: t_of(self, 0), v: o!(0), p: o!(1) },
                29 => {
                    if matches!(ty.k, K::Vec(..)) { return Err("vector gep".into()); }
                    let base = o!(0);
                    let (off, idx) = self.gep(m, i, &mut |p, x| p.opn(m, regs, x))?;
                    I::Gep { base, off, idx }
                }
                30 | 31 | 32 | 33 | 34 | 35 | 36 | 37 | 38 | 39 | 40 | 41 | 60 | 69 => {
                    let from = t_of(self, 0);
                    let c = match op { 30 => Cast::Trunc, 31 => Cast::ZExt, 32 => Cast::SExt, 33 => Cast::FpToUi, 34 => Cast::FpToSi, 35 => Cast::UiToFp, 36 => Cast::SiToFp, 37 => Cast::FpTrunc, 38 => Cast::FpExt, 41 => Cast::Bit,
                        _ => if from.w() == ty.w() { Cast::Bit } else if from.w() > ty.w() { Cast::Trunc } else { Cast::ZExt } };
                    I::Cast { op: c, from, to: ty, a: o!(0) }
                }
                42 => { let t = t_of(self, 0); let (w, n) = vecn(&t); I::ICmp { pred: LLVMGetICmpPredicate(i), w, n, a: o!(0), b: o!(1) } }
                43 => I::FCmp { pred: LLVMGetFCmpPredicate(i), ty: t_of(self, 0), a: o!(0), b: o!(1) },
                45 | 5 => {
                    let cv = LLVMGetCalledValue(i);
                    let n = LLVMGetNumArgOperands(i);
                    let mut args = vec![]; let mut aty = vec![];
                    let cv = Self::strip_alias(cv);
                    let is_f = !LLVMIsAFunction(cv).is_null();
                    if is_f {
                        let nm = name(cv);
                        if nm.starts_with("llvm.") {
                            if ["llvm.dbg.", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.fake.use", "llvm.prefetch"].iter().any(|p| nm.starts_with(p)) { return Ok(I::Nop); }
                        }
                    }
                    for k in 0..n { let a = LLVMGetArgOperand(i, k); aty.push(self.ty(m, LLVMTypeOf(a))); args.push(self.opn(m, regs, a)?); }
                    let callee = if is_f { Callee::F(self.fn_ref(cv, m)) } else if !LLVMIsAInlineAsm(cv).is_null() { Callee::Asm(show(i)) } else { Callee::Ind(self.opn(m, regs, cv)?) };
                    let next = if op == 5 { Some(blk[&(LLVMGetNormalDest(i) as usize)]) } else { None };
                    I::Call { callee, args, aty, ret: ty, next }
                }
                46 => { let ct = t_of(self, 0); I::Select { ty, vecc: matches!(ct.k, K::Vec(..)), c: o!(0), a: o!(1), b: o!(2) } }
                50 => I::ExtractElem { a: o!(0), i: o!(1) },
                51 => I::InsertElem { a: o!(0), v: o!(1), i: o!(2) },
                52 => {
                    let n = LLVMGetNumMaskElements(i);
                    let mask = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                    let t0 = t_of(self, 0); let (_, n0) = vecn(&t0);
                    I::Shuffle { a: o!(0), b: o!(1), mask, ty, n: n0 }
                }
                53 => { let n = LLVMGetNumIndices(i); let p = LLVMGetIndices(i); I::ExtractValue { a: o!(0), idx: (0..n).map(|k| *p.add(k as usize)).collect() } }
                54 => { let n = LLVMGetNumIndices(i); let p = LLVMGetIndices(i); I::InsertValue { a: o!(0), v: o!(1), idx: (0..n).map(|k| *p.add(k as usize)).collect() } }
                68 => I::Move(o!(0)),
                55 => I::Nop,
                56 => I::CmpXchg { ty: t_of(self, 1), p: o!(0), c: o!(1), n: o!(2) },
                57 => I::Rmw { op: LLVMGetAtomicRMWBinOp(i), ty, p: o!(0), v: o!(1) },
                58 | 59 => I::Bad("landing pad".into()),
                _ => {
                    let ns = LLVMGetNumSuccessors(i);
                    let s = show(i);
                    if s.trim_start().starts_with("br ") {
                        if ns == 1 { I::Br(blk[&(LLVMGetSuccessor(i, 0) as usize)]) }
                        else { I::CBr { c: self.opn(m, regs, LLVMGetCondition(i))?, t: blk[&(LLVMGetSuccessor(i, 0) as usize)], f: blk[&(LLVMGetSuccessor(i, 1) as usize)] } }
                    } else { return Err(format!("opcode {op}")); }
                }
            })
        }
    }
}

fn each_opn(i: &I, f: &mut dyn FnMut(&Opn)) {
    match i {
        I::Bin { a, b, .. } | I::FBin { a, b, .. } | I::ICmp { a, b, .. } | I::FCmp { a, b, .. } | I::Shuffle { a, b, .. } => { f(a); f(b); }
        I::FNeg { a, .. } | I::Cast { a, .. } | I::Move(a) | I::ExtractValue { a, .. } => f(a),
        I::Select { c, a, b, .. } => { f(c); f(a); f(b); }
        I::Load { p, .. } => f(p),
        I::Store { v, p, .. } | I::Rmw { v, p, .. } => { f(v); f(p); }
        I::Gep { base, idx, .. } => { f(base); for x in idx { f(&x.0); } }
        I::Alloca { n, .. } => f(n),
        I::Call { callee, args, .. } => { if let Callee::Ind(o) = callee { f(o); } for a in args { f(a); } }
        I::CBr { c, .. } => f(c),
        I::Switch { v, .. } => f(v),
        I::Ret(Some(o)) => f(o),
        I::InsertValue { a, v, .. } => { f(a); f(v); }
        I::ExtractElem { a, i } => { f(a); f(i); }
        I::InsertElem { a, v, i } => { f(a); f(v); f(i); }
        I::CmpXchg { p, c, n, .. } => { f(p); f(c); f(n); }
        _ => {}
    }
}

impl Func {
    pub fn flow(&self) -> &Flow { self.flow.get_or_init(|| self.compute_flow()) }
    fn compute_flow(&self) -> Flow {
        let n = self.blocks.len();
        // blocks that cannot return (they end in unreachable) are ignored for post-dominance
        let mut pred: Vec<Vec<u32>> = vec![vec![]; n];
        for (i, b) in self.blocks.iter().enumerate() { for &s in &b.succ { pred[s as usize].push(i as u32); } }
        let mut returns = vec![false; n];
        let mut st: Vec<u32> = vec![];
        for (i, b) in self.blocks.iter().enumerate() { if matches!(b.ins.last().map(|x| &x.i), Some(I::Ret(_))) { returns[i] = true; st.push(i as u32); } }
        while let Some(x) = st.pop() { for &p in &pred[x as usize] { if !returns[p as usize] { returns[p as usize] = true; st.push(p); } } }
        // post-dominators over reverse CFG with virtual exit n
        let mut order = vec![]; // reverse postorder on reverse graph
        let mut seen = vec![false; n];
        let mut stack: Vec<(u32, usize)> = vec![];
        let exits: Vec<u32> = (0..n as u32).filter(|&i| matches!(self.blocks[i as usize].ins.last().map(|x| &x.i), Some(I::Ret(_)))).collect();
        for &e in &exits {
            if seen[e as usize] { continue; }
            seen[e as usize] = true;
            stack.push((e, 0));
            while let Some((x, k)) = stack.pop() {
                if k < pred[x as usize].len() {
                    stack.push((x, k + 1));
                    let p = pred[x as usize][k];
                    if !seen[p as usize] { seen[p as usize] = true; stack.push((p, 0)); }
                } else { order.push(x); }
            }
        }
        order.reverse();
        let mut num = vec![usize::MAX; n + 1];
        num[n] = 0;
        for (i, &x) in order.iter().enumerate() { num[x as usize] = i + 1; }
        let mut idom: Vec<Option<usize>> = vec![None; n + 1];
        idom[n] = Some(n);
        let mut ch = true;
        while ch {
            ch = false;
            for &x in &order {
                let xi = x as usize;
                let mut new: Option<usize> = None;
                let mut cand: Vec<usize> = self.blocks[xi].succ.iter().filter(|s| returns[**s as usize]).map(|s| *s as usize).collect();
                if matches!(self.blocks[xi].ins.last().map(|x| &x.i), Some(I::Ret(_))) { cand.push(n); }
                for s in cand {
                    if idom[s].is_none() { continue; }
                    new = Some(match new { None => s, Some(mut a) => { let mut b = s; while a != b { while num[a] > num[b] { a = idom[a].unwrap(); } while num[b] > num[a] { b = idom[b].unwrap(); } } a } });
                }
                if new != idom[xi] { idom[xi] = new; ch = true; }
            }
        }
        let ipdom = (0..n).map(|i| match idom[i] { Some(x) if x < n => Some(x as u32), _ => None }).collect();
        // liveness just after a block's phis
        let words = (self.nregs as usize + 63) / 64;
        let mut gen = vec![vec![0u64; words]; n];
        let mut kill = vec![vec![0u64; words]; n];
        let mut phid = vec![vec![0u64; words]; n];
        let mut phi_use: Vec<Vec<u32>> = vec![vec![]; n];
        for (i, b) in self.blocks.iter().enumerate() {
            for (d, inc) in &b.phis {
                phid[i][*d as usize / 64] |= 1 << (d % 64);
                for (p, o) in inc { if let Opn::R(r) = o { phi_use[*p as usize].push(*r); } }
            }
            for ins in &b.ins {
                each_opn(&ins.i, &mut |o| if let Opn::R(r) = o { let (w, s) = (*r as usize / 64, r % 64); if kill[i][w] >> s & 1 == 0 { gen[i][w] |= 1 << s; } });
                kill[i][ins.dst as usize / 64] |= 1 << (ins.dst % 64);
            }
        }
        let mut live = gen.clone();
        let mut ch = true;
        while ch {
            ch = false;
            for i in (0..n).rev() {
                let mut out = vec![0u64; words];
                for &s in &self.blocks[i].succ { for w in 0..words { out[w] |= live[s as usize][w] & !phid[s as usize][w]; } }
                for &r in &phi_use[i] { out[r as usize / 64] |= 1 << (r % 64); }
                for w in 0..words {
                    let v = gen[i][w] | (out[w] & !kill[i][w]);
                    if v != live[i][w] { live[i][w] = v; ch = true; }
                }
            }
        }
        Flow { ipdom, live }
    }
}
#[allow(dead_code)]
fn unused(_: &CStr) {}
