//! Symbol index over the bitcode of every rlib of the build, with lazy module loading.
use crate::llvm::*;
use memmap2::Mmap;
use rustc_hash::FxHashMap;
use std::ffi::CString;
use std::fs::File;

pub struct Loader {
    maps: Vec<(String, Mmap)>,
    /// symbol -> (archive, member header offset)
    index: FxHashMap<&'static [u8], (u32, u64)>,
    mods: FxHashMap<(u32, u64), M>,
    ctx: *mut std::ffi::c_void,
    pub loaded: usize,
}

fn elf_section(d: &[u8], want: &str) -> Option<(usize, usize)> {
    let u16a = |o: usize| u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as usize;
    let u32a = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as usize;
    let u64a = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) as usize;
    let shoff = u64a(0x28); let shes = u16a(0x3a); let mut shn = u16a(0x3c); let mut stri = u16a(0x3e);
    if shn == 0 { shn = u64a(shoff + 0x20); }
    if stri == 0xffff { stri = u32a(shoff + 0x28); }
    let str_off = u64a(shoff + stri * shes + 0x18);
    for i in 0..shn {
        let h = shoff + i * shes;
        let n = str_off + u32a(h);
        let end = d[n..].iter().position(|&b| b == 0).unwrap() + n;
        if &d[n..end] == want.as_bytes() { return Some((u64a(h + 0x18), u64a(h + 0x20))); }
    }
    None
}

impl Loader {
    pub fn new(paths: &[String]) -> Self {
        let mut l = Loader { maps: vec![], index: Default::default(), mods: Default::default(), ctx: unsafe { LLVMContextCreate() }, loaded: 0 };
        for p in paths {
            let f = match File::open(p) { Ok(f) => f, Err(e) => { eprintln!("cannot open {p}: {e}"); std::process::exit(70) } };
            let m = unsafe { Mmap::map(&f).unwrap() };
            l.maps.push((p.clone(), m));
            let i = l.maps.len() - 1;
            l.add(i);
        }
        l
    }
    fn add(&mut self, i: usize) {
        let d: &'static [u8] = unsafe { std::slice::from_raw_parts(self.maps[i].1.as_ptr(), self.maps[i].1.len()) };
        if d.len() < 8 || &d[..8] != b"!<arch>\n" {
            // plain bitcode file: index all its symbols eagerly
            eprintln!("not an archive: {}", self.maps[i].0); std::process::exit(70);
        }
        let mut o = 8;
        while o + 60 <= d.len() {
            let h = &d[o..o + 60];
            let size: usize = std::str::from_utf8(&h[48..58]).unwrap().trim().parse().unwrap();
            let name = &h[..16];
            let body = &d[o + 60..o + 60 + size];
            if name.starts_with(b"/ ") || name.starts_with(b"/SYM64/") {
                let w = if name.starts_with(b"/ ") { 4 } else { 8 };
                let rd = |p: usize| if w == 4 { u32::from_be_bytes(body[p..p + 4].try_into().unwrap()) as u64 } else { u64::from_be_bytes(body[p..p + 8].try_into().unwrap()) };
                let n = rd(0) as usize;
                let mut s = w + n * w;
                for k in 0..n {
                    let off = rd(w + k * w);
                    let e = body[s..].iter().position(|&b| b == 0).unwrap() + s;
                    self.index.entry(&body[s..e]).or_insert((i as u32, off));
                    s = e + 1;
                }
                return;
            }
            o += 60 + size + (size & 1);
        }
    }
    pub fn has(&self, name: &str) -> bool { self.index.contains_key(name.as_bytes()) }
    pub fn find_symbols(&self, pred: impl Fn(&str) -> bool) -> Vec<String> {
        self.index.keys().filter_map(|k| std::str::from_utf8(k).ok()).filter(|s| pred(s)).map(|s| s.to_string()).collect()
    }
    pub fn module_for(&mut self, name: &str) -> Option<M> {
        let &(a, off) = self.index.get(name.as_bytes())?;
        if let Some(&m) = self.mods.get(&(a, off)) { return Some(m); }
        let d: &'static [u8] = unsafe { std::slice::from_raw_parts(self.maps[a as usize].1.as_ptr(), self.maps[a as usize].1.len()) };
        let h = &d[off as usize..off as usize + 60];
        let size: usize = std::str::from_utf8(&h[48..58]).unwrap().trim().parse().unwrap();
        let mut body = &d[off as usize + 60..off as usize + 60 + size];
        if body.starts_with(b"\x7fELF") {
            let (o, n) = elf_section(body, ".llvmbc")?;
            body = &body[o..o + n];
        }
        if !(body.starts_with(b"BC\xc0\xde") || body.starts_with(b"\xde\xc0\x17\x0b")) { return None; }
        // copy: LLVM wants aligned memory
        let buf: &'static mut [u64] = Box::leak(vec![0u64; body.len() / 8 + 2].into_boxed_slice());
        let bytes = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, body.len()) };
        bytes.copy_from_slice(body);
        let nm = CString::new(format!("{}@{}", self.maps[a as usize].0, off)).unwrap();
        unsafe {
            let mb = LLVMCreateMemoryBufferWithMemoryRange(bytes.as_ptr() as *const _, bytes.len(), nm.as_ptr(), 0);
            let mut m = std::ptr::null_mut();
            if LLVMGetBitcodeModuleInContext2(self.ctx, mb, &mut m) != 0 { eprintln!("bad bitcode in {:?}", nm); std::process::exit(70); }
            self.loaded += 1;
            self.mods.insert((a, off), m);
            Some(m)
        }
    }
}
