#![allow(unused_imports, dead_code)]
pub mod vf;
pub mod com;
macro_rules! props { ($($f:literal $m:ident),* $(,)?) => {
    $(#[cfg(feature = $f)] pub mod $m;)*
    pub fn entries() -> Vec<(&'static str, extern "C" fn())> { #[allow(unused_mut)] let mut v = vec![]; $(#[cfg(feature = $f)] v.extend_from_slice($m::ENTRIES);)* v }
} }
props! { "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c05p" c05p, "c06" c06, "c07" c07, "c07p" c07p, "c08" c08, "c08p" c08p, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c13p" c13p, "c14" c14, "c14p" c14p, "c15" c15, "c15p" c15p, "c16" c16, "c16p" c16p, "c17" c17, "c17p" c17p, "c18" c18, "c18p" c18p, "c19" c19, "c19p" c19p, "c20" c20, "c20p" c20p, "c21" c21, "c22" c22, "c22p" c22p, "c23" c23, "c23p" c23p, "c24" c24, "c25" c25 }
