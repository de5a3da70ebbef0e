#![allow(unused_imports, dead_code)]
#[path = "../../harness/src/vf.rs"]
pub mod vf;
#[path = "../../harness/src/com.rs"]
pub mod com;
pub mod st;
#[cfg(any(feature = "c34", feature = "c35", feature = "c36", feature = "c37"))] pub mod en;
macro_rules! props { ($($f:literal $m:ident),* $(,)?) => {
    $(#[cfg(feature = $f)] pub mod $m;)*
    pub fn entries() -> Vec<(&'static str, extern "C" fn())> { #[allow(unused_mut)] let mut v = vec![]; $(#[cfg(feature = $f)] v.extend_from_slice($m::ENTRIES);)* v }
} }
props! { "c26" c26, "c27" c27, "c28" c28, "c29" c29, "c30" c30, "c31" c31, "c32" c32, "c33" c33, "c34" c34, "c35" c35, "c36" c36, "c37" c37 }
