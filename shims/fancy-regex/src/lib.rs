//! Stand-in for fancy-regex at its API boundary: natively it is fancy-regex; inside the symbolic
//! executor `is_match` is an automaton built from the same pattern, as one formula over the text.
pub use real::*;
use std::sync::OnceLock;

extern "C" {
    fn vf_engine() -> bool;
    fn vf_regex(p: *const u8, n: usize, t: *const u8, m: usize) -> bool;
}

#[derive(Debug)]
pub struct Regex {
    pat: String,
    inner: OnceLock<real::Regex>,
}
impl Clone for Regex {
    fn clone(&self) -> Self { Regex { pat: self.pat.clone(), inner: OnceLock::new() } }
}
impl Regex {
    pub fn new(re: &str) -> Result<Regex> {
        if !unsafe { vf_engine() } {
            real::Regex::new(re)?;
        }
        Ok(Regex { pat: re.to_string(), inner: OnceLock::new() })
    }
    pub fn is_match(&self, text: &str) -> Result<bool> {
        if unsafe { vf_engine() } {
            return Ok(unsafe { vf_regex(self.pat.as_ptr(), self.pat.len(), text.as_ptr(), text.len()) });
        }
        self.is_match_real(text)
    }
    #[inline(never)]
    fn is_match_real(&self, text: &str) -> Result<bool> { self.real().is_match(text) }
    pub fn as_str(&self) -> &str { &self.pat }
    #[inline(never)]
    fn real(&self) -> &real::Regex { self.inner.get_or_init(|| real::Regex::new(&self.pat).unwrap()) }
}
impl std::ops::Deref for Regex {
    type Target = real::Regex;
    fn deref(&self) -> &real::Regex { self.real() }
}
