//! Stand-in for ed25519-dalek at its API boundary: natively it is ed25519-dalek; inside the symbolic
//! executor a signature verifies exactly when it is one the harness produced (`vf_ed_sign`) for the
//! same key and message (unforgeability), plus the small-order key that lenient verification accepts.
pub use real::*;

extern "C" {
    fn vf_engine() -> bool;
    fn vf_ed_pk(pk: *const u8) -> bool;
    fn vf_ed_verify(pk: *const u8, msg: *const u8, n: usize, sig: *const u8, strict: bool) -> bool;
}

#[derive(Clone, Copy, Debug)]
pub struct VerifyingKey { b: [u8; 32], real: Option<real::VerifyingKey> }
impl PartialEq for VerifyingKey { fn eq(&self, o: &Self) -> bool { self.b == o.b } }
impl Eq for VerifyingKey {}
impl std::hash::Hash for VerifyingKey { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.b.hash(h) } }

impl VerifyingKey {
    pub fn from_bytes(b: &[u8; 32]) -> Result<Self, SignatureError> {
        if unsafe { vf_engine() } {
            return if unsafe { vf_ed_pk(b.as_ptr()) } { Ok(VerifyingKey { b: *b, real: None }) } else { Err(SignatureError::new()) };
        }
        Self::from_real(b)
    }
    #[inline(never)]
    fn from_real(b: &[u8; 32]) -> Result<Self, SignatureError> { Ok(VerifyingKey { b: *b, real: Some(real::VerifyingKey::from_bytes(b)?) }) }
    pub fn to_bytes(&self) -> [u8; 32] { self.b }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.b }
    pub fn verify_strict(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> { self.go(m, s, true) }
    fn go(&self, m: &[u8], s: &Signature, strict: bool) -> Result<(), SignatureError> {
        if unsafe { vf_engine() } {
            let sb = s.to_bytes();
            return if unsafe { vf_ed_verify(self.b.as_ptr(), m.as_ptr(), m.len(), sb.as_ptr(), strict) } { Ok(()) } else { Err(SignatureError::new()) };
        }
        self.go_real(m, s, strict)
    }
    #[inline(never)]
    fn go_real(&self, m: &[u8], s: &Signature, strict: bool) -> Result<(), SignatureError> {
        let r = self.real.unwrap();
        if strict { r.verify_strict(m, s) } else { real::Verifier::verify(&r, m, s) }
    }
    pub fn is_weak(&self) -> bool { self.real.map_or(false, |r| r.is_weak()) }
}
impl Verifier<Signature> for VerifyingKey { fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> { self.go(m, s, false) } }
impl TryFrom<&[u8]> for VerifyingKey {
    type Error = SignatureError;
    fn try_from(b: &[u8]) -> Result<Self, SignatureError> { match <&[u8; 32]>::try_from(b) { Ok(b) => Self::from_bytes(b), Err(_) => Err(SignatureError::new()) } }
}
impl AsRef<[u8]> for VerifyingKey { fn as_ref(&self) -> &[u8] { &self.b } }
impl From<real::VerifyingKey> for VerifyingKey { fn from(r: real::VerifyingKey) -> Self { VerifyingKey { b: r.to_bytes(), real: Some(r) } } }
impl PartialEq<real::VerifyingKey> for VerifyingKey { fn eq(&self, o: &real::VerifyingKey) -> bool { self.b == o.to_bytes() } }

pub fn verify_batch(m: &[&[u8]], s: &[Signature], k: &[VerifyingKey]) -> Result<(), SignatureError> {
    if m.len() != s.len() || s.len() != k.len() { return Err(SignatureError::new()); }
    if unsafe { vf_engine() } {
        for i in 0..m.len() { k[i].go(m[i], &s[i], false)?; }
        return Ok(());
    }
    let k: Vec<real::VerifyingKey> = k.iter().map(|k| k.real.unwrap()).collect();
    real::verify_batch(m, s, &k)
}
