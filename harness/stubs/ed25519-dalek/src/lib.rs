//! Ideal signature scheme in place of ed25519-dalek: a signature is an arbitrary fresh 64-byte value
//! (canonical top bits clear) recorded together with key and message; it is the same value again when the
//! same key signs the same message; verification accepts exactly the recorded triples.
use ed25519::signature::{Error, Signer, Verifier};
pub use ed25519::Signature;

extern "C" {
    fn sym_stub_u8() -> u8;
    fn sym_eq_bytes(a: *const u8, b: *const u8, n: usize) -> bool;
    fn sym_and(a: bool, b: bool) -> bool;
    fn sym_or(a: bool, b: bool) -> bool;
    fn sym_surely(a: bool) -> bool;
    fn sym_ite_u8(c: bool, a: u8, b: u8) -> u8;
}

struct Entry { key: [u8; 32], message: Vec<u8>, signature: [u8; 64] }
static mut TABLE: Vec<Entry> = Vec::new();

#[allow(static_mut_refs)]
fn table() -> &'static mut Vec<Entry> { unsafe { &mut TABLE } }

pub const PUBLIC_KEY_LENGTH: usize = 32;
pub const SECRET_KEY_LENGTH: usize = 32;
pub const KEYPAIR_LENGTH: usize = 64;
pub const SIGNATURE_LENGTH: usize = 64;

pub type SignatureError = Error;

pub struct SecretKey([u8; 32]);
impl SecretKey {
    pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn from_bytes(b: &[u8]) -> Result<SecretKey, Error> { Ok(SecretKey(arr(b)?)) }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct PublicKey([u8; 32]);
pub struct Keypair { pub secret: SecretKey, pub public: PublicKey }

fn arr(b: &[u8]) -> Result<[u8; 32], Error> {
    if b.len() != 32 { return Err(Error::new()) }
    let mut a = [0u8; 32];
    a.copy_from_slice(b);
    Ok(a)
}
impl PublicKey {
    pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn from_bytes(b: &[u8]) -> Result<PublicKey, Error> { Ok(PublicKey(arr(b)?)) }
    pub fn verify_strict(&self, m: &[u8], s: &Signature) -> Result<(), Error> { self.verify(m, s) }
}
impl Keypair {
    pub fn from_bytes(b: &[u8]) -> Result<Keypair, Error> {
        if b.len() != 64 { return Err(Error::new()) }
        Ok(Keypair { secret: SecretKey(arr(&b[..32])?), public: PublicKey(arr(&b[32..])?) })
    }
    pub fn to_bytes(&self) -> [u8; 64] {
        let mut o = [0u8; 64];
        o[..32].copy_from_slice(&self.secret.0);
        o[32..].copy_from_slice(&self.public.0);
        o
    }
    #[cfg(feature = "rand")]
    pub fn generate<R: rand_core::RngCore>(r: &mut R) -> Keypair {
        let mut a = [0u8; 64];
        r.fill_bytes(&mut a);
        Keypair::from_bytes(&a).unwrap()
    }
}
fn same(e: &Entry, key: &[u8; 32], m: &[u8]) -> bool {
    if e.message.len() != m.len() { return false }
    unsafe { sym_and(sym_eq_bytes(e.key.as_ptr(), key.as_ptr(), 32), sym_eq_bytes(e.message.as_ptr(), m.as_ptr(), m.len())) }
}
impl Signer<Signature> for Keypair {
    fn try_sign(&self, m: &[u8]) -> Result<Signature, Error> {
        // key pairs whose halves do not belong together produce signatures that verify with neither
        let key = self.public.0;
        for e in table().iter() { if unsafe { sym_surely(same(e, &key, m)) } { return Ok(Signature::from_bytes(&e.signature).unwrap()) } }
        let mut s = [0u8; 64];
        for (i, b) in s.iter_mut().enumerate() { *b = unsafe { sym_stub_u8() }; if i == 63 { *b &= 0x1f } }
        for e in table().iter() {
            let c = same(e, &key, m);
            for i in 0..64 { s[i] = unsafe { sym_ite_u8(c, e.signature[i], s[i]) } }
        }
        table().push(Entry { key, message: m.to_vec(), signature: s });
        Ok(Signature::from_bytes(&s).unwrap())
    }
}
impl Verifier<Signature> for PublicKey {
    fn verify(&self, m: &[u8], s: &Signature) -> Result<(), Error> {
        let b = s.to_bytes();
        let mut ok = false;
        for e in table().iter() {
            let c = unsafe { sym_and(same(e, &self.0, m), sym_eq_bytes(e.signature.as_ptr(), b.as_ptr(), 64)) };
            ok = unsafe { sym_or(ok, c) };
        }
        if ok { Ok(()) } else { Err(Error::new()) }
    }
}
