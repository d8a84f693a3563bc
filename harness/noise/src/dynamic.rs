//! The crate's statically typed states behind object-safe traits, so that a generated sequence of
//! operations can drive any configuration.

use aead::{AeadCore, NewAead};
use byteorder::{BigEndian, LittleEndian};
use generic_array::typenum::{self, Unsigned};
use generic_array::GenericArray;
use std::marker::PhantomData;
use vru_noise::{ChainingKey, Cipher, Config, Key, Rotor, SymmetricState};

pub const CAP: u64 = 10;

/// How a buffer is handed over: in place with a detached tag, growing, or through the
/// direction's own object.
#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Mode {
    InPlace,
    Ext,
    Direction,
}

pub trait Sym {
    fn mix_hash(self: Box<Self>, d: &[u8]) -> Box<dyn Sym>;
    fn mix_key(self: Box<Self>, d: &[u8]) -> Box<dyn Sym>;
    fn mix_psk(self: Box<Self>, d: &[u8]) -> Box<dyn Sym>;
    /// the number of encryptions since the last key, or None without a key
    fn keyed(&self) -> Option<u64>;
    /// ciphertext and tag; needs a key and less than CAP encryptions under it
    fn encrypt(self: Box<Self>, d: &[u8], m: Mode) -> (Box<dyn Sym>, Vec<u8>);
    /// the plaintext, or what is left in the buffer
    fn decrypt(self: Box<Self>, d: &[u8], tag: &[u8]) -> Result<(Box<dyn Sym>, Vec<u8>), Vec<u8>>;
    fn hash(&self) -> Vec<u8>;
    fn finish(self: Box<Self>, interval: u64) -> (Box<dyn Ciph>, Vec<u8>);
}

pub trait Ciph {
    /// ciphertext followed by the tag
    fn encrypt(&mut self, ad: &[u8], d: &[u8], m: Mode) -> Vec<u8>;
    /// the first tag-length bytes short of the end are the ciphertext; shorter inputs only via Ext
    fn decrypt(&mut self, ad: &[u8], d: &[u8], m: Mode) -> Result<Vec<u8>, Vec<u8>>;
    fn swap(self: Box<Self>) -> Box<dyn Ciph>;
    fn copy(&self) -> Box<dyn Ciph>;
    /// moves a direction's message counter from a known current value; false if it was not found
    fn poke(&mut self, send: bool, from: u64, to: u64) -> bool;
}

pub enum Dyn<C: Config> {
    Ck(SymmetricState<C, ChainingKey<C>>),
    K0(SymmetricState<C, Key<C, typenum::U0>>),
    K1(SymmetricState<C, Key<C, typenum::U1>>),
    K2(SymmetricState<C, Key<C, typenum::U2>>),
    K3(SymmetricState<C, Key<C, typenum::U3>>),
    K4(SymmetricState<C, Key<C, typenum::U4>>),
    K5(SymmetricState<C, Key<C, typenum::U5>>),
    K6(SymmetricState<C, Key<C, typenum::U6>>),
    K7(SymmetricState<C, Key<C, typenum::U7>>),
    K8(SymmetricState<C, Key<C, typenum::U8>>),
    K9(SymmetricState<C, Key<C, typenum::U9>>),
    K10(SymmetricState<C, Key<C, typenum::U10>>),
}

macro_rules! all {
    ($self:expr, $s:ident => $e:expr) => {
        match $self {
            Dyn::Ck($s) => $e,
            Dyn::K0($s) => $e,
            Dyn::K1($s) => $e,
            Dyn::K2($s) => $e,
            Dyn::K3($s) => $e,
            Dyn::K4($s) => $e,
            Dyn::K5($s) => $e,
            Dyn::K6($s) => $e,
            Dyn::K7($s) => $e,
            Dyn::K8($s) => $e,
            Dyn::K9($s) => $e,
            Dyn::K10($s) => $e,
        }
    };
}

macro_rules! keyed {
    ($self:expr, $s:ident, $wrap:ident => $e:expr) => {
        match $self {
            Dyn::K0($s) => { let $wrap = Dyn::K1; $e }
            Dyn::K1($s) => { let $wrap = Dyn::K2; $e }
            Dyn::K2($s) => { let $wrap = Dyn::K3; $e }
            Dyn::K3($s) => { let $wrap = Dyn::K4; $e }
            Dyn::K4($s) => { let $wrap = Dyn::K5; $e }
            Dyn::K5($s) => { let $wrap = Dyn::K6; $e }
            Dyn::K6($s) => { let $wrap = Dyn::K7; $e }
            Dyn::K7($s) => { let $wrap = Dyn::K8; $e }
            Dyn::K8($s) => { let $wrap = Dyn::K9; $e }
            Dyn::K9($s) => { let $wrap = Dyn::K10; $e }
            Dyn::Ck(_) | Dyn::K10(_) => panic!("harness: no key, or too many encryptions"),
        }
    };
}

fn map_hash<C: Config>(d: Dyn<C>, x: &[u8]) -> Dyn<C> {
    match d {
        Dyn::Ck(s) => Dyn::Ck(s.mix_hash(x)),
        Dyn::K0(s) => Dyn::K0(s.mix_hash(x)),
        Dyn::K1(s) => Dyn::K1(s.mix_hash(x)),
        Dyn::K2(s) => Dyn::K2(s.mix_hash(x)),
        Dyn::K3(s) => Dyn::K3(s.mix_hash(x)),
        Dyn::K4(s) => Dyn::K4(s.mix_hash(x)),
        Dyn::K5(s) => Dyn::K5(s.mix_hash(x)),
        Dyn::K6(s) => Dyn::K6(s.mix_hash(x)),
        Dyn::K7(s) => Dyn::K7(s.mix_hash(x)),
        Dyn::K8(s) => Dyn::K8(s.mix_hash(x)),
        Dyn::K9(s) => Dyn::K9(s.mix_hash(x)),
        Dyn::K10(s) => Dyn::K10(s.mix_hash(x)),
    }
}

impl<C: Config + Clone + 'static> Sym for Dyn<C>
where
    C::Aead: Rekey,
{
    fn mix_hash(self: Box<Self>, d: &[u8]) -> Box<dyn Sym> {
        Box::new(map_hash(*self, d))
    }
    fn mix_key(self: Box<Self>, d: &[u8]) -> Box<dyn Sym> {
        Box::new(Dyn::K0(all!(*self, s => s.mix_shared_secret(d))))
    }
    fn mix_psk(self: Box<Self>, d: &[u8]) -> Box<dyn Sym> {
        Box::new(Dyn::K0(all!(*self, s => s.mix_psk(d))))
    }
    fn keyed(&self) -> Option<u64> {
        match self {
            Dyn::Ck(_) => None,
            Dyn::K0(_) => Some(0),
            Dyn::K1(_) => Some(1),
            Dyn::K2(_) => Some(2),
            Dyn::K3(_) => Some(3),
            Dyn::K4(_) => Some(4),
            Dyn::K5(_) => Some(5),
            Dyn::K6(_) => Some(6),
            Dyn::K7(_) => Some(7),
            Dyn::K8(_) => Some(8),
            Dyn::K9(_) => Some(9),
            Dyn::K10(_) => Some(10),
        }
    }
    fn encrypt(self: Box<Self>, d: &[u8], m: Mode) -> (Box<dyn Sym>, Vec<u8>) {
        let mut buf = d.to_vec();
        let next: Dyn<C> = keyed!(*self, s, wrap => {
            if m == Mode::Ext {
                wrap(s.encrypt_ext(&mut buf))
            } else {
                let (s, tag) = s.encrypt(&mut buf);
                buf.extend_from_slice(&tag);
                wrap(s)
            }
        });
        (Box::new(next), buf)
    }
    fn decrypt(self: Box<Self>, d: &[u8], tag: &[u8]) -> Result<(Box<dyn Sym>, Vec<u8>), Vec<u8>> {
        let mut buf = d.to_vec();
        let tag = GenericArray::clone_from_slice(tag);
        let next: Result<Dyn<C>, _> = keyed!(*self, s, wrap => s.decrypt(&mut buf, tag).map(wrap));
        match next {
            Ok(s) => Ok((Box::new(s), buf)),
            Err(_) => Err(buf),
        }
    }
    fn hash(&self) -> Vec<u8> {
        all!(self, s => s.hash().to_vec())
    }
    fn finish(self: Box<Self>, interval: u64) -> (Box<dyn Ciph>, Vec<u8>) {
        macro_rules! go {
            ($r:ty) => {{
                let (c, h) = all!(*self, s => s.finish::<$r>());
                (Box::new(c) as Box<dyn Ciph>, h.to_vec())
            }};
        }
        match interval {
            0 => go!(PhantomData<C>),
            1 => go!(Turn<1>),
            2 => go!(Turn<2>),
            3 => go!(Turn<3>),
            5 => go!(Turn<5>),
            8 => go!(Turn<8>),
            100 => go!(Turn<100>),
            256 => go!(Turn<256>),
            1000 => go!(Turn<1000>),
            65536 => go!(Turn<65536>),
            0x1_0000_0000 => go!(Turn<0x1_0000_0000>),
            0x1_0000_0003 => go!(Turn<0x1_0000_0003>),
            _ => panic!("harness: interval {interval}"),
        }
    }
}

pub const INTERVALS: [u64; 9] = [1, 2, 3, 5, 8, 100, 256, 1000, 65536];

/// How to give an AEAD object a new key.
pub trait Rekey: NewAead {
    fn rekey(key: &[u8; 32]) -> Self;
}
impl Rekey for chacha20poly1305::ChaCha20Poly1305 {
    fn rekey(key: &[u8; 32]) -> Self {
        Self::new(key.into())
    }
}
impl Rekey for aes_gcm::Aes256Gcm {
    fn rekey(key: &[u8; 32]) -> Self {
        Self::new(key.into())
    }
}

thread_local! {
    /// the arguments each rotation policy was created with: chaining key, key
    pub static CREATED: std::cell::RefCell<Vec<(Vec<u8>, Vec<u8>)>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// A rotation policy with a predictable key sequence: key[i+1] = SHA3-256(ck || key[i]).
#[derive(Clone)]
pub struct Turn<const I: u64> {
    ck: Vec<u8>,
    key: [u8; 32],
}

pub fn turn(ck: &[u8], key: &[u8; 32]) -> [u8; 32] {
    refmodel::sha3_256(&[ck, key])
}

impl<C: Config, const I: u64> Rotor<C> for Turn<I>
where
    C::Aead: Rekey,
{
    const INTERVAL: u64 = I;
    fn new(chaining_key: ChainingKey<C>, key: vru_noise::Aead<C>) -> Self {
        CREATED.with(|c| c.borrow_mut().push((chaining_key.to_vec(), key.to_vec())));
        Turn { ck: chaining_key.to_vec(), key: key[..].try_into().expect("32-byte key") }
    }
    fn rotate(&mut self, key: &mut C::Aead) {
        self.key = turn(&self.ck, &self.key);
        *key = C::Aead::rekey(&self.key);
    }
}

impl<C: Config + Clone + 'static, R: Rotor<C> + Clone + 'static> Ciph for Cipher<C, R> {
    fn encrypt(&mut self, ad: &[u8], d: &[u8], m: Mode) -> Vec<u8> {
        let mut buf = d.to_vec();
        match m {
            Mode::Ext => {
                self.encrypt_ext(ad, &mut buf);
            }
            Mode::InPlace => {
                let tag = Cipher::encrypt(self, ad, &mut buf);
                buf.extend_from_slice(&tag);
            }
            Mode::Direction => {
                let tag = self.send.encrypt(ad, &mut buf);
                buf.extend_from_slice(&tag);
            }
        }
        buf
    }
    fn decrypt(&mut self, ad: &[u8], d: &[u8], m: Mode) -> Result<Vec<u8>, Vec<u8>> {
        let tag_len = <<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE;
        let mut buf = d.to_vec();
        let r = if m == Mode::Ext || d.len() < tag_len {
            self.decrypt_ext(ad, &mut buf)
        } else {
            let tag = GenericArray::clone_from_slice(&d[d.len() - tag_len..]);
            buf.truncate(d.len() - tag_len);
            if m == Mode::InPlace {
                Cipher::decrypt(self, ad, &mut buf, &tag)
            } else {
                self.receive.decrypt(ad, &mut buf, &tag)
            }
        };
        match r {
            Ok(()) => Ok(buf),
            Err(_) => Err(buf),
        }
    }
    fn swap(self: Box<Self>) -> Box<dyn Ciph> {
        Box::new(Cipher::swap(*self))
    }
    fn copy(&self) -> Box<dyn Ciph> {
        Box::new(self.clone())
    }
    fn poke(&mut self, send: bool, from: u64, to: u64) -> bool {
        if send {
            poke(&mut self.send, from, to)
        } else {
            poke(&mut self.receive, from, to)
        }
    }
}

/// Finds the one place in the object's memory that holds the counter `from` and overwrites it.
/// Deep counters cannot be reached by counting; the object is private, so its memory is edited.
fn poke<T>(x: &mut T, from: u64, to: u64) -> bool {
    let n = std::mem::size_of::<T>();
    let mem = unsafe { std::slice::from_raw_parts_mut(x as *mut T as *mut u8, n) };
    let mut found = Vec::new();
    for (width, big) in [(8usize, false), (8, true), (4, false)] {
        let pat: Vec<u8> = match (width, big) {
            (8, false) => from.to_le_bytes().to_vec(),
            (8, true) => from.to_be_bytes().to_vec(),
            _ => (from as u32).to_le_bytes().to_vec(),
        };
        for i in 0..(n + 1).saturating_sub(width) {
            if mem[i..i + width] == pat[..] {
                found.push((i, width, big));
            }
        }
        if !found.is_empty() {
            break;
        }
    }
    if found.len() != 1 {
        return false;
    }
    let (i, width, big) = found[0];
    match (width, big) {
        (8, false) => mem[i..i + 8].copy_from_slice(&to.to_le_bytes()),
        (8, true) => mem[i..i + 8].copy_from_slice(&to.to_be_bytes()),
        _ => mem[i..i + 4].copy_from_slice(&(to as u32).to_le_bytes()),
    }
    true
}

/// The configurations under test: (hash, AEAD) with the byte order the AEAD's nonce needs.
pub const CONFIGS: [(refmodel::H, refmodel::noise::A); 7] = {
    use refmodel::{noise::A::*, H::*};
    [
        (Sha256, ChaChaPoly),
        (Sha512, AesGcm),
        (Sha512, ChaChaPoly),
        (Sha256, AesGcm),
        (Sha3_256, ChaChaPoly),
        (Sha3_512, ChaChaPoly),
        (Sha3_256, AesGcm),
    ]
};

pub fn start(config: usize, name: &str) -> Box<dyn Sym> {
    use aes_gcm::Aes256Gcm;
    use chacha20poly1305::ChaCha20Poly1305;
    match config {
        0 => Box::new(Dyn::<(sha2::Sha256, LittleEndian, ChaCha20Poly1305)>::Ck(SymmetricState::new(name))),
        1 => Box::new(Dyn::<(sha2::Sha512, BigEndian, Aes256Gcm)>::Ck(SymmetricState::new(name))),
        2 => Box::new(Dyn::<(sha2::Sha512, LittleEndian, ChaCha20Poly1305)>::Ck(SymmetricState::new(name))),
        3 => Box::new(Dyn::<(sha2::Sha256, BigEndian, Aes256Gcm)>::Ck(SymmetricState::new(name))),
        4 => Box::new(Dyn::<(sha3::Sha3_256, LittleEndian, ChaCha20Poly1305)>::Ck(SymmetricState::new(name))),
        5 => Box::new(Dyn::<(sha3::Sha3_512, LittleEndian, ChaCha20Poly1305)>::Ck(SymmetricState::new(name))),
        6 => Box::new(Dyn::<(sha3::Sha3_256, BigEndian, Aes256Gcm)>::Ck(SymmetricState::new(name))),
        _ => panic!("harness: configuration {config}"),
    }
}
