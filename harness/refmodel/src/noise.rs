//! The Noise symmetric state and cipher states, from the specification (revision 34, section 5).

use crate::H;
use aes_gcm::aead::{Aead, NewAead, Payload};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum A {
    ChaChaPoly,
    AesGcm,
}

impl A {
    /// the 12-byte nonce for counter n
    pub fn nonce(self, n: u64) -> [u8; 12] {
        let mut r = [0; 12];
        match self {
            A::ChaChaPoly => r[4..].copy_from_slice(&n.to_le_bytes()),
            A::AesGcm => r[4..].copy_from_slice(&n.to_be_bytes()),
        }
        r
    }
    /// ciphertext followed by the tag
    pub fn seal(self, key: &[u8], n: u64, ad: &[u8], plain: &[u8]) -> Vec<u8> {
        let nonce = self.nonce(n);
        let p = Payload { msg: plain, aad: ad };
        match self {
            A::ChaChaPoly => chacha20poly1305::ChaCha20Poly1305::new_from_slice(key).unwrap().encrypt((&nonce).into(), p).unwrap(),
            A::AesGcm => aes_gcm::Aes256Gcm::new_from_slice(key).unwrap().encrypt((&nonce).into(), p).unwrap(),
        }
    }
    pub fn open(self, key: &[u8], n: u64, ad: &[u8], sealed: &[u8]) -> Option<Vec<u8>> {
        let nonce = self.nonce(n);
        let p = Payload { msg: sealed, aad: ad };
        match self {
            A::ChaChaPoly => chacha20poly1305::ChaCha20Poly1305::new_from_slice(key).unwrap().decrypt((&nonce).into(), p).ok(),
            A::AesGcm => aes_gcm::Aes256Gcm::new_from_slice(key).unwrap().decrypt((&nonce).into(), p).ok(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Symmetric {
    pub hash: H,
    pub aead: A,
    pub ck: Vec<u8>,
    pub h: Vec<u8>,
    pub k: Option<[u8; 32]>,
    pub n: u64,
}

fn key(v: &[u8]) -> [u8; 32] {
    v[..32].try_into().unwrap()
}

impl Symmetric {
    pub fn new(hash: H, aead: A, name: &[u8]) -> Self {
        let h = if name.len() <= hash.len() {
            let mut v = name.to_vec();
            v.resize(hash.len(), 0);
            v
        } else {
            hash.hash(&[name])
        };
        Symmetric { hash, aead, ck: h.clone(), h, k: None, n: 0 }
    }
    pub fn mix_hash(&mut self, data: &[u8]) {
        self.h = self.hash.hash(&[&self.h, data]);
    }
    pub fn mix_key(&mut self, ikm: &[u8]) {
        let o = self.hash.hkdf(&self.ck, ikm, 2);
        self.ck = o[0].clone();
        self.k = Some(key(&o[1]));
        self.n = 0;
    }
    pub fn mix_key_and_hash(&mut self, ikm: &[u8]) {
        let o = self.hash.hkdf(&self.ck, ikm, 3);
        self.ck = o[0].clone();
        self.mix_hash(&o[1]);
        self.k = Some(key(&o[2]));
        self.n = 0;
    }
    /// EncryptAndHash
    pub fn encrypt(&mut self, plain: &[u8]) -> Vec<u8> {
        let c = match &self.k {
            Some(k) => {
                let c = self.aead.seal(k, self.n, &self.h, plain);
                self.n += 1;
                c
            }
            None => plain.to_vec(),
        };
        self.mix_hash(&c);
        c
    }
    /// Split: initiator-to-responder key, responder-to-initiator key
    pub fn split(&self) -> ([u8; 32], [u8; 32]) {
        let o = self.hash.hkdf(&self.ck, &[], 2);
        (key(&o[0]), key(&o[1]))
    }
}
