//! Independent reference models, written from the specifications (Kyber round 1, Noise, RFC 7748,
//! RFC 8032, SEC 2), sharing no code with the crates under test except hash and AEAD primitives.

pub mod curves;
pub mod kyber;
pub mod noise;
pub mod num;
pub mod session;

/// A small family of fixed-output hash functions.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H {
    Sha256,
    Sha512,
    Sha3_256,
    Sha3_512,
}

impl H {
    pub fn len(self) -> usize {
        match self {
            H::Sha256 | H::Sha3_256 => 32,
            H::Sha512 | H::Sha3_512 => 64,
        }
    }
    pub fn block(self) -> usize {
        match self {
            H::Sha256 => 64,
            H::Sha512 => 128,
            H::Sha3_256 => 136,
            H::Sha3_512 => 72,
        }
    }
    pub fn hash(self, parts: &[&[u8]]) -> Vec<u8> {
        let all = parts.concat();
        use sha3::Digest;
        match self {
            H::Sha256 => sha2::Sha256::digest(&all).to_vec(),
            H::Sha512 => sha2::Sha512::digest(&all).to_vec(),
            H::Sha3_256 => sha3::Sha3_256::digest(&all).to_vec(),
            H::Sha3_512 => sha3::Sha3_512::digest(&all).to_vec(),
        }
    }
    /// RFC 2104
    pub fn hmac(self, key: &[u8], data: &[u8]) -> Vec<u8> {
        let mut k = if key.len() > self.block() { self.hash(&[key]) } else { key.to_vec() };
        k.resize(self.block(), 0);
        let i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
        let o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
        let inner = self.hash(&[&i, data]);
        self.hash(&[&o, &inner])
    }
    /// Noise HKDF(chaining_key, input, n): n outputs of HASHLEN bytes
    pub fn hkdf(self, ck: &[u8], ikm: &[u8], n: usize) -> Vec<Vec<u8>> {
        let temp = self.hmac(ck, ikm);
        let mut out: Vec<Vec<u8>> = Vec::new();
        for i in 0..n {
            let mut d = out.last().cloned().unwrap_or_default();
            d.push(i as u8 + 1);
            out.push(self.hmac(&temp, &d));
        }
        out
    }
}

pub fn sha3_256(parts: &[&[u8]]) -> [u8; 32] {
    H::Sha3_256.hash(parts).try_into().unwrap()
}
