//! The four-message handshake of vru-session, from its pattern:
//!
//! ```text
//! -> e
//! <- ec, (p), e, ee, s, es
//! -> ec, (q), sc, s, se, (r)
//! <- sc, (s)
//! ```
//! Noise with SHA3-256, ChaChaPoly, Ed25519 point multiplication and the width-3 lattice KEM; the
//! responder's identity and the initiator's ephemeral key are mixed into the hash first.

use crate::curves::{clamp, Ed};
use crate::noise::{Symmetric, A};
use crate::num::U256;
use crate::{kyber, sha3_256, H};

pub const NAME: &[u8] = b"Noise_XX_25519+Kyber_ChaChaPoly_SHA256";
const K: usize = 3;

#[derive(Clone, Debug)]
pub struct Keys {
    pub e_sk: U256,
    pub e_pk: [u8; 32],
    pub l_pk: Vec<u8>,
    pub l_sk: Vec<u8>,
    pub l_hash: [u8; 32],
}

impl Keys {
    pub fn gen(seed: &[u8]) -> Keys {
        assert_eq!(seed.len(), 96);
        let e_sk = U256::le(&clamp(&seed[..32]));
        let (l_pk, l_sk) = kyber::keypair(K, seed[32..].try_into().unwrap());
        let l_hash = sha3_256(&[&l_pk]);
        Keys { e_sk, e_pk: Ed::base().mul(e_sk).encode(), l_pk, l_sk, l_hash }
    }
    pub fn public(&self) -> Vec<u8> {
        [&self.e_pk[..], &self.l_pk].concat()
    }
    pub fn identity(&self) -> [u8; 32] {
        sha3_256(&[&self.public()])
    }
    pub fn encaps(&self, seed: &[u8]) -> (Vec<u8>, [u8; 32]) {
        kyber::encaps(K, seed.try_into().unwrap(), &self.l_pk, &self.l_hash)
    }
}

pub fn dh(sk: U256, pk: &[u8]) -> [u8; 32] {
    Ed::decode(pk).expect("valid point").mul(sk).encode()
}

#[derive(Clone, Debug)]
pub struct Seeds {
    pub i_static: Vec<u8>,
    pub r_static: Vec<u8>,
    pub i_eph: Vec<u8>,
    pub r_eph: Vec<u8>,
    /// responder's encapsulation to the initiator's ephemeral key
    pub r_ec: Vec<u8>,
    /// initiator's encapsulations to the responder's ephemeral and static keys
    pub i_ec: Vec<u8>,
    pub i_sc: Vec<u8>,
    /// responder's encapsulation to the initiator's static key
    pub r_sc: Vec<u8>,
}

pub struct Transcript {
    /// the components of each message, in order
    pub messages: [Vec<Vec<u8>>; 4],
    pub hash: Vec<u8>,
    pub i_to_r: [u8; 32],
    pub r_to_i: [u8; 32],
    pub ck: Vec<u8>,
}

/// The whole honest run.
pub fn run(s: &Seeds, identity: &[u8], p: &[u8], q: &[u8], r: &[u8], last: &[u8]) -> Transcript {
    let i_s = Keys::gen(&s.i_static);
    let r_s = Keys::gen(&s.r_static);
    let i_e = Keys::gen(&s.i_eph);
    let r_e = Keys::gen(&s.r_eph);

    let mut n = Symmetric::new(H::Sha3_256, A::ChaChaPoly, NAME);
    n.mix_hash(identity);
    n.mix_hash(&i_e.public());
    let m0 = vec![i_e.public()];

    let (ct, ss) = i_e.encaps(&s.r_ec);
    n.mix_key(&ss);
    let enc_p = n.encrypt(p);
    n.mix_hash(&r_e.public());
    n.mix_key(&dh(r_e.e_sk, &i_e.e_pk));
    let enc_s = n.encrypt(&r_s.public());
    n.mix_key(&dh(r_s.e_sk, &i_e.e_pk));
    let m1 = vec![ct, enc_p, r_e.public(), enc_s];

    let (ct0, ss) = r_e.encaps(&s.i_ec);
    n.mix_key(&ss);
    let enc_q = n.encrypt(q);
    let (ct1, ss) = r_s.encaps(&s.i_sc);
    n.mix_key(&ss);
    let enc_s = n.encrypt(&i_s.public());
    n.mix_key(&dh(i_s.e_sk, &r_e.e_pk));
    let enc_r = n.encrypt(r);
    let m2 = vec![ct0, enc_q, ct1, enc_s, enc_r];

    let (ct, ss) = i_s.encaps(&s.r_sc);
    n.mix_key(&ss);
    let enc_l = n.encrypt(last);
    let m3 = vec![ct, enc_l];

    let (i_to_r, r_to_i) = n.split();
    Transcript { messages: [m0, m1, m2, m3], hash: n.h.clone(), i_to_r, r_to_i, ck: n.ck }
}
