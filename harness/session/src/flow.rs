//! One handshake with the real code, every message passing through the hands of an adversary as
//! a list of byte strings.

use common::{no_panic, Failure, Hex};
use rac::generic_array::typenum::{U1, U100, U1000, U128, U16, U2048, U255, U31, U32, U33, U4, U4096, U5, U64, U65536};
use rac::{Array, Concat, LineValid};
use serde::{Deserialize, Serialize};
use vru_session::handshake::{xx, Identity, PublicKey, SecretKey, TrivialCipher, TrivialRotor};

/// payload lengths p, q, r, s of each supported combination
pub const SIZES: [[usize; 4]; 6] = [[16, 16, 16, 16], [0, 1, 32, 9], [100, 0, 64, 1], [1000, 255, 0, 128], [32, 31, 33, 64], [4096, 2048, 1, 65536]];
pub const SIZE_NAMES: [&str; 6] = ["sizes 16/16/16/16", "sizes 0/1/32/9", "sizes 100/0/64/1", "sizes 1000/255/0/128", "sizes 32/31/33/64", "sizes 4096/2048/1/65536"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Setup {
    pub sizes: usize,
    pub payloads: Vec<Hex>,
    /// 96-byte seeds: static keys of initiator and responder
    pub i_static: Hex,
    pub r_static: Hex,
    pub i_eph: Hex,
    pub r_eph: Hex,
    pub r_ec: Hex,
    pub i_ec: Hex,
    pub i_sc: Hex,
    pub r_sc: Hex,
    /// what the static keys went through before they are used: a nibble for each party
    #[serde(default)]
    pub shapes: u8,
}

impl Setup {
    pub fn reference(&self) -> refmodel::session::Seeds {
        refmodel::session::Seeds {
            i_static: self.i_static.to_vec(),
            r_static: self.r_static.to_vec(),
            i_eph: self.i_eph.to_vec(),
            r_eph: self.r_eph.to_vec(),
            r_ec: self.r_ec.to_vec(),
            i_ec: self.i_ec.to_vec(),
            i_sc: self.i_sc.to_vec(),
            r_sc: self.r_sc.to_vec(),
        }
    }
}

/// Who really takes part: seeds the keys are made from.
pub struct Cast {
    pub i_pk: Vec<u8>,
    pub i_sk: Vec<u8>,
    pub r_pk: Vec<u8>,
    pub r_sk: Vec<u8>,
    /// the identity the initiator dials; None for the responder's own
    pub dialed: Option<[u8; 32]>,
    /// the identity the responder answers to; None for its own
    pub answers: Option<[u8; 32]>,
}

impl Cast {
    pub fn honest(s: &Setup) -> Cast {
        Cast { i_pk: s.i_static.to_vec(), i_sk: s.i_static.to_vec(), r_pk: s.r_static.to_vec(), r_sk: s.r_static.to_vec(), dialed: None, answers: None }
    }
}

pub struct Done {
    pub cipher: TrivialCipher,
    pub hash: Vec<u8>,
    /// the payloads this side received
    pub payloads: Vec<Vec<u8>>,
    /// the other's static key (encoded), as far as this side learned it
    pub peer: Vec<u8>,
}

pub struct End {
    pub i: Option<Done>,
    pub r: Option<Done>,
    /// which step refused and with what words
    pub refused: Option<(&'static str, String)>,
    /// as sent, before the adversary
    pub messages: Vec<Vec<Vec<u8>>>,
}

pub fn gen(seed: &[u8]) -> (PublicKey, SecretKey) {
    PublicKey::gen(Array::from_slice(seed))
}

fn shape(pk: PublicKey, how: u8) -> PublicKey {
    match how & 7 {
        1 => pk.clone(),
        2 => PublicKey::decompress(pk.compress()),
        3 => bincode::deserialize(&bincode::serialize(&pk).unwrap()).unwrap(),
        4 => serde_json::from_str(&serde_json::to_string(&pk.clone()).unwrap()).unwrap(),
        _ => pk,
    }
}

fn shape_secret(sk: SecretKey, how: u8) -> SecretKey {
    match how & 8 {
        0 => sk,
        _ => sk.clone().clone(),
    }
}

pub fn identity(hash: &[u8]) -> Identity {
    let mut b = vec![0];
    b.extend_from_slice(hash);
    base64::encode(b).parse().unwrap()
}

pub fn a<T: LineValid>(b: &[u8]) -> T {
    match T::try_clone_array(Array::from_slice(b)) {
        Ok(x) => x,
        Err(_) => panic!("harness: {} bytes do not decode", b.len()),
    }
}

pub fn v<T: LineValid>(x: &T) -> Vec<u8> {
    x.clone_line().to_vec()
}

/// cut into pieces of the given lengths
fn cut(b: Vec<u8>, lens: &[usize]) -> Vec<Vec<u8>> {
    let mut at = 0;
    let r = lens
        .iter()
        .map(|n| {
            at += n;
            b[at - n..at].to_vec()
        })
        .collect();
    assert_eq!(at, b.len());
    r
}

const CT: usize = 1152;
const PK: usize = 1088;

macro_rules! flow {
    ($name:ident, $p:ty, $q:ty, $r:ty, $s:ty, $lens:expr) => {
        fn $name(c: &Setup, who: &Cast, adversary: &mut dyn FnMut(usize, &mut Vec<Vec<u8>>)) -> Result<End, Failure> {
            let lens: [usize; 4] = $lens;
            let mut end = End { i: None, r: None, refused: None, messages: Vec::new() };
            let (i_pk, i_sk) = no_panic("keys", || (shape(gen(&who.i_pk).0, c.shapes), shape_secret(gen(&who.i_sk).1, c.shapes)))?;
            let (r_pk, r_sk) = no_panic("keys", || (shape(gen(&who.r_pk).0, c.shapes >> 4), shape_secret(gen(&who.r_sk).1, c.shapes >> 4)))?;
            let dialed = who.dialed.map_or_else(|| r_pk.identity(), |h| identity(&h));
            let answers = who.answers.map_or_else(|| r_pk.identity(), |h| identity(&h));

            let (i, m) = no_panic("out0", || xx::out0(Array::from_slice(&c.i_eph), &dialed))?;
            let mut m = vec![v(&m)];
            end.messages.push(m.clone());
            adversary(0, &mut m);

            let seed = Concat(a(&c.r_eph), a(&c.r_ec));
            let msg = a(&m[0]);
            let payload: $p = a(&c.payloads[0]);
            let (r, m) = no_panic("take0", || xx::take0_out1(&seed, &answers, &r_pk, &r_sk, msg, payload))?;
            let mut parts = cut(v(&m.0), &[CT, lens[0] + 16]);
            parts.push(v(&m.1));
            parts.push(v(&m.2));
            end.messages.push(parts.clone());
            adversary(1, &mut parts);

            let seed = Concat(a(&c.i_ec), a(&c.i_sc));
            let msg = (a(&parts[..2].concat()), a(&parts[2]), a(&parts[3]));
            let (pq, pr): ($q, $r) = (a(&c.payloads[1]), a(&c.payloads[2]));
            let res = no_panic("take1", || xx::take1_out2::<$p, $q, $r>(&seed, i, &i_pk, &i_sk, msg, pq, pr))?;
            let (i, i_learned, got_p, m) = match res {
                Ok(x) => x,
                Err(e) => {
                    end.refused = Some(("take1", no_panic("display", || e.to_string())?));
                    return Ok(end);
                }
            };
            let mut parts = cut(v(&m.0), &[CT, lens[1] + 16]);
            parts.push(v(&m.1));
            parts.extend(cut(v(&m.2), &[PK + 32 + 16, lens[2] + 16]));
            end.messages.push(parts.clone());
            adversary(2, &mut parts);

            let msg = (a(&parts[..2].concat()), a(&parts[2]), a(&parts[3..].concat()));
            let ps: $s = a(&c.payloads[3]);
            let res = no_panic("take2", || {
                xx::take2_out3::<$q, $r, $s, TrivialRotor>(Array::from_slice(&c.r_sc), r, &r_pk, &r_sk, msg, ps)
            })?;
            let m = match res {
                Ok((cipher, hash, peer, q, r, m)) => {
                    end.r = Some(Done { cipher, hash: hash.to_vec(), payloads: vec![v(&q), v(&r)], peer: v(&peer.compress()) });
                    v(&m)
                }
                Err(e) => {
                    end.refused = Some(("take2", no_panic("display", || e.to_string())?));
                    return Ok(end);
                }
            };
            let mut parts = cut(m, &[CT, lens[3] + 16]);
            end.messages.push(parts.clone());
            adversary(3, &mut parts);

            let msg = a(&parts.concat());
            match no_panic("take3", || xx::take_3::<$s, TrivialRotor>(i, &i_pk, &i_sk, msg))? {
                Ok((cipher, hash, s)) => {
                    end.i = Some(Done { cipher, hash: hash.to_vec(), payloads: vec![v(&got_p), v(&s)], peer: v(&i_learned.compress()) })
                }
                Err(e) => end.refused = Some(("take3", no_panic("display", || e.to_string())?)),
            }
            Ok(end)
        }
    };
}

flow!(flow0, Array<U16>, Array<U16>, Array<U16>, Array<U16>, SIZES[0]);
flow!(flow1, [u8; 0], Array<U1>, Array<U32>, Concat<Array<U4>, Array<U5>>, SIZES[1]);
flow!(flow2, Array<U100>, [u8; 0], Array<U64>, Array<U1>, SIZES[2]);
flow!(flow3, Array<U1000>, Array<U255>, [u8; 0], Array<U128>, SIZES[3]);
flow!(flow4, Array<U32>, Array<U31>, Array<U33>, Array<U64>, SIZES[4]);
flow!(flow5, Array<U4096>, Array<U2048>, Array<U1>, Array<U65536>, SIZES[5]);

pub fn flow(c: &Setup, who: &Cast, adversary: &mut dyn FnMut(usize, &mut Vec<Vec<u8>>)) -> Result<End, Failure> {
    match c.sizes {
        0 => flow0(c, who, adversary),
        1 => flow1(c, who, adversary),
        2 => flow2(c, who, adversary),
        3 => flow3(c, who, adversary),
        4 => flow4(c, who, adversary),
        _ => flow5(c, who, adversary),
    }
}

pub fn seal(c: &mut TrivialCipher, ad: &[u8], data: &[u8]) -> Vec<u8> {
    let mut b = data.to_vec();
    c.encrypt_ext(ad, &mut b);
    b
}

pub fn open(c: &mut TrivialCipher, ad: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    let mut b = data.to_vec();
    c.decrypt_ext(ad, &mut b).ok().map(|()| b)
}
