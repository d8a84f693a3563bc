//! K01..K05: the lattice KEM against a reference written from the round-1 specification.

use common::prelude::*;
use common::proptest;
use common::{cases, check, diff, gen, no_panic, Failure, Hex, Outcome, Run, Verdict};
use rac::generic_array::typenum::{U2, U3, U4};
use rac::{Array, LineValid};
use refmodel::{kyber as reference, sha3_256};
use serde::{Deserialize, Serialize};
use vru_kyber::{Kem, Kyber};

/// The crate's operations on byte strings, for one parameter size; every value can be passed on
/// in memory or through its encoding.
struct Made {
    pk: Vec<u8>,
    sk: Vec<u8>,
}

trait Ops {
    fn pair(&self, seed: &[u8]) -> Made;
    /// pk from the bytes -> (ct, ss)
    fn encaps(&self, seed: &[u8], pk: &[u8], hash: &[u8]) -> (Vec<u8>, Vec<u8>);
    fn decaps(&self, sk: &[u8], pk: &[u8], hash: &[u8], ct: &[u8]) -> Vec<u8>;
    /// decode, then encode: public key, secret key, ciphertext
    fn recode(&self, what: What, bytes: &[u8]) -> Option<Vec<u8>>;
    /// One whole exchange with each value re-coded the given number of times before use; returns
    /// (pk, sk, ct, ss of the sender, ss of the receiver)
    fn exchange(&self, case: &Exchange) -> [Vec<u8>; 5];
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum What {
    Pk,
    Sk,
    Ct,
}

struct W<const K: usize>;

fn a<T: LineValid>(b: &[u8]) -> T {
    T::try_clone_array(Array::from_slice(b)).expect("decodes")
}

fn recoded<T: LineValid>(x: T, times: u8) -> T {
    (0..times).fold(x, |x, _| T::try_clone_array(&x.clone_line()).expect("decodes"))
}

macro_rules! ops {
    ($k:literal, $w:ty) => {
        impl Ops for W<$k> {
            fn pair(&self, seed: &[u8]) -> Made {
                let (pk, sk) = Kyber::<$w>::generate_pair(Array::from_slice(seed));
                Made { pk: pk.clone_line().to_vec(), sk: sk.clone_line().to_vec() }
            }
            fn encaps(&self, seed: &[u8], pk: &[u8], hash: &[u8]) -> (Vec<u8>, Vec<u8>) {
                let pk = a(pk);
                let (ct, ss) = Kyber::<$w>::encapsulate(Array::from_slice(seed), &pk, Array::from_slice(hash));
                (ct.clone_line().to_vec(), ss.to_vec())
            }
            fn decaps(&self, sk: &[u8], pk: &[u8], hash: &[u8], ct: &[u8]) -> Vec<u8> {
                let (sk, pk, ct) = (a(sk), a(pk), a(ct));
                Kyber::<$w>::decapsulate(&sk, &pk, Array::from_slice(hash), &ct).to_vec()
            }
            fn recode(&self, what: What, bytes: &[u8]) -> Option<Vec<u8>> {
                type Pk = <Kyber<$w> as Kem>::PublicKey;
                type Sk = <Kyber<$w> as Kem>::SecretKey;
                type Ct = <Kyber<$w> as Kem>::CipherText;
                match what {
                    What::Pk => Pk::try_clone_array(Array::from_slice(bytes)).ok().map(|x| x.clone_line().to_vec()),
                    What::Sk => Sk::try_clone_array(Array::from_slice(bytes)).ok().map(|x| x.clone_line().to_vec()),
                    What::Ct => Ct::try_clone_array(Array::from_slice(bytes)).ok().map(|x| x.clone_line().to_vec()),
                }
            }
            fn exchange(&self, c: &Exchange) -> [Vec<u8>; 5] {
                let (pk, sk) = Kyber::<$w>::generate_pair(Array::from_slice(&c.pair_seed));
                let pk_bytes = pk.clone_line();
                let sk_bytes = sk.clone_line();
                let hash: [u8; 32] = sha3_256(&[&pk_bytes]);
                let hash = Array::from_slice(&hash).clone();
                let pk = recoded(pk, c.trips[0]);
                let (ct, ss0) = Kyber::<$w>::encapsulate(Array::from_slice(&c.enc_seed), &pk, &hash);
                let ct_bytes = ct.clone_line();
                let pk = recoded(pk, c.trips[1]);
                let sk = recoded(sk, c.trips[2]);
                let ct = recoded(ct, c.trips[3]);
                let ss1 = Kyber::<$w>::decapsulate(&sk, &pk, &hash, &ct);
                [pk_bytes.to_vec(), sk_bytes.to_vec(), ct_bytes.to_vec(), ss0.to_vec(), ss1.to_vec()]
            }
        }
    };
}
ops!(2, U2);
ops!(3, U3);
ops!(4, U4);

fn ops(k: usize) -> &'static dyn Ops {
    match k {
        2 => &W::<2>,
        3 => &W::<3>,
        4 => &W::<4>,
        _ => unreachable!(),
    }
}

fn width() -> impl Strategy<Value = usize> {
    2..=4usize
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Exchange {
    k: usize,
    pair_seed: Hex,
    enc_seed: Hex,
    /// how often each is encoded and decoded: public key before encapsulation and before
    /// decapsulation, secret key, ciphertext
    trips: [u8; 4],
}

fn exchange() -> impl Strategy<Value = Exchange> {
    (width(), gen::bytes(64), gen::bytes(32), proptest::array::uniform4(0..3u8))
        .prop_map(|(k, pair_seed, enc_seed, trips)| Exchange { k, pair_seed, enc_seed, trips })
}

fn k01(c: &Exchange) -> Verdict {
    let [_, _, _, ss0, ss1] = no_panic("exchange", || ops(c.k).exchange(c))?;
    check!(
        ss0 == ss1,
        "secret-mismatch",
        "width {}: sender got {}, receiver got {} with re-codings {:?}",
        c.k,
        hex::encode(&ss0),
        hex::encode(&ss1),
        c.trips
    );
    Ok(Outcome::ok()
        .label_if(c.trips[0] == 0, "public key used as generated")
        .label_if(c.trips[0] > 0, "public key decoded")
        .label_if(c.trips[2] == 0, "secret key used as generated")
        .label_if(c.trips[3] == 0, "ciphertext used as generated")
        .label(["", "", "width 2", "width 3", "width 4"][c.k]))
}

fn k02(c: &Exchange) -> Verdict {
    let [pk, sk, ct, ss, _] = no_panic("exchange", || ops(c.k).exchange(c))?;
    let (rpk, rsk) = reference::keypair(c.k, c.pair_seed[..].try_into().unwrap());
    check!(pk == rpk, "public-key-bytes", "width {}: public key differs: {}", c.k, diff(&pk, &rpk));
    check!(sk == rsk, "secret-key-bytes", "width {}: secret key differs: {}", c.k, diff(&sk, &rsk));
    let (rct, rss) = reference::encaps(c.k, c.enc_seed[..].try_into().unwrap(), &rpk, &sha3_256(&[&rpk]));
    check!(ct == rct, "ciphertext-bytes", "width {}: ciphertext differs: {}", c.k, diff(&ct, &rct));
    check!(ss == rss, "shared-secret", "width {}: shared secret differs", c.k);
    Ok(Outcome::ok().label(["", "", "width 2", "width 3", "width 4"][c.k]))
}

/// How a ciphertext that is not the honest one is obtained.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    Flip(Vec<u32>),
    Random(Hex),
    /// honest ciphertext for another key pair
    OtherKey(Hex),
    /// honest ciphertext made under another public-key hash
    OtherHash(Hex),
    /// polynomials of the ciphertext swapped
    Swap(u8, u8),
    /// the ciphertext with its last polynomial taken from the encapsulation of another seed
    Splice(Hex),
    Nothing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reject {
    k: usize,
    pair_seed: Hex,
    enc_seed: Hex,
    tamper: Tamper,
    other: Tamper,
    reject_flip: u8,
}

fn tamper() -> impl Strategy<Value = Tamper> {
    prop_oneof![
        8 => gen::flips().prop_map(Tamper::Flip),
        1 => gen::bytes(2000).prop_map(Tamper::Random),
        1 => gen::random(64).prop_map(Tamper::OtherKey),
        1 => gen::random(32).prop_map(Tamper::OtherHash),
        1 => (0..4u8, 0..4u8).prop_map(|(x, y)| Tamper::Swap(x, y)),
        1 => gen::random(32).prop_map(Tamper::Splice),
        1 => Just(Tamper::Nothing),
    ]
}

fn reject() -> impl Strategy<Value = Reject> {
    (width(), gen::bytes(64), gen::bytes(32), tamper(), tamper(), any::<u8>()).prop_map(
        |(k, pair_seed, enc_seed, tamper, other, reject_flip)| Reject { k, pair_seed, enc_seed, tamper, other, reject_flip },
    )
}

fn tampered(k: usize, t: &Tamper, enc_seed: &[u8; 32], pk: &[u8], hash: &[u8; 32], ct: &[u8]) -> Vec<u8> {
    match t {
        Tamper::Flip(f) => gen::flip(ct, f),
        Tamper::Random(b) => b[..ct.len()].to_vec(),
        Tamper::OtherKey(seed) => {
            let (pk2, _) = reference::keypair(k, seed[..].try_into().unwrap());
            reference::encaps(k, enc_seed, &pk2, &sha3_256(&[&pk2])).0
        }
        Tamper::OtherHash(h) => reference::encaps(k, enc_seed, pk, h[..].try_into().unwrap()).0,
        Tamper::Swap(x, y) => {
            let (x, y) = (*x as usize % k, *y as usize % k);
            let mut v = ct.to_vec();
            v[352 * x..352 * (x + 1)].copy_from_slice(&ct[352 * y..352 * (y + 1)]);
            v[352 * y..352 * (y + 1)].copy_from_slice(&ct[352 * x..352 * (x + 1)]);
            v
        }
        Tamper::Splice(seed) => {
            let (o, _) = reference::encaps(k, seed[..].try_into().unwrap(), pk, hash);
            let mut v = ct.to_vec();
            v[352 * k..].copy_from_slice(&o[352 * k..]);
            v
        }
        Tamper::Nothing => ct.to_vec(),
    }
}

fn k03(c: &Reject) -> Verdict {
    let o = ops(c.k);
    let made = no_panic("generate", || o.pair(&c.pair_seed))?;
    let hash = sha3_256(&[&made.pk]);
    let enc_seed: [u8; 32] = c.enc_seed[..].try_into().unwrap();
    let (ct, ss) = no_panic("encapsulate", || o.encaps(&enc_seed, &made.pk, &hash))?;
    let ct1 = tampered(c.k, &c.tamper, &enc_seed, &made.pk, &hash, &ct);
    let ct2 = tampered(c.k, &c.other, &enc_seed, &made.pk, &hash, &ct);
    let dec = |sk: &[u8], ct: &[u8]| no_panic("decapsulate", || o.decaps(sk, &made.pk, &hash, ct));
    let got1 = dec(&made.sk, &ct1)?;
    let got2 = dec(&made.sk, &ct2)?;
    let again = dec(&made.sk, &ct1)?;
    check!(got1 == again, "not-deterministic", "the same ciphertext gave two secrets");
    let n = made.sk.len();
    let reject = &made.sk[n - 32..];
    for (x, got) in [(&ct1, &got1), (&ct2, &got2)] {
        let want = if *x == ct { ss.clone() } else { sha3_256(&[reject, &sha3_256(&[x])]).to_vec() };
        // an altered ciphertext can only be honest if the reference says so
        if *x != ct {
            let (_, honest) = reference::decaps(c.k, &made.sk, &made.pk, &hash, x);
            if honest {
                return Ok(Outcome::trivial().label("altered ciphertext is itself honest"));
            }
            check!(
                *got != ss,
                "tampered-accepted",
                "width {}: a ciphertext altered by {:?} yields the genuine secret",
                c.k,
                c.tamper
            );
        }
        check!(
            *got == want,
            "rejection-secret",
            "width {}: decapsulation gave {} instead of {}",
            c.k,
            hex::encode(got),
            hex::encode(&want)
        );
    }
    check!(
        (ct1 == ct2) == (got1 == got2),
        "not-ciphertext-dependent",
        "width {}: two different ciphertexts give the same secret",
        c.k
    );
    // the rejection value
    let mut sk2 = made.sk.clone();
    sk2[n - 32 + (c.reject_flip as usize / 8)] ^= 1 << (c.reject_flip % 8);
    let got3 = dec(&sk2, &ct1)?;
    check!(
        (got3 == got1) == (ct1 == ct),
        "rejection-value",
        "width {}: rejection value has the wrong influence on the secret",
        c.k
    );
    Ok(Outcome::when(ct1 != ct && ct1 != ct2).label(match c.tamper {
        Tamper::Flip(_) => "bits flipped",
        Tamper::Random(_) => "random bytes",
        Tamper::OtherKey(_) => "for another key",
        Tamper::OtherHash(_) => "under another hash",
        Tamper::Swap(..) => "polynomials swapped",
        Tamper::Splice(_) => "spliced",
        Tamper::Nothing => "genuine",
    }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fill {
    Bytes(Hex),
    /// every packed coefficient of this width has this value
    Coefficients { value: u16 },
    /// alternating coefficient values
    Alternating { even: u16, odd: u16 },
    /// few distinct values, chosen per coefficient from a small seed
    Mixed { seed: u64, values: Vec<u16> },
    Honest(Hex),
}

fn fill() -> impl Strategy<Value = Fill> {
    let v = || prop_oneof![3 => proptest::sample::select(vec![0u16, 1, 2, 3840, 3841, 7680, 7681, 7682, 8190, 8191, 1023, 1024, 2047, 4095, 4096]), 1 => 0..8192u16];
    prop_oneof![
        4 => gen::bytes(2000).prop_map(Fill::Bytes),
        2 => v().prop_map(|value| Fill::Coefficients { value }),
        2 => (v(), v()).prop_map(|(even, odd)| Fill::Alternating { even, odd }),
        3 => (any::<u64>(), proptest::collection::vec(v(), 1..5)).prop_map(|(seed, values)| Fill::Mixed { seed, values }),
        2 => gen::random(64).prop_map(Fill::Honest),
    ]
}

fn pack(values: impl Iterator<Item = u16>, n: usize, width: usize) -> Vec<u8> {
    let mut out = vec![0u8; n * width / 8];
    for (k, x) in values.take(n).enumerate() {
        for i in 0..width {
            if x >> i & 1 == 1 {
                let p = k * width + i;
                out[p / 8] |= 1 << (p % 8);
            }
        }
    }
    out
}

/// the polynomial part of an encoding: `polys` groups of 256 coefficients of `width` bits
fn filled(f: &Fill, k: usize, what: What) -> Vec<u8> {
    let (polys, w) = match what {
        What::Pk | What::Ct => (k, 11),
        What::Sk => (k, 13),
    };
    let body = |it: &mut dyn Iterator<Item = u16>| {
        let it: Vec<u16> = it.take(256 * (polys + 1)).collect();
        let mut b = pack(it.iter().copied(), 256 * polys, w);
        match what {
            What::Ct => b.extend(pack(it[256 * polys..].iter().copied(), 256, 3)),
            _ => b.extend(gen::expand(u64::from(it[0]), 32)),
        }
        b
    };
    let len = match what {
        What::Pk => reference::pk_len(k),
        What::Sk => reference::sk_len(k),
        What::Ct => reference::ct_len(k),
    };
    match f {
        Fill::Bytes(b) => b[..len].to_vec(),
        Fill::Coefficients { value } => body(&mut std::iter::repeat(*value)),
        Fill::Alternating { even, odd } => body(&mut [*even, *odd].iter().copied().cycle()),
        Fill::Mixed { seed, values } => {
            let r = gen::expand(*seed, 256 * 5);
            body(&mut r.into_iter().map(|b| values[b as usize % values.len()]))
        }
        Fill::Honest(seed) => {
            let (pk, sk) = reference::keypair(k, seed[..].try_into().unwrap());
            match what {
                What::Pk => pk,
                What::Sk => sk,
                What::Ct => reference::encaps(k, seed[..32].try_into().unwrap(), &pk, &sha3_256(&[&pk])).0,
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arbitrary {
    k: usize,
    pk: Fill,
    sk: Fill,
    ct: Fill,
    hash: Hex,
    enc_seed: Hex,
}

fn arbitrary() -> impl Strategy<Value = Arbitrary> {
    (width(), fill(), fill(), fill(), gen::bytes(32), gen::bytes(32))
        .prop_map(|(k, pk, sk, ct, hash, enc_seed)| Arbitrary { k, pk, sk, ct, hash, enc_seed })
}

fn k04(c: &Arbitrary) -> Verdict {
    let o = ops(c.k);
    let pk = filled(&c.pk, c.k, What::Pk);
    let sk = filled(&c.sk, c.k, What::Sk);
    let ct = filled(&c.ct, c.k, What::Ct);
    for (what, bytes, want) in [
        (What::Pk, &pk, pk.clone()),
        (What::Sk, &sk, reference::sk_reduced(c.k, &sk)),
        (What::Ct, &ct, ct.clone()),
    ] {
        let got = no_panic("recode", || o.recode(what, bytes))?;
        let Some(got) = got else {
            return Err(Failure::new("decode-refused", format!("width {}: decoding {:?} bytes failed", c.k, what)));
        };
        check!(got == want, "recode-bytes", "width {}: {:?} re-encodes differently: {}", c.k, what, diff(&got, &want));
    }
    let hash: [u8; 32] = c.hash[..].try_into().unwrap();
    let (ect, ess) = no_panic("encapsulate", || o.encaps(&c.enc_seed, &pk, &hash))?;
    let (rct, rss) = reference::encaps(c.k, c.enc_seed[..].try_into().unwrap(), &pk, &hash);
    check!(ect == rct, "encapsulate-bytes", "width {}: ciphertext under arbitrary key differs: {}", c.k, diff(&ect, &rct));
    check!(ess == rss, "encapsulate-secret", "width {}: secret under arbitrary key differs", c.k);
    for ct in [&ct, &ect] {
        let got = no_panic("decapsulate", || o.decaps(&sk, &pk, &hash, ct))?;
        let (want, _) = reference::decaps(c.k, &sk, &pk, &hash, ct);
        check!(got == want, "decapsulate-secret", "width {}: decapsulation of arbitrary bytes differs", c.k);
    }
    let honest = |f: &Fill| matches!(f, Fill::Honest(_));
    Ok(Outcome::when(!(honest(&c.pk) && honest(&c.sk) && honest(&c.ct)))
        .label_if(matches!(c.sk, Fill::Coefficients { value } if value >= 7681), "unreduced secret coefficients"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Separation {
    k: usize,
    pair_seed: Hex,
    other_seed: Hex,
    enc_seed: Hex,
    #[serde(default = "no_hash")]
    hash: Hex,
    bits: [u16; 4],
    pk_bit: u32,
    reject_bit: u8,
}

fn no_hash() -> Hex {
    Hex(vec![0; 32])
}

fn separation() -> impl Strategy<Value = Separation> {
    (width(), gen::bytes(64), gen::random(64), gen::bytes(32), gen::bytes(32), proptest::array::uniform4(any::<u16>()), any::<u32>(), any::<u8>()).prop_map(
        |(k, pair_seed, other_seed, enc_seed, hash, bits, pk_bit, reject_bit)| Separation { k, pair_seed, other_seed, enc_seed, hash, bits, pk_bit, reject_bit },
    )
}

fn k05(c: &Separation) -> Verdict {
    let o = ops(c.k);
    let flip = |b: &[u8], i: u16| gen::flip(b, &[u32::from(i)]);
    let m = no_panic("generate", || o.pair(&c.pair_seed))?;
    let m_again = o.pair(&c.pair_seed);
    check!(m.pk == m_again.pk && m.sk == m_again.sk, "generate-nondeterministic", "two key generations differ");
    let n = m.sk.len();
    // key seed
    let s2 = [&flip(&c.pair_seed[..32], c.bits[0])[..], &c.pair_seed[32..]].concat();
    let m2 = no_panic("generate", || o.pair(&s2))?;
    check!(
        m2.pk[..m2.pk.len() - 32] != m.pk[..m.pk.len() - 32]
            && m2.pk[m2.pk.len() - 32..] != m.pk[m.pk.len() - 32..]
            && m2.sk[..n - 32] != m.sk[..n - 32],
        "key-seed-ignored",
        "width {}: flipping bit {} of the key seed changes nothing in some part of the keys",
        c.k,
        c.bits[0] % 256
    );
    check!(m2.sk[n - 32..] == m.sk[n - 32..], "reject-depends-on-seed", "rejection value is not the second half of the seed");
    // rejection value
    let s3 = [&c.pair_seed[..32], &flip(&c.pair_seed[32..], u16::from(c.reject_bit))[..]].concat();
    let m3 = no_panic("generate", || o.pair(&s3))?;
    check!(m3.pk == m.pk && m3.sk[..n - 32] == m.sk[..n - 32] && m3.sk[n - 32..] != m.sk[n - 32..], "reject-seed", "rejection half of the seed has the wrong influence");
    // encapsulation
    let hash = sha3_256(&[&m.pk]).to_vec();
    let enc = |seed: &[u8], pk: &[u8], hash: &[u8]| no_panic("encapsulate", || o.encaps(seed, pk, hash));
    let dec = |m: &Made, hash: &[u8], ct: &[u8]| no_panic("decapsulate", || o.decaps(&m.sk, &m.pk, hash, ct));
    let (ct, ss) = enc(&c.enc_seed, &m.pk, &hash)?;
    check!((ct.clone(), ss.clone()) == enc(&c.enc_seed, &m.pk, &hash)?, "encapsulate-nondeterministic", "two encapsulations differ");
    let halves = |a: &[u8], b: &[u8]| {
        let p = 352 * c.k;
        (0..c.k).all(|i| a[352 * i..352 * (i + 1)] != b[352 * i..352 * (i + 1)]) && a[p..] != b[p..]
    };
    let (ct1, ss1) = enc(&flip(&c.enc_seed, c.bits[1]), &m.pk, &hash)?;
    check!(halves(&ct, &ct1) && ss != ss1, "encapsulation-seed-ignored", "width {}: a bit of the encapsulation seed has no influence", c.k);
    let (ct2, ss2) = enc(&c.enc_seed, &m.pk, &flip(&hash, c.bits[2]))?;
    check!(halves(&ct, &ct2) && ss != ss2, "hash-ignored", "width {}: a bit of the public-key hash has no influence", c.k);
    // no value of the hash stands for another one
    let tail = &m.pk[m.pk.len() - 32..];
    for (what, special) in [
        ("zero", vec![0; 32]),
        ("ones", vec![0xff; 32]),
        ("given", c.hash.to_vec()),
        ("of nothing", sha3_256(&[]).to_vec()),
        ("of the hash", sha3_256(&[&hash]).to_vec()),
        ("matrix seed", tail.to_vec()),
        ("encapsulation seed", c.enc_seed.to_vec()),
        ("reversed", hash.iter().rev().copied().collect()),
    ] {
        let (ct6, ss6) = enc(&c.enc_seed, &m.pk, &special)?;
        check!(special == hash || (halves(&ct, &ct6) && ss != ss6), "hash-ignored", "width {}: the public-key hash {what} has the result of the right one", c.k);
        check!(special == hash || dec(&m, &special, &ct)? != ss, "hash-not-checked", "width {}: decapsulation under the hash {what} yields the secret", c.k);
        check!(dec(&m, &special, &ct6)? == ss6, "agreement", "width {}: exchange under the hash {what} disagrees", c.k);
    }
    // Public key.  With the hash recomputed any bit must matter everywhere; with the hash kept, the
    // matrix seed must change every vector part, and the top bit of a coefficient (a change by q/2, which
    // survives the coarse rounding of the last polynomial) must change that polynomial.
    let pk3 = gen::flip(&m.pk, &[c.pk_bit]);
    let (ct3, ss3) = enc(&c.enc_seed, &pk3, &sha3_256(&[&pk3]))?;
    check!(halves(&ct, &ct3) && ss3 != ss, "public-key-ignored", "width {}: a bit of the public key has no influence", c.k);
    let pk4 = if c.bits[3] % 2 == 0 {
        let mut p = m.pk.clone();
        let n = p.len();
        p[n - 32 + (c.bits[3] as usize / 16) % 32] ^= 1 << (c.bits[3] / 2 % 8);
        p
    } else {
        gen::flip(&m.pk, &[11 * (u32::from(c.bits[3]) % (256 * c.k as u32)) + 10])
    };
    let (ct4, ss4) = enc(&c.enc_seed, &pk4, &hash)?;
    let p = 352 * c.k;
    check!(
        ss4 != ss && if c.bits[3] % 2 == 1 { ct4[p..] != ct[p..] } else { (0..c.k).all(|i| ct[352 * i..352 * (i + 1)] != ct4[352 * i..352 * (i + 1)]) },
        "public-key-ignored",
        "width {}: a change of the public key under the same hash has no influence",
        c.k
    );
    // decapsulation under another hash, another key, another rejection value
    let right = dec(&m, &hash, &ct)?;
    check!(right == ss, "agreement", "honest decapsulation disagrees");
    check!(right == dec(&m, &hash, &ct)?, "decapsulate-nondeterministic", "two decapsulations differ");
    check!(dec(&m, &flip(&hash, c.bits[2]), &ct)? != ss, "hash-not-checked", "width {}: decapsulation under another hash yields the secret", c.k);
    let other = no_panic("generate", || o.pair(&c.other_seed))?;
    if other.pk != m.pk {
        let mixed = [
            Made { pk: other.pk.clone(), sk: other.sk.clone() },
            Made { pk: m.pk.clone(), sk: other.sk.clone() },
            Made { pk: other.pk.clone(), sk: m.sk.clone() },
        ];
        for (i, x) in mixed.iter().enumerate() {
            for h in [hash.clone(), sha3_256(&[&x.pk]).to_vec()] {
                check!(dec(x, &h, &ct)? != ss, "wrong-key-accepted", "width {}: another key pair ({i}) yields the secret", c.k);
            }
        }
    }
    check!(dec(&m3, &hash, &ct)? == ss, "reject-used-for-honest", "rejection value changes an honest decapsulation");
    // an invalid ciphertext: every bit of the rejection value and of the ciphertext counts
    let bad = gen::flip(&ct, &[c.pk_bit]);
    let hidden = dec(&m, &hash, &bad)?;
    check!(hidden == dec(&m, &hash, &bad)?, "decapsulate-nondeterministic", "two rejections differ");
    check!(hidden != ss, "altered-accepted", "width {}: an altered ciphertext yields the secret", c.k);
    check!(dec(&m3, &hash, &bad)? != hidden, "reject-ignored", "width {}: bit {} of the rejection value has no influence on a rejection", c.k, c.reject_bit);
    let worse = gen::flip(&bad, &[u32::from(c.bits[0]) * 65521 + u32::from(c.bits[1])]);
    check!(worse == ct || dec(&m, &hash, &worse)? != hidden, "ciphertext-ignored", "width {}: two invalid ciphertexts have the same secret", c.k);
    // the same seeds under another parameter size
    let k2 = if c.k == 4 { 2 } else { c.k + 1 };
    let x = no_panic("generate", || ops(k2).pair(&c.pair_seed))?;
    let (_, xs) = no_panic("encapsulate", || ops(k2).encaps(&c.enc_seed, &x.pk, &sha3_256(&[&x.pk])))?;
    check!(xs != ss, "parameter-sets-collide", "widths {} and {} give the same secret", c.k, k2);
    Ok(Outcome::ok().label(["", "", "width 2", "width 3", "width 4"][c.k]))
}

/// The reference must reproduce the published vectors, or nothing it says counts.
fn self_test() {
    let text = include_str!("../vectors.json");
    let v: serde_json::Value = serde_json::from_str(text).unwrap();
    for t in v.as_array().unwrap() {
        let g = |n: &str| hex::decode(t[n].as_str().unwrap()).unwrap();
        let k = t["width"].as_i64().unwrap() as usize;
        let seed = [g("pair_seed"), g("reject_secret")].concat();
        let (pk, sk) = reference::keypair(k, seed[..].try_into().unwrap());
        assert_eq!(pk, g("public_key"), "reference public key, width {k}");
        assert_eq!([&sk[..], &pk].concat(), g("secret_key"), "reference secret key, width {k}");
        let h = sha3_256(&[&pk]);
        let (ct, ss) = reference::encaps(k, g("encapsulation_seed")[..].try_into().unwrap(), &pk, &h);
        assert_eq!(ct, g("cipher_text"), "reference ciphertext, width {k}");
        assert_eq!(ss.to_vec(), g("shared_secret"), "reference secret, width {k}");
        assert_eq!(reference::decaps(k, &sk, &pk, &h, &ct), (ss, true));
    }
}

fn main() {
    let mut run = Run::from_env();
    self_test();
    let id = run.id.clone();
    match id.as_str() {
        "K01" => {
            run.rule("random and structured (constant, sparse, saturated) key and encapsulation seeds for widths 2, 3, 4; 0 to 2 encode/decode trips of the public key before encapsulation and before decapsulation, of the secret key and of the ciphertext; every case is a complete exchange and counts as non-trivial");
            run.assume("the decryption failure probability of Kyber (below 2^-140) is treated as zero");
            run.sub("exchange", cases(60000), exchange, k01);
        }
        "K02" => {
            run.rule("as K01, every encoded value compared byte by byte with an independent implementation (direct evaluation instead of butterflies, bitwise packing and noise); every case is non-trivial");
            run.assume("the reference reproduces the known answers shipped with the crate (checked at start)");
            run.sub("differential", cases(12000), exchange, k02);
        }
        "K03" => {
            run.rule("honest ciphertexts altered by one or several bit flips, polynomial swaps and splices, honest ciphertexts for another key or hash, random and extreme bytes, and unaltered ones; non-trivial: the first ciphertext is altered and differs from the second");
            run.assume("an altered ciphertext counts as invalid when the independent re-encryption disagrees with it");
            run.sub("rejection", cases(10000), reject, k03);
        }
        "K04" => {
            run.rule("arbitrary encodings: random, constant, sparse, alternating and mixed coefficients around 0, q/2, q, 2^11, 2^13; differential with the reference; non-trivial: at least one of public key, secret key, ciphertext is not honest");
            run.sub("arbitrary", cases(8000), arbitrary, k04);
        }
        "K05" => {
            run.rule("one bit of the key seed, rejection value (for honest and altered ciphertexts), encapsulation seed, hash, public key and ciphertext flipped at a time, and mixed-up key pairs; every case is non-trivial");
            run.sub("separation", cases(12000), separation, k05);
        }
        _ => panic!("unknown property {id}"),
    }
    run.finish()
}
