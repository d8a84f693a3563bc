//! Kyber as submitted to round 1 (q = 7681), by plain modular arithmetic.
//!
//! Secret keys are stored in the transform domain; the transform here is direct evaluation of the
//! polynomial at the odd powers of a 512th root of unity, not a butterfly network.

use crate::{sha3_256, H};
use sha3::digest::{ExtendableOutput, Update, XofReader};

pub const Q: u32 = 7681;
const N: usize = 256;
/// primitive 512th root of unity modulo Q
const PSI: u32 = 62;

pub type Poly = Vec<u32>;

fn brv8(i: usize) -> usize {
    (i as u8).reverse_bits() as usize
}

fn psi_powers() -> &'static [u32] {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<u32>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![1u32];
        for i in 1..2 * N {
            v.push(v[i - 1] * PSI % Q);
        }
        assert_eq!(v[N], Q - 1, "PSI is a primitive 512th root of unity");
        v
    })
}

/// out[i] = a(psi^(2*brv(i)+1))
pub fn forward(a: &[u32]) -> Poly {
    let t = psi_powers();
    (0..N)
        .map(|i| {
            let e = 2 * brv8(i) + 1;
            let mut acc = 0u64;
            for (j, c) in a.iter().enumerate() {
                acc += u64::from(*c) * u64::from(t[e * j % (2 * N)]);
            }
            (acc % u64::from(Q)) as u32
        })
        .collect()
}

/// a[j] = 1/N * sum_i out[i] * psi^(-(2*brv(i)+1)*j)
pub fn inverse(h: &[u32]) -> Poly {
    let t = psi_powers();
    // N^-1 mod Q: Q = 7681 = 30*256 + 1, so 256 * (-30) = 1
    let n_inv = u64::from(Q - 30);
    (0..N)
        .map(|j| {
            let mut acc = 0u64;
            for (i, c) in h.iter().enumerate() {
                let e = (2 * brv8(i) + 1) * j % (2 * N);
                acc += u64::from(*c) * u64::from(t[(2 * N - e) % (2 * N)]);
            }
            (acc % u64::from(Q) * n_inv % u64::from(Q)) as u32
        })
        .collect()
}

fn add(a: &[u32], b: &[u32]) -> Poly {
    a.iter().zip(b).map(|(x, y)| (x + y) % Q).collect()
}
fn sub(a: &[u32], b: &[u32]) -> Poly {
    a.iter().zip(b).map(|(x, y)| (x + Q - y) % Q).collect()
}
fn dot(a: &[Poly], b: &[Poly]) -> Poly {
    let mut r = vec![0u32; N];
    for (x, y) in a.iter().zip(b) {
        for i in 0..N {
            r[i] = (r[i] + x[i] * y[i]) % Q;
        }
    }
    r
}

fn bits(data: &[u8], width: usize) -> Vec<u32> {
    let n = data.len() * 8 / width;
    (0..n)
        .map(|k| (0..width).fold(0, |a, i| {
            let p = k * width + i;
            a | (u32::from(data[p / 8] >> (p % 8) & 1) << i)
        }))
        .collect()
}
fn pack(v: &[u32], width: usize) -> Vec<u8> {
    let mut out = vec![0u8; v.len() * width / 8];
    for (k, x) in v.iter().enumerate() {
        for i in 0..width {
            if x >> i & 1 == 1 {
                let p = k * width + i;
                out[p / 8] |= 1 << (p % 8);
            }
        }
    }
    out
}

/// round(2^d / q * x) mod 2^d, ties as (x*2^d + q/2) / q
fn compress(a: &[u32], d: usize) -> Vec<u8> {
    pack(&a.iter().map(|x| (((x << d) + Q / 2) / Q) & ((1 << d) - 1)).collect::<Vec<_>>(), d)
}
/// round(q / 2^d * x)
fn decompress(data: &[u8], d: usize) -> Poly {
    bits(data, d).iter().map(|x| (x * Q + (1 << (d - 1))) >> d).collect()
}

fn eta(k: usize) -> usize {
    match k {
        2 => 5,
        3 => 4,
        4 => 3,
        _ => unreachable!(),
    }
}

fn noise(k: usize, seed: &[u8], nonce: u8) -> Poly {
    let e = eta(k);
    let mut buf = vec![0u8; e * N / 4];
    sha3::Shake256::default().chain(seed).chain([nonce]).finalize_xof().read(&mut buf);
    let bit = |i: usize| u32::from(buf[i / 8] >> (i % 8) & 1);
    (0..N)
        .map(|c| {
            let a: u32 = (0..e).map(|i| bit(2 * e * c + i)).sum();
            let b: u32 = (0..e).map(|i| bit(2 * e * c + e + i)).sum();
            (a + Q - b) % Q
        })
        .collect()
}

/// entry (i, j) of the public matrix, in the transform domain
fn matrix_entry(seed: &[u8], i: usize, j: usize) -> Poly {
    let mut r = sha3::Shake128::default().chain(seed).chain([j as u8, i as u8]).finalize_xof();
    let mut out = Vec::new();
    while out.len() < N {
        let mut w = [0; 2];
        r.read(&mut w);
        let v = u32::from(u16::from_le_bytes(w) & 0x1fff);
        if v < Q {
            out.push(v);
        }
    }
    out
}
fn matrix(k: usize, seed: &[u8]) -> Vec<Vec<Poly>> {
    (0..k).map(|i| (0..k).map(|j| matrix_entry(seed, i, j)).collect()).collect()
}

pub fn pk_len(k: usize) -> usize {
    352 * k + 32
}
pub fn sk_len(k: usize) -> usize {
    416 * k + 32
}
pub fn ct_len(k: usize) -> usize {
    352 * k + 96
}

/// (public key bytes, secret key bytes with the rejection value appended)
pub fn keypair(k: usize, seed: &[u8; 64]) -> (Vec<u8>, Vec<u8>) {
    let c = H::Sha3_512.hash(&[&seed[..32]]);
    let (rho, sigma) = c.split_at(32);
    let a = matrix(k, rho);
    let s: Vec<Poly> = (0..k).map(|i| forward(&noise(k, sigma, i as u8))).collect();
    let mut pk = Vec::new();
    for i in 0..k {
        let t = add(&inverse(&dot(&a[i], &s)), &noise(k, sigma, (k + i) as u8));
        pk.extend(compress(&t, 11));
    }
    pk.extend_from_slice(rho);
    let mut sk: Vec<u8> = s.iter().flat_map(|p| pack(p, 13)).collect();
    sk.extend_from_slice(&seed[32..]);
    (pk, sk)
}

fn cpa_encrypt(k: usize, pk: &[u8], m: &[u8], coins: &[u8]) -> Vec<u8> {
    let t: Vec<Poly> = (0..k).map(|i| forward(&decompress(&pk[352 * i..352 * (i + 1)], 11))).collect();
    let a = matrix(k, &pk[352 * k..]);
    let r: Vec<Poly> = (0..k).map(|i| forward(&noise(k, coins, i as u8))).collect();
    let mut ct = Vec::new();
    for i in 0..k {
        let col: Vec<Poly> = (0..k).map(|j| a[j][i].clone()).collect();
        let u = add(&inverse(&dot(&col, &r)), &noise(k, coins, (k + i) as u8));
        ct.extend(compress(&u, 11));
    }
    let v = add(&inverse(&dot(&t, &r)), &noise(k, coins, 2 * k as u8));
    let v: Poly = v.iter().zip(bits(m, 1)).map(|(x, b)| (x + b * ((Q + 1) / 2)) % Q).collect();
    ct.extend(compress(&v, 3));
    ct
}

fn cpa_decrypt(k: usize, sk: &[u8], ct: &[u8]) -> Vec<u8> {
    let s: Vec<Poly> = (0..k)
        .map(|i| bits(&sk[416 * i..416 * (i + 1)], 13).iter().map(|x| x % Q).collect())
        .collect();
    let u: Vec<Poly> = (0..k).map(|i| forward(&decompress(&ct[352 * i..352 * (i + 1)], 11).iter().map(|x| x % Q).collect::<Vec<_>>())).collect();
    let v: Poly = decompress(&ct[352 * k..], 3).iter().map(|x| x % Q).collect();
    let d = sub(&inverse(&dot(&s, &u)), &v);
    pack(&d.iter().map(|x| ((x * 2 + Q / 2) / Q) & 1).collect::<Vec<_>>(), 1)
}

/// (ciphertext, shared secret)
pub fn encaps(k: usize, seed: &[u8; 32], pk: &[u8], pk_hash: &[u8; 32]) -> (Vec<u8>, [u8; 32]) {
    let m = sha3_256(&[seed]);
    let c = H::Sha3_512.hash(&[&m, pk_hash]);
    let ct = cpa_encrypt(k, pk, &m, &c[32..]);
    let ss = sha3_256(&[&c[..32], &sha3_256(&[&ct])]);
    (ct, ss)
}

/// (shared secret, whether the ciphertext was accepted as honest)
pub fn decaps(k: usize, sk: &[u8], pk: &[u8], pk_hash: &[u8; 32], ct: &[u8]) -> ([u8; 32], bool) {
    let m = cpa_decrypt(k, sk, ct);
    let c = H::Sha3_512.hash(&[&m, pk_hash]);
    let ok = cpa_encrypt(k, pk, &m, &c[32..]) == ct;
    let r = if ok { &c[..32] } else { &sk[416 * k..] };
    (sha3_256(&[r, &sha3_256(&[ct])]), ok)
}

/// The encoding of a secret key with every coefficient fully reduced.
pub fn sk_reduced(k: usize, sk: &[u8]) -> Vec<u8> {
    let mut out = pack(&bits(&sk[..416 * k], 13).iter().map(|x| x % Q).collect::<Vec<_>>(), 13);
    out.extend_from_slice(&sk[416 * k..]);
    out
}
