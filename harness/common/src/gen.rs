//! Byte-string generators with a bias towards structure.

use crate::Hex;
use proptest::collection::vec;
use proptest::prelude::*;

/// `n` bytes: mostly random, sometimes constant, sparse, or with saturated ends.
pub fn bytes(n: usize) -> BoxedStrategy<Hex> {
    if n == 0 {
        return Just(Hex(Vec::new())).boxed();
    }
    prop_oneof![
        6 => vec(any::<u8>(), n).prop_map(Hex),
        1 => prop_oneof![Just(0u8), Just(0xff), Just(1), Just(0x80), any::<u8>()].prop_map(move |b| Hex(std::vec![b; n])),
        1 => (0..n, any::<u8>(), prop_oneof![Just(0u8), Just(0xff)]).prop_map(move |(i, b, fill)| {
            let mut v = std::vec![fill; n];
            v[i] = b;
            Hex(v)
        }),
        1 => (vec(any::<u8>(), n), prop_oneof![Just(0u8), Just(0xff)], 0..n).prop_map(move |(mut v, fill, k)| {
            for b in v[..k].iter_mut() { *b = fill; }
            Hex(v)
        }),
        1 => (vec(any::<u8>(), n), prop_oneof![Just(0u8), Just(0xff)], 0..n).prop_map(move |(mut v, fill, k)| {
            for b in v[k..].iter_mut() { *b = fill; }
            Hex(v)
        }),
    ]
    .boxed()
}

/// `n` uniformly random bytes.
pub fn random(n: usize) -> BoxedStrategy<Hex> {
    vec(any::<u8>(), n).prop_map(Hex).boxed()
}

/// A byte string of one of the given lengths, or near it, or of any length up to `max`.
pub fn sized(points: Vec<usize>, max: usize) -> BoxedStrategy<Hex> {
    let near = proptest::sample::select(points).prop_flat_map(move |p| (p.saturating_sub(2))..=(p + 2).min(max));
    prop_oneof![3 => near, 2 => 0..=max, 1 => 0..=40usize.min(max)].prop_flat_map(bytes).boxed()
}

/// One or several bit flips, as positions into a string of unknown length (taken modulo it).
pub fn flips() -> BoxedStrategy<Vec<u32>> {
    prop_oneof![
        4 => vec(any::<u32>(), 1..=1),
        1 => vec(any::<u32>(), 1..6),
    ]
    .boxed()
}

/// Apply bit flips; equal positions cancel, so the result may equal the input.
pub fn flip(data: &[u8], flips: &[u32]) -> Vec<u8> {
    let mut v = data.to_vec();
    if v.is_empty() {
        return v;
    }
    let n = v.len() as u64 * 8;
    for f in flips {
        let p = (u64::from(*f) % n) as usize;
        v[p / 8] ^= 1 << (p % 8);
    }
    v
}

/// Deterministic expansion of a small seed into `n` bytes (for cases that need a lot of filler).
pub fn expand(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed ^ 0x6a09_e667_f3bc_c908;
    (0..n)
        .map(|_| {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            (z ^ (z >> 31)) as u8
        })
        .collect()
}
