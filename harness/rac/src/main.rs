//! R01..R05: encodings, curve arithmetic, X25519 and Schnorr signatures of rac.

use common::prelude::*;
use common::proptest::{collection::vec, sample::select};
use common::{cases, check, diff, fail, gen, no_panic, Failure, Hex, Outcome, Run, Verdict};
use curve25519_dalek::{edwards::EdwardsPoint, montgomery::MontgomeryPoint, scalar::Scalar as EdScalar};
use rac::generic_array::typenum::{Prod, U16, U17, U18, U255, U256 as U256T, U3, U32, U33, U5, U64, U65, U7};
use rac::{Array, Concat, Curve, Line, LineLike, LineValid, Scalar, Schnorr, Signature};
use refmodel::curves::{clamp, l25519, n256k1, p256k1, x25519, Ed, Kp};
use refmodel::num::U256;
use secp256k1::{PublicKey, SecretKey, Signature as CompactSig};
use serde::{Deserialize, Serialize};
use sha2::Sha256;
use sha3::{Digest, Sha3_256};

fn enc<T: LineValid>(x: &T) -> Vec<u8> {
    x.clone_line().to_vec()
}

fn len<T: LineValid>() -> usize {
    use rac::generic_array::typenum::Unsigned;
    T::Length::USIZE
}

fn dec<T: LineValid>(what: &str, b: &[u8]) -> Result<Option<T>, Failure> {
    no_panic(&format!("decode-{what}"), || T::try_clone_array(Array::from_slice(b)).ok())
}

fn sure<T: LineValid>(b: &[u8]) -> T {
    T::try_clone_array(Array::from_slice(b)).ok().expect("decodes")
}

// ---------------------------------------------------------------- numbers

/// little-endian, 32 bytes: anything, near the group order, near powers of two, small
fn near(m: U256, le: bool) -> impl Strategy<Value = Hex> {
    let small = |x: u64| U256([0, 0, 0, x]);
    let v = prop_oneof![
        5 => gen::bytes(32).prop_map(|b| U256::be(&b)),
        1 => (0..6u64).prop_map(small),
        2 => (0..6u64).prop_map(move |x| m.sub(small(x)).0),
        1 => (0..6u64).prop_map(move |x| m.add(small(x)).0),
        1 => (0..256usize, 0..3u64).prop_map(move |(i, d)| {
            let mut b = [0u8; 32];
            b[31 - i / 8] = 1 << (i % 8);
            U256::be(&b).sub(small(d)).0
        }),
    ];
    v.prop_map(move |v| Hex(if le { v.to_le() } else { v.to_be() }.to_vec()))
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Form {
    /// through the crate's decoder
    Decoded,
    /// reduced modulo the group order
    Reduced,
    /// any value below 2^255
    Raw,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EdNum {
    form: Form,
    bytes: Hex,
}

fn ed_num() -> impl Strategy<Value = EdNum> {
    (select(vec![Form::Decoded, Form::Reduced, Form::Raw]), near(l25519().m, true)).prop_map(|(form, bytes)| EdNum { form, bytes })
}

impl EdNum {
    fn value(&self) -> U256 {
        match self.form {
            Form::Decoded => U256::le(&clamp(&self.bytes)),
            Form::Reduced => l25519().red(U256::le(&self.bytes)),
            Form::Raw => {
                let mut b = self.bytes.0.clone();
                b[31] &= 127;
                U256::le(&b)
            }
        }
    }
    fn get(&self) -> EdScalar {
        match self.form {
            Form::Decoded => sure(&self.bytes),
            Form::Reduced => EdScalar::from_canonical_bytes(self.value().to_le()).unwrap(),
            Form::Raw => EdScalar::from_bits(self.value().to_le()),
        }
    }
}

fn k_num() -> impl Strategy<Value = Hex> {
    let n = n256k1();
    near(n.m, false).prop_map(move |b| {
        let v = n.red(U256::be(&b));
        Hex(if v.is_zero() { U256::ONE } else { v }.to_be().to_vec())
    })
}

// ---------------------------------------------------------------- points

#[derive(Clone, Debug, Serialize, Deserialize)]
enum EdPt {
    /// a multiple of the base point
    Base(EdNum),
    /// decoded from these bytes, or the base point if they encode none
    Bytes(Hex),
    /// a point of small order plus a multiple of the base point
    Torsion(usize, EdNum),
}

const ED_ODD: [&str; 12] = [
    // points of order 1, 2, 4, 8, canonical and not
    "0100000000000000000000000000000000000000000000000000000000000000",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0000000000000000000000000000000000000000000000000000000000000080",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
    "0100000000000000000000000000000000000000000000000000000000000080",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
];

fn ed_bytes() -> impl Strategy<Value = Hex> {
    prop_oneof![
        4 => gen::bytes(32),
        2 => ed_num().prop_map(|n| Hex(Ed::base().mul(n.value()).encode().to_vec())),
        1 => select(ED_ODD.to_vec()).prop_map(|h| Hex(hex::decode(h).unwrap())),
        // above the field prime
        1 => (0..19u8, any::<bool>()).prop_map(|(x, s)| {
            let mut b = vec![0xffu8; 32];
            b[0] = 0xed + x;
            b[31] = if s { 0xff } else { 0x7f };
            Hex(b)
        }),
    ]
}

fn ed_pt() -> impl Strategy<Value = EdPt> {
    prop_oneof![
        3 => ed_num().prop_map(EdPt::Base),
        2 => ed_bytes().prop_map(EdPt::Bytes),
        1 => (0..8usize, ed_num()).prop_map(|(t, n)| EdPt::Torsion(t, n)),
    ]
}

impl EdPt {
    fn model(&self) -> Ed {
        match self {
            EdPt::Base(n) => Ed::base().mul(n.value()),
            EdPt::Bytes(b) => Ed::decode(b).unwrap_or_else(Ed::base),
            EdPt::Torsion(t, n) => Ed::decode(&hex::decode(ED_ODD[*t]).unwrap()).unwrap().add(&Ed::base().mul(n.value())),
        }
    }
    /// base-point arithmetic, so that it is not only the decoder that makes points
    fn get(&self) -> EdwardsPoint {
        match self {
            EdPt::Base(n) => EdwardsPoint::base().exp_ec(&n.get()),
            _ => sure(&self.model().encode()),
        }
    }
}

fn k_point(bytes: &[u8]) -> Kp {
    Kp::base().mul(U256::be(bytes))
}

fn k_code(p: Kp) -> PublicKey {
    sure(&p.xy().expect("finite"))
}

// ---------------------------------------------------------------- R01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Curve25519Bytes {
    scalar: Hex,
    edwards: Hex,
    montgomery: Hex,
}

fn r01_25519(c: &Curve25519Bytes) -> Verdict {
    let s: EdScalar = match dec("scalar", &c.scalar)? {
        Some(s) => s,
        None => fail!("scalar-refused", "a 32-byte scalar was refused"),
    };
    let b = enc(&s);
    check!(b == clamp(&c.scalar), "scalar-clamp", "a decoded scalar is not the clamped input: {}", diff(&b, &clamp(&c.scalar)));
    check!(enc(&sure::<EdScalar>(&b)) == b, "scalar-trip", "a scalar changed on encode/decode");
    let m: MontgomeryPoint = match dec("montgomery", &c.montgomery)? {
        Some(m) => m,
        None => fail!("montgomery-refused", "a 32-byte Montgomery point was refused"),
    };
    check!(enc(&m) == c.montgomery.0, "montgomery-trip", "a Montgomery point changed on decode/encode");
    check!(m.compress().to_vec() == c.montgomery.0, "montgomery-compress", "compression of a Montgomery point");
    let d = no_panic("decompress", || MontgomeryPoint::decompress(Array::from_slice(&c.montgomery)).ok().map(|m| enc(&m)))?;
    check!(d.as_deref() == Some(&c.montgomery[..]), "montgomery-decompress", "decompression of a Montgomery point");

    let want = Ed::decode(&c.edwards).map(|p| p.encode().to_vec());
    for (what, got) in [
        ("decode", dec::<EdwardsPoint>("edwards", &c.edwards)?),
        ("decompress", no_panic("decompress", || EdwardsPoint::decompress(Array::from_slice(&c.edwards)).ok())?),
    ] {
        match (&want, got) {
            (None, None) => (),
            (None, Some(p)) => fail!("edwards-not-a-point", "{what} accepted {:?}, which is no point, as {}", c.edwards, hex::encode(enc(&p))),
            (Some(_), None) => fail!("edwards-refused", "{what} refused the point {:?}", c.edwards),
            (Some(w), Some(p)) => {
                check!(enc(&p) == *w, "edwards-trip", "{what} then encode of {:?}: {}", c.edwards, diff(&enc(&p), w));
                check!(sure::<EdwardsPoint>(&enc(&p)) == p, "edwards-trip", "an Edwards point changed on encode/decode");
            }
        }
    }
    Ok(Outcome::ok().label(if want.is_some() { "a point" } else { "not a point" }))
}

fn curve25519_bytes() -> impl Strategy<Value = Curve25519Bytes> {
    (near(l25519().m, true), ed_bytes(), prop_oneof![gen::bytes(32), ed_bytes()])
        .prop_map(|(scalar, edwards, montgomery)| Curve25519Bytes { scalar, edwards, montgomery })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Secp {
    secret: Hex,
    /// x, y
    point: Hex,
    packed: Hex,
    sig: Hex,
}

fn k_xy() -> impl Strategy<Value = Hex> {
    let x = || near(p256k1().m, false);
    prop_oneof![
        3 => k_num().prop_map(|n| Hex(k_point(&n).xy().unwrap().to_vec())),
        2 => (k_num(), gen::flips()).prop_map(|(n, f)| Hex(gen::flip(&k_point(&n).xy().unwrap(), &f))),
        1 => (x(), x()).prop_map(|(a, b)| Hex([a.0, b.0].concat())),
        // any x with a matching y
        2 => (x(), any::<bool>()).prop_map(|(x, o)| Hex(match Kp::lift(U256::be(&x), o) {
            Some(p) => p.xy().unwrap().to_vec(),
            None => [x.0.clone(), x.0].concat(),
        })),
    ]
}

fn k_packed() -> impl Strategy<Value = Hex> {
    let prefix = prop_oneof![4 => select(vec![2u8, 3]), 1 => any::<u8>()];
    let x = prop_oneof![2 => k_num().prop_map(|n| Hex(k_point(&n).xy().unwrap()[..32].to_vec())), 2 => near(p256k1().m, false)];
    (prefix, x).prop_map(|(p, x)| Hex([vec![p], x.0].concat()))
}

fn secp() -> impl Strategy<Value = Secp> {
    let n = || near(n256k1().m, false);
    (n(), k_xy(), k_packed(), (n(), n())).prop_map(|(secret, point, packed, (r, s))| Secp { secret, point, packed, sig: Hex([r.0, s.0].concat()) })
}

fn same(what: &'static str, valid: bool, input: &[u8], got: Option<Vec<u8>>) -> Result<(), Failure> {
    match (valid, got) {
        (true, Some(b)) => {
            check!(b == input, format!("{what}-trip"), "{what} changed on decode/encode: {}", diff(&b, input));
        }
        (false, None) => (),
        (true, None) => fail!(format!("{what}-refused"), "the valid {what} {} was refused", hex::encode(input)),
        (false, Some(b)) => fail!(format!("{what}-accepted"), "the invalid {what} {} was accepted as {}", hex::encode(input), hex::encode(b)),
    }
    Ok(())
}

fn secret_ok(b: &[u8]) -> bool {
    let v = U256::be(b);
    !v.is_zero() && v < n256k1().m
}

fn point_ok(b: &[u8]) -> bool {
    Kp::on_curve(U256::be(&b[..32]), U256::be(&b[32..]))
}

fn sig_ok(b: &[u8]) -> bool {
    U256::be(&b[..32]) < n256k1().m && U256::be(&b[32..]) < n256k1().m
}

fn r01_secp(c: &Secp) -> Verdict {
    let s: Option<SecretKey> = dec("secret", &c.secret)?;
    let (sv, pv) = (secret_ok(&c.secret), point_ok(&c.point));
    same("secp256k1-secret", sv, &c.secret, s.map(|x| enc(&x)))?;
    let p: Option<PublicKey> = dec("point", &c.point)?;
    same("secp256k1-point", pv, &c.point, p.map(|x| enc(&x)))?;
    let g: Option<CompactSig> = dec("signature", &c.sig)?;
    same("secp256k1-signature", sig_ok(&c.sig), &c.sig, g.map(|x| enc(&x)))?;
    let want = match c.packed[0] {
        2 | 3 => Kp::lift(U256::be(&c.packed[1..]), c.packed[0] == 3),
        _ => None,
    };
    let p = no_panic("decompress", || PublicKey::decompress(Array::from_slice(&c.packed)).ok())?;
    same("secp256k1-packed", want.is_some(), &c.packed, p.map(|p| p.compress().to_vec()))?;
    if let (Some(w), Some(p)) = (want, p) {
        check!(enc(&p) == w.xy().unwrap(), "secp256k1-unpacked", "decompression of {:?} gave another point", c.packed);
    }
    Ok(Outcome::ok().label_if(sv, "valid secret").label_if(pv, "valid point").label_if(want.is_some(), "valid packed"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pairs {
    kind: u8,
    /// filler for byte arrays
    fill: Hex,
    c: Curve25519Bytes,
    k: Secp,
}

/// A pair decodes when both parts do, and then encodes to its parts' encodings.
fn pair<U: LineValid, V: LineValid>(u: &[u8], v: &[u8]) -> Verdict
where
    Concat<U, V>: LineValid,
{
    let both = [u, v].concat();
    assert_eq!(both.len(), len::<Concat<U, V>>(), "harness");
    let parts = (dec::<U>("part", u)?, dec::<V>("part", v)?);
    let whole: Option<Concat<U, V>> = dec("pair", &both)?;
    match (parts, whole) {
        ((Some(u), Some(v)), Some(w)) => {
            let want = [enc(&u), enc(&v)].concat();
            let got = enc(&w);
            check!(got == want, "pair-encoding", "a pair's encoding is not its parts' encodings: {}", diff(&got, &want));
            check!(enc(w.as_ref_u()) == enc(&u) && enc(w.as_ref_v()) == enc(&v), "pair-parts", "a decoded pair's parts");
            let made = no_panic("pair", || enc(&Concat(u, v)))?;
            check!(made == want, "pair-encoding", "a constructed pair's encoding: {}", diff(&made, &want));
            let again = enc(&sure::<Concat<U, V>>(&got));
            check!(again == want, "pair-trip", "a pair changed on encode/decode: {}", diff(&again, &want));
            Ok(Outcome::ok().label("pair of valid parts"))
        }
        ((None, _) | (_, None), None) => Ok(Outcome::ok().label("pair with an invalid part")),
        ((Some(_), Some(_)), None) => fail!("pair-refused", "a pair of valid parts was refused"),
        (_, Some(_)) => fail!("pair-accepted", "a pair with an invalid part was accepted"),
    }
}

fn r01_pairs(c: &Pairs) -> Verdict {
    let f = |a: usize, n: usize| &c.fill[a..a + n];
    match c.kind {
        0 => pair::<Array<U3>, Array<U5>>(f(0, 3), f(3, 5)),
        1 => pair::<[u8; 0], Array<U7>>(&[], f(0, 7)),
        2 => pair::<Array<U7>, [u8; 0]>(f(0, 7), &[]),
        3 => pair::<EdScalar, EdwardsPoint>(&c.c.scalar, &c.c.edwards),
        4 => pair::<EdwardsPoint, MontgomeryPoint>(&c.c.edwards, &c.c.montgomery),
        5 => pair::<MontgomeryPoint, Concat<SecretKey, PublicKey>>(&c.c.montgomery, &[&c.k.secret[..], &c.k.point[..]].concat()),
        6 => pair::<Concat<PublicKey, CompactSig>, Array<U16>>(&[&c.k.point[..], &c.k.sig[..]].concat(), f(0, 16)),
        7 => pair::<Concat<Concat<Array<U3>, EdScalar>, Array<U5>>, Concat<SecretKey, [u8; 0]>>(&[f(0, 3), &c.c.scalar, f(3, 5)].concat(), &c.k.secret),
        8 => pair::<Schnorr<EdwardsPoint, Sha3_256>, Array<U3>>(&[&c.c.edwards[..], &c.c.scalar[..]].concat(), f(0, 3)),
        _ => pair::<Array<U3>, Schnorr<PublicKey, Sha256>>(f(0, 3), &c.k.sig),
    }
}

fn pairs() -> impl Strategy<Value = Pairs> {
    (0..10u8, gen::bytes(16), curve25519_bytes(), secp()).prop_map(|(kind, fill, c, k)| Pairs { kind, fill, c, k })
}

/// Schnorr signatures as byte strings.
fn r01_schnorr(c: &Pairs) -> Verdict {
    let sig = [&c.c.edwards[..], &c.c.scalar[..]].concat();
    let ed_valid = U256::le(&c.c.scalar) < l25519().m;
    let g: Option<Schnorr<EdwardsPoint, Sha3_256>> = dec("schnorr", &sig)?;
    let taken = g.is_some();
    // a refusal of an unreduced scalar is as good as its faithful decoding
    if ed_valid || taken {
        same("schnorr-25519", true, &sig, g.as_ref().map(enc))?;
    }
    let valid = secret_ok(&c.k.sig[32..]);
    let g: Option<Schnorr<PublicKey, Sha256>> = dec("schnorr", &c.k.sig)?;
    same("schnorr-secp256k1", valid, &c.k.sig, g.as_ref().map(enc))?;
    Ok(Outcome::ok().label_if(ed_valid, "reduced 25519 scalar").label_if(valid, "valid secp256k1 scalar"))
}

type Deep = Concat<Concat<Array<U3>, [u8; 0]>, Concat<Array<U7>, Concat<Array<U32>, Array<U5>>>>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Likes {
    bytes: Hex,
    /// longer lines, derived from this
    fill: u64,
    /// 0 clone, 1 bincode, 2 JSON
    steps: Vec<u8>,
    /// damage to the serialised form
    cut: u32,
}

fn like<T: Line>(c: &Likes) -> Verdict {
    let n = len::<T>();
    let longer;
    let b = if n <= c.bytes.len() {
        &c.bytes[..n]
    } else {
        // runs of noise and of constant bytes
        let mut v = gen::expand(c.fill, n);
        let (from, to) = (c.cut as usize % n, c.fill as usize % n);
        v[from.min(to)..from.max(to)].fill([0, 0xff, 0x80, 1][c.fill as usize / 0x10000 % 4]);
        longer = v;
        &longer
    };
    let t = no_panic("clone-array", || T::clone_array(Array::from_slice(b)))?;
    check!(enc(&t) == b, "total-decode", "the infallible decoder changed the value: {}", diff(&enc(&t), b));
    check!(dec::<T>("line", b)?.map(|x| enc(&x)).as_deref() == Some(b), "line-trip", "encode/decode changed the value");
    let mut x = LineLike(t);
    for s in &c.steps {
        x = no_panic("line-like", || match s {
            0 => x.clone(),
            1 => bincode::deserialize(&bincode::serialize(&x).unwrap()).unwrap(),
            _ => serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap(),
        })?;
        check!(enc(&x.0) == b, "like-trip", "step {s} changed the value: {}", diff(&enc(&x.0), b));
    }
    let mut text = serde_json::to_vec(&x).unwrap();
    let mut bin = bincode::serialize(&x).unwrap();
    text.truncate(c.cut as usize % text.len().max(1));
    bin.truncate(c.cut as usize % bin.len().max(1));
    let long = [bin.clone(), vec![7; n + 80]].concat();
    no_panic("like-damaged", || {
        let _ = serde_json::from_slice::<LineLike<T>>(&text);
        let _ = bincode::deserialize::<LineLike<T>>(&bin);
        let _ = bincode::deserialize::<LineLike<T>>(&long);
        let _ = serde_json::from_str::<LineLike<T>>(&format!("{:?}", long));
    })?;
    Ok(Outcome::when(!b.is_empty()))
}

fn r01_like(c: &Likes) -> Verdict {
    like::<Array<U3>>(c)?;
    like::<Array<U32>>(c)?;
    like::<[u8; 0]>(c)?;
    like::<Concat<Array<U3>, Array<U7>>>(c)?;
    // pairs also serialise by themselves
    let p: Concat<Array<U3>, Array<U7>> = sure(&c.bytes[..10]);
    let q: Concat<Array<U3>, Array<U7>> = no_panic("pair-serde", || bincode::deserialize(&bincode::serialize(&p).unwrap()).unwrap())?;
    check!(enc(&q) == c.bytes[..10], "pair-serde", "serialising a pair changed it");
    let q: Concat<Array<U3>, Array<U7>> = no_panic("pair-serde", || serde_json::from_str(&serde_json::to_string(&p).unwrap()).unwrap())?;
    check!(enc(&q) == c.bytes[..10], "pair-serde", "serialising a pair changed it");
    like::<Array<U33>>(c)?;
    like::<Array<U65>>(c)?;
    like::<Array<U255>>(c)?;
    like::<Array<U256T>>(c)?;
    // the sizes of the post-quantum part
    like::<Concat<Array<Prod<U64, U18>>, Concat<Array<U32>, Array<Prod<U64, U17>>>>>(c)?;
    like::<Deep>(c)
}

fn likes() -> impl Strategy<Value = Likes> {
    (gen::bytes(64), any::<u64>(), vec(0..3u8, 0..6), any::<u32>()).prop_map(|(bytes, fill, steps, cut)| Likes { bytes, fill, steps, cut })
}

// ---------------------------------------------------------------- R02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EdArith {
    a: EdNum,
    b: EdNum,
    p: EdPt,
    q: EdPt,
    /// what the second point has to do with the first
    pq: Tie,
}

fn ed_arith() -> impl Strategy<Value = EdArith> {
    let tie = || prop_oneof![7 => Just(Tie::Free), 1 => Just(Tie::Same), 1 => Just(Tie::Opposite)];
    (ed_num(), ed_num(), ed_pt(), ed_pt(), tie(), tie()).prop_map(|(a, mut b, p, q, ab, pq)| {
        let l = l25519();
        match ab {
            Tie::Free => (),
            Tie::Same => b = a.clone(),
            // reduced: the sum is zero modulo the order
            Tie::Opposite => b = EdNum { form: Form::Reduced, bytes: Hex(l.neg(l.red(a.value())).to_le().to_vec()) },
        }
        EdArith { a, b, p, q, pq }
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Tie {
    Free,
    Same,
    Opposite,
}

fn r02_ed(c: &EdArith) -> Verdict {
    let l = l25519();
    let (av, bv) = (c.a.value(), c.b.value());
    let (ar, br) = (l.red(av), l.red(bv));
    let (a, b) = (c.a.get(), c.b.get());
    check!(enc(&a) == av.to_le(), "scalar-encode", "the encoding of a scalar is not its value");
    let ops = no_panic("scalar", || (a.add_ff(&b), a.sub_ff(&b), a.mul_ff(&b)))?;
    for (what, got, want) in [("add", &ops.0, l.add(ar, br)), ("sub", &ops.1, l.sub(ar, br)), ("mul", &ops.2, l.mul(ar, br))] {
        let Ok(got) = got else { fail!(format!("scalar-{what}"), "scalar {what} failed") };
        let g = U256::le(&enc(got));
        check!(l.red(g) == want, format!("scalar-{what}"), "scalar {what} is not integer arithmetic modulo the group order: {:?} {:?}", c.a, c.b);
    }
    let (p, pm) = (c.p.get(), c.p.model());
    let (q, qm) = match c.pq {
        Tie::Free => (c.q.get(), c.q.model()),
        Tie::Same => (p, pm),
        Tie::Opposite => (sure(&pm.neg().encode()), pm.neg()),
    };
    check!(enc(&p) == pm.encode(), "point", "g^n differs from the reference");
    let sum = no_panic("point-add", || p.mul_ec(&q))?;
    let want = pm.add(&qm).encode();
    check!(enc(&sum) == want, "point-add", "addition differs from the curve equation");
    check!(enc(&q.mul_ec(&p)) == want, "point-add-commutes", "addition does not commute");
    let e = no_panic("point-exp", || p.exp_ec(&a))?;
    let want = pm.mul(av).encode();
    check!(enc(&e) == want, "point-exp", "multiplication by a scalar differs from the curve equation: {}", diff(&enc(&e), &want));
    let g = EdwardsPoint::base();
    check!(enc(&g) == Ed::base().encode(), "base", "the base point");
    let (ga, gb) = (g.exp_ec(&a), g.exp_ec(&b));
    check!(g.exp_ec(ops.0.as_ref().unwrap()) == ga.mul_ec(&gb), "law-add", "g^(a+b) differs from g^a g^b");
    check!(g.exp_ec(ops.1.as_ref().unwrap()).mul_ec(&gb) == ga, "law-sub", "g^(a-b) g^b differs from g^a");
    check!(g.exp_ec(ops.2.as_ref().unwrap()) == ga.exp_ec(&b), "law-mul", "g^(ab) differs from (g^a)^b");
    for x in [&p, &sum, &e] {
        let packed = no_panic("compress", || Curve::compress(x))?;
        check!(packed.to_vec() == enc(x), "compress", "compression differs from the encoding");
        let Ok(back) = no_panic("decompress", || EdwardsPoint::decompress(&packed))? else { fail!("decompress", "a compressed point was refused") };
        check!(back == *x, "decompress", "compression changed the point");
        let mut want = enc(x);
        want[31] &= 0x7f;
        let got = no_panic("coordinate", || x.x_coordinate().to_vec())?;
        check!(got == want, "coordinate", "the coordinate is not the encoding without its sign: {}", diff(&got, &want));
    }
    let zero = [l.add(ar, br), l.sub(ar, br)].iter().any(U256::is_zero);
    Ok(Outcome::ok()
        .label_if(matches!(c.p, EdPt::Torsion(..)), "torsion")
        .label_if(av >= l.m || bv >= l.m, "unreduced scalar")
        .label_if(zero, "zero sum or difference")
        .label_if(c.pq != Tie::Free, "equal or opposite points"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KArith {
    a: Hex,
    b: Hex,
    /// discrete logarithms of two points; the second may be tied to the first
    p: Hex,
    q: Option<Hex>,
    negate: bool,
}

fn k_arith() -> impl Strategy<Value = KArith> {
    let tie = prop_oneof![7 => Just(Tie::Free), 1 => Just(Tie::Same), 1 => Just(Tie::Opposite)];
    (k_num(), k_num(), k_num(), option::weighted(0.8, k_num()), any::<bool>(), tie).prop_map(|(a, mut b, p, q, negate, tie)| {
        match tie {
            Tie::Free => (),
            Tie::Same => b = a.clone(),
            Tie::Opposite => b = Hex(n256k1().neg(U256::be(&a)).to_be().to_vec()),
        }
        KArith { a, b, p, q, negate }
    })
}
use common::proptest::option;

fn r02_k(c: &KArith) -> Verdict {
    let n = n256k1();
    let (av, bv) = (U256::be(&c.a), U256::be(&c.b));
    let (a, b): (SecretKey, SecretKey) = (sure(&c.a), sure(&c.b));
    let sum = no_panic("scalar-add", || a.add_ff(&b))?;
    let want = n.add(av, bv);
    match &sum {
        Ok(s) => check!(enc(s) == want.to_be(), "scalar-add", "scalar addition modulo the group order"),
        Err(()) => check!(want.is_zero(), "scalar-add", "scalar addition failed on {:?} {:?}", c.a, c.b),
    }
    check!(!(want.is_zero() && sum.is_ok()), "scalar-add", "a zero secret was made");
    let mul = no_panic("scalar-mul", || a.mul_ff(&b))?;
    let Ok(mul) = mul else { fail!("scalar-mul", "scalar multiplication failed") };
    check!(enc(&mul) == n.mul(av, bv).to_be(), "scalar-mul", "scalar multiplication modulo the group order");
    let g = PublicKey::base();
    check!(enc(&g) == Kp::base().xy().unwrap(), "base", "the base point");
    let pm = k_point(&c.p);
    let p = k_code(pm);
    check!(g.exp_ec(&sure(&c.p)) == p, "point", "g^n differs from the reference");
    let qv = match &c.q {
        Some(q) => U256::be(q),
        None => U256::be(&c.p),
    };
    let qv = if c.negate { n.neg(qv) } else { qv };
    let qm = Kp::base().mul(qv);
    let q = k_code(qm);
    let s = pm.add(qm);
    let finite = s.0.is_some();
    if finite {
        let got = no_panic("point-add", || p.mul_ec(&q))?;
        check!(enc(&got) == s.xy().unwrap(), "point-add", "addition differs from the curve equation");
        check!(q.mul_ec(&p) == got, "point-add-commutes", "addition does not commute");
    }
    let e = no_panic("point-exp", || p.exp_ec(&a))?;
    check!(enc(&e) == pm.mul(av).xy().unwrap(), "point-exp", "multiplication by a scalar differs from the curve equation");
    let (ga, gb) = (g.exp_ec(&a), g.exp_ec(&b));
    if let Ok(s) = &sum {
        check!(g.exp_ec(s) == ga.mul_ec(&gb), "law-add", "g^(a+b) differs from g^a g^b");
    }
    check!(g.exp_ec(&mul) == ga.exp_ec(&b), "law-mul", "g^(ab) differs from (g^a)^b");
    for x in [&p, &e, &q] {
        let b = enc(x);
        let want = [vec![2 + (b[63] & 1)], b[..32].to_vec()].concat();
        let packed = no_panic("compress", || x.compress())?;
        check!(packed.to_vec() == want, "compress", "compression is not the parity and x");
        let Ok(back) = no_panic("decompress", || PublicKey::decompress(&packed))? else { fail!("decompress", "a compressed point was refused") };
        check!(back == *x, "decompress", "compression changed the point");
        let got = no_panic("coordinate", || x.x_coordinate().to_vec())?;
        check!(got == b[..32], "coordinate", "the coordinate is not x");
    }
    Ok(Outcome::ok().label_if(!finite, "sum at infinity (not asked for)").label_if(sum.is_err(), "zero sum of secrets"))
}

// ---------------------------------------------------------------- R03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dh {
    a: Hex,
    b: Hex,
    public: Hex,
}

const U_ODD: [&str; 7] = [
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0100000000000000000000000000000000000000000000000000000000000000",
    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
];

fn dh() -> impl Strategy<Value = Dh> {
    let u = prop_oneof![
        4 => gen::bytes(32),
        2 => (select(U_ODD.to_vec()), any::<bool>()).prop_map(|(h, top)| {
            let mut b = hex::decode(h).unwrap();
            if top { b[31] |= 0x80 }
            Hex(b)
        }),
        1 => (0..19u8, any::<bool>()).prop_map(|(x, s)| {
            let mut b = vec![0xffu8; 32];
            b[0] = 0xed + x;
            b[31] = if s { 0xff } else { 0x7f };
            Hex(b)
        }),
    ];
    (near(l25519().m, true), near(l25519().m, true), u).prop_map(|(a, b, public)| Dh { a, b, public })
}

fn r03(c: &Dh) -> Verdict {
    let nine = { let mut n = [0; 32]; n[0] = 9; n };
    let Some(a) = dec::<EdScalar>("scalar", &c.a)? else { fail!("secret-refused", "a 32-byte secret was refused") };
    let Some(b) = dec::<EdScalar>("scalar", &c.b)? else { fail!("secret-refused", "a 32-byte secret was refused") };
    let public = |s: &EdScalar| no_panic("public", || enc(&MontgomeryPoint::base().exp_ec(s)));
    let shared = |s: &EdScalar, p: &[u8]| -> Result<Vec<u8>, Failure> {
        let Some(p) = dec::<MontgomeryPoint>("public", p)? else { fail!("public-refused", "a 32-byte public value was refused") };
        no_panic("shared", || enc(&p.exp_ec(s)))
    };
    let (pa, pb) = (public(&a)?, public(&b)?);
    check!(pa == x25519(&c.a, &nine) && pb == x25519(&c.b, &nine), "public", "a public value is not X25519(secret, 9)");
    let (sa, sb) = (shared(&a, &pb)?, shared(&b, &pa)?);
    check!(sa == sb, "agreement", "the parties disagree: {}", diff(&sa, &sb));
    let want = x25519(&c.a, &pb);
    check!(sa == want, "shared", "the shared value is not X25519: {}", diff(&sa, &want));
    let got = shared(&a, &c.public)?;
    let want = x25519(&c.a, &c.public);
    check!(got == want, "any-public", "with public value {:?}: {}", c.public, diff(&got, &want));
    Ok(Outcome::ok().label_if(want == [0; 32], "low order public value"))
}

// ---------------------------------------------------------------- R04, R05

type EdSig<D> = Schnorr<EdwardsPoint, D>;
type KSig<D> = Schnorr<PublicKey, D>;

fn digest(d: u8, parts: &[&[u8]]) -> [u8; 32] {
    let all = parts.concat();
    match d {
        0 => Sha3_256::digest(&all).into(),
        _ => Sha256::digest(&all).into(),
    }
}

/// r, s of a signature made by the equations of the scheme
fn ed_sign(d: u8, key: U256, nonce: U256, msg: &[u8]) -> Vec<u8> {
    let l = l25519();
    let mut r = Ed::base().mul(nonce).encode();
    r[31] &= 0x7f;
    let h = l.red(U256::le(&clamp(&digest(d, &[&r, msg]))));
    let s = l.sub(l.red(nonce), l.mul(l.red(key), h));
    [r, s.to_le()].concat()
}

fn ed_verify(d: u8, sig: &[u8], public: &Ed, msg: &[u8]) -> bool {
    let (r, s) = (&sig[..32], U256::le(&sig[32..]));
    if s >= l25519().m {
        return false;
    }
    let h = U256::le(&clamp(&digest(d, &[r, msg])));
    let mut q = public.mul(h).add(&Ed::base().mul(s)).encode();
    q[31] &= 0x7f;
    q == r
}

/// None when s comes out as zero
fn k_sign(d: u8, key: U256, nonce: U256, msg: &[u8]) -> Option<Vec<u8>> {
    let n = n256k1();
    let r: [u8; 32] = Kp::base().mul(nonce).xy()?[..32].try_into().unwrap();
    let h = n.red(U256::be(&digest(d, &[&r, msg])));
    let s = n.sub(nonce, n.mul(key, h));
    (!s.is_zero()).then(|| [r, s.to_be()].concat())
}

fn k_verify(d: u8, sig: &[u8], public: Kp, msg: &[u8]) -> bool {
    let (r, s) = (&sig[..32], &sig[32..]);
    let h = digest(d, &[r, msg]);
    if !secret_ok(s) || !secret_ok(&h) {
        return false;
    }
    let q = public.mul(U256::be(&h)).add(Kp::base().mul(U256::be(s)));
    q.xy().map_or(false, |q| q[..32] == *r)
}

/// decode (some number of times), then verify; None: not decoded
fn ask<C, D>(sig: &[u8], public: &C, msg: &[u8], trips: u8) -> Result<Option<bool>, Failure>
where
    Schnorr<C, D>: Signature<Curve = C>,
    C: Curve,
    D: Default + sha3::digest::Update + sha3::digest::FixedOutput<OutputSize = <C::Scalar as LineValid>::Length>,
    Concat<Array<C::CoordinateLength>, C::Scalar>: LineValid,
{
    let Some(mut s) = dec::<Schnorr<C, D>>("schnorr", sig)? else { return Ok(None) };
    for _ in 0..trips {
        let b = enc(&s);
        s = match dec("schnorr", &b)? {
            Some(s) => s,
            None => fail!("re-decode", "a decoded signature was refused after encoding it again"),
        };
    }
    no_panic("verify", || s.verify(public, &msg.to_vec()).is_ok()).map(Some)
}

fn ed_ask(d: u8, sig: &[u8], public: &EdwardsPoint, msg: &[u8], trips: u8) -> Result<Option<bool>, Failure> {
    match d {
        0 => ask::<_, Sha3_256>(sig, public, msg, trips),
        _ => ask::<_, Sha256>(sig, public, msg, trips),
    }
}

fn k_ask(d: u8, sig: &[u8], public: &PublicKey, msg: &[u8], trips: u8) -> Result<Option<bool>, Failure> {
    match d {
        0 => ask::<_, Sha3_256>(sig, public, msg, trips),
        _ => ask::<_, Sha256>(sig, public, msg, trips),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EdSigned {
    d: u8,
    key: EdNum,
    nonce: EdNum,
    msg: Hex,
    trips: u8,
    trip_key: bool,
}

fn msg() -> impl Strategy<Value = Hex> {
    (gen::sized(vec![0, 1, 32, 64, 104, 136, 168, 1000], 1100), common::proptest::option::weighted(0.3, a_run())).prop_map(|(mut m, run)| {
        if let Some((front, byte, n)) = run {
            let n = (n as usize).min(m.len());
            let at = if front { 0 } else { m.len() - n };
            m.0[at..at + n].fill(byte);
        }
        m
    })
}

fn ed_signed() -> impl Strategy<Value = EdSigned> {
    (0..2u8, ed_num(), ed_num(), msg(), 0..3u8, any::<bool>()).prop_map(|(d, key, nonce, msg, trips, trip_key)| EdSigned { d, key, nonce, msg, trips, trip_key })
}

fn ed_made<D>(c: &EdSigned, key: &EdScalar, nonce: &EdScalar, public: &EdwardsPoint) -> Result<Vec<u8>, Failure>
where
    D: Default + sha3::digest::Update + sha3::digest::FixedOutput<OutputSize = U32>,
{
    let sig = match no_panic("sign", || EdSig::<D>::sign(key, &c.msg.0, nonce))? {
        Ok(s) => s,
        Err(()) => fail!("sign", "signing failed"),
    };
    let ok = no_panic("verify", || sig.verify(public, &&c.msg[..]).is_ok())?;
    check!(ok, "honest-refused", "an honest signature was refused in memory");
    Ok(enc(&sig))
}

fn r04_ed(c: &EdSigned) -> Verdict {
    let (key, nonce) = (c.key.get(), c.nonce.get());
    let mut public = EdwardsPoint::base().exp_ec(&key);
    if c.trip_key {
        public = sure(&enc(&public));
    }
    let model = Ed::base().mul(c.key.value());
    let bytes = match c.d {
        0 => ed_made::<Sha3_256>(c, &key, &nonce, &public)?,
        _ => ed_made::<Sha256>(c, &key, &nonce, &public)?,
    };
    let got = ed_ask(c.d, &bytes, &public, &c.msg, c.trips)?;
    check!(got == Some(true), "decoded-refused", "an honest signature was {} after {} encode/decode trips", if got.is_none() { "not decoded" } else { "refused" }, c.trips + 1);
    check!(ed_verify(c.d, &bytes, &model, &c.msg), "honest-wrong", "an honest signature does not satisfy the scheme's equation");
    let reference = ed_sign(c.d, c.key.value(), c.nonce.value(), &c.msg);
    let got = ed_ask(c.d, &reference, &public, &c.msg, c.trips)?;
    check!(got == Some(true), "reference-refused", "a signature made by the equation was not accepted");
    Ok(Outcome::ok().label_if(c.msg.is_empty(), "empty message").label(if c.trip_key { "decoded key" } else { "key in memory" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KSigned {
    d: u8,
    key: Hex,
    nonce: Hex,
    msg: Hex,
    trips: u8,
}

fn k_signed() -> impl Strategy<Value = KSigned> {
    (0..2u8, k_num(), k_num(), msg(), 0..3u8).prop_map(|(d, key, nonce, msg, trips)| KSigned { d, key, nonce, msg, trips })
}

fn r04_k(c: &KSigned) -> Verdict {
    let public = PublicKey::base().exp_ec(&sure(&c.key));
    let Some(bytes) = k_sign(c.d, U256::be(&c.key), U256::be(&c.nonce), &c.msg) else { return Ok(Outcome::trivial()) };
    let got = k_ask(c.d, &bytes, &public, &c.msg, c.trips)?;
    check!(got == Some(true), "reference-refused", "a signature made by the equation was not accepted");
    let got = k_ask(c.d, &bytes, &sure(&enc(&public)), &c.msg, c.trips)?;
    check!(got == Some(true), "decoded-refused", "a signature was not accepted under the decoded key");
    Ok(Outcome::ok().label_if(c.msg.is_empty(), "empty message"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Forge {
    SigBits(Vec<u32>),
    MsgBits(Vec<u32>),
    MsgAppend(Hex),
    MsgPrepend(Hex),
    MsgCut(u32),
    MsgDropFront(u32),
    /// so many of this byte at the front or the end
    MsgPad(bool, u8, u16),
    /// move the last bytes of r to the message or so: message replaced by r's tail and message
    Key(u64),
    /// halves of two signatures of the same key: other nonce and message
    Halves(bool, u64),
    Swap,
    Negate,
    Random(u64),
    /// s + l, s + 2l, ... (25519), as far as it fits
    PlusOrder(u8),
    /// both halves zero or saturated
    Extreme(u8, u8),
    /// the two terms of the equation cancel
    Cancel(u64),
    /// the public key is a point of small order (25519), s and r chosen to fit or random
    SmallKey(usize, bool),
    None,
}

fn forge() -> impl Strategy<Value = Forge> {
    use Forge::*;
    prop_oneof![
        4 => gen::flips().prop_map(SigBits),
        3 => gen::flips().prop_map(MsgBits),
        1 => (1..40usize).prop_flat_map(gen::bytes).prop_map(MsgAppend),
        1 => (1..40usize).prop_flat_map(gen::bytes).prop_map(MsgPrepend),
        1 => any::<u32>().prop_map(MsgCut),
        1 => any::<u32>().prop_map(MsgDropFront),
        2 => a_run().prop_map(|(f, b, n)| MsgPad(f, b, n)),
        2 => any::<u64>().prop_map(Key),
        2 => (any::<bool>(), any::<u64>()).prop_map(|(a, b)| Halves(a, b)),
        1 => Just(Swap),
        1 => Just(Negate),
        2 => any::<u64>().prop_map(Random),
        1 => (1..16u8).prop_map(PlusOrder),
        1 => (0..3u8, 0..3u8).prop_map(|(a, b)| Extreme(a, b)),
        1 => any::<u64>().prop_map(Cancel),
        1 => (0..8usize, any::<bool>()).prop_map(|(a, b)| SmallKey(a, b)),
        1 => Just(None),
    ]
}

fn alter_msg(f: &Forge, m: &[u8]) -> Option<Vec<u8>> {
    Some(match f {
        Forge::MsgBits(b) => gen::flip(m, b),
        Forge::MsgAppend(x) => [m, &x[..]].concat(),
        Forge::MsgPrepend(x) => [&x[..], m].concat(),
        Forge::MsgCut(n) if !m.is_empty() => m[..*n as usize % m.len()].to_vec(),
        Forge::MsgDropFront(n) if !m.is_empty() => m[1 + *n as usize % m.len()..].to_vec(),
        Forge::MsgPad(true, b, n) => [&vec![*b; *n as usize], m].concat(),
        Forge::MsgPad(false, b, n) => [m, &vec![*b; *n as usize]].concat(),
        _ => return None,
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EdForged {
    base: EdSigned,
    forge: Forge,
}

fn r05_ed(c: &EdForged) -> Verdict {
    let b = &c.base;
    let l = l25519();
    let honest = ed_sign(b.d, b.key.value(), b.nonce.value(), &b.msg);
    let (mut sig, mut msg, mut public) = (honest.clone(), b.msg.0.clone(), Ed::base().mul(b.key.value()));
    let mut must_fail = true;
    match &c.forge {
        Forge::SigBits(f) => sig = gen::flip(&sig, f),
        Forge::Key(s) => public = Ed::base().mul(l.red(U256::le(&gen::expand(*s, 32)))),
        Forge::Halves(first, s) => {
            let other = ed_sign(b.d, b.key.value(), l.red(U256::le(&gen::expand(*s, 32))), &gen::expand(*s, 20));
            sig = if *first { [&other[..32], &sig[32..]].concat() } else { [&sig[..32], &other[32..]].concat() };
        }
        Forge::Swap => sig = [&honest[32..], &honest[..32]].concat(),
        Forge::Negate => sig = [&honest[..32], &l.neg(U256::le(&honest[32..])).to_le()[..]].concat(),
        Forge::Random(s) => sig = gen::expand(*s, 64),
        Forge::PlusOrder(k) => {
            let mut s = U256::le(&honest[32..]);
            for _ in 0..*k {
                s = s.add(l.m).0;
            }
            sig = [&honest[..32], &s.to_le()[..]].concat();
        }
        Forge::Extreme(x, y) => {
            let v = |k: &u8| match k { 0 => vec![0; 32], 1 => vec![0xff; 32], _ => [vec![1], vec![0; 31]].concat() };
            sig = [v(x), v(y)].concat();
            must_fail = false;
        }
        Forge::Cancel(seed) => {
            let r = gen::expand(*seed, 32);
            let h = l.red(U256::le(&clamp(&digest(b.d, &[&r, &msg]))));
            sig = [&r[..], &l.neg(l.mul(h, l.red(b.key.value()))).to_le()[..]].concat();
        }
        Forge::SmallKey(t, fit) => {
            public = Ed::decode(&hex::decode(ED_ODD[*t]).unwrap()).unwrap();
            // h is a multiple of eight, so h * public vanishes: such a key vouches for anything
            must_fail = !*fit;
            if *fit {
                let mut r = Ed::base().mul(b.nonce.value()).encode();
                r[31] &= 0x7f;
                sig = [r, l.red(b.nonce.value()).to_le()].concat();
            }
        }
        Forge::None => must_fail = false,
        f => match alter_msg(f, &msg) {
            Some(m) => msg = m,
            None => return Ok(Outcome::trivial()),
        },
    }
    // degenerate secrets make some of the above no change at all
    let zero = l.red(b.key.value()).is_zero() || l.red(b.nonce.value()).is_zero();
    let changed = sig != honest || msg != b.msg.0 || public.encode() != Ed::base().mul(b.key.value()).encode();
    let code = sure(&public.encode());
    let got = ed_ask(b.d, &sig, &code, &msg, b.trips)? == Some(true);
    let want = ed_verify(b.d, &sig, &public, &msg);
    check!(got == want, if got { "accepted" } else { "refused" }, "verification says {got}, the scheme's equation says {want}: {:?}", c.forge);
    // who knows the nonce k can sign with -k too; small nonces make that a change of a bit
    let k = l.red(b.nonce.value());
    let other_sign = sig[..32] == honest[..32] && U256::le(&sig[32..]) == l.sub(l.sub(U256::le(&honest[32..]), k), k);
    if must_fail && changed && !zero && !other_sign {
        check!(!got, "forged", "a forged signature was accepted: {:?}", c.forge);
    }
    Ok(Outcome::when(changed).label(if got { "accepted" } else { "refused" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KForged {
    base: KSigned,
    forge: Forge,
}

fn r05_k(c: &KForged) -> Verdict {
    let b = &c.base;
    let n = n256k1();
    let key = U256::be(&b.key);
    let Some(honest) = k_sign(b.d, key, U256::be(&b.nonce), &b.msg) else { return Ok(Outcome::trivial()) };
    let mine = Kp::base().mul(key);
    let (mut sig, mut msg, mut public) = (honest.clone(), b.msg.0.clone(), mine);
    match &c.forge {
        Forge::SigBits(f) => sig = gen::flip(&sig, f),
        Forge::Key(s) => public = Kp::base().mul(n.red(U256::be(&gen::expand(*s, 32)))),
        Forge::Halves(first, s) => {
            let Some(other) = k_sign(b.d, key, n.red(U256::be(&gen::expand(*s, 32))), &gen::expand(*s, 20)) else { return Ok(Outcome::trivial()) };
            sig = if *first { [&other[..32], &sig[32..]].concat() } else { [&sig[..32], &other[32..]].concat() };
        }
        Forge::Swap => sig = [&honest[32..], &honest[..32]].concat(),
        Forge::Negate => sig = [&honest[..32], &n.neg(U256::be(&honest[32..])).to_be()[..]].concat(),
        Forge::Random(s) => sig = gen::expand(*s, 64),
        Forge::PlusOrder(_) => {
            let (s, over) = U256::be(&honest[32..]).add(n.m);
            if over {
                return Ok(Outcome::trivial());
            }
            sig = [&honest[..32], &s.to_be()[..]].concat();
        }
        Forge::Extreme(x, y) => {
            let v = |k: &u8| match k { 0 => vec![0; 32], 1 => vec![0xff; 32], _ => [vec![0; 31], vec![1]].concat() };
            sig = [v(x), v(y)].concat();
        }
        Forge::Cancel(seed) => {
            let r = gen::expand(*seed, 32);
            let h = n.red(U256::be(&digest(b.d, &[&r, &msg])));
            sig = [&r[..], &n.neg(n.mul(h, key)).to_be()[..]].concat();
        }
        Forge::None => (),
        Forge::SmallKey(..) => return Ok(Outcome::trivial()),
        f => match alter_msg(f, &msg) {
            Some(m) => msg = m,
            None => return Ok(Outcome::trivial()),
        },
    }
    let changed = sig != honest || msg != b.msg.0 || public != mine;
    let got = k_ask(b.d, &sig, &k_code(public), &msg, b.trips)? == Some(true);
    let want = k_verify(b.d, &sig, public, &msg);
    check!(got == want, if got { "accepted" } else { "refused" }, "verification says {got}, the scheme's equation says {want}: {:?}", c.forge);
    let k = n.red(U256::be(&b.nonce));
    let other_sign = sig[..32] == honest[..32] && U256::be(&sig[32..]) == n.sub(n.sub(U256::be(&honest[32..]), k), k);
    if changed && !matches!(c.forge, Forge::Extreme(..)) && !other_sign {
        check!(!got, "forged", "a forged signature was accepted: {:?}", c.forge);
    }
    Ok(Outcome::when(changed).label(if got { "accepted" } else { "refused" }).label_if(matches!(c.forge, Forge::Cancel(_)), "terms cancel"))
}

/// Messages too long to be written into a case.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    d: u8,
    secp: bool,
    key: u64,
    length: u32,
    /// the message begins or ends with so many of this byte
    #[serde(default)]
    run: Option<(bool, u8, u16)>,
    change: Change,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    Flip(u64),
    Cut(u32),
    Append(u32),
    Swap(u32, u32),
    /// so many of this byte at the front or the end
    Pad(bool, u8, u16),
}

fn a_run() -> impl Strategy<Value = (bool, u8, u16)> {
    (any::<bool>(), prop_oneof![3 => Just(0u8), 1 => Just(0xff), 1 => Just(b' '), 1 => Just(b'\n'), 1 => Just(0x80), 1 => any::<u8>()], prop_oneof![3 => Just(1u16), 2 => 1..9u16, 1 => 1..300u16])
}

fn long(top: u32) -> impl Strategy<Value = Long> {
    let length = prop_oneof![
        3 => (10..=top, -3..=3i64).prop_map(|(k, d)| ((1i64 << k) + d) as u32),
        1 => (10..top, 0.0..1.0f64).prop_map(|(k, x)| ((1u64 << k) as f64 * (1.0 + x)) as u32),
    ];
    let change = prop_oneof![
        // near the end, near the beginning, anywhere
        2 => (0..64u64).prop_map(|i| Change::Flip(u64::MAX - i)),
        1 => (0..64u64).prop_map(Change::Flip),
        4 => any::<u64>().prop_map(Change::Flip),
        1 => (1..40u32).prop_map(Change::Cut),
        1 => any::<u32>().prop_map(Change::Cut),
        1 => (1..200u32).prop_map(Change::Append),
        1 => any::<(u32, u32)>().prop_map(|(a, b)| Change::Swap(a, b)),
        3 => a_run().prop_map(|(f, b, n)| Change::Pad(f, b, n)),
    ];
    (0..2u8, any::<bool>(), any::<u64>(), length, common::proptest::option::weighted(0.4, a_run()), change).prop_map(|(d, secp, key, length, run, change)| Long { d, secp, key, length, run, change })
}

impl Long {
    fn message(&self) -> Vec<u8> {
        let mut m = gen::expand(self.key ^ 0x5555, self.length as usize);
        if let Some((front, byte, n)) = self.run {
            let n = (n as usize).min(m.len());
            let at = if front { 0 } else { m.len() - n };
            m[at..at + n].fill(byte);
        }
        m
    }

    fn changed(&self) -> Vec<u8> {
        let mut m = self.message();
        let n = m.len();
        match self.change {
            Change::Flip(p) => {
                // counted from the end when large
                let bits = n as u64 * 8;
                let p = if p > u64::MAX / 2 { bits - 1 - (u64::MAX - p) % bits } else { p % bits };
                m[(p / 8) as usize] ^= 1 << (p % 8);
            }
            Change::Cut(k) => m.truncate(n - 1 - (k as usize - 1).min(n - 1) % n),
            Change::Append(k) => m.resize(n + k as usize, 0),
            Change::Swap(a, b) => m.swap(a as usize % n, b as usize % n),
            Change::Pad(true, byte, k) => m = [vec![byte; k as usize], m].concat(),
            Change::Pad(false, byte, k) => m.resize(n + k as usize, byte),
        }
        m
    }

    /// a signature of the message, by the code where it can sign, and the verdict on another message
    fn signed(&self) -> Result<(Vec<u8>, Vec<u8>, Box<dyn Fn(&[u8], &[u8]) -> Result<Option<bool>, Failure>>), Failure> {
        let m = self.message();
        let (key, nonce) = (gen::expand(self.key, 32), gen::expand(!self.key, 32));
        let d = self.d;
        if self.secp {
            let public = PublicKey::base().exp_ec(&sure(&key));
            let sig = k_sign(d, U256::be(&key), U256::be(&nonce), &m).unwrap_or_else(|| vec![0; 64]);
            Ok((m, sig, Box::new(move |sig, m| k_ask(d, sig, &public, m, 0))))
        } else {
            let (key, nonce): (EdScalar, EdScalar) = (sure(&key), sure(&nonce));
            let public = EdwardsPoint::base().exp_ec(&key);
            let sig = match d {
                0 => no_panic("sign", || EdSig::<Sha3_256>::sign(&key, &m, &nonce).map(|s| enc(&s)))?,
                _ => no_panic("sign", || EdSig::<Sha256>::sign(&key, &m, &nonce).map(|s| enc(&s)))?,
            };
            let Ok(sig) = sig else { fail!("sign", "signing failed") };
            Ok((m, sig, Box::new(move |sig, m| ed_ask(d, sig, &public, m, 0))))
        }
    }

    fn label(&self) -> &'static str {
        match self.length {
            0..=0xfff => "below 4 KiB",
            0x1000..=0xffff => "4 KiB to 64 KiB",
            0x10000..=0xfffff => "64 KiB to 1 MiB",
            _ => "1 MiB and more",
        }
    }
}

fn r04_long(c: &Long) -> Verdict {
    let (m, sig, ask) = c.signed()?;
    check!(ask(&sig, &m)? == Some(true), "long-refused", "an honest signature of a message of {} bytes was not accepted", m.len());
    Ok(Outcome::ok().label(c.label()))
}

fn r05_long(c: &Long) -> Verdict {
    let (m, sig, ask) = c.signed()?;
    let x = c.changed();
    if x == m {
        return Ok(Outcome::trivial());
    }
    check!(ask(&sig, &x)? != Some(true), "long-forged", "the signature of a message of {} bytes was accepted for another: {:?}", m.len(), c.change);
    Ok(Outcome::ok().label(c.label()))
}

/// One signature, every single bit of it and of its message.
fn every_bit() -> Vec<u32> {
    (0..512).collect()
}

// ---------------------------------------------------------------- self test

/// The references against published values.
fn self_test() {
    let h = |s: &str| hex::decode(s).unwrap();
    // RFC 7748, 5.2
    assert_eq!(
        x25519(&h("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), &h("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")).to_vec(),
        h("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")
    );
    assert_eq!(
        x25519(&h("4b66e9d4d1b4673c5ad22691957d6af5c11b6421e0ea01d42ca4169e7918ba0d"), &h("e5210f12786811d3f4b7959d0538ae2c31dbe7106fc03c3efc4cd549c715a493")).to_vec(),
        h("95cbde9476e8907d7aade45cb4b873f88b595a68799fa152e6f8f7647aac7957")
    );
    let (mut k, mut u) = ([0u8; 32], [0u8; 32]);
    k[0] = 9;
    u[0] = 9;
    for _ in 0..1000 {
        let r = x25519(&k, &u);
        u = k;
        k = r;
    }
    assert_eq!(k.to_vec(), h("684cf59ba83309552800ef566f2f4d3c1c3887c49360e3875f2eb94d99532c51"));
    // RFC 8032, 7.1, test 1: the public key of a secret scalar
    let mut d: [u8; 32] = sha2::Sha512::digest(&h("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60"))[..32].try_into().unwrap();
    d = clamp(&d);
    assert_eq!(Ed::base().mul(U256::le(&d)).encode().to_vec(), h("d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"));
    assert_eq!(Ed::base().mul(l25519().m).encode(), Ed::zero().encode());
    for t in &ED_ODD[..8] {
        assert_eq!(Ed::decode(&h(t)).unwrap().mul(U256([0, 0, 0, 8])).encode(), Ed::zero().encode());
    }
    // secp256k1: the group order and a published multiple
    assert_eq!(Kp::base().mul(n256k1().m), Kp(None));
    let (x, y) = Kp::base().mul(U256::hex("000000000000000000000000000000000000000000000000018ebbb95eed0e13")).0.unwrap();
    assert_eq!(x, U256::hex("A90CC3D3F3E146DAADFC74CA1372207CB4B725AE708CEF713A98EDD73D99EF29"));
    assert_eq!(y, U256::hex("5A79D6B289610C68BC3B47F3D72F9788A26A06868B4D8E433E1E2AD76FB7DC76"));
    // the two ways to multiply, also where the additions are exceptional
    let n = n256k1().m;
    let small = |k: u64| U256([0, 0, 0, k]);
    let mut ks: Vec<U256> = (0..4).map(small).chain((0..4).map(|k| n.sub(small(k)).0)).chain((1..4).map(|k| n.add(small(k)).0)).collect();
    ks.extend((0..8).map(|i| U256::be(&gen::expand(i, 32))));
    for k in ks {
        assert_eq!(Kp::base().mul(k), Kp::base().mul_plain(k));
    }
}

fn main() {
    let mut run = Run::from_env();
    self_test();
    let id = run.id.clone();
    match id.as_str() {
        "R01" => {
            run.rule("32-byte strings (random, structured, near the group order and field prime, points of small order and non-canonical forms), secp256k1 secrets/points/signatures valid and nearly valid, ten nestings of pairs, chains of clone/bincode/JSON through the fixed-length form; validity is predicted by independent curve code; every case is non-trivial");
            run.assume("a Curve25519 secret is clamped when decoded (RFC 7748), so its round trip is stated for decoded scalars; Edwards y coordinates above the field prime are read modulo it");
            run.sub("curve25519", cases(20000), curve25519_bytes, r01_25519);
            run.sub("secp256k1", cases(8000), secp, r01_secp);
            run.sub("pairs", cases(3000), pairs, r01_pairs);
            run.sub("schnorr", cases(3000), pairs, r01_schnorr);
            run.sub("line-like", cases(8000), likes, r01_like);
        }
        "R02" => {
            run.rule("scalars random, small, near the order, near powers of two, clamped, reduced or raw; points as multiples of the base, decoded from arbitrary bytes, with torsion; every case is non-trivial");
            run.assume("the reference curve code reproduces published vectors (checked at start); secp256k1 sums at infinity are not asked of mul_ec, whose type cannot express them");
            run.sub("edwards", cases(4000), ed_arith, r02_ed);
            run.sub("secp256k1", cases(1200), k_arith, r02_k);
        }
        "R03" => {
            run.rule("pairs of secrets (random, structured, boundary) and arbitrary public strings including low-order and non-canonical ones; every case is non-trivial");
            run.assume("the reference reproduces the RFC 7748 vectors (checked at start)");
            run.sub("x25519", cases(12000), dh, r03);
        }
        "R04" => {
            run.rule("keys and nonces in every form (clamped, reduced, raw, boundary), two hash functions, messages of 0 to 1100 bytes (long: to 1 MiB, huge: to 16 MiB, around powers of two), signatures in memory and after 1 to 3 encode/decode trips, signatures made by the code and by the equation; every case is non-trivial");
            run.assume("signing on secp256k1 is not offered by the crate (scalar subtraction is unimplemented), so signatures are made by the reference");
            run.sub("edwards", cases(4000), ed_signed, r04_ed);
            run.sub("secp256k1", cases(2000), k_signed, r04_k);
            run.sub("long", cases(300), || long(20), r04_long);
            run.sub("huge", cases(6).thorough(200), || long(24), r04_long);
        }
        "R05" => {
            run.rule("honest signatures altered in bits of signature or message, extended, cut, spliced, negated, shifted by the group order, verified under unrelated keys, random, extreme, and with cancelling terms; the verdict must equal that of the scheme's equation in independent arithmetic; non-trivial: something was altered");
            run.assume("Edwards verification multiplies by a clamped challenge, so keys differing by a point of small order are equivalent; unrelated keys are used for the negative oracle");
            let bits = every_bit();
            let forged = bits
                .iter()
                .map(|i| EdForged {
                    base: EdSigned {
                        d: 0,
                        key: EdNum { form: Form::Decoded, bytes: Hex(gen::expand(3, 32)) },
                        nonce: EdNum { form: Form::Decoded, bytes: Hex(gen::expand(4, 32)) },
                        msg: Hex(b"every bit".to_vec()),
                        trips: 0,
                        trip_key: false,
                    },
                    forge: Forge::SigBits(vec![*i]),
                })
                .collect();
            run.each("edwards-every-bit", forged, r05_ed);
            let forged = bits
                .iter()
                .map(|i| KForged {
                    base: KSigned { d: 1, key: Hex(gen::expand(5, 32)), nonce: Hex(gen::expand(6, 32)), msg: Hex(b"every bit".to_vec()), trips: 0 },
                    forge: Forge::SigBits(vec![*i]),
                })
                .collect();
            run.each("secp256k1-every-bit", forged, r05_k);
            run.sub("edwards", cases(6000), || (ed_signed(), forge()).prop_map(|(base, forge)| EdForged { base, forge }), r05_ed);
            run.sub("secp256k1", cases(5000), || (k_signed(), forge()).prop_map(|(base, forge)| KForged { base, forge }), r05_k);
            run.sub("long", cases(500), || long(20), r05_long);
            run.sub("huge", cases(6).thorough(200), || long(24), r05_long);
        }
        _ => panic!("unknown property {id}"),
    }
    run.finish()
}
