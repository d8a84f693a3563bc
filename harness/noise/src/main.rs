//! N01..N07: the Noise symmetric state and transport ciphers against a reference written from
//! the specification.

mod dynamic;
mod vectors;

use common::prelude::*;
use common::proptest::{collection::vec, sample::select};
use common::{cases, check, diff, fail, gen, no_panic, Failure, Hex, Outcome, Run, Verdict};
use dynamic::{start, turn, Ciph, Mode, Sym, CAP, CONFIGS, CREATED, INTERVALS};
use refmodel::noise::{Symmetric, A};
use serde::{Deserialize, Serialize};
use vectors::Vector;

const TAG: usize = 16;

fn mode() -> impl Strategy<Value = Mode> {
    select(vec![Mode::InPlace, Mode::Ext, Mode::Direction])
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Hash(Hex),
    Key(Hex),
    Psk(Hex),
    /// a payload: encrypted when there is a key, hashed in the clear otherwise
    Msg { data: Hex, mode: Mode, by_a: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Script {
    config: usize,
    name: String,
    ops: Vec<Op>,
}

fn config() -> impl Strategy<Value = usize> {
    0..CONFIGS.len()
}

fn name() -> impl Strategy<Value = String> {
    let ch = prop_oneof![20 => (32u8..127).prop_map(|c| c as char), 1 => select(vec!['\0', 'é', '語', '\u{10ffff}'])];
    prop_oneof![
        2 => 0..150usize,
        2 => select(vec![0usize, 1, 31, 32, 33, 63, 64, 65]),
        1 => 20..40usize,
        1 => select(vec![127usize, 128, 129, 136, 254, 255, 256, 257, 511, 512, 513, 1024, 1100, 4097]),
    ]
    .prop_flat_map(move |n| vec(ch.clone(), n))
    .prop_map(|v| v.into_iter().collect())
}

fn data() -> BoxedStrategy<Hex> {
    // around the block lengths of the hashes (with the tag, and two and three blocks)
    let usual = gen::sized(vec![0, 1, 16, 32, 48, 64, 72, 112, 120, 128, 136, 144, 192, 256, 272, 384], 600);
    prop_oneof![60 => usual, 1 => long()].boxed()
}

/// A few kilobytes to beyond 64 KiB and beyond 128 KiB, most often around a power of two.
fn long() -> BoxedStrategy<Hex> {
    let near = (10..18u32, -20..21i32).prop_map(|(b, d)| ((1i32 << b) + d) as usize);
    (prop_oneof![3 => near, 1 => 600..150_000usize], any::<u64>()).prop_map(|(n, s)| Hex(gen::expand(s, n))).boxed()
}

/// associated data
fn extra(usual: usize) -> BoxedStrategy<Hex> {
    prop_oneof![
        60 => gen::sized(vec![0, 8, 16], usual),
        6 => gen::sized(vec![16, 32, 64, 128, 256], 300),
        1 => long(),
    ]
    .boxed()
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        3 => data().prop_map(Op::Hash),
        3 => prop_oneof![gen::bytes(32), data()].prop_map(Op::Key),
        1 => prop_oneof![gen::bytes(32), data()].prop_map(Op::Psk),
        5 => (data(), mode(), any::<bool>()).prop_map(|(data, mode, by_a)| Op::Msg { data, mode, by_a }),
    ]
}

fn script() -> impl Strategy<Value = Script> {
    (config(), name(), vec(op(), 0..14)).prop_map(|(config, name, ops)| Script { config, name, ops })
}

fn reference(config: usize, name: &str) -> Symmetric {
    let (h, a) = CONFIGS[config];
    Symmetric::new(h, a, name.as_bytes())
}

const CONFIG_NAMES: [&str; 7] = [
    "SHA256 ChaChaPoly",
    "SHA512 AESGCM",
    "SHA512 ChaChaPoly",
    "SHA256 AESGCM",
    "SHA3-256 ChaChaPoly",
    "SHA3-512 ChaChaPoly",
    "SHA3-256 AESGCM",
];

/// Whether the payload is encrypted in this state.
fn seals(s: &Symmetric) -> bool {
    s.k.is_some() && s.n < CAP
}

/// Both parties run the script with the real code; `each` sees both after every step, with what
/// was sent.
fn lockstep(
    c: &Script,
    mut each: impl FnMut(usize, &Op, &dyn Sym, &dyn Sym, Option<&[u8]>) -> Result<(), Failure>,
) -> Result<(Box<dyn Sym>, Box<dyn Sym>), Failure> {
    let mut a = start(c.config, &c.name);
    let mut b = start(c.config, &c.name);
    for (i, op) in c.ops.iter().enumerate() {
        let mut sent = None;
        (a, b) = no_panic("handshake", || match op {
            Op::Hash(d) => Ok((a.mix_hash(d), b.mix_hash(d))),
            Op::Key(d) => Ok((a.mix_key(d), b.mix_key(d))),
            Op::Psk(d) => Ok((a.mix_psk(d), b.mix_psk(d))),
            Op::Msg { data, .. } if !matches!(a.keyed(), Some(0..CAP)) => Ok((a.mix_hash(data), b.mix_hash(data))),
            Op::Msg { data, mode, by_a } => {
                let (x, y) = if *by_a { (a, b) } else { (b, a) };
                let (x, w) = x.encrypt(data, *mode);
                if w.len() != data.len() + TAG {
                    fail!("length", "step {i}: {} bytes encrypt to {}", data.len(), w.len());
                }
                let n = data.len();
                let r = y.decrypt(&w[..n], &w[n..]);
                sent = Some(w);
                let (y, plain) = match r {
                    Ok(r) => r,
                    Err(_) => fail!("honest-refused", "step {i}: an honest handshake payload was refused"),
                };
                check!(plain == **data, "payload-changed", "step {i}: payload changed: {}", diff(&plain, data));
                Ok(if *by_a { (x, y) } else { (y, x) })
            }
        })??;
        each(i, op, &*a, &*b, sent.as_deref())?;
    }
    Ok((a, b))
}

// ---------------------------------------------------------------- N01

fn n01(c: &Script) -> Verdict {
    let mut r = reference(c.config, &c.name);
    let mut sealed = 0;
    let first = no_panic("new", || start(c.config, &c.name).hash())?;
    check!(first == r.h, "initial-hash", "name of {} bytes: initial hash differs", c.name.len());
    let (a, b) = lockstep(c, |i, op, a, b, sent| {
        match op {
            Op::Hash(d) => r.mix_hash(d),
            Op::Key(d) => r.mix_key(d),
            Op::Psk(d) => r.mix_key_and_hash(d),
            Op::Msg { data, .. } if !seals(&r) => r.mix_hash(data),
            Op::Msg { data, .. } => {
                sealed += 1;
                let want = r.encrypt(data);
                let got = sent.unwrap_or(&[]);
                check!(got == want, "ciphertext", "step {i}: ciphertext of {} bytes differs: {}", data.len(), diff(got, &want));
            }
        }
        for (who, s) in [("sender", a), ("receiver", b)] {
            let got = s.hash();
            check!(got == r.h, "transcript-hash", "{}: transcript hash of {who} side {} after step {i} ({op:?})", CONFIG_NAMES[c.config], diff(&got, &r.h));
        }
        Ok(())
    })?;
    let (k1, k2) = r.split();
    CREATED.with(|c| c.borrow_mut().clear());
    let (mut x, hx) = no_panic("finish", || a.finish(0))?;
    let (y, hy) = no_panic("finish", || b.finish(8))?;
    check!(hx == r.h && hy == r.h, "final-hash", "the final hash is not the transcript hash");
    let mut made = CREATED.with(|c| std::mem::take(&mut *c.borrow_mut()));
    made.sort();
    let mut want = vec![(r.ck.clone(), k1.to_vec()), (r.ck.clone(), k2.to_vec())];
    want.sort();
    check!(made == want, "final-chaining-key", "final chaining key and keys are {made:?}, not {want:?}");
    let mut y = y.swap();
    for n in 0..3u64 {
        let d = gen::expand(n, 5 + c.ops.len());
        let w1 = no_panic("transport", || x.encrypt(&[n as u8], &d, Mode::Ext))?;
        let w2 = no_panic("transport", || y.encrypt(&[], &d, Mode::InPlace))?;
        check!(w1 == r.aead.seal(&k1, n, &[n as u8], &d), "transport-keys", "message {n} of the first direction differs");
        check!(w2 == r.aead.seal(&k2, n, &[], &d), "transport-keys", "message {n} of the second direction differs");
    }
    Ok(Outcome::when(sealed > 0).label(CONFIG_NAMES[c.config]).label_if(c.ops.iter().any(|o| matches!(o, Op::Psk(_))), "with psk"))
}

/// Every data length in turn, for the hash of ciphertext and tag.
fn every_length() -> Vec<Script> {
    let mut v = Vec::new();
    for config in 0..CONFIGS.len() {
        for len in 0..=600usize {
            let d = Hex(gen::expand(len as u64, len));
            v.push(Script {
                config,
                name: "Noise_XX".into(),
                ops: vec![
                    Op::Key(d.clone()),
                    Op::Msg { data: d.clone(), mode: if len % 2 == 0 { Mode::Ext } else { Mode::InPlace }, by_a: true },
                    Op::Hash(d.clone()),
                    Op::Msg { data: d.clone(), mode: Mode::InPlace, by_a: false },
                    Op::Psk(d),
                ],
            });
        }
    }
    v
}

fn config_of(name: &str) -> usize {
    let end = name.split_once("_25519_").map(|x| x.1).unwrap_or("");
    match end {
        "ChaChaPoly_SHA256" => 0,
        "AESGCM_SHA512" => 1,
        "ChaChaPoly_SHA512" => 2,
        "AESGCM_SHA256" => 3,
        _ => panic!("harness: vector {name}"),
    }
}

/// (sender is the initiator, payload, wire) of the messages after the handshake
fn transport(v: &Vector, one_way: bool, skip: usize) -> Vec<(bool, Vec<u8>, Vec<u8>)> {
    v.messages
        .iter()
        .enumerate()
        .skip(skip)
        .map(|(i, m)| (one_way || i % 2 == 0, hex::decode(&m.payload).unwrap(), hex::decode(&m.ciphertext).unwrap()))
        .collect()
}

fn n01_vector(v: &Vector) -> Verdict {
    let config = config_of(&v.protocol_name);
    let plan = vectors::plan(v);
    let name = &v.protocol_name;
    let (wires, a, b) = match no_panic("vector", || vectors::crate_run(start(config, name), start(config, name), &plan))? {
        Ok(x) => x,
        Err(e) => fail!("vector", "{name}: {e}"),
    };
    for (i, w) in wires.iter().enumerate() {
        let want = hex::decode(&v.messages[i].ciphertext).unwrap();
        check!(*w == want, "vector", "{name}: handshake message {i}: {}", diff(w, &want));
    }
    let (mut x, h) = a.finish(0);
    let (y, h2) = b.finish(0);
    check!(hex::encode(&h) == v.handshake_hash && h2 == h, "vector", "{name}: handshake hash differs");
    let mut y = y.swap();
    for (by_i, payload, want) in transport(v, plan.one_way, wires.len()) {
        let (s, r) = if by_i { (&mut x, &mut y) } else { (&mut y, &mut x) };
        let w = s.encrypt(&[], &payload, Mode::Ext);
        check!(w == want, "vector", "{name}: transport message: {}", diff(&w, &want));
        check!(r.decrypt(&[], &w, Mode::Ext) == Ok(payload), "vector", "{name}: transport message not decrypted");
    }
    Ok(Outcome::ok())
}

fn load() -> Vec<Vector> {
    serde_json::from_str(include_str!("../vectors.json")).unwrap()
}

/// The reference itself, on the published vectors.
fn self_test() {
    for v in load() {
        let (h, a) = CONFIGS[config_of(&v.protocol_name)];
        let mut s = Symmetric::new(h, a, v.protocol_name.as_bytes());
        let plan = vectors::plan(&v);
        let wires = vectors::reference(&mut s, &plan);
        for (w, m) in wires.iter().zip(&v.messages) {
            assert_eq!(hex::encode(w), m.ciphertext, "reference: {}", v.protocol_name);
        }
        assert_eq!(hex::encode(&s.h), v.handshake_hash, "reference: {}", v.protocol_name);
        let (k1, k2) = s.split();
        let mut n = [0, 0];
        for (by_i, payload, want) in transport(&v, plan.one_way, wires.len()) {
            let i = usize::from(!by_i);
            assert_eq!(a.seal(if by_i { &k1 } else { &k2 }, n[i], &[], &payload), want, "reference: {}", v.protocol_name);
            n[i] += 1;
        }
    }
}

// ---------------------------------------------------------------- N02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Packet {
    by_a: bool,
    ad: Hex,
    data: Hex,
    enc: Mode,
    dec: Mode,
}

fn packet() -> impl Strategy<Value = Packet> {
    (any::<bool>(), extra(80), data(), mode(), mode()).prop_map(|(by_a, ad, data, enc, dec)| Packet { by_a, ad, data, enc, dec })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lock {
    script: Script,
    interval: u64,
    packets: Vec<Packet>,
}

fn interval() -> impl Strategy<Value = u64> {
    prop_oneof![3 => Just(0u64), 3 => select(INTERVALS.to_vec())]
}

fn lock() -> impl Strategy<Value = Lock> {
    (script(), interval(), vec(packet(), 0..25)).prop_map(|(script, interval, packets)| Lock { script, interval, packets })
}

fn n02(c: &Lock) -> Verdict {
    let (a, b) = lockstep(&c.script, |i, op, a, b, _| {
        check!(a.hash() == b.hash(), "hashes-differ", "after step {i} ({op:?}) the transcript hashes differ");
        Ok(())
    })?;
    let (mut x, hx) = no_panic("finish", || a.finish(c.interval))?;
    let (y, hy) = no_panic("finish", || b.finish(c.interval))?;
    check!(hx == hy, "hashes-differ", "the final hashes differ");
    let mut y = y.swap();
    for (i, p) in c.packets.iter().enumerate() {
        let (s, r) = if p.by_a { (&mut x, &mut y) } else { (&mut y, &mut x) };
        let w = no_panic("transport", || s.encrypt(&p.ad, &p.data, p.enc))?;
        match no_panic("transport", || r.decrypt(&p.ad, &w, p.dec))? {
            Ok(d) => check!(d == *p.data, "message-changed", "transport message {i} changed: {}", diff(&d, &p.data)),
            Err(_) => fail!("honest-refused", "transport message {i} ({:?} to {:?}) refused", p.enc, p.dec),
        }
    }
    let both = [true, false].iter().all(|w| c.packets.iter().any(|p| p.by_a == *w));
    let handshake = [true, false].iter().all(|w| c.script.ops.iter().any(|o| matches!(o, Op::Msg { by_a, .. } if by_a == w)));
    Ok(Outcome::when(both).label_if(handshake, "handshake payloads both ways").label_if(c.interval > 0, "with rotation"))
}

// ---------------------------------------------------------------- N03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Diverge {
    None,
    /// bits of the n-th handshake message on the wire
    Wire(u8, Vec<u32>),
    /// the n-th wire message gets longer or shorter
    Length(u8, i8),
    Name(String),
    NameFlip(u32),
    Data(u8, Vec<u32>),
    /// the data of a step gets a byte more or less
    Resize(u8, bool),
    Drop(u8),
    Repeat(u8),
    Exchange(u8),
    /// hash <-> key <-> psk
    Kind(u8, bool),
    Insert(u8, Op),
    /// tag halves and ciphertext swapped around
    Rotate(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Apart {
    script: Script,
    how: Diverge,
    probe: Hex,
}

fn apart() -> impl Strategy<Value = Apart> {
    let n = || any::<u8>();
    let how = prop_oneof![
        1 => Just(Diverge::None),
        4 => (n(), gen::flips()).prop_map(|(i, f)| Diverge::Wire(i, f)),
        1 => (n(), prop_oneof![Just(-1i8), Just(1), Just(-16), Just(16), any::<i8>()]).prop_map(|(i, d)| Diverge::Length(i, d)),
        1 => name().prop_map(Diverge::Name),
        1 => any::<u32>().prop_map(Diverge::NameFlip),
        3 => (n(), gen::flips()).prop_map(|(i, f)| Diverge::Data(i, f)),
        1 => (n(), any::<bool>()).prop_map(|(i, m)| Diverge::Resize(i, m)),
        1 => n().prop_map(Diverge::Drop),
        1 => n().prop_map(Diverge::Repeat),
        2 => n().prop_map(Diverge::Exchange),
        2 => (n(), any::<bool>()).prop_map(|(i, x)| Diverge::Kind(i, x)),
        1 => (n(), op()).prop_map(|(i, o)| Diverge::Insert(i, o)),
        1 => n().prop_map(Diverge::Rotate),
    ];
    (script(), how, gen::bytes(20)).prop_map(|(script, how, probe)| Apart { script, how, probe })
}

/// the receiver's script and the changes to the wire
fn diverge(s: &Script, how: &Diverge, wires: &mut [Vec<u8>]) -> Script {
    let mut t = s.clone();
    let n = t.ops.len();
    let at = |i: &u8, n: usize| if n == 0 { None } else { Some(*i as usize % n) };
    let m = wires.len();
    match how {
        Diverge::None => {}
        Diverge::Wire(i, f) => {
            if let Some(i) = at(i, m) {
                wires[i] = gen::flip(&wires[i], f);
            }
        }
        Diverge::Length(i, d) => {
            if let Some(i) = at(i, m) {
                let len = (wires[i].len() as i64 + i64::from(*d)).max(0) as usize;
                wires[i].resize(len, 0);
            }
        }
        Diverge::Name(x) => t.name = x.clone(),
        Diverge::NameFlip(p) => {
            let mut v: Vec<char> = t.name.chars().collect();
            if !v.is_empty() {
                let i = *p as usize % v.len();
                v[i] = if v[i] == 'x' { 'y' } else { 'x' };
                t.name = v.into_iter().collect();
            }
        }
        Diverge::Data(i, f) => {
            if let Some(i) = at(i, n) {
                match &mut t.ops[i] {
                    Op::Hash(d) | Op::Key(d) | Op::Psk(d) => *d = Hex(gen::flip(d, f)),
                    Op::Msg { .. } => {}
                }
            }
        }
        Diverge::Resize(i, more) => {
            if let Some(i) = at(i, n) {
                match &mut t.ops[i] {
                    Op::Hash(d) | Op::Key(d) | Op::Psk(d) => {
                        if *more {
                            d.push(0)
                        } else {
                            d.pop();
                        }
                    }
                    Op::Msg { .. } => {}
                }
            }
        }
        Diverge::Drop(i) => {
            if let Some(i) = at(i, n) {
                t.ops.remove(i);
            }
        }
        Diverge::Repeat(i) => {
            if let Some(i) = at(i, n) {
                let o = t.ops[i].clone();
                t.ops.insert(i, o);
            }
        }
        Diverge::Exchange(i) => {
            if n >= 2 {
                let i = *i as usize % (n - 1);
                t.ops.swap(i, i + 1);
            }
        }
        Diverge::Kind(i, first) => {
            if let Some(i) = at(i, n) {
                t.ops[i] = match t.ops[i].clone() {
                    Op::Hash(d) => if *first { Op::Key(d) } else { Op::Psk(d) },
                    Op::Key(d) => if *first { Op::Psk(d) } else { Op::Hash(d) },
                    Op::Psk(d) => if *first { Op::Hash(d) } else { Op::Key(d) },
                    o => o,
                };
            }
        }
        Diverge::Insert(i, o) => {
            let i = *i as usize % (n + 1);
            t.ops.insert(i, o.clone());
        }
        Diverge::Rotate(i) => {
            if let Some(i) = at(i, m) {
                if !wires[i].is_empty() {
                    let n = TAG.min(wires[i].len());
                    wires[i].rotate_left(n);
                }
            }
        }
    }
    t
}

fn n03(c: &Apart) -> Verdict {
    // the sender, in real code, and the state of the reference before each of its payloads
    let mut a = start(c.script.config, &c.script.name);
    let mut ra = reference(c.script.config, &c.script.name);
    let mut wires = Vec::new();
    let mut before = Vec::new();
    for op in &c.script.ops {
        a = no_panic("sender", || match op {
            Op::Hash(d) => {
                ra.mix_hash(d);
                a.mix_hash(d)
            }
            Op::Key(d) => {
                ra.mix_key(d);
                a.mix_key(d)
            }
            Op::Psk(d) => {
                ra.mix_key_and_hash(d);
                a.mix_psk(d)
            }
            Op::Msg { data, mode, .. } => {
                before.push((ra.clone(), data.clone()));
                if seals(&ra) {
                    ra.encrypt(data);
                    let (a, w) = a.encrypt(data, *mode);
                    wires.push(w);
                    a
                } else {
                    ra.mix_hash(data);
                    wires.push(data.to_vec());
                    a.mix_hash(data)
                }
            }
        })?;
    }
    let genuine = wires.clone();
    let t = diverge(&c.script, &c.how, &mut wires);
    let mut b = start(t.config, &t.name);
    let mut rb = reference(t.config, &t.name);
    let mut next = 0;
    let mut diverged = false;
    for (i, op) in t.ops.iter().enumerate() {
        match op {
            Op::Hash(d) => {
                rb.mix_hash(d);
                b = no_panic("receiver", || b.mix_hash(d))?;
            }
            Op::Key(d) => {
                rb.mix_key(d);
                b = no_panic("receiver", || b.mix_key(d))?;
            }
            Op::Psk(d) => {
                rb.mix_key_and_hash(d);
                b = no_panic("receiver", || b.mix_psk(d))?;
            }
            Op::Msg { .. } => {
                let Some(w) = wires.get(next) else { break };
                let (sa, plain) = &before[next];
                let touched = *w != genuine[next];
                next += 1;
                if !seals(&rb) || w.len() < TAG {
                    rb.mix_hash(w);
                    b = no_panic("receiver", || b.mix_hash(w))?;
                    continue;
                }
                let same = !touched && seals(sa) && (sa.k, sa.n, &sa.h) == (rb.k, rb.n, &rb.h);
                diverged |= !same;
                let k = w.len() - TAG;
                match no_panic("receiver", || b.decrypt(&w[..k], &w[k..]))? {
                    Ok((x, p)) => {
                        check!(same, "divergence-accepted", "step {i}: {:?} went unnoticed: payload of {} bytes accepted", c.how, plain.len());
                        check!(p == **plain, "payload-changed", "step {i}: payload changed");
                        b = x;
                        rb.n += 1;
                        rb.mix_hash(w);
                    }
                    Err(rest) => {
                        check!(!same, "honest-refused", "step {i}: the honest payload was refused");
                        check!(plain.len() < 8 || touched || rest != **plain, "plaintext-released", "step {i}: refused, yet the buffer holds the plaintext");
                        return Ok(Outcome::ok().label(kind(&c.how)).label("refused in the handshake"));
                    }
                }
            }
        }
    }
    // no refusal so far: the transport and the final hash decide
    let (mut x, hx) = no_panic("finish", || a.finish(0))?;
    let (y, hy) = no_panic("finish", || b.finish(0))?;
    let mut y = y.swap();
    check!((hx == hy) == (ra.h == rb.h), "final-hash", "{:?}: final hashes equal: {}, transcripts equal: {}", c.how, hx == hy, ra.h == rb.h);
    let same = ra.ck == rb.ck;
    for (s, r) in [(0, 1), (1, 0)] {
        let mut ends = [&mut x, &mut y];
        let w = no_panic("transport", || ends[s].encrypt(&[], &c.probe, Mode::Ext))?;
        let got = no_panic("transport", || ends[r].decrypt(&[], &w, Mode::Ext))?;
        check!(got.is_ok() == same, "divergence-accepted", "{:?}: the keys differ: {}, transport message accepted: {}", c.how, !same, got.is_ok());
    }
    let seen = !same || hx != hy;
    Ok(Outcome::when(diverged || seen).label(kind(&c.how)).label(if !same {
        "refused in transport"
    } else if seen {
        "seen in the final hash"
    } else {
        "no divergence"
    }))
}

fn kind(d: &Diverge) -> &'static str {
    match d {
        Diverge::None => "nothing changed",
        Diverge::Wire(..) => "wire bits",
        Diverge::Length(..) => "wire length",
        Diverge::Name(_) | Diverge::NameFlip(_) => "name",
        Diverge::Data(..) | Diverge::Resize(..) => "mixed data",
        Diverge::Drop(_) => "step omitted",
        Diverge::Repeat(_) => "step repeated",
        Diverge::Exchange(_) => "steps exchanged",
        Diverge::Kind(..) => "kind of step",
        Diverge::Insert(..) => "step inserted",
        Diverge::Rotate(_) => "wire rotated",
    }
}

// ---------------------------------------------------------------- transport pairs

struct Pair {
    ends: [Box<dyn Ciph>; 2],
    /// keys of the two directions: sent by end 0, sent by end 1
    keys: [[u8; 32]; 2],
    ck: Vec<u8>,
    aead: A,
}

fn pair(config: usize, secret: &[u8], interval: u64) -> Result<Pair, Failure> {
    let mut r = reference(config, "pair");
    r.mix_key(secret);
    let (k1, k2) = r.split();
    let make = || start(config, "pair").mix_key(secret).finish(interval).0;
    let ends = no_panic("pair", || [make(), make().swap()])?;
    Ok(Pair { ends, keys: [k1, k2], ck: r.ck, aead: r.aead })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Spoil {
    No,
    Flip(Vec<u32>),
    Cut(u8),
    Append(Hex),
    Ad(Vec<u32>),
    /// other associated data altogether
    OtherAd(Hex),
    /// handed to its own sender
    Reflect,
    /// tag of another message
    Graft(u8),
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Send { from: u8, ad: Hex, data: Hex, mode: Mode },
    /// the `which`-th sent message of that direction (0 is the next one due)
    Deliver { from: u8, which: i16, spoil: Spoil, mode: Mode },
    /// deliver everything due in that direction
    Flush { from: u8 },
    Swap2,
    /// go on with a copy of this end, after the copy's original was used for something else
    Copy { end: u8, ad: Hex },
}

fn spoil() -> impl Strategy<Value = Spoil> {
    prop_oneof![
        8 => Just(Spoil::No),
        4 => gen::flips().prop_map(Spoil::Flip),
        1 => any::<u8>().prop_map(Spoil::Cut),
        1 => gen::sized(vec![1, 16], 20).prop_map(Spoil::Append),
        2 => gen::flips().prop_map(Spoil::Ad),
        1 => gen::sized(vec![0], 20).prop_map(Spoil::OtherAd),
        2 => Just(Spoil::Reflect),
        1 => any::<u8>().prop_map(Spoil::Graft),
        1 => Just(Spoil::Empty),
    ]
}

fn small() -> BoxedStrategy<Hex> {
    prop_oneof![100 => gen::sized(vec![0, 1, 16, 32, 64], 100), 5 => gen::sized(vec![256, 512, 1024], 1200), 1 => long()].boxed()
}

fn act() -> impl Strategy<Value = Act> {
    let from = || 0..2u8;
    prop_oneof![
        6 => (from(), extra(24), small(), mode()).prop_map(|(from, ad, data, mode)| Act::Send { from, ad, data, mode }),
        8 => (from(), prop_oneof![6 => Just(0i16), 2 => -3..4i16, 1 => -60..60i16], spoil(), mode())
            .prop_map(|(from, which, spoil, mode)| Act::Deliver { from, which, spoil, mode }),
        1 => from().prop_map(|from| Act::Flush { from }),
        1 => Just(Act::Swap2),
        1 => (from(), gen::bytes(3)).prop_map(|(end, ad)| Act::Copy { end, ad }),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    config: usize,
    secret: Hex,
    interval: u64,
    acts: Vec<Act>,
}

fn history(interval: impl Strategy<Value = u64>, max: usize) -> impl Strategy<Value = History> {
    (config(), gen::random(32), interval, vec(act(), 1..max)).prop_map(|(config, secret, interval, acts)| History { config, secret, interval, acts })
}

struct Sent {
    ad: Hex,
    data: Hex,
    wire: Vec<u8>,
}

#[derive(Default)]
struct Tally {
    accepted: usize,
    refused: usize,
    after_refusal: usize,
}

/// Runs a history; `on_send` sees each ciphertext with its direction and number.
fn play(c: &History, p: &mut Pair, mut on_send: impl FnMut(&Pair, usize, u64, &Sent) -> Result<(), Failure>) -> Result<Tally, Failure> {
    let mut sent: [Vec<Sent>; 2] = [Vec::new(), Vec::new()];
    let mut got = [0usize; 2];
    let mut t = Tally::default();
    let mut spoiled = [false; 2];
    for (step, a) in c.acts.iter().enumerate() {
        match a {
            Act::Send { from, ad, data, mode } => {
                let f = *from as usize % 2;
                let wire = no_panic("encrypt", || p.ends[f].encrypt(ad, data, *mode))?;
                check!(wire.len() == data.len() + TAG, "length", "step {step}: {} bytes became {}", data.len(), wire.len());
                let m = Sent { ad: ad.clone(), data: data.clone(), wire };
                on_send(p, f, sent[f].len() as u64, &m)?;
                sent[f].push(m);
            }
            Act::Swap2 => {
                // swapping twice is no change
                let [x, y] = std::mem::replace(&mut p.ends, [Box::new(Nobody), Box::new(Nobody)]);
                p.ends = no_panic("swap", || [x.swap().swap(), y.swap().swap()])?;
            }
            Act::Copy { end, ad } => {
                let e = *end as usize % 2;
                let copy = no_panic("copy", || p.ends[e].copy())?;
                let mut old = std::mem::replace(&mut p.ends[e], copy);
                no_panic("copy", || {
                    old.encrypt(ad, b"elsewhere", Mode::Ext);
                    old.decrypt(ad, &[0; 40], Mode::Ext).ok();
                    if let Some(m) = sent[1 - e].get(got[1 - e]) {
                        old.decrypt(&m.ad, &m.wire, Mode::Ext).ok();
                    }
                })?;
            }
            Act::Flush { from } => {
                let f = *from as usize % 2;
                while got[f] < sent[f].len() {
                    let m = &sent[f][got[f]];
                    let r = no_panic("decrypt", || p.ends[1 - f].decrypt(&m.ad, &m.wire, Mode::Ext))?;
                    check!(r == Ok(m.data.to_vec()), "honest-refused", "step {step}: message {} of direction {f} was not accepted (after a refusal: {})", got[f], spoiled[f]);
                    t.after_refusal += usize::from(spoiled[f]);
                    spoiled[f] = false;
                    got[f] += 1;
                    t.accepted += 1;
                }
            }
            Act::Deliver { from, which, spoil, mode } => {
                let f = *from as usize % 2;
                let i = got[f] as i64 + i64::from(*which);
                if i < 0 || i as usize >= sent[f].len() {
                    continue;
                }
                let i = i as usize;
                let m = &sent[f][i];
                let mut wire = m.wire.clone();
                let mut ad = m.ad.to_vec();
                let mut to = 1 - f;
                match spoil {
                    Spoil::No => {}
                    Spoil::Flip(x) => wire = gen::flip(&wire, x),
                    Spoil::Cut(n) => {
                        let n = wire.len().saturating_sub(1 + *n as usize % 24);
                        wire.truncate(n.max(TAG))
                    }
                    Spoil::Append(x) => wire.extend_from_slice(x),
                    Spoil::Ad(x) => ad = gen::flip(&ad, x),
                    Spoil::OtherAd(x) => ad = x.to_vec(),
                    Spoil::Reflect => to = f,
                    Spoil::Graft(j) => {
                        let o = &sent[f][*j as usize % sent[f].len()];
                        let n = wire.len() - TAG;
                        wire[n..].copy_from_slice(&o.wire[o.wire.len() - TAG..]);
                    }
                    Spoil::Empty => wire = vec![0; TAG],
                }
                let ok = to == 1 - f && i == got[f] && wire == m.wire && ad == *m.ad;
                let r = no_panic("decrypt", || p.ends[to].decrypt(&ad, &wire, *mode))?;
                match r {
                    Ok(d) => {
                        check!(ok, "forgery-accepted", "step {step}: message {i} of direction {f} accepted where {} was due, {spoil:?}", got[f]);
                        check!(d == *m.data, "message-changed", "step {step}: message {i} changed: {}", diff(&d, &m.data));
                        got[f] += 1;
                        t.accepted += 1;
                        t.after_refusal += usize::from(spoiled[f]);
                        spoiled[f] = false;
                    }
                    Err(rest) => {
                        check!(!ok, "honest-refused", "step {step}: the message due ({i} of direction {f}) was refused (after a refusal: {})", spoiled[f]);
                        check!(m.data.len() < 8 || rest != *m.data, "plaintext-released", "step {step}: refused, yet the buffer holds the plaintext");
                        t.refused += 1;
                        spoiled[if to == 1 - f { f } else { 1 - f }] = true;
                    }
                }
            }
        }
    }
    // whatever happened, what is due is still accepted
    for f in 0..2 {
        while got[f] < sent[f].len() {
            let m = &sent[f][got[f]];
            let r = no_panic("decrypt", || p.ends[1 - f].decrypt(&m.ad, &m.wire, Mode::InPlace))?;
            check!(r == Ok(m.data.to_vec()), "honest-refused", "at the end: message {} of direction {f} was not accepted (after a refusal: {})", got[f], spoiled[f]);
            t.after_refusal += usize::from(spoiled[f]);
            spoiled[f] = false;
            got[f] += 1;
            t.accepted += 1;
        }
    }
    Ok(t)
}

struct Nobody;
impl Ciph for Nobody {
    fn encrypt(&mut self, _: &[u8], _: &[u8], _: Mode) -> Vec<u8> {
        panic!("harness")
    }
    fn decrypt(&mut self, _: &[u8], _: &[u8], _: Mode) -> Result<Vec<u8>, Vec<u8>> {
        panic!("harness")
    }
    fn swap(self: Box<Self>) -> Box<dyn Ciph> {
        self
    }
    fn copy(&self) -> Box<dyn Ciph> {
        Box::new(Nobody)
    }
    fn poke(&mut self, _: bool, _: u64, _: u64) -> bool {
        false
    }
}

fn n04(c: &History) -> Verdict {
    let mut p = pair(c.config, &c.secret, c.interval)?;
    let t = play(c, &mut p, |_, _, _, _| Ok(()))?;
    Ok(Outcome::when(t.accepted > 0 && t.refused > 0)
        .label_if(t.after_refusal > 0, "accepted after a refusal")
        .label_if(c.interval > 0, "with rotation")
        .label(CONFIG_NAMES[c.config]))
}

// ---------------------------------------------------------------- N05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    config: usize,
    count: u64,
    refuse_every: u64,
}

/// `count` messages from the start of a direction, both directions.
fn n05_long(c: &Long) -> Verdict {
    let mut p = pair(c.config, b"long", 0)?;
    for n in 0..c.count {
        for f in 0..2usize {
            let d = n.to_be_bytes();
            let w = no_panic("encrypt", || p.ends[f].encrypt(&[], &d, Mode::InPlace))?;
            check!(w == p.aead.seal(&p.keys[f], n, &[], &d), "nonce", "message {n} of direction {f} is not under counter {n}");
            if n % c.refuse_every == 0 {
                let mut bad = w.clone();
                bad[n as usize % 24] ^= 1;
                let r = no_panic("decrypt", || p.ends[1 - f].decrypt(&[], &bad, Mode::InPlace))?;
                check!(r.is_err(), "forgery-accepted", "altered message {n} accepted");
            }
            let r = no_panic("decrypt", || p.ends[1 - f].decrypt(&[], &w, Mode::InPlace))?;
            check!(r == Ok(d.to_vec()), "receive-nonce", "message {n} of direction {f} refused");
        }
    }
    Ok(Outcome::ok())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deep {
    config: usize,
    secret: Hex,
    /// messages before the counter is moved
    warm: u16,
    from: u8,
    /// the counter of both ends is moved here
    at: u64,
    /// each: length, whether a refusal comes first
    messages: Vec<(u8, bool)>,
}

fn deep() -> impl Strategy<Value = Deep> {
    let at = prop_oneof![
        6 => (0..64u32, -4..3i64).prop_map(|(b, d)| (1u64 << b).wrapping_add(d as u64)),
        1 => (0..8u64).prop_map(|d| u64::MAX - 10 - d),
        2 => any::<u64>(),
        1 => (0..8u32).prop_map(|b| 0xffu64 << (8 * b)),
    ];
    (config(), gen::random(32), 150..400u16, 0..2u8, at, vec((any::<u8>(), any::<bool>()), 1..7)).prop_map(|(config, secret, warm, from, at, messages)| Deep {
        config,
        secret,
        warm,
        from,
        at: at.min(u64::MAX - 10),
        messages,
    })
}

fn n05_deep(c: &Deep) -> Verdict {
    let mut p = pair(c.config, &c.secret, 0)?;
    let f = c.from as usize;
    for n in 0..u64::from(c.warm) {
        let w = no_panic("encrypt", || p.ends[f].encrypt(&[], &[], Mode::Direction))?;
        check!(w == p.aead.seal(&p.keys[f], n, &[], &[]), "nonce", "message {n} of direction {f} is not under counter {n}");
        let r = no_panic("decrypt", || p.ends[1 - f].decrypt(&[], &w, Mode::Direction))?;
        check!(r.is_ok(), "receive-nonce", "message {n} of direction {f} refused");
    }
    let from = u64::from(c.warm);
    if !p.ends[f].poke(true, from, c.at) || !p.ends[1 - f].poke(false, from, c.at) {
        return Ok(Outcome::trivial().label("counter not found in memory"));
    }
    for (i, (len, refuse)) in c.messages.iter().enumerate() {
        let n = c.at + i as u64;
        let d = gen::expand(n, *len as usize);
        let w = no_panic("encrypt", || p.ends[f].encrypt(b"ad", &d, Mode::Ext))?;
        check!(w == p.aead.seal(&p.keys[f], n, b"ad", &d), "nonce", "message {n} of direction {f} is not under counter {n}");
        if *refuse {
            let r = no_panic("decrypt", || p.ends[1 - f].decrypt(b"ae", &w, Mode::Ext))?;
            check!(r.is_err(), "forgery-accepted", "altered message {n} accepted");
        }
        let r = no_panic("decrypt", || p.ends[1 - f].decrypt(b"ad", &w, Mode::Ext))?;
        check!(r == Ok(d), "receive-nonce", "message {n} of direction {f} refused");
    }
    Ok(Outcome::ok().label_if(c.at > u64::from(u32::MAX), "beyond 2^32").label_if(c.at >= 1 << 63, "beyond 2^63"))
}

// ---------------------------------------------------------------- N06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rotate {
    history: History,
    /// messages exchanged in each direction before the history starts
    ahead: [u16; 2],
}

struct Chain {
    key: [u8; 32],
    ck: Vec<u8>,
    interval: u64,
    at: u64,
}

impl Chain {
    /// the key of message n (asked for in order)
    fn key(&mut self, n: u64) -> [u8; 32] {
        while self.at < n {
            self.at += 1;
            if self.at % self.interval == 0 {
                self.key = turn(&self.ck, &self.key);
            }
        }
        self.key
    }
}

fn rotate() -> impl Strategy<Value = Rotate> {
    let i = prop_oneof![8 => select(vec![1u64, 2, 3, 5, 8]), 3 => select(vec![100u64, 256]), 1 => Just(1000u64)];
    (history(i, 60), any::<u16>(), any::<u16>(), -3..4i32).prop_map(|(history, a, b, near)| {
        // most often the history starts close to a rotation
        let i = history.interval as i32;
        let m = |x: u16| match x % 4 {
            0 => 0,
            1 => (x as i32 / 4) % (3 * i),
            _ => (i * (1 + (x as i32 / 4) % 2) + near).max(0),
        } as u16;
        Rotate { history, ahead: [m(a), m(b)] }
    })
}

fn n06(c: &Rotate) -> Verdict {
    let i = c.history.interval;
    CREATED.with(|c| c.borrow_mut().clear());
    let mut p = pair(c.history.config, &c.history.secret, i)?;
    let made = CREATED.with(|c| std::mem::take(&mut *c.borrow_mut()));
    for k in &p.keys {
        let n = made.iter().filter(|(ck, key)| *ck == p.ck && *key == k[..]).count();
        check!(n == 2 && made.len() == 4, "policy-arguments", "rotation policies were created with {made:?}");
    }
    let mut chains = [0, 1].map(|f| Chain { key: p.keys[f], ck: p.ck.clone(), interval: i, at: 0 });
    for f in 0..2 {
        for n in 0..u64::from(c.ahead[f]) {
            let w = no_panic("encrypt", || p.ends[f].encrypt(&[], b"ahead", Mode::InPlace))?;
            let key = chains[f].key(n);
            check!(w == p.aead.seal(&key, n, &[], b"ahead"), "rotation", "interval {i}: message {n} of direction {f} is not under the key due");
            let r = no_panic("decrypt", || p.ends[1 - f].decrypt(&[], &w, Mode::InPlace))?;
            check!(r.is_ok(), "rotation-receiver", "interval {i}: message {n} of direction {f} refused");
        }
    }
    let ahead = c.ahead;
    let mut turned = [false; 2];
    let t = play(&c.history, &mut p, |p, f, n, m| {
        let n = n + u64::from(ahead[f]);
        let key = chains[f].key(n);
        turned[f] |= n > 0 && n % i == 0;
        check!(
            m.wire == p.aead.seal(&key, n, &m.ad, &m.data),
            "rotation",
            "interval {i}: message {n} of direction {f} is not under the key due"
        );
        Ok(())
    })?;
    Ok(Outcome::when(turned[0] || turned[1])
        .label_if(t.refused > 0, "with refusals")
        .label_if(turned[0] && turned[1], "both directions rotated")
        .label_if(c.ahead[0] as u64 / i != c.ahead[1] as u64 / i, "directions out of step"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FarRotation {
    config: usize,
    secret: Hex,
    interval: u64,
    warm: u16,
    from: u8,
    at: u64,
    /// each: whether a refusal comes first
    messages: Vec<bool>,
}

fn far() -> impl Strategy<Value = FarRotation> {
    let interval = select(vec![1u64, 2, 3, 5, 8, 100, 256, 1000, 65536, 0x1_0000_0000, 0x1_0000_0003]);
    let near = prop_oneof![6 => (8..64u32).prop_map(|b| 1u64 << b), 1 => any::<u64>(), 1 => Just(u64::MAX)];
    (config(), gen::random(32), interval, 150..400u16, 0..2u8, (near, -4..3i64, any::<bool>()), vec(any::<bool>(), 1..9)).prop_map(
        |(config, secret, interval, warm, from, (near, d, aligned), messages)| {
            let near = if aligned { near / interval * interval } else { near };
            let at = near.saturating_add_signed(d).clamp(300, u64::MAX - 20);
            FarRotation { config, secret, interval, warm, from, at, messages }
        },
    )
}

/// Rotation far into a direction's life. The counter is moved by hand, so both readings of the
/// schedule are allowed after it: by the counter, or by the messages really processed.
fn n06_far(c: &FarRotation) -> Verdict {
    let i = c.interval;
    let f = c.from as usize;
    let mut p = pair(c.config, &c.secret, i)?;
    let mut chain = Chain { key: p.keys[f], ck: p.ck.clone(), interval: i, at: 0 };
    let warm = u64::from(c.warm);
    for n in 0..warm {
        let w = no_panic("encrypt", || p.ends[f].encrypt(&[], &[], Mode::Direction))?;
        let key = chain.key(n);
        check!(w == p.aead.seal(&key, n, &[], &[]), "rotation", "interval {i}: message {n} is not under the key due");
        let r = no_panic("decrypt", || p.ends[1 - f].decrypt(&[], &w, Mode::Direction))?;
        check!(r.is_ok(), "rotation-receiver", "interval {i}: message {n} refused");
    }
    let now = chain.key(warm);
    if !p.ends[f].poke(true, warm, c.at) || !p.ends[1 - f].poke(false, warm, c.at) {
        return Ok(Outcome::trivial().label("counter not found in memory"));
    }
    let chain = |at| Chain { key: now, ck: p.ck.clone(), interval: i, at };
    let (mut by_counter, mut by_count) = (Some(chain(c.at)), Some(chain(warm)));
    let mut turned = false;
    for (m, refuse) in c.messages.iter().enumerate() {
        let n = c.at + m as u64;
        let w = no_panic("encrypt", || p.ends[f].encrypt(b"ad", b"far", Mode::Ext))?;
        let due = |x: &mut Chain, at| w == p.aead.seal(&x.key(at), n, b"ad", b"far");
        by_counter = by_counter.and_then(|mut x| due(&mut x, n).then_some(x));
        by_count = by_count.and_then(|mut x| due(&mut x, warm + m as u64).then_some(x));
        turned |= m > 0 && n % i == 0;
        check!(by_counter.is_some() || by_count.is_some(), "rotation", "interval {i}: message {n} is not under the key due");
        if *refuse {
            let r = no_panic("decrypt", || p.ends[1 - f].decrypt(b"ae", &w, Mode::Ext))?;
            check!(r.is_err(), "forgery-accepted", "altered message {n} accepted");
        }
        let r = no_panic("decrypt", || p.ends[1 - f].decrypt(b"ad", &w, Mode::Ext))?;
        check!(r == Ok(b"far".to_vec()), "rotation-receiver", "interval {i}: message {n} refused");
    }
    Ok(Outcome::when(turned).label_if(c.at > u64::from(u32::MAX), "beyond 2^32"))
}

fn n06_wide(config: &usize) -> Verdict {
    let i = 65536u64;
    let mut p = pair(*config, b"wide", i)?;
    let mut chain = Chain { key: p.keys[1], ck: p.ck.clone(), interval: i, at: 0 };
    for n in 0..i + 5 {
        let w = no_panic("encrypt", || p.ends[1].encrypt(&[], &[7], Mode::InPlace))?;
        let key = chain.key(n);
        check!(w == p.aead.seal(&key, n, &[], &[7]), "rotation", "interval {i}: message {n} is not under the key due");
        let r = no_panic("decrypt", || p.ends[0].decrypt(&[], &w, Mode::InPlace))?;
        check!(r.is_ok(), "rotation-receiver", "interval {i}: message {n} refused");
    }
    Ok(Outcome::ok())
}

// ---------------------------------------------------------------- N07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
    config: usize,
    interval: u64,
    warm: u8,
    /// associated data, bytes, how they are handed over
    attacks: Vec<(Hex, Hex, Mode)>,
    /// a genuine message, cut to this many bytes and padded with these
    cut: Option<(u8, Hex)>,
    /// into the handshake state instead: data and tag
    handshake: (Hex, Hex),
}

fn hostile() -> impl Strategy<Value = Hostile> {
    let attack = (extra(40), prop_oneof![3 => gen::sized(vec![0, 15, 16, 17, 32, 64], 300), 1 => gen::sized(vec![4096, 65535, 65536], 70000)], mode());
    (
        config(),
        interval(),
        0..12u8,
        vec(attack, 1..4),
        common::proptest::option::of((any::<u8>(), gen::sized(vec![0, 16], 40))),
        (prop_oneof![60 => gen::sized(vec![0, 16, 128], 300), 1 => long()], gen::bytes(16)),
    )
        .prop_map(|(config, interval, warm, attacks, cut, handshake)| Hostile { config, interval, warm, attacks, cut, handshake })
}

fn n07(c: &Hostile) -> Verdict {
    let mut p = pair(c.config, b"hostile", c.interval)?;
    for n in 0..c.warm {
        let w = no_panic("encrypt", || p.ends[0].encrypt(&[], &[n], Mode::Ext))?;
        let r = no_panic("decrypt", || p.ends[1].decrypt(&[], &w, Mode::Ext))?;
        check!(r == Ok(vec![n]), "honest-refused", "message {n} refused");
    }
    let short = c.attacks.iter().any(|a| a.1.len() < TAG);
    let mut attacks = c.attacks.clone();
    let genuine = no_panic("encrypt", || p.ends[0].encrypt(b"ad", b"genuine message", Mode::Ext))?;
    if let Some((n, pad)) = &c.cut {
        let mut w = genuine[..*n as usize % genuine.len()].to_vec();
        w.extend_from_slice(pad);
        attacks.push((Hex(b"ad".to_vec()), Hex(w), Mode::Ext));
    }
    for (ad, bytes, mode) in &attacks {
        if **bytes == genuine {
            continue;
        }
        let r = no_panic("decrypt", || p.ends[1].decrypt(ad, bytes, *mode))?;
        check!(r.is_err(), "garbage-accepted", "{} arbitrary bytes were accepted", bytes.len());
    }
    let r = no_panic("decrypt", || p.ends[1].decrypt(b"ad", &genuine, Mode::Ext))?;
    check!(r == Ok(b"genuine message".to_vec()), "receiver-disturbed", "after {} refused inputs the genuine message was refused", attacks.len());
    let h = start(c.config, "hostile").mix_key(b"x");
    let r = no_panic("handshake-decrypt", || h.decrypt(&c.handshake.0, &c.handshake.1).map(|_| ()))?;
    check!(r.is_err(), "garbage-accepted", "the handshake accepted arbitrary bytes");
    Ok(Outcome::ok().label_if(short, "shorter than a tag").label_if(c.cut.is_some(), "cut genuine message"))
}

fn every_short() -> Vec<Hostile> {
    let mut v = Vec::new();
    for config in 0..CONFIGS.len() {
        for len in 0..=40usize {
            for fill in [0u8, 0xff] {
                let b = Hex(vec![fill; len]);
                v.push(Hostile {
                    config,
                    interval: 0,
                    warm: (len % 3) as u8,
                    attacks: vec![(b.clone(), b.clone(), Mode::Ext), (Hex(vec![]), b.clone(), Mode::InPlace)],
                    cut: Some((len as u8, Hex(vec![]))),
                    handshake: (b, Hex(vec![fill; TAG])),
                });
            }
        }
    }
    v
}

fn main() {
    self_test();
    let mut run = Run::from_env();
    run.assume("the hash and AEAD primitives of the sha2, sha3, chacha20poly1305 and aes-gcm crates are correct (the reference uses them too; HMAC, HKDF and nonces are its own)");
    match run.id.as_str() {
        "N01" => {
            run.rule("scripts: at least one payload was encrypted; published vectors and the enumeration of data lengths: every case");
            run.each("vectors", load(), n01_vector);
            run.each("lengths", every_length(), n01);
            run.sub("scripts", cases(150_000), script, n01);
        }
        "N02" => {
            run.rule("transport messages flowed in both directions after the handshake script");
            run.sub("lockstep", cases(100_000), lock, n02);
        }
        "N03" => {
            run.rule("the receiver's state or input differed from the sender's when it decrypted or finished");
            run.sub("diverge", cases(200_000), apart, n03);
        }
        "N04" => {
            run.rule("at least one message was accepted and at least one refused");
            run.sub("channel", cases(100_000), || history(interval(), 70), n04);
        }
        "N05" => {
            run.rule("long: every run; deep: the counter was found and moved");
            run.assume("counters beyond what can be counted to are reached by editing the cipher object's memory where its counter is found");
            let thorough = !run.quick();
            let long = (0..CONFIGS.len()).map(|config| Long { config, count: if thorough { 1 << 20 } else { 66_000 }, refuse_every: 97 }).collect();
            run.each("long", long, n05_long);
            run.sub("deep", cases(20_000), deep, n05_deep);
        }
        "N06" => {
            run.rule("at least one direction passed a rotation (far: after its counter was moved)");
            run.each("wide", (0..CONFIGS.len()).collect(), n06_wide);
            run.sub("far", cases(10_000), far, n06_far);
            run.sub("rotation", cases(40_000), rotate, n06);
        }
        "N07" => {
            run.rule("every case (hostile bytes were handed over and the genuine message after them)");
            run.each("short", every_short(), n07);
            run.sub("hostile", cases(60_000), hostile, n07);
        }
        x => {
            eprintln!("no noise check {x}");
            std::process::exit(2);
        }
    }
    run.finish()
}
