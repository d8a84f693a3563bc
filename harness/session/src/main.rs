//! S01..S08: keys, identities and the handshake of vru-session.

mod flow;

use common::prelude::*;
use common::proptest::{collection::vec, option, sample::select};
use common::{cases, check, diff, fail, gen, no_panic, Hex, Outcome, Run, Verdict};
use flow::{a, flow, identity, open, seal, v, Cast, Setup, SIZES, SIZE_NAMES};
use rac::{Array, Concat};
use refmodel::curves::Ed;
use refmodel::session as model;
use refmodel::{sha3_256, noise::A};
use serde::{Deserialize, Serialize};
use std::net::SocketAddr;
use vru_session::handshake::{xx, Identity, PublicKey, TrivialRotor};
use vru_session::Command;

type Seed96 = Hex;

fn setup() -> impl Strategy<Value = Setup> {
    setup_with(gen::random(96))
}

fn setup_with(seed: BoxedStrategy<Seed96>) -> impl Strategy<Value = Setup> {
    let s = || seed.clone();
    let e = || gen::bytes(32);
    let sizes = prop_oneof![20 => 0..SIZES.len() - 1, 1 => Just(SIZES.len() - 1)];
    let shapes = prop_oneof![1 => Just(0), 1 => any::<u8>()];
    (sizes, any::<u64>(), (s(), s(), s(), s()), (e(), e(), e(), e()), shapes).prop_map(|(sizes, fill, (i_static, r_static, i_eph, r_eph), (r_ec, i_ec, i_sc, r_sc), shapes)| Setup {
        sizes,
        payloads: SIZES[sizes].iter().enumerate().map(|(k, n)| Hex(gen::expand(fill.wrapping_add(k as u64), *n))).collect(),
        i_static,
        r_static,
        i_eph,
        r_eph,
        r_ec,
        i_ec,
        i_sc,
        r_sc,
        shapes,
    })
}

/// Any seeds, with some of them equal.
fn any_setup() -> impl Strategy<Value = Setup> {
    let pair = (0..4u8, 0..4u8);
    (setup_with(gen::bytes(96)), prop_oneof![2 => Just(vec![]), 1 => vec(pair, 1..3)], prop_oneof![4 => Just(vec![]), 1 => vec((0..4u8, 0..4u8), 1..4)]).prop_map(|(mut s, keys, seeds)| {
        for (x, y) in keys {
            let v = [&s.i_static, &s.r_static, &s.i_eph, &s.r_eph][x as usize].clone();
            *[&mut s.i_static, &mut s.r_static, &mut s.i_eph, &mut s.r_eph][y as usize] = v;
        }
        for (x, y) in seeds {
            let v = [&s.r_ec, &s.i_ec, &s.i_sc, &s.r_sc][x as usize].clone();
            *[&mut s.r_ec, &mut s.i_ec, &mut s.i_sc, &mut s.r_sc][y as usize] = v;
        }
        s
    })
}

// ---------------------------------------------------------------- S01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Honest {
    setup: Setup,
    /// who sends, associated data, data
    traffic: Vec<(bool, Hex, Hex)>,
}

fn honest() -> impl Strategy<Value = Honest> {
    let t = (any::<bool>(), gen::sized(vec![0, 3], 20), gen::sized(vec![0, 64, 1280], 1400));
    (any_setup(), vec(t, 0..12)).prop_map(|(setup, traffic)| Honest { setup, traffic })
}

/// Many messages over one session, some of them large.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Busy {
    setup: Setup,
    count: u32,
    /// the longest message has 2^this bytes
    top: u8,
    seed: u64,
}

fn busy() -> impl Strategy<Value = Busy> {
    let shape = prop_oneof![(Just(70_000u32), Just(5u8)), (200..2000u32, Just(12u8)), (10..30u32, Just(18u8)), (2..6u32, Just(22u8))];
    (any_setup(), shape, any::<u64>()).prop_map(|(setup, (count, top), seed)| Busy { setup, count, top, seed })
}

fn s01_busy(c: &Busy) -> Verdict {
    let e = flow(&c.setup, &Cast::honest(&c.setup), &mut |_, _| {})?;
    let (Some(mut i), Some(mut r)) = (e.i, e.r) else {
        fail!("honest-refused", "an honest handshake was refused: {:?}", e.refused);
    };
    for n in 0..c.count {
        let x = gen::expand(c.seed.wrapping_add(u64::from(n)), 12);
        let top = 1usize << c.top;
        let at = u32::from_le_bytes(x[4..8].try_into().unwrap()) as usize;
        // often next to a power of two
        let len = if x[1] & 3 == 0 { (1usize << (at % (c.top as usize + 1))).saturating_add_signed(i16::from(x[2] as i8 / 8) as isize) } else { at % (top + 1) };
        let data = gen::expand(u64::from(n), len);
        let ad = &x[..usize::from(x[3]) % 13];
        let (s, d) = if x[0] & 1 == 1 { (&mut i, &mut r) } else { (&mut r, &mut i) };
        let w = no_panic("transport", || seal(&mut s.cipher, ad, &data))?;
        let got = no_panic("transport", || open(&mut d.cipher, ad, &w))?;
        check!(got.as_ref() == Some(&data), "transport", "transport message {n} ({len} bytes) was {}", if got.is_none() { "refused" } else { "changed" });
    }
    Ok(Outcome::ok().label_if(c.count >= 70_000, "70000 messages").label_if(c.top >= 18, "messages beyond 64 KiB"))
}

fn s01(c: &Honest) -> Verdict {
    let e = flow(&c.setup, &Cast::honest(&c.setup), &mut |_, _| {})?;
    let (Some(mut i), Some(mut r)) = (e.i, e.r) else {
        fail!("honest-refused", "an honest handshake was refused: {:?}", e.refused);
    };
    check!(i.hash == r.hash, "hashes-differ", "final hashes differ: {} / {}", hex::encode(&i.hash), hex::encode(&r.hash));
    let p = &c.setup.payloads;
    for (what, got, want) in [("p", &i.payloads[0], &p[0]), ("q", &r.payloads[0], &p[1]), ("r", &r.payloads[1], &p[2]), ("s", &i.payloads[1], &p[3])] {
        check!(*got == **want, "payload-changed", "payload {what} changed: {}", diff(got, want));
    }
    let i_pk = v(&flow::gen(&c.setup.i_static).0.compress());
    let r_pk = v(&flow::gen(&c.setup.r_static).0.compress());
    check!(i.peer == r_pk, "peer-key", "the initiator learned another static key: {}", diff(&i.peer, &r_pk));
    check!(r.peer == i_pk, "peer-key", "the responder learned another static key: {}", diff(&r.peer, &i_pk));
    for (n, (by_i, ad, data)) in c.traffic.iter().enumerate() {
        let (s, d) = if *by_i { (&mut i, &mut r) } else { (&mut r, &mut i) };
        let w = no_panic("transport", || seal(&mut s.cipher, ad, data))?;
        let got = no_panic("transport", || open(&mut d.cipher, ad, &w))?;
        check!(got.as_ref() == Some(data), "transport", "transport message {n} was {}", if got.is_none() { "refused" } else { "changed" });
    }
    let both = c.traffic.iter().any(|t| t.0) && c.traffic.iter().any(|t| !t.0);
    Ok(Outcome::ok().label_if(both, "traffic both ways").label(SIZE_NAMES[c.setup.sizes]).label_if(c.setup.i_static == c.setup.r_static, "both parties have one key"))
}

// ---------------------------------------------------------------- S02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    /// bits of one component
    Flip { part: u8, flips: Vec<u32> },
    /// a piece of a component: start, bytes
    Overwrite { part: u8, at: u32, with: Hex },
    /// component replaced by one of the same length of this session or another
    Splice { part: u8, from: u8, other: bool },
    /// the whole message of another session
    Replay { from: u8 },
    /// two components of one message of equal length exchanged, or halves of one component
    Shuffle { part: u8, at: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Altered {
    setup: Setup,
    /// what another session of the same static keys differs in
    other: Setup,
    message: u8,
    tamper: Tamper,
}

fn altered() -> impl Strategy<Value = Altered> {
    let t = prop_oneof![
        8 => (any::<u8>(), gen::flips()).prop_map(|(part, flips)| Tamper::Flip { part, flips }),
        2 => (any::<u8>(), any::<u32>(), prop_oneof![gen::random(4), gen::bytes(32)]).prop_map(|(part, at, with)| Tamper::Overwrite { part, at, with }),
        4 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(part, from, other)| Tamper::Splice { part, from, other }),
        1 => any::<u8>().prop_map(|from| Tamper::Replay { from }),
        1 => (any::<u8>(), any::<u32>()).prop_map(|(part, at)| Tamper::Shuffle { part, at }),
    ];
    // the other session shares any subset of the seeds
    (setup(), setup(), any::<u8>(), any::<u8>(), 0..4u8, t).prop_map(|(setup, mut other, share, statics, message, tamper)| {
        other.sizes = setup.sizes;
        other.payloads = setup.payloads.clone();
        let fields = [
            (&mut other.r_eph, &setup.r_eph),
            (&mut other.i_eph, &setup.i_eph),
            (&mut other.r_ec, &setup.r_ec),
            (&mut other.i_ec, &setup.i_ec),
            (&mut other.i_sc, &setup.i_sc),
            (&mut other.r_sc, &setup.r_sc),
        ];
        for (k, (o, s)) in fields.into_iter().enumerate() {
            if share >> k & 1 == 1 {
                *o = s.clone();
            }
        }
        if statics % 4 != 0 {
            other.i_static = setup.i_static.clone();
        }
        if statics % 3 != 0 {
            other.r_static = setup.r_static.clone();
        }
        Altered { setup, other, message, tamper }
    })
}

/// true if the message changed
fn tampered(t: &Tamper, m: &mut Vec<Vec<u8>>, earlier: &[Vec<Vec<u8>>], other: &[Vec<Vec<u8>>], n: usize) -> bool {
    let before = m.clone();
    let pick = |p: &u8, m: &Vec<Vec<u8>>| *p as usize % m.len();
    match t {
        Tamper::Flip { part, flips } => {
            let p = pick(part, m);
            m[p] = gen::flip(&m[p], flips);
        }
        Tamper::Overwrite { part, at, with } => {
            let p = pick(part, m);
            let len = m[p].len();
            for (k, b) in with.iter().enumerate() {
                if len > 0 {
                    m[p][(*at as usize + k) % len] = *b;
                }
            }
        }
        Tamper::Splice { part, from, other: o } => {
            let p = pick(part, m);
            let pool: Vec<&Vec<u8>> = if *o { other.iter().flatten().collect() } else { earlier.iter().flatten().chain(before.iter()).collect() };
            let fit: Vec<_> = pool.into_iter().filter(|x| x.len() == m[p].len() && **x != m[p]).collect();
            if !fit.is_empty() {
                m[p] = fit[*from as usize % fit.len()].clone();
            }
        }
        Tamper::Replay { .. } => {
            if let Some(o) = other.get(n) {
                *m = o.clone();
            }
        }
        Tamper::Shuffle { part, at } => {
            let p = pick(part, m);
            let len = m[p].len();
            if len > 0 {
                m[p].rotate_left(*at as usize % len);
            }
        }
    }
    *m != before
}

fn s02(c: &Altered) -> Verdict {
    let other = flow(&c.other, &Cast::honest(&c.other), &mut |_, _| {})?.messages;
    // a whole message of a session with the same ephemeral key can be a genuine answer
    let fresh = c.other.i_eph != c.setup.i_eph && c.other.r_eph != c.setup.r_eph;
    if matches!(c.tamper, Tamper::Replay { .. }) && !fresh {
        return Ok(Outcome::trivial());
    }
    let mut changed = false;
    let mut undecodable = false;
    let mut earlier: Vec<Vec<Vec<u8>>> = Vec::new();
    let e = flow(&c.setup, &Cast::honest(&c.setup), &mut |n, m| {
        let was = m.clone();
        if n == c.message as usize {
            changed = tampered(&c.tamper, m, &earlier, &other, n);
            if n == 0 && Ed::decode(&m[0][..32]).is_none() {
                // not a point: what happens then is judged by S07
                undecodable = true;
                *m = was.clone();
            }
        }
        earlier.push(was);
    })?;
    if undecodable || !changed {
        return Ok(Outcome::trivial().label(if undecodable { "not a point (see S07)" } else { "unchanged" }));
    }
    let want = ["take1", "take1", "take2", "take3"][c.message as usize];
    check!(
        !(e.i.is_some() && e.r.is_some()),
        "alteration-accepted",
        "message {} was altered by {:?} and both sides completed",
        c.message,
        c.tamper
    );
    check!(
        e.refused.as_ref().map(|r| r.0) == Some(want),
        "alteration-accepted",
        "message {} was altered by {:?}; refused: {:?}, should be in {want}",
        c.message,
        c.tamper,
        e.refused
    );
    Ok(Outcome::ok().label(["message 0", "message 1", "message 2", "message 3"][c.message as usize]).label(match c.tamper {
        Tamper::Flip { .. } => "bits flipped",
        Tamper::Overwrite { .. } => "overwritten",
        Tamper::Splice { other: true, .. } => "spliced from another session",
        Tamper::Splice { .. } => "spliced from this session",
        Tamper::Replay { .. } => "replayed",
        Tamper::Shuffle { .. } => "shuffled",
    }))
}

/// Every byte of every message, one bit each.
fn every_byte(quick: bool) -> Vec<Altered> {
    let setup = Setup {
        sizes: 0,
        payloads: (0..4).map(|k| Hex(gen::expand(k, 16))).collect(),
        i_static: Hex(gen::expand(1, 96)),
        r_static: Hex(gen::expand(2, 96)),
        i_eph: Hex(gen::expand(3, 96)),
        r_eph: Hex(gen::expand(4, 96)),
        r_ec: Hex(gen::expand(5, 32)),
        i_ec: Hex(gen::expand(6, 32)),
        i_sc: Hex(gen::expand(7, 32)),
        r_sc: Hex(gen::expand(8, 32)),
        shapes: 0,
    };
    let lens: [&[usize]; 4] = [&[1120], &[1152, 32, 1120, 1136], &[1152, 32, 1152, 1136, 32], &[1152, 32]];
    let mut out = Vec::new();
    for (m, parts) in lens.iter().enumerate() {
        for (p, len) in parts.iter().enumerate() {
            let step = if quick && *len > 40 { 7 } else { 1 };
            for at in (0..*len).step_by(step) {
                let bit = (at * 5 + m) % 8;
                out.push(Altered {
                    other: setup.clone(),
                    setup: setup.clone(),
                    message: m as u8,
                    tamper: Tamper::Flip { part: p as u8, flips: vec![(at * 8 + bit) as u32] },
                });
            }
        }
    }
    out
}

// ---------------------------------------------------------------- S03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cheat {
    /// the initiator dials somebody else; whether the responder claims that identity
    Dialed { who: Hex, claims: bool },
    /// the initiator dials an identity that differs in some bits
    Near { flips: Vec<u32>, claims: bool },
    /// ... or has the same bytes in another order
    Permuted { by: u8, swap: Option<(u8, u8)>, claims: bool },
    /// a responder presenting the static key without its secrets
    Responder { own: Hex, elliptic: bool, lattice: bool },
    /// an initiator presenting a static key without its secrets
    Initiator { own: Hex, elliptic: bool, lattice: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Impostor {
    setup: Setup,
    cheat: Cheat,
    /// what an impostor that cannot continue sends instead of its last message
    guess: Hex,
}

fn impostor() -> impl Strategy<Value = Impostor> {
    let lacks = || select(vec![(false, true), (true, false), (false, false)]);
    let c = prop_oneof![
        2 => (gen::random(96), any::<bool>()).prop_map(|(who, claims)| Cheat::Dialed { who, claims }),
        1 => (gen::flips(), any::<bool>()).prop_map(|(flips, claims)| Cheat::Near { flips, claims }),
        1 => (0..32u8, option::of((0..32u8, 0..32u8)), any::<bool>()).prop_map(|(by, swap, claims)| Cheat::Permuted { by, swap, claims }),
        3 => (gen::random(96), lacks()).prop_map(|(own, (elliptic, lattice))| Cheat::Responder { own, elliptic, lattice }),
        3 => (gen::random(96), lacks()).prop_map(|(own, (elliptic, lattice))| Cheat::Initiator { own, elliptic, lattice }),
    ];
    (setup(), c, gen::bytes(32)).prop_map(|(setup, cheat, guess)| Impostor { setup, cheat, guess })
}

/// the stolen halves of `victim`, the rest of `own`
fn mixed(victim: &[u8], own: &[u8], elliptic: bool, lattice: bool) -> Vec<u8> {
    let mut s = own.to_vec();
    if elliptic {
        s[..32].copy_from_slice(&victim[..32]);
    }
    if lattice {
        s[32..].copy_from_slice(&victim[32..]);
    }
    s
}

fn s03(c: &Impostor) -> Verdict {
    let mut who = Cast::honest(&c.setup);
    let r_id: [u8; 32] = v(&flow::gen(&c.setup.r_static).0.identity_bytes())[..].try_into().unwrap();
    match &c.cheat {
        Cheat::Dialed { who: w, claims } => {
            let d: [u8; 32] = v(&flow::gen(w).0.identity_bytes())[..].try_into().unwrap();
            who.dialed = Some(d);
            who.answers = claims.then_some(d);
        }
        Cheat::Permuted { .. } | Cheat::Near { .. } => {
            let (d, claims) = match &c.cheat {
                Cheat::Near { flips, claims } => (gen::flip(&r_id, flips).try_into().unwrap(), claims),
                Cheat::Permuted { by, swap, claims } => {
                    let mut d = r_id;
                    match swap {
                        Some((x, y)) => d.swap(*x as usize, *y as usize),
                        None => d.rotate_left(*by as usize),
                    }
                    (d, claims)
                }
                _ => unreachable!(),
            };
            if d == r_id {
                return Ok(Outcome::trivial());
            }
            who.dialed = Some(d);
            who.answers = claims.then_some(d);
        }
        Cheat::Responder { own, elliptic, lattice } => who.r_sk = mixed(&c.setup.r_static, own, *elliptic, *lattice),
        Cheat::Initiator { own, elliptic, lattice } => who.i_sk = mixed(&c.setup.i_static, own, *elliptic, *lattice),
    }
    let mut e = flow(&c.setup, &who, &mut |_, _| {})?;
    let what = match &c.cheat {
        Cheat::Dialed { claims: true, .. } => "another responder claiming the dialed identity",
        Cheat::Dialed { .. } => "another responder",
        Cheat::Near { .. } => "an identity differing in a few bits",
        Cheat::Permuted { .. } => "an identity of the same bytes in another order",
        Cheat::Responder { elliptic: true, .. } => "a responder without the lattice secret",
        Cheat::Responder { lattice: true, .. } => "a responder without the elliptic secret",
        Cheat::Responder { .. } => "a responder without secrets",
        Cheat::Initiator { elliptic: true, .. } => "an initiator without the lattice secret",
        Cheat::Initiator { lattice: true, .. } => "an initiator without the elliptic secret",
        Cheat::Initiator { .. } => "an initiator without secrets",
    };
    match c.cheat {
        Cheat::Dialed { .. } | Cheat::Near { .. } | Cheat::Permuted { .. } => {
            check!(e.i.is_none() && e.refused.as_ref().map(|r| r.0) == Some("take1"), "impostor-accepted", "{what}: the initiator did not refuse the reply ({:?})", e.refused);
        }
        Cheat::Responder { .. } => check!(e.i.is_none(), "impostor-accepted", "{what}: the initiator completed"),
        Cheat::Initiator { elliptic: false, .. } => {
            check!(e.r.is_none(), "impostor-accepted", "{what}: the responder completed");
        }
        Cheat::Initiator { .. } => {
            // the responder learns at its first transport message that there is nobody
            check!(e.i.is_none(), "impostor-accepted", "{what}: it could read the last message");
            if let Some(r) = &mut e.r {
                let got = no_panic("transport", || open(&mut r.cipher, &[], &c.guess))?;
                check!(got.is_none(), "impostor-accepted", "{what}: the responder accepted its transport message");
            }
        }
    }
    Ok(Outcome::ok().label(what))
}

trait IdBytes {
    fn identity_bytes(&self) -> Array<rac::generic_array::typenum::U32>;
}
impl IdBytes for PublicKey {
    fn identity_bytes(&self) -> Array<rac::generic_array::typenum::U32> {
        Array::clone_from_slice(self.identity().as_ref())
    }
}

// ---------------------------------------------------------------- S04

fn s04(c: &Setup) -> Verdict {
    let e = flow(c, &Cast::honest(c), &mut |_, _| {})?;
    let keys = model::Keys::gen(&c.r_static);
    let p = &c.payloads;
    let t = model::run(&c.reference(), &keys.identity(), &p[0], &p[1], &p[2], &p[3]);
    for (m, (got, want)) in e.messages.iter().zip(&t.messages).enumerate() {
        for (k, (g, w)) in got.iter().zip(want).enumerate() {
            check!(g == w, "message-bytes", "message {m}, component {k} differs: {}", diff(g, w));
        }
    }
    let (Some(mut i), Some(mut r)) = (e.i, e.r) else {
        fail!("honest-refused", "an honest handshake was refused: {:?}", e.refused);
    };
    check!(i.hash == t.hash && r.hash == t.hash, "final-hash", "the final hash differs from the protocol's");
    let w = seal(&mut i.cipher, b"ad", b"from the initiator");
    check!(w == A::ChaChaPoly.seal(&t.i_to_r, 0, b"ad", b"from the initiator"), "transport-keys", "the initiator's sending key differs");
    let w = seal(&mut r.cipher, b"", b"from the responder");
    check!(w == A::ChaChaPoly.seal(&t.r_to_i, 0, b"", b"from the responder"), "transport-keys", "the responder's sending key differs");
    let w = A::ChaChaPoly.seal(&t.r_to_i, 0, b"", b"x");
    check!(open(&mut i.cipher, b"", &w).is_some(), "transport-keys", "the initiator's receiving key differs");
    let w = A::ChaChaPoly.seal(&t.i_to_r, 0, b"", b"x");
    check!(open(&mut r.cipher, b"", &w).is_some(), "transport-keys", "the responder's receiving key differs");
    Ok(Outcome::ok())
}

// ---------------------------------------------------------------- S05

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Form {
    Compress,
    Clone,
    Bincode,
    Json,
    Bytes,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Forms {
    seed: Hex,
    peer: Hex,
    encapsulation: Hex,
    chain: Vec<Form>,
    clone_secret: u8,
}

fn forms() -> impl Strategy<Value = Forms> {
    let f = select(vec![Form::Compress, Form::Clone, Form::Bincode, Form::Json, Form::Bytes]);
    (gen::bytes(96), gen::bytes(96), gen::bytes(32), vec(f, 0..6), 0..4u8)
        .prop_map(|(seed, peer, encapsulation, chain, clone_secret)| Forms { seed, peer, encapsulation, chain, clone_secret })
}

fn s05(c: &Forms) -> Verdict {
    let r = model::Keys::gen(&c.seed);
    let (mut pk, mut sk) = no_panic("gen", || flow::gen(&c.seed))?;
    let (peer_pk, peer_sk) = no_panic("gen", || flow::gen(&c.peer))?;
    let (again, _) = flow::gen(&c.seed);
    check!(v(&again.compress()) == v(&pk.compress()), "not-deterministic", "one seed gave two keys");
    let dh = v(&pk.dh(&peer_sk));
    let enc_seed = Array::from_slice(&c.encapsulation);
    let first = pk.encapsulate(enc_seed);
    let (ct0, ss0) = (v(&first.ct), v(&first.ss));
    let (rct, rss) = r.encaps(&c.encapsulation);
    for (k, f) in std::iter::once(None).chain(c.chain.iter().map(Some)).enumerate() {
        if let Some(f) = f {
            pk = no_panic("representation", || match f {
                Form::Compress => PublicKey::decompress(pk.compress()),
                Form::Clone => pk.clone(),
                Form::Bincode => bincode::deserialize(&bincode::serialize(&pk).unwrap()).unwrap(),
                Form::Json => serde_json::from_str(&serde_json::to_string(&pk).unwrap()).unwrap(),
                Form::Bytes => PublicKey::decompress(Concat(a(&v(&pk.elliptic())), a(&v(&pk.lattice())))),
            })?;
        }
        let bytes = v(&pk.compress());
        check!(bytes == r.public(), "encoding", "after {:?}: encoding differs: {}", &c.chain[..k], diff(&bytes, &r.public()));
        check!(pk.identity().as_ref() == r.identity(), "identity", "after {:?}: identity is not the SHA3-256 of the encoding", &c.chain[..k]);
        check!(pk.identity() == identity(&r.identity()), "identity", "after {:?}: identities compare unequal", &c.chain[..k]);
        check!(v(&pk.lattice_hash()) == r.l_hash, "lattice-hash", "after {:?}: lattice hash differs", &c.chain[..k]);
        check!(v(&pk.elliptic()) == r.e_pk && v(&pk.lattice()) == r.l_pk, "parts", "after {:?}: a part of the key differs", &c.chain[..k]);
    }
    for _ in 0..c.clone_secret {
        sk = no_panic("clone", || sk.clone())?;
    }
    check!(v(&pk.dh(&peer_sk)) == dh, "key-agreement", "after {:?}: key agreement differs", c.chain);
    check!(v(&peer_pk.dh(&sk)) == dh, "key-agreement", "after {:?}: the two sides agree on different secrets", c.chain);
    let e = no_panic("encapsulate", || pk.encapsulate(enc_seed))?;
    check!(v(&e.ct) == ct0 && v(&e.ss) == ss0, "encapsulation", "after {:?}: encapsulation differs", c.chain);
    check!(ct0 == rct && ss0 == rss, "encapsulation", "encapsulation differs from the reference");
    let got = no_panic("decapsulate", || pk.decapsulate(&sk, &e.ct))?;
    check!(v(&got) == ss0, "decapsulation", "after {:?}: the secret key does not recover the secret", c.chain);
    if v(&peer_pk.compress()) != v(&pk.compress()) {
        check!(peer_pk.identity() != pk.identity(), "identity", "two keys share an identity");
    }
    Ok(Outcome::when(!c.chain.is_empty())
        .label_if(c.chain.iter().any(|f| matches!(f, Form::Bincode | Form::Json)), "serialised")
        .label_if(c.clone_secret > 0, "secret cloned"))
}

// ---------------------------------------------------------------- S06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Texts {
    id: Hex,
    other: Hex,
    edits: Vec<Edit>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Set(u8, char),
    Insert(u8, char),
    Remove(u8),
    Truncate(u8),
    Append(String),
    Replace(String),
    /// base64 of these bytes
    Encoded(Hex),
    /// another way to write the identity
    Otherwise(u8),
}

fn texts() -> impl Strategy<Value = Texts> {
    let ch = || prop_oneof![4 => (33u8..127).prop_map(|c| c as char), 2 => select(vec!['=', '+', '/', '-', '_', ' ', '\n', '\0']), 1 => any::<char>()];
    let e = prop_oneof![
        3 => (any::<u8>(), ch()).prop_map(|(i, c)| Edit::Set(i, c)),
        2 => (any::<u8>(), ch()).prop_map(|(i, c)| Edit::Insert(i, c)),
        2 => any::<u8>().prop_map(Edit::Remove),
        2 => (0..50u8).prop_map(Edit::Truncate),
        1 => "[A-Za-z0-9+/=]{0,12}".prop_map(Edit::Append),
        2 => "[A-Za-z0-9+/]{0,60}={0,2}".prop_map(Edit::Replace),
        1 => any::<String>().prop_map(Edit::Replace),
        3 => gen::sized(vec![0, 31, 32, 33, 34, 64, 66], 100).prop_map(Edit::Encoded),
        2 => (0..OTHER_FORMS).prop_map(Edit::Otherwise),
    ];
    (gen::bytes(32), gen::bytes(32), vec(e, 0..4)).prop_map(|(id, other, edits)| Texts { id, other, edits })
}

const OTHER_FORMS: u8 = 16;

fn otherwise(id: &[u8], text: &str, how: u8) -> String {
    let full = [&[0], id].concat();
    match how {
        0 => hex::encode(id),
        1 => hex::encode(&full),
        2 => hex::encode(id).to_uppercase(),
        3 => base64::encode(id),
        4 => base64::encode_config(&full, base64::URL_SAFE),
        5 => base64::encode_config(id, base64::STANDARD_NO_PAD),
        6 => text.to_lowercase(),
        7 => text.to_uppercase(),
        8 => text.chars().rev().collect(),
        9 => format!("\"{text}\""),
        10 => format!("0x{}", hex::encode(id)),
        11 => format!("{text}{text}"),
        12 => format!("{text}\n"),
        13 => base64::encode([&full[..], &[0]].concat()),
        14 => text.trim_start_matches('A').to_string(),
        _ => text.chars().flat_map(|c| [c, ' ']).collect(),
    }
}

fn s06(c: &Texts) -> Verdict {
    let id: Identity = match no_panic("deserialise", || bincode::deserialize(&c.id))? {
        Ok(x) => x,
        Err(e) => fail!("binary", "32 bytes do not deserialise as an identity: {e}"),
    };
    check!(id.as_ref() == &c.id[..], "binary", "deserialising changed the identity");
    check!(bincode::serialize(&id).ok().as_ref() == Some(&c.id), "binary", "serialising changed the identity");
    let json: Result<Identity, _> = serde_json::from_str(&serde_json::to_string(&id).unwrap());
    check!(json.ok().as_ref() == Some(&id), "binary", "a JSON round trip changed the identity");
    let text = no_panic("display", || id.to_string())?;
    let back = no_panic("parse", || text.parse::<Identity>())?;
    check!(back.as_ref().ok() == Some(&id), "text-round-trip", "{text} parses to {back:?}");
    let other: Identity = bincode::deserialize(&c.other).unwrap();
    check!((other.to_string() == text) == (c.id == c.other), "text-collision", "{} and {} share a text", hex::encode(&*c.id), hex::encode(&*c.other));

    check!((other == id) == (c.id == c.other), "equality", "{} and {}: equal {}", hex::encode(&*c.id), hex::encode(&*c.other), other == id);
    for bit in 0..256 {
        let mut b = c.id.clone();
        b.0[bit / 8] ^= 1 << (bit % 8);
        let near: Identity = bincode::deserialize(&b).unwrap();
        check!(near != id, "equality", "{} equals itself with bit {bit} changed", hex::encode(&*c.id));
    }
    let hash = std::hash::BuildHasherDefault::<std::hash::DefaultHasher>::default();
    check!(std::hash::BuildHasher::hash_one(&hash, &id) == std::hash::BuildHasher::hash_one(&hash, back.as_ref().unwrap()), "equality", "{} and its copy hash differently", hex::encode(&*c.id));

    let mut chars: Vec<char> = text.chars().collect();
    for e in &c.edits {
        let n = chars.len();
        match e {
            Edit::Set(i, c) if n > 0 => chars[*i as usize % n] = *c,
            Edit::Insert(i, c) => chars.insert(*i as usize % (n + 1), *c),
            Edit::Remove(i) if n > 0 => {
                chars.remove(*i as usize % n);
            }
            Edit::Truncate(k) => chars.truncate(*k as usize),
            Edit::Append(s) => chars.extend(s.chars()),
            Edit::Replace(s) => chars = s.chars().collect(),
            Edit::Encoded(b) => chars = base64::encode(&**b).chars().collect(),
            Edit::Otherwise(how) => chars = otherwise(&c.id, &text, *how).chars().collect(),
            _ => {}
        }
    }
    let s: String = chars.into_iter().collect();
    match no_panic("parse", || s.parse::<Identity>())? {
        Ok(x) => {
            check!(x.to_string() == s, "bad-text-accepted", "{s:?} was accepted as {x}");
            Ok(Outcome::trivial().label("the text of an identity"))
        }
        Err(e) => {
            no_panic("display", || e.to_string())?;
            // what is the text of an identity must not be refused
            let plain = base64::decode(&s).ok().filter(|b| b.len() == 33 && b[0] == 0 && base64::encode(b) == s);
            check!(plain.is_none(), "good-text-refused", "{s:?} was refused: {e}");
            Ok(Outcome::ok().label_if(s.len() < 44, "short").label_if(s.len() > 44, "long").label_if(s.len() == 44, "of the right length").label_if(s.is_empty(), "empty"))
        }
    }
}

fn every_text_length() -> Vec<Texts> {
    (0..100usize)
        .flat_map(|n| {
            [Edit::Encoded(Hex(vec![0; n])), Edit::Encoded(Hex(gen::expand(n as u64, n))), Edit::Replace("A".repeat(n)), Edit::Truncate(n as u8)]
                .map(|e| Texts { id: Hex(gen::expand(9, 32)), other: Hex(vec![0; 32]), edits: vec![e] })
        })
        .collect()
}

// ---------------------------------------------------------------- S07

/// 32 bytes as an Edwards encoding
fn point() -> impl Strategy<Value = Hex> {
    let low = [
        "0100000000000000000000000000000000000000000000000000000000000000",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "0000000000000000000000000000000000000000000000000000000000000000",
        "0000000000000000000000000000000000000000000000000000000000000080",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        "0100000000000000000000000000000000000000000000000000000000000080",
    ];
    prop_oneof![
        4 => gen::bytes(32),
        2 => select(low.to_vec()).prop_map(|s| Hex(hex::decode(s).unwrap())),
        1 => gen::random(32).prop_map(|s| Hex(Ed::base().mul(refmodel::num::U256::le(&s[..])).encode().to_vec())),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    setup: Setup,
    message: u8,
    /// per component: leave it, or these bytes (repeated to the length)
    parts: Vec<Option<Hex>>,
    point: Option<Hex>,
}

fn raw() -> impl Strategy<Value = Raw> {
    let part = option::of(prop_oneof![gen::bytes(1200), gen::bytes(7), gen::bytes(1)]);
    (setup(), 0..4u8, vec(part, 5), option::of(point())).prop_map(|(setup, message, parts, point)| Raw { setup, message, parts, point })
}

/// Arbitrary bytes in place of a message.
fn s07_raw(c: &Raw) -> Verdict {
    let mut bad_first = false;
    let mut sent = Vec::new();
    let r = flow(&c.setup, &Cast::honest(&c.setup), &mut |n, m| {
        if n != c.message as usize {
            return;
        }
        let was = m.clone();
        for (x, p) in m.iter_mut().zip(&c.parts) {
            if let Some(b) = p {
                for (k, y) in x.iter_mut().enumerate() {
                    *y = b[k % b.len()];
                }
            }
        }
        let key = match n {
            0 => Some(0),
            1 => Some(2),
            _ => None,
        };
        if let (Some(k), Some(p)) = (key, &c.point) {
            m[k][..32].copy_from_slice(p);
        }
        bad_first = n == 0 && Ed::decode(&m[0][..32]).is_none();
        sent = m.clone();
        let _ = was;
    });
    let e = match r {
        Err(f) if bad_first && f.sig == "take0-panic" => fail!("take0-not-a-point", "the first message's key is no point of the curve: {}", f.what),
        r => r?,
    };
    let honest = flow(&c.setup, &Cast::honest(&c.setup), &mut |_, _| {})?.messages;
    let changed = honest.get(c.message as usize) != Some(&sent);
    check!(!changed || e.i.is_none() || e.r.is_none(), "garbage-accepted", "message {} was replaced and both sides completed", c.message);
    Ok(Outcome::when(changed).label(["message 0", "message 1", "message 2", "message 3"][c.message as usize]).label_if(bad_first, "not a point"))
}

/// A peer that follows the protocol with keys of its choosing.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
    setup: Setup,
    /// the hostile party responds
    responder: bool,
    ephemeral: Option<Hex>,
    /// its static key: a point and the lattice part
    static_point: Option<Hex>,
    lattice: Hex,
}

fn hostile() -> impl Strategy<Value = Hostile> {
    let s = setup().prop_map(|mut s| {
        s.sizes = 0;
        s.payloads = (0..4).map(|k| Hex(gen::expand(k, 16))).collect();
        s
    });
    (s, any::<bool>(), option::of(point()), option::of(point()), gen::bytes(1088)).prop_map(|(setup, responder, ephemeral, static_point, lattice)| Hostile {
        setup,
        responder,
        ephemeral,
        static_point,
        lattice,
    })
}

fn noise_start(identity: &[u8], e: &[u8]) -> refmodel::noise::Symmetric {
    let mut n = refmodel::noise::Symmetric::new(refmodel::H::Sha3_256, A::ChaChaPoly, model::NAME);
    n.mix_hash(identity);
    n.mix_hash(e);
    n
}

fn s07_hostile(c: &Hostile) -> Verdict {
    let s = &c.setup;
    let (i_s, r_s) = (model::Keys::gen(&s.i_static), model::Keys::gen(&s.r_static));
    let (i_e, r_e) = (model::Keys::gen(&s.i_eph), model::Keys::gen(&s.r_eph));
    if c.responder {
        // message 1 by the book, with the chosen points; the initiator is real
        let e_point: [u8; 32] = c.ephemeral.as_ref().map_or(r_e.e_pk, |p| p[..].try_into().unwrap());
        let e_bytes = [&e_point[..], &r_e.l_pk].concat();
        let s_bytes = match &c.static_point {
            Some(p) => [&p[..], &c.lattice].concat(),
            None => r_s.public(),
        };
        let id = sha3_256(&[&s_bytes]);
        let mut n = noise_start(&id, &i_e.public());
        let (ct, ss) = i_e.encaps(&s.r_ec);
        n.mix_key(&ss);
        let enc_p = n.encrypt(&s.payloads[0]);
        n.mix_hash(&e_bytes);
        let e_ok = Ed::decode(&e_point).is_some();
        // an initiator that goes on has this secret
        n.mix_key(&Ed::decode(&e_point).map_or([0; 32], |p| p.mul(i_e.e_sk).encode()));
        let enc_s = n.encrypt(&s_bytes);
        let (i_pk, i_sk) = flow::gen(&s.i_static);
        let (state, m0) = no_panic("out0", || xx::out0(Array::from_slice(&s.i_eph), &identity(&id)))?;
        check!(v(&m0) == i_e.public(), "message-bytes", "first message differs");
        type P = Array<rac::generic_array::typenum::U16>;
        let msg: xx::Message1<P> = (a(&[ct, enc_p].concat()), a(&e_bytes), a(&enc_s));
        let r = no_panic("take1", || {
            xx::take1_out2::<P, P, P>(&Concat(a(&s.i_ec), a(&s.i_sc)), state, &i_pk, &i_sk, msg, a(&s.payloads[1]), a(&s.payloads[2]))
                .map(|(_, pk, ..)| v(&pk.compress()))
                .map_err(|e| e.to_string())
        })?;
        let s_ok = Ed::decode(&s_bytes[..32]).is_some();
        match r {
            Ok(peer) => {
                check!(e_ok && s_ok, "invalid-point-accepted", "a key that is not a point was accepted (ephemeral valid: {e_ok}, static valid: {s_ok})");
                check!(sha3_256(&[&peer]) == id, "peer-key", "the learned key has not the dialed identity");
            }
            Err(e) => check!(!(e_ok && s_ok) || c.ephemeral.is_some() || c.static_point.is_some(), "honest-refused", "an honest reply was refused: {e}"),
        }
        Ok(Outcome::when(c.ephemeral.is_some() || c.static_point.is_some())
            .label("hostile responder")
            .label_if(!e_ok, "ephemeral not a point")
            .label_if(e_ok && !s_ok, "static not a point"))
    } else {
        let e_point: [u8; 32] = c.ephemeral.as_ref().map_or(i_e.e_pk, |p| p[..].try_into().unwrap());
        let e_bytes = [&e_point[..], &i_e.l_pk].concat();
        let e_ok = Ed::decode(&e_point).is_some();
        let s_bytes = match &c.static_point {
            Some(p) => [&p[..], &c.lattice].concat(),
            None => i_s.public(),
        };
        let s_ok = Ed::decode(&s_bytes[..32]).is_some();
        let (r_pk, r_sk) = flow::gen(&s.r_static);
        type P = Array<rac::generic_array::typenum::U16>;
        let r = no_panic("take0", || {
            xx::take0_out1::<P>(&Concat(a(&s.r_eph), a(&s.r_ec)), &r_pk.identity(), &r_pk, &r_sk, a(&e_bytes), a(&s.payloads[0]))
        });
        let (state, m1) = match r {
            Err(f) if !e_ok && f.sig == "take0-panic" => fail!("take0-not-a-point", "the first message's key is no point of the curve: {}", f.what),
            r => r?,
        };
        // follow, knowing everybody's secrets
        let mut n = noise_start(&r_s.identity(), &e_bytes);
        let (ct, ss) = i_e.encaps(&s.r_ec);
        n.mix_key(&ss);
        let enc_p = n.encrypt(&s.payloads[0]);
        check!(v(&m1.0) == [ct, enc_p].concat(), "message-bytes", "second message differs");
        n.mix_hash(&r_e.public());
        let point = Ed::decode(&e_point);
        let mul = |k| point.as_ref().map_or([0; 32], |p| p.mul(k).encode());
        n.mix_key(&mul(r_e.e_sk));
        n.encrypt(&r_s.public());
        n.mix_key(&mul(r_s.e_sk));
        let (ct0, ss) = r_e.encaps(&s.i_ec);
        n.mix_key(&ss);
        let enc_q = n.encrypt(&s.payloads[1]);
        let (ct1, ss) = r_s.encaps(&s.i_sc);
        n.mix_key(&ss);
        let enc_s = n.encrypt(&s_bytes);
        n.mix_key(&Ed::decode(&s_bytes[..32]).map_or([0; 32], |p| p.mul(r_e.e_sk).encode()));
        let enc_r = n.encrypt(&s.payloads[2]);
        let msg: xx::Message2<P, P> = (a(&[ct0, enc_q].concat()), a(&ct1), a(&[enc_s, enc_r].concat()));
        let r = no_panic("take2", || {
            xx::take2_out3::<P, P, P, TrivialRotor>(Array::from_slice(&s.r_sc), state, &r_pk, &r_sk, msg, a(&s.payloads[3]))
                .map(|(_, _, pk, ..)| v(&pk.compress()))
                .map_err(|e| e.to_string())
        })?;
        match r {
            Ok(_) => check!(e_ok && s_ok, "invalid-point-accepted", "a key that is not a point was accepted (ephemeral valid: {e_ok}, static valid: {s_ok})"),
            Err(e) => check!(!s_ok || c.ephemeral.is_some() || c.static_point.is_some(), "honest-refused", "an honest reply was refused: {e}"),
        }
        Ok(Outcome::when(c.ephemeral.is_some() || c.static_point.is_some())
            .label("hostile initiator")
            .label_if(!e_ok, "ephemeral not a point")
            .label_if(e_ok && !s_ok, "static not a point"))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Blob {
    bytes: Hex,
    point: Option<Hex>,
    cut: Option<u16>,
    /// the bytes are text
    json: bool,
}

fn blob() -> impl Strategy<Value = Blob> {
    let b = prop_oneof![3 => gen::bytes(1152), 1 => gen::sized(vec![0, 4, 36, 44, 1120, 1152], 1300)];
    (b, option::of(point()), option::weighted(0.2, any::<u16>()), any::<bool>()).prop_map(|(bytes, point, cut, json)| Blob { bytes, point, cut, json })
}

/// Serialised public keys, identities and commands.
fn s07_serde(c: &Blob) -> Verdict {
    let mut b = c.bytes.to_vec();
    if let Some(p) = &c.point {
        if b.len() >= 32 {
            b[..32].copy_from_slice(p);
        }
    }
    if let Some(n) = c.cut {
        b.truncate(n as usize);
    }
    let key = if c.json {
        let t = serde_json::to_string(&b).unwrap();
        no_panic("deserialise", || serde_json::from_str::<PublicKey>(&t).ok())?
    } else {
        no_panic("deserialise", || bincode::deserialize::<PublicKey>(&b).ok())?
    };
    let valid = b.len() >= 1152 && Ed::decode(&b[..32]).is_some();
    if let Some(k) = &key {
        check!(valid, "invalid-point-accepted", "a serialised key of {} bytes was accepted", b.len());
        check!(v(&k.lattice()) == b[32..1120], "key-changed", "deserialising changed the lattice part");
    } else {
        check!(!valid || b.len() != 1152, "good-key-refused", "a serialised key with a valid point was refused");
    }
    no_panic("deserialise", || bincode::deserialize::<Identity>(&b).is_ok())?;
    no_panic("deserialise", || bincode::deserialize::<Command<SocketAddr>>(&b).is_ok())?;
    if let Ok(s) = std::str::from_utf8(&b) {
        no_panic("deserialise", || serde_json::from_str::<Command<SocketAddr>>(s).is_ok())?;
    }
    Ok(Outcome::ok().label_if(key.is_some(), "accepted key").label_if(key.is_none() && b.len() == 1152, "refused key"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cmd {
    local: bool,
    peer: Hex,
    address: SocketAddr,
    text: Hex,
    flips: Vec<u32>,
    cut: Option<u16>,
}

fn cmd() -> impl Strategy<Value = Cmd> {
    (any::<bool>(), gen::bytes(32), any::<SocketAddr>(), gen::sized(vec![0, 100], 300), prop_oneof![Just(vec![]), gen::flips()], option::of(any::<u16>()))
        .prop_map(|(local, peer, address, text, flips, cut)| Cmd { local, peer, address, text, flips, cut })
}

/// Commands damaged on their way.
fn s07_command(c: &Cmd) -> Verdict {
    let id: Identity = bincode::deserialize(&c.peer).unwrap();
    let cmd = if c.local { Command::Local { destination: id.clone(), command: c.text.to_vec() } } else { Command::Connect { peer_pi: id.clone(), address: c.address } };
    let wire = no_panic("serialise", || bincode::serialize(&cmd).unwrap())?;
    let back = no_panic("deserialise", || bincode::deserialize::<Command<SocketAddr>>(&wire))?;
    let same = match &back {
        Ok(Command::Local { destination, command }) => c.local && *destination == id && *command == *c.text,
        Ok(Command::Connect { peer_pi, address }) => !c.local && *peer_pi == id && (address.ip(), address.port()) == (c.address.ip(), c.address.port()),
        Err(_) => false,
    };
    check!(same, "command-changed", "a command round trip gave {back:?}");
    let mut w = gen::flip(&wire, &c.flips);
    if let Some(n) = c.cut {
        w.truncate(n as usize % (w.len() + 1));
    }
    let r = no_panic("deserialise", || bincode::deserialize::<Command<SocketAddr>>(&w).is_ok())?;
    Ok(Outcome::when(w != wire).label_if(r, "still a command").label_if(!r, "refused"))
}

// ---------------------------------------------------------------- S08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    setup: Setup,
    /// (which seed, bit flips)
    changes: Vec<(u8, Vec<u32>)>,
    data: Hex,
}

fn two() -> impl Strategy<Value = Two> {
    (setup(), vec((0..6u8, gen::flips()), 0..3), gen::sized(vec![0, 32], 64)).prop_map(|(setup, changes, data)| Two { setup, changes, data })
}

fn s08(c: &Two) -> Verdict {
    let mut second = c.setup.clone();
    for (k, f) in &c.changes {
        let s = match k {
            0 => &mut second.i_eph,
            1 => &mut second.r_eph,
            2 => &mut second.r_ec,
            3 => &mut second.i_ec,
            4 => &mut second.i_sc,
            _ => &mut second.r_sc,
        };
        *s = Hex(gen::flip(s, f));
    }
    // seeds that differ only in bits the key does not depend on make the same key
    let same_key = |x: &Hex, y: &Hex| x == y || model::Keys::gen(x).public() == model::Keys::gen(y).public();
    let (p, q) = (&c.setup, &second);
    let same = same_key(&p.i_eph, &q.i_eph) && same_key(&p.r_eph, &q.r_eph) && [(&p.r_ec, &q.r_ec), (&p.i_ec, &q.i_ec), (&p.i_sc, &q.i_sc), (&p.r_sc, &q.r_sc)].iter().all(|(x, y)| x == y);
    let e1 = flow(p, &Cast::honest(p), &mut |_, _| {})?;
    let e2 = flow(q, &Cast::honest(q), &mut |_, _| {})?;
    check!((e1.messages == e2.messages) == same, "repeat", "seeds equal in effect: {same}, messages equal: {}", e1.messages == e2.messages);
    let (Some(i1), Some(mut r1), Some(i2), Some(mut r2)) = (e1.i, e1.r, e2.i, e2.r) else {
        fail!("honest-refused", "an honest handshake was refused");
    };
    check!((i1.hash == i2.hash) == same, "repeat", "seeds equal in effect: {same}, final hashes equal: {}", i1.hash == i2.hash);
    let (mut i1, mut i2) = (i1, i2);
    let w = seal(&mut i1.cipher, &[], &c.data);
    let x = seal(&mut r1.cipher, &[], &c.data);
    // its own messages, from the same counter
    check!(open(&mut i1.cipher, &[], &w).is_none(), "reflected", "the initiator accepts its own message");
    check!(open(&mut r1.cipher, &[], &x).is_none(), "reflected", "the responder accepts its own message");
    let cross_r = open(&mut r2.cipher, &[], &w);
    let cross_i = open(&mut i2.cipher, &[], &x);
    check!(cross_r.is_some() == same && cross_i.is_some() == same, "cross-session", "seeds equal in effect: {same}, messages accepted across sessions: {}, {}", cross_r.is_some(), cross_i.is_some());
    check!(open(&mut r1.cipher, &[], &w).as_ref() == Some(&c.data) && open(&mut i1.cipher, &[], &x).as_ref() == Some(&c.data), "transport", "a session refuses its own messages");
    Ok(Outcome::when(!same).label_if(same && !c.changes.is_empty(), "seeds differ without effect").label_if(same && c.changes.is_empty(), "repeated session"))
}

// ---------------------------------------------------------------- main

/// The reference on the run whose final hash the repository records.
fn self_test() {
    let bytes = |x: u8| -> Vec<u8> { (0..=255u8).map(|i| i ^ x).collect() };
    let (i, r) = (bytes(0), bytes(0xff));
    let s = model::Seeds {
        i_static: i[..96].to_vec(),
        i_eph: i[96..192].to_vec(),
        // the initiator's third and fourth part: static, then ephemeral encapsulation
        i_sc: i[192..224].to_vec(),
        i_ec: i[224..].to_vec(),
        r_static: r[..96].to_vec(),
        r_eph: r[96..192].to_vec(),
        r_sc: r[192..224].to_vec(),
        r_ec: r[224..].to_vec(),
    };
    let id = model::Keys::gen(&s.r_static).identity();
    let t = model::run(&s, &id, &[3; 16], &[0x13; 16], &[0x23; 16], &[0x33; 16]);
    assert_eq!(hex::encode(t.hash), "77316870c248ff7f6cb6ad95b473e46290f6945a97888892ae83dbe23fa7abe4", "reference handshake");
}

fn main() {
    self_test();
    let mut run = Run::from_env();
    run.assume("the SHA-3 and ChaCha20-Poly1305 crates are correct; equality of 256-bit values stands for dependence on all inputs");
    let quick = run.quick();
    match run.id.as_str() {
        "S01" => {
            run.rule("every case (a whole handshake between honest parties)");
            run.sub("busy", cases(60).thorough(2_000).shrink(60), busy, s01_busy);
            run.sub("honest", cases(12_000), honest, s01);
        }
        "S02" => {
            run.rule("the bytes of a message were changed on the way");
            run.each("bytes", every_byte(quick), s02);
            run.sub("altered", cases(20_000), altered, s02);
        }
        "S03" => {
            run.rule("every case in which the claimed and the real identity or secrets differ");
            run.sub("impostor", cases(30_000), impostor, s03);
        }
        "S04" => {
            run.rule("every case (all bytes of a handshake compared)");
            run.sub("transcript", cases(4_000), any_setup, s04);
        }
        "S05" => {
            run.rule("at least one change of representation");
            run.sub("forms", cases(16_000), forms, s05);
        }
        "S06" => {
            run.rule("a text that is not an identity's was parsed (after the round trips of the case's identity)");
            run.each("lengths", every_text_length(), s06);
            run.sub("texts", cases(2_000_000), texts, s06);
        }
        "S07" => {
            run.rule("raw: the message was changed; hostile: the peer chose a key; serialised: every case; command: the bytes were damaged");
            run.sub("raw", cases(8_000), raw, s07_raw);
            run.sub("hostile", cases(5_000), hostile, s07_hostile);
            run.sub("serialised", cases(40_000), blob, s07_serde);
            run.sub("command", cases(60_000), cmd, s07_command);
        }
        "S08" => {
            run.rule("the two sessions differ in a key or encapsulation seed");
            run.sub("two", cases(6_000), two, s08);
        }
        x => {
            eprintln!("no session check {x}");
            std::process::exit(2);
        }
    }
    run.finish()
}
