//! The published cacophony vectors for Curve25519 with SHA-2: an interpreter for the patterns.

use crate::dynamic::{Mode, Sym};
use refmodel::curves::x25519;
use refmodel::noise::Symmetric;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Msg {
    pub payload: String,
    pub ciphertext: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Vector {
    pub protocol_name: String,
    pub init_prologue: String,
    #[serde(default)]
    pub init_psks: Vec<String>,
    pub init_static: Option<String>,
    pub init_ephemeral: String,
    pub resp_static: Option<String>,
    pub resp_ephemeral: Option<String>,
    pub handshake_hash: String,
    pub messages: Vec<Msg>,
}

/// name, pre-message statics (i, r), messages
const PATTERNS: &[(&str, &str, &str)] = &[
    ("N", "r", "e es"),
    ("K", "ir", "e es ss"),
    ("X", "r", "e es s ss"),
    ("NN", "", "e; e ee"),
    ("NK", "r", "e es; e ee"),
    ("NX", "", "e; e ee s es"),
    ("XN", "", "e; e ee; s se"),
    ("XK", "r", "e es; e ee; s se"),
    ("XX", "", "e; e ee s es; s se"),
    ("KN", "i", "e; e ee se"),
    ("KK", "ir", "e es ss; e ee se"),
    ("KX", "i", "e; e ee se s es"),
    ("IN", "", "e s; e ee se"),
    ("IK", "r", "e es s ss; e ee se"),
    ("IX", "", "e s; e ee se s es"),
    ("NK1", "r", "e; e ee es"),
    ("NX1", "", "e; e ee s; es"),
    ("X1N", "", "e; e ee; s; se"),
    ("X1K", "r", "e es; e ee; s; se"),
    ("XK1", "r", "e; e ee es; s se"),
    ("X1K1", "r", "e; e ee es; s; se"),
    ("X1X", "", "e; e ee s es; s; se"),
    ("XX1", "", "e; e ee s; es s se"),
    ("X1X1", "", "e; e ee s; es s; se"),
    ("K1N", "i", "e; e ee; se"),
    ("K1K", "ir", "e es; e ee; se"),
    ("KK1", "ir", "e; e ee se es"),
    ("K1K1", "ir", "e; e ee es; se"),
    ("K1X", "i", "e; e ee s es; se"),
    ("KX1", "i", "e; e ee se s; es"),
    ("K1X1", "i", "e; e ee s; se es"),
    ("I1N", "", "e s; e ee; se"),
    ("I1K", "r", "e es s; e ee; se"),
    ("IK1", "r", "e s; e ee se es"),
    ("I1K1", "r", "e s; e ee es; se"),
    ("I1X", "", "e s; e ee s es; se"),
    ("IX1", "", "e s; e ee se s; es"),
    ("I1X1", "", "e s; e ee s; se es"),
];

/// The steps of one handshake, with all key agreement done: what both parties feed the state.
#[derive(Clone, Debug)]
pub enum Step {
    Hash(Vec<u8>),
    Key(Vec<u8>),
    Psk(Vec<u8>),
    /// sent in the clear without a key, encrypted with one
    Payload(Vec<u8>),
}

pub struct Plan {
    pub steps: Vec<Vec<Step>>,
    pub pre: Vec<Step>,
    pub one_way: bool,
}

fn un(s: &str) -> Vec<u8> {
    hex::decode(s).unwrap()
}

pub fn plan(v: &Vector) -> Plan {
    let full = v.protocol_name.split('_').nth(1).unwrap();
    let (base, psk) = match full.split_once("psk") {
        Some((b, n)) => (b, Some(n.parse::<usize>().unwrap())),
        None => (full, None),
    };
    let (_, pre, text) = PATTERNS.iter().find(|(n, ..)| *n == base).unwrap_or_else(|| panic!("pattern {base}"));
    let nine = { let mut b = [0; 32]; b[0] = 9; b };
    let public = |s: &[u8]| x25519(s, &nine).to_vec();
    let i_s = v.init_static.as_deref().map(un);
    let r_s = v.resp_static.as_deref().map(un);
    let i_e = un(&v.init_ephemeral);
    let r_e = v.resp_ephemeral.as_deref().map(un);
    let dh = |a: &[u8], b: &[u8]| x25519(a, &public(b)).to_vec();

    let mut p = vec![Step::Hash(un(&v.init_prologue))];
    if pre.contains('i') {
        p.push(Step::Hash(public(i_s.as_ref().unwrap())));
    }
    if pre.contains('r') {
        p.push(Step::Hash(public(r_s.as_ref().unwrap())));
    }
    let mut psks = v.init_psks.iter().map(|s| un(s));
    let mut steps = Vec::new();
    for (n, m) in text.split(';').enumerate() {
        let mut out = Vec::new();
        if psk == Some(0) && n == 0 {
            out.push(Step::Psk(psks.next().unwrap()));
        }
        let initiator = n % 2 == 0;
        for t in m.split_whitespace() {
            match t {
                "e" => {
                    let e = public(if initiator { &i_e } else { r_e.as_ref().unwrap() });
                    out.push(Step::Hash(e.clone()));
                    if psk.is_some() {
                        out.push(Step::Key(e));
                    }
                }
                "s" => out.push(Step::Payload(public(if initiator { i_s.as_ref().unwrap() } else { r_s.as_ref().unwrap() }))),
                "ee" => out.push(Step::Key(dh(&i_e, r_e.as_ref().unwrap()))),
                "es" => out.push(Step::Key(dh(&i_e, r_s.as_ref().unwrap()))),
                "se" => out.push(Step::Key(dh(i_s.as_ref().unwrap(), r_e.as_ref().unwrap()))),
                "ss" => out.push(Step::Key(dh(i_s.as_ref().unwrap(), r_s.as_ref().unwrap()))),
                _ => panic!("token {t}"),
            }
        }
        if psk == Some(n + 1) {
            out.push(Step::Psk(psks.next().unwrap()));
        }
        out.push(Step::Payload(un(&v.messages[n].payload)));
        steps.push(out);
    }
    Plan { steps, pre: p, one_way: base.len() == 1 }
}

/// The bytes each handshake message has on the wire, according to the reference.
pub fn reference(s: &mut Symmetric, plan: &Plan) -> Vec<Vec<u8>> {
    for x in &plan.pre {
        step_ref(s, x, &mut Vec::new());
    }
    plan.steps
        .iter()
        .map(|m| {
            let mut wire = Vec::new();
            let n = m.len();
            for (i, x) in m.iter().enumerate() {
                // an ephemeral key is sent as it is hashed
                if let (Step::Hash(e), true) = (x, i < n) {
                    wire.extend_from_slice(e);
                }
                step_ref(s, x, &mut wire);
            }
            wire
        })
        .collect()
}

fn step_ref(s: &mut Symmetric, x: &Step, wire: &mut Vec<u8>) {
    match x {
        Step::Hash(d) => s.mix_hash(d),
        Step::Key(d) => s.mix_key(d),
        Step::Psk(d) => s.mix_key_and_hash(d),
        Step::Payload(d) => wire.extend(s.encrypt(d)),
    }
}

/// The same with the crate, as sender of every message, and as a receiver beside it.
pub fn crate_run(mut a: Box<dyn Sym>, mut b: Box<dyn Sym>, plan: &Plan) -> Result<(Vec<Vec<u8>>, Box<dyn Sym>, Box<dyn Sym>), String> {
    let mut wires = Vec::new();
    let empty = vec![plan.pre.clone()];
    for (n, m) in empty.iter().chain(&plan.steps).enumerate() {
        let mut wire = Vec::new();
        for x in m {
            match x {
                Step::Hash(d) => {
                    if n > 0 {
                        wire.extend_from_slice(d);
                    }
                    a = a.mix_hash(d);
                    b = b.mix_hash(d);
                }
                Step::Key(d) => {
                    a = a.mix_key(d);
                    b = b.mix_key(d);
                }
                Step::Psk(d) => {
                    a = a.mix_psk(d);
                    b = b.mix_psk(d);
                }
                Step::Payload(d) => {
                    if a.keyed().is_some() {
                        let (x, c) = a.encrypt(d, if n % 2 == 0 { Mode::Ext } else { Mode::InPlace });
                        a = x;
                        let k = c.len() - 16;
                        match b.decrypt(&c[..k], &c[k..]) {
                            Ok((x, p)) => {
                                b = x;
                                if p != *d {
                                    return Err("payload changed".into());
                                }
                            }
                            Err(_) => return Err("honest ciphertext refused".into()),
                        }
                        wire.extend(c);
                    } else {
                        a = a.mix_hash(d);
                        b = b.mix_hash(d);
                        wire.extend_from_slice(d);
                    }
                }
            }
        }
        if n > 0 {
            wires.push(wire);
        }
    }
    Ok((wires, a, b))
}
