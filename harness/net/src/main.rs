//! U01..U03: the UDP node; T01: the TCP node; U04: both under signals;
//! U05: what either leaves behind.

mod leftover;
mod signals;
mod tcp;
mod udp;

use common::Run;
use rac::{Array, LineValid};
use std::sync::OnceLock;
use vru_session::handshake::{Identity, PublicKey, SecretKey};

/// The node's own key pair.
pub fn key() -> (PublicKey, SecretKey) {
    PublicKey::gen(&Array::clone_from_slice(&common::gen::expand(77, 96)))
}

/// Identities of six possible peers.
pub fn identity(i: usize) -> Identity {
    static T: OnceLock<Vec<Identity>> = OnceLock::new();
    T.get_or_init(|| (0..6).map(|i| PublicKey::gen(&Array::clone_from_slice(&common::gen::expand(1000 + i, 96))).0.identity()).collect())[i % 6].clone()
}

/// Identities of many possible peers.
pub fn stranger(i: usize) -> Identity {
    static T: OnceLock<Vec<Identity>> = OnceLock::new();
    T.get_or_init(|| (0..512).map(|i| PublicKey::gen(&Array::clone_from_slice(&common::gen::expand(5000 + i, 96))).0.identity()).collect())[i % 512].clone()
}

/// Threads of a node, as opposed to the check's own.
pub fn is_node_thread(t: &common::procs::Task) -> bool {
    !t.name.starts_with("chk-") || t.name == "chk-ends"
}

/// Every log line the nodes write is put together (and thrown away), as it is where a user has logging on.
struct Logger;

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        std::hint::black_box(record.args().to_string());
    }
    fn flush(&self) {}
}

fn main() {
    log::set_logger(&Logger).expect("no other logger");
    log::set_max_level(log::LevelFilter::Trace);
    let _ = <Array<rac::generic_array::typenum::U1> as LineValid>::clone_line;
    let mut run = Run::from_env();
    match run.id.clone().as_str() {
        "U01" => udp::u01(&mut run),
        "U02" => udp::u02(&mut run),
        "U03" => udp::u03(&mut run),
        "U04" => signals::u04(&mut run),
        "U05" => leftover::u05(&mut run),
        "T01" => tcp::t01(&mut run),
        id => panic!("unknown property {id}"),
    }
    run.finish()
}
